// xi-facts: a rustc driver that dumps type-checked MIR facts of workspace crates as JSON.
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; nothing of the crate is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_hir_pretty;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    enums: std::collections::BTreeMap<String, String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    defs: Vec<String>,
    defmap: HashMap<DefId, usize>,
    files: Vec<String>,
    filemap: HashMap<String, usize>,
}

impl<'tcx> Dump<'tcx> {
    fn adt_path(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let krate = tcx.crate_name(did.krate);
        let mut s = krate.to_string();
        for d in &tcx.def_path(did).data {
            match d.data.get_opt_name() {
                Some(n) => { s.push_str("::"); s.push_str(n.as_str()); }
                None => { let _ = write!(s, "::{{{}}}", d.disambiguator); }
            }
        }
        s
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.adt_path(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.ty_head(*t)),
            ty::RawPtr(t, _) => format!("*{}", self.ty_head(*t)),
            ty::Slice(t) => format!("[{}]", self.ty_head(*t)),
            ty::Array(t, _) => format!("[{};_]", self.ty_head(*t)),
            ty::Closure(d, _) => self.name(*d),
            ty::FnDef(d, _) => self.name(*d),
            ty::Dynamic(preds, ..) => match preds.principal_def_id() {
                Some(d) => format!("dyn {}", self.adt_path(d)),
                None => "dyn".to_string(),
            },
            ty::Param(p) => p.name.to_string(),
            ty::Str => "str".into(),
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty_head(t)).collect::<Vec<_>>().join(",")),
            _ => rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)),
        }
    }

    // Human name: Type::method for inherent impls, <Type as Trait>::method for trait impls.
    fn name(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Closure | DefKind::AnonConst => {
                let parent = tcx.parent(did);
                let d = tcx.def_path(did).data.last().unwrap().disambiguator;
                return format!("{}::{{closure#{}}}", self.name(parent), d);
            }
            DefKind::AssocFn | DefKind::AssocConst { .. } | DefKind::AssocTy => {
                let parent = tcx.parent(did);
                if let DefKind::Impl { of_trait } = tcx.def_kind(parent) {
                    let self_ty = self.ty_head(tcx.type_of(parent).instantiate_identity().skip_norm_wip());
                    if of_trait {
                        let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip().def_id;
                        return format!("<{} as {}>::{}", self_ty, self.adt_path(tr), tcx.item_name(did));
                    }
                    return format!("{}::{}", self_ty, tcx.item_name(did));
                }
            }
            DefKind::Ctor(..) => {
                return self.name(tcx.parent(did));
            }
            _ => {}
        }
        let parent = tcx.opt_parent(did);
        if let (Some(p), Some(n)) = (parent, tcx.opt_item_name(did)) {
            // items nested in fns / impls
            return format!("{}::{}", self.name(p), n);
        }
        self.adt_path(did)
    }

    fn uid(&self, did: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(did.krate), self.tcx.def_path(did).to_string_no_crate_verbose())
    }

    fn def(&mut self, did: DefId) -> usize {
        if let Some(&i) = self.defmap.get(&did) {
            return i;
        }
        let tcx = self.tcx;
        let mut extra = String::new();
        if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(extra, ",\"trait\":{}", esc(&self.adt_path(tr)));
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(im) {
                let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().def_id;
                let _ = write!(extra, ",\"impl_trait\":{}", esc(&self.adt_path(tr)));
            }
        }
        let s = format!("{{\"id\":{},\"name\":{}{}}}", esc(&self.uid(did)), esc(&self.name(did)), extra);
        let i = self.defs.len();
        self.defs.push(s);
        self.defmap.insert(did, i);
        i
    }

    fn ga(&mut self, args: GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        if let ty::Alias(_, at) = t.kind() {
            if let ty::Opaque { def_id } = at.kind {
                let hidden = self.tcx.type_of(def_id).instantiate(self.tcx, at.args).skip_norm_wip();
                let i = self.ty(hidden);
                self.tymap.insert(t, i);
                return i;
            }
        }
        let s = match t.kind() {
            ty::Adt(a, args) => {
                let g = self.ga(args);
                if a.is_enum() && !a.did().is_local() {
                    let p = self.adt_path(a.did());
                    let vs: Vec<String> = a.discriminants(self.tcx).map(|(i, d)| format!("[{},{}]", d.val, esc(a.variant(i).name.as_str()))).collect();
                    self.enums.insert(p, vs.join(","));
                }
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":{}}}", esc(&self.adt_path(a.did())), g)
            }
            ty::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut() as u8, self.ty(*t)),
            ty::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut() as u8, self.ty(*t)),
            ty::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(*t)),
            ty::Array(t, _) => format!("{{\"k\":\"array\",\"t\":{}}}", self.ty(*t)),
            ty::Str => "{\"k\":\"str\"}".to_string(),
            ty::Closure(d, args) => {
                let up: Vec<String> = args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()).collect();
                let d = self.def(*d);
                format!("{{\"k\":\"closure\",\"d\":{},\"u\":[{}]}}", d, up.join(","))
            }
            ty::FnDef(d, args) => {
                let g = self.ga(args.skip_binder());
                let d = self.def(*d);
                format!("{{\"k\":\"fndef\",\"d\":{},\"a\":{}}}", d, g)
            }
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{},\"i\":{}}}", esc(p.name.as_str()), p.index),
            ty::Dynamic(preds, ..) => {
                let n = match preds.principal_def_id() { Some(d) => self.adt_path(d), None => String::new() };
                format!("{{\"k\":\"dyn\",\"n\":{}}}", esc(&n))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":[{}]}}", v.join(","))
            }
            ty::Never => "{\"k\":\"never\"}".to_string(),
            ty::FnPtr(..) => "{\"k\":\"fnptr\"}".to_string(),
            _ => format!(
                "{{\"k\":\"p\",\"n\":{}}}",
                esc(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)))
            ),
        };
        let i = self.types.len();
        self.types.push(s);
        self.tymap.insert(t, i);
        i
    }

    fn line(&mut self, sp: Span) -> (usize, usize) {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        let n = self.files.len();
        let fi = *self.filemap.entry(f.clone()).or_insert(n);
        if fi == n {
            self.files.push(f);
        }
        (fi, loc.line)
    }

    fn macros(&self, sp: Span) -> String {
        let mut v = vec![];
        for e in sp.macro_backtrace() {
            v.push(esc(&e.kind.descr().to_string()));
        }
        format!("[{}]", v.join(","))
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        if p.projection.is_empty() {
            return format!("[{}]", p.local.as_usize());
        }
        let mut s = format!("[{}", p.local.as_usize());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => s.push_str(",\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = String::new();
                    let mut owner = String::new();
                    match pty.ty.kind() {
                        ty::Adt(a, _) => {
                            owner = self.adt_path(a.did());
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if vi.as_usize() < a.variants().len() {
                                let v = a.variant(vi);
                                if f.as_usize() < v.fields.len() {
                                    name = v.fields[f].name.to_string();
                                }
                                if a.is_enum() {
                                    owner = format!("{}::{}", owner, v.name);
                                }
                            }
                        }
                        ty::Closure(d, _) => {
                            owner = self.name(*d);
                            if let Some(l) = d.as_local() {
                                let caps: Vec<_> = self.tcx.closure_captures(l).iter().map(|c| c.to_symbol().to_string()).collect();
                                if f.as_usize() < caps.len() {
                                    name = caps[f.as_usize()].clone();
                                }
                            }
                        }
                        _ => {}
                    }
                    let _ = write!(s, ",[\"f\",{},{},{}]", f.as_usize(), esc(&name), esc(&owner));
                }
                ProjectionElem::Index(l) => { let _ = write!(s, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(s, ",[\"ci\",{},{}]", offset, from_end as u8); }
                ProjectionElem::Subslice { .. } => s.push_str(",[\"ss\"]"),
                ProjectionElem::Downcast(n, vi) => {
                    let nm = match n { Some(n) => n.to_string(), None => match pty.ty.kind() { ty::Adt(a, _) => a.variant(vi).name.to_string(), _ => vi.as_usize().to_string() } };
                    let _ = write!(s, ",[\"d\",{},{}]", vi.as_usize(), esc(&nm));
                }
                _ => s.push_str(",[\"o\"]"),
            }
            pty = pty.projection_ty(self.tcx, el);
        }
        s.push(']');
        s
    }

    fn constant(&mut self, c: &Const<'tcx>, body_did: DefId, sp: Span) -> String {
        let tcx = self.tcx;
        let t = c.ty();
        let ti = self.ty(t);
        let env = TypingEnv::post_analysis(tcx, body_did);
        let mut v = "null".to_string();
        match t.kind() {
            ty::FnDef(..) => {}
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(b) = c.try_eval_bits(tcx, env) {
                    v = match t.kind() {
                        ty::Bool => format!("{}", b != 0),
                        ty::Char => esc(&char::from_u32(b as u32).map(|c| c.to_string()).unwrap_or_default()),
                        ty::Int(_) => {
                            let size = tcx.layout_of(env.as_query_input(t)).unwrap().size;
                            format!("{}", size.sign_extend(b) as i128)
                        }
                        _ => format!("{}", b),
                    };
                }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Ok(cv) = c.eval(tcx, env, sp) {
                    if let Some(bytes) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        v = esc(&String::from_utf8_lossy(bytes));
                    }
                }
            }
            _ => {}
        }
        // the number inside a constant of a type that wraps one, such as WatchToken(1)
        let mut num = "null".to_string();
        if t.is_adt() && !t.is_enum() {
            if let Some(s) = c.try_eval_scalar_int(tcx, env) {
                num = format!("{}", s.to_bits(s.size()));
            }
        }
        let mut nm = "null".to_string();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                nm = esc(&self.name(u.def));
            } else {
                nm = format!("{}", u.promoted.unwrap().as_usize());
            }
        }
        if num != "null" {
            return format!("[\"c\",{},{},{},{}]", ti, v, nm, num);
        }
        format!("[\"c\",{},{},{}]", ti, v, nm)
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, did: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"p\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => self.constant(&c.const_, did, c.span),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, did: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, body, did)),
            Rvalue::Repeat(o, _) => format!("[\"rep\",{}]", self.operand(o, body, did)),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", matches!(bk, BorrowKind::Mut { .. }) as u8, self.place(p, body)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, body, did);
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), o, t)
            }
            Rvalue::BinaryOp(op, b) => {
                let x = self.operand(&b.0, body, did);
                let y = self.operand(&b.1, body, did);
                format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), x, y)
            }
            Rvalue::UnaryOp(op, a) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(a, body, did)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), t)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"p\",{}]]", self.place(p, body)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(p, body)),
            Rvalue::Aggregate(k, ops) => {
                let k = match &**k {
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let fs: Vec<String> = v.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!("[\"adt\",{},{},[{}]]", esc(&self.adt_path(*d)), esc(v.name.as_str()), fs.join(","))
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", self.def(*d)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Array(_) => "[\"array\"]".into(),
                    _ => "[\"other\"]".into(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o, body, did)).collect();
                format!("[\"agg\",{},[{}]]", k, v.join(","))
            }
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>, promoted: Option<usize>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, did);
        let (file, line) = self.line(body.span);
        let d = self.def(did);
        let mut s = format!("{{\"d\":{},\"file\":{},\"line\":{},\"argc\":{}", d, file, line, body.arg_count);
        if let Some(p) = promoted {
            let _ = write!(s, ",\"promoted\":{}", p);
        }
        let kind = format!("{:?}", tcx.def_kind(did));
        let _ = write!(s, ",\"kind\":{}", esc(&kind));
        // generics (own+parent), by index
        let g = tcx.generics_of(did);
        let mut names = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if let ty::GenericParamDefKind::Type { .. } = p.kind {
                names.push(format!("[{},{}]", p.index, esc(p.name.as_str())));
            }
        }
        let _ = write!(s, ",\"generics\":[{}]", names.join(","));
        if matches!(tcx.def_kind(did), DefKind::Closure) {
            let p = tcx.typeck_root_def_id(did);
            let pd = self.def(tcx.parent(did));
            let rd = self.def(p);
            let _ = write!(s, ",\"parent\":{},\"root\":{}", pd, rd);
        }
        if let Some(im) = tcx.impl_of_assoc(did) {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(im) {
                if rustc_middle::ty::TyCtxt::is_automatically_derived(tcx, im) {
                    s.push_str(",\"derived\":1");
                }
            }
        }
        if tcx.def_kind(did).is_fn_like() && !matches!(tcx.def_kind(did), DefKind::Closure) {
            let vis = tcx.visibility(did);
            let _ = write!(s, ",\"pub\":{}", vis.is_public() as u8);
            if tcx.fn_sig(did).skip_binder().safety().is_unsafe() {
                s.push_str(",\"unsafe\":1");
            }
        }
        let locals: Vec<String> = body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let _ = write!(s, ",\"locals\":[{}]", locals.join(","));
        let mut dbg = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let p = self.place(p, body);
                dbg.push(format!("[{},{}]", esc(v.name.as_str()), p));
            }
        }
        let _ = write!(s, ",\"dbg\":[{}]", dbg.join(","));
        s.push_str(",\"blocks\":[");
        for (bi, bb) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"c\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for st in &bb.statements {
                let (f, ln) = self.line(st.source_info.span);
                let x = match &st.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(&b.0, body);
                        let r = self.rvalue(&b.1, body, did);
                        format!("[\"=\",{},{},{}]", p, r, ln)
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place, body);
                        format!("[\"sd\",{},{},{}]", p, variant_index.as_usize(), ln)
                    }
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
                    _ => continue,
                };
                let _ = f;
                if !first {
                    s.push(',');
                }
                first = false;
                s.push_str(&x);
            }
            s.push_str("],\"t\":");
            let t = bb.terminator();
            let (_, ln) = self.line(t.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => b.as_usize().to_string(),
                _ => "null".to_string(),
            };
            let x = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(discr, body, did);
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                    format!("[\"switch\",{},[{}],{},{}]", o, v.join(","), targets.otherwise().as_usize(), ln)
                }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let ti = self.ty(pt);
                    let p = self.place(place, body);
                    format!("[\"drop\",{},{},{},{},{}]", p, ti, target.as_usize(), unw(unwind), ln)
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, body, did);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let a = self.operand(len, body, did);
                            let b = self.operand(index, body, did);
                            format!("[\"bounds\",{},{}]", a, b)
                        }
                        AssertKind::Overflow(op, ..) => format!("[\"overflow\",{}]", esc(&format!("{:?}", op))),
                        AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "[\"divzero\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{},{}]", c, *expected as u8, m, target.as_usize(), unw(unwind), ln)
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let mut f = "null".to_string();
                    if let Some((fd, fargs)) = func.const_fn_def() {
                        let ga = self.ga(fargs);
                        let fi = self.def(fd);
                        f = format!("{{\"d\":{},\"a\":{}", fi, ga);
                        let erased = tcx.erase_and_anonymize_regions(fargs);
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, fd, erased) {
                            let k = match inst.def {
                                InstanceKind::Item(_) => "item",
                                InstanceKind::Virtual(..) => "virtual",
                                InstanceKind::Intrinsic(_) => "intrinsic",
                                InstanceKind::Shim(_) => "shim",
                                _ => "other",
                            };
                            let rd = self.def(inst.def_id());
                            let ra = self.ga(inst.args);
                            let _ = write!(f, ",\"r\":{},\"ra\":{},\"rk\":\"{}\"", rd, ra, k);
                        }
                        f.push('}');
                    } else {
                        let o = self.operand(func, body, did);
                        f = format!("{{\"op\":{}}}", o);
                    }
                    let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, did)).collect();
                    let dst = self.place(destination, body);
                    let tgt = match target { Some(t) => t.as_usize().to_string(), None => "null".into() };
                    let mac = self.macros(*fn_span);
                    format!("[\"call\",{},[{}],{},{},{},{},{}]", f, a.join(","), dst, tgt, unw(unwind), ln, mac)
                }
                _ => "[\"other\"]".to_string(),
            };
            s.push_str(&x);
            s.push('}');
        }
        s.push_str("]}");
        s
    }

    fn attrs(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let mut v = vec![];
        if let Some(l) = did.as_local() {
            let hid = tcx.local_def_id_to_hir_id(l);
            for a in tcx.hir_attrs(hid) {
                if let rustc_attr_ir::Attribute::DeriveHelper(item) = a {
                    let snip = tcx.sess.source_map().span_to_snippet(item.span).unwrap_or_default();
                    v.push(esc(&snip));
                }
            }
        }
        format!("[{}]", v.join(","))
    }
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out_dir = match std::env::var("XI_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        let mut d = Dump {
            tcx,
            types: vec![],
            enums: Default::default(),
            tymap: HashMap::new(),
            defs: vec![],
            defmap: HashMap::new(),
            files: vec![],
            filemap: HashMap::new(),
        };
        let mut bodies = vec![];
        for l in tcx.mir_keys(()) {
            let did = l.to_def_id();
            let kind = tcx.def_kind(did);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(did);
                    let s = d.body(did, b, None);
                    bodies.push(s);
                    let pr = tcx.promoted_mir(did);
                    for (i, p) in pr.iter_enumerated() {
                        let s = d.body(did, p, Some(i.as_usize()));
                        bodies.push(s);
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let b = tcx.mir_for_ctfe(did);
                    let s = d.body(did, b, None);
                    bodies.push(s);
                    let pr = tcx.promoted_mir(did);
                    for (i, p) in pr.iter_enumerated() {
                        let s = d.body(did, p, Some(i.as_usize()));
                        bodies.push(s);
                    }
                }
                _ => {}
            }
        }
        // ADTs, impls, traits, unsafe blocks
        let mut adts = vec![];
        let mut impls = vec![];
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let (f, ln) = d.line(tcx.def_span(did));
                    let mut vs = vec![];
                    for v in a.variants() {
                        let mut fs = vec![];
                        for fl in &v.fields {
                            let t = tcx.type_of(fl.did).instantiate_identity().skip_norm_wip();
                            let ti = d.ty(t);
                            let vis = match fl.vis { ty::Visibility::Public => "pub".to_string(), ty::Visibility::Restricted(m) => d.adt_path(m.to_def_id()) };
                            fs.push(format!("[{},{},{},{}]", esc(fl.name.as_str()), ti, esc(&vis), d.attrs(fl.did)));
                        }
                        let va = if a.is_enum() { d.attrs(v.def_id) } else { "[]".into() };
                        let ck = match v.ctor_kind() { None => "named", Some(rustc_hir::def::CtorKind::Fn) => "tuple", Some(rustc_hir::def::CtorKind::Const) => "unit" };
                        vs.push(format!("{{\"n\":{},\"k\":\"{}\",\"f\":[{}],\"attrs\":{}}}", esc(v.name.as_str()), ck, fs.join(","), va));
                    }
                    let k = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
                    adts.push(format!("{{\"n\":{},\"k\":\"{}\",\"file\":{},\"line\":{},\"attrs\":{},\"v\":[{}]}}", esc(&d.adt_path(did)), k, f, ln, d.attrs(did), vs.join(",")));
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let sti = d.ty(st);
                    let tr = if of_trait { esc(&d.adt_path(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip().def_id)) } else { "null".into() };
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if let ty::AssocKind::Fn { .. } = it.kind {
                            let x = d.def(it.def_id);
                            items.push(format!("[{},{}]", esc(it.name().as_str()), x));
                        }
                    }
                    let der = tcx.is_automatically_derived(did) as u8;
                    let uns = if of_trait { tcx.impl_trait_header(did).safety.is_unsafe() as u8 } else { 0 };
                    let head = d.ty_head(st);
                    impls.push(format!("{{\"self\":{},\"head\":{},\"trait\":{},\"derived\":{},\"unsafe\":{},\"items\":[{}]}}", sti, esc(&head), tr, der, uns, items.join(",")));
                }
                DefKind::Trait => {
                    let mut items = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        if let ty::AssocKind::Fn { .. } = it.kind {
                            let x = d.def(it.def_id);
                            items.push(format!("[{},{},{}]", esc(it.name().as_str()), x, it.defaultness(tcx).has_value() as u8));
                        }
                    }
                    traits.push(format!("{{\"n\":{},\"items\":[{}]}}", esc(&d.adt_path(did)), items.join(",")));
                }
                _ => {}
            }
        }
        // unsafe blocks
        let mut uns = vec![];
        struct V<'a, 'tcx> { tcx: TyCtxt<'tcx>, out: &'a mut Vec<Span> }
        impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'a, 'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(_) = b.rules { self.out.push(b.span); }
                rustc_hir::intravisit::walk_block(self, b);
            }
        }
        let mut sp = vec![];
        { let mut v = V { tcx, out: &mut sp }; tcx.hir_walk_toplevel_module(&mut v); }
        for s in sp { let (f, l) = d.line(s); let m = d.macros(s); uns.push(format!("[{},{},{}]", f, l, m)); }
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let kinds: Vec<String> = tcx.crate_types().iter().map(|c| esc(&format!("{:?}", c))).collect();
        let files: Vec<String> = d.files.iter().map(|f| esc(f)).collect();
        let s = format!(
            "{{\"crate\":{},\"kinds\":[{}],\"files\":[{}],\"types\":[{}],\"defs\":[{}],\"bodies\":[{}],\"adts\":[{}],\"impls\":[{}],\"traits\":[{}],\"unsafe\":[{}],\"enums\":[{}]}}",
            esc(&krate), kinds.join(","), files.join(","), d.types.join(","), d.defs.join(","), bodies.join(",\n"), adts.join(",\n"), impls.join(",\n"), traits.join(","), uns.join(","),
            d.enums.iter().map(|(n, v)| format!("[{},[{}]]", esc(n), v)).collect::<Vec<_>>().join(",")
        );
        let bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
        let path = format!("{}/{}{}.json", out_dir, krate, if bin { "-bin" } else { "" });
        std::fs::write(&path, s).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc path.
    args.remove(1);
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    if !is_build_script {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zalways-encode-mir=no".into());
        args.push("-Awarnings".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
