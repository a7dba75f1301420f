"""Builds and confirms a planted bug: python3 seedkit/seed.py ID  (reads seedkit/bugs/ID.py)

bugs/ID.py defines PROP, CRATE, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (text of an integration test).
Confirms in a scratch copy: the change compiles, the stable tests pass, the demo passes without it and fails with it.
Writes seeded/ID/."""
import json, os, re, shutil, subprocess, sys, importlib.util
VERIF = "/verif"
S = "/tmp/seed"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def prepare():
    os.makedirs(S, exist_ok=True)
    sh(f"rm -rf {S}/repo && git clone -q /repo {S}/repo")
    if not os.path.exists(f"{S}/prepare.py"):
        t = open("/opt/vp/prepare.py").read().replace("/repo/rust", f"{S}/repo/rust").replace("/opt/vp/ws", f"{S}/ws")
        open(f"{S}/prepare.py", "w").write(t)
    sh(f"python3 {S}/prepare.py")
    env = open("/opt/vp/env.sh").read().replace("/opt/vp/target", f"{S}/target")
    open(f"{S}/env.sh", "w").write(env)


def main(i, full=True):
    spec = importlib.util.spec_from_file_location("bug", f"{VERIF}/seedkit/bugs/{i}.py")
    b = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(b)
    prepare()
    out = f"{VERIF}/seeded/{i}"
    sh(f"rm -rf {out}")
    os.makedirs(out)
    demo = b.DEMO
    if getattr(b, "HARNESS", False):
        demo = open(f"{VERIF}/seedkit/harness.rs").read() + demo
    open(f"{out}/demo.rs", "w").write(demo)
    open(f"{out}/crate", "w").write(b.CRATE + "\n")
    shutil.copy(f"{VERIF}/seedkit/demo.sh", f"{out}/demo.sh")
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": b.PROP, "needs": b.NEEDS, "what_it_breaks": b.BREAKS}, open(f"{out}/meta.json", "w"), indent=1)
    r0 = sh(f"bash {out}/demo.sh", cwd=f"{S}/repo")
    print("demo clean:", r0.returncode)
    if r0.returncode:
        print(r0.stdout[-1200:]); return 1
    for f, old, new in b.EDITS:
        p = f"{S}/repo/rust/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = sh("git diff", cwd=f"{S}/repo").stdout
    open(f"{out}/patch.diff", "w").write(d)
    r1 = sh(f"bash {out}/demo.sh", cwd=f"{S}/repo")
    print("demo patched:", r1.returncode)
    if r1.returncode in (0, 3):
        print(r1.stdout[-1200:]); return 1
    print("   ", [l for l in r1.stdout.splitlines() if "panicked" in l or "FAILED" in l][:4])
    t = sh(f". {S}/env.sh; cd {S}/ws && timeout 700 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > {S}/test.log 2>&1; "
           f"python3 /opt/vp/results.py {S}/out.json cargo:{S}/test.log")
    res = json.load(open(f"{S}/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base if isinstance(base, list) else base.get("passed", base.get("stable"))
    miss = [n for n in names if n not in res["passed"] and not n.startswith("xi_plugin")]
    miss = [n for n in miss if ".py" not in n]
    print("stable tests missing:", len(miss), miss[:6], "passed", len(res["passed"]))
    return 1 if miss else 0


if __name__ == "__main__":
    rc = 0
    for i in sys.argv[1:]:
        print("==", i)
        r = main(i)
        rc |= r
        if r:
            print("!! NOT CONFIRMED", i)
    sys.exit(rc)
