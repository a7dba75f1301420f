"""Builds the rustc driver and runs it over /repo/rust (type-check only, nothing is executed).

Facts are cached under /verif/.cache keyed by a hash of everything that can influence them; any change of
/repo's working tree changes the key and forces the workspace crates to be re-analysed.
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XI_REPO", "/repo")
SRC = f"{REPO}/rust"
CACHE = os.environ.get("XI_CACHE", f"{VERIF}/.cache")
DRIVER = f"{CACHE}/xi-facts"
LEFT_OUT = "syntect-plugin"
# crates every run must produce facts for (fail closed when one is missing)
CRATES = [
    "xi_unicode", "xi_rope", "xi_trace", "xi_rpc", "xi_core_lib", "xi_plugin_lib",
    "xi_lsp_lib", "xi_core-bin",
]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTUP_TOOLCHAIN="nightly", RUSTC_WRAPPER="", RUST_BACKTRACE="0", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def read(p):
    try:
        with open(p, encoding="utf-8") as f:
            return f.read()
    except FileNotFoundError:
        return None


def write(p, s):
    if read(p) != s:
        with open(p, "w", encoding="utf-8") as f:
            f.write(s)


def sources_hash():
    h = hashlib.sha256()
    skip_dirs = {"target", ".git", "node_modules"}
    for root, dirs, files in os.walk(SRC):
        dirs[:] = sorted(d for d in dirs if d not in skip_dirs)
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, SRC).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    with open(f"{VERIF}/driver/main.rs", "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:24]


def ensure_driver():
    src = f"{VERIF}/driver/main.rs"
    tag = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(DRIVER) and read(DRIVER + ".tag") == tag:
        return
    sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()
    r = subprocess.run(["rustc", "-O", "--edition", "2021", src, "-o", DRIVER + ".tmp", "-C",
                        f"link-arg=-Wl,-rpath,{sysroot}/lib", "-Awarnings"], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("driver does not build:\n" + r.stdout[-4000:])
    os.replace(DRIVER + ".tmp", DRIVER)
    write(DRIVER + ".tag", tag)


def layout():
    """The same workspace layout /opt/vp/prepare.py makes: /repo/rust without syntect-plugin and the git patches."""
    ws = f"{CACHE}/ws"
    os.makedirs(ws, exist_ok=True)
    m = read(f"{SRC}/Cargo.toml")
    m = re.sub(rf'(?m)^\s*"{LEFT_OUT}",?[ \t]*\n', "", m)
    head, patch, tail = m.partition("[patch.crates-io]")
    m = head + patch + re.sub(r"(?m)^onig(_sys)?\s*=\s*\{\s*git\b.*\n?", "", tail)
    write(f"{ws}/Cargo.toml", m)
    own = {"Cargo.toml", "Cargo.lock", "Cargo.lock.repo", "target"}
    wanted = set(os.listdir(SRC)) - own - {LEFT_OUT}
    for n in os.listdir(ws):
        p = f"{ws}/{n}"
        if n not in wanted and os.path.islink(p):
            os.unlink(p)
    for n in wanted:
        p = f"{ws}/{n}"
        if os.path.islink(p) and os.readlink(p) != f"{SRC}/{n}":
            os.unlink(p)
        if not os.path.islink(p):
            os.symlink(f"{SRC}/{n}", p)
    lock = read(f"{SRC}/Cargo.lock")
    if lock is not None and (read(f"{ws}/Cargo.lock.repo") != lock or read(f"{ws}/Cargo.lock") is None):
        write(f"{ws}/Cargo.lock", lock)
        write(f"{ws}/Cargo.lock.repo", lock)
    return ws


def workspace_packages():
    """Names of every package under /repo/rust."""
    names = set()
    for root, dirs, files in os.walk(SRC):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        if "Cargo.toml" in files:
            m = re.search(r'(?ms)^\[package\](.*?)(^\[|\Z)', read(f"{root}/Cargo.toml"))
            n = m and re.search(r'(?m)^\s*name\s*=\s*"([^"]+)"', m.group(1))
            if n:
                names.add(n.group(1))
    return names


def forget_workspace(target):
    """Drop cargo's freshness records of the workspace's own packages (old and new target layouts), so that every
    one of them is compiled again under the driver."""
    names = workspace_packages()
    if not names:
        raise BuildError("no packages found under " + SRC)
    for sub in (".fingerprint", "build"):
        d = f"{target}/debug/{sub}"
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n in names or re.sub(r"-[0-9a-f]{16}$", "", n) in names:
                    shutil.rmtree(f"{d}/{n}", ignore_errors=True)


def facts_dir():
    """Returns (dir with one JSON per crate, seconds spent, hash)."""
    t0 = time.time()
    os.makedirs(CACHE, exist_ok=True)
    with open(f"{CACHE}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = sources_hash()
        out = f"{CACHE}/facts/{h}"
        if os.path.exists(f"{out}/done"):
            return out, time.time() - t0, h
        ensure_driver()
        ws = layout()
        target = f"{CACHE}/target"
        forget_workspace(target)
        if os.path.isdir(f"{CACHE}/facts"):
            # keep the cache small: only the most recent few
            old = sorted((f"{CACHE}/facts/{d}" for d in os.listdir(f"{CACHE}/facts")), key=os.path.getmtime)
            for d in old[:-3]:
                shutil.rmtree(d, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        e = env()
        e.update(CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=DRIVER, XI_FACTS_DIR=tmp)
        r = subprocess.run(["cargo", "check", "--workspace", "--offline"], cwd=ws, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError("cargo check of /repo/rust failed:\n" + r.stdout[-4000:])
        missing = [c for c in CRATES if not os.path.exists(f"{tmp}/{c}.json")]
        if missing:
            raise BuildError(f"no facts for {missing}; have {sorted(os.listdir(tmp))}\n" + r.stdout[-2000:])
        open(f"{tmp}/done", "w").close()
        os.replace(tmp, out)
        return out, time.time() - t0, h


if __name__ == "__main__":
    d, s, h = facts_dir()
    print(d, f"{s:.1f}s", json.dumps({c: os.path.getsize(f"{d}/{c}") for c in sorted(os.listdir(d))}))
