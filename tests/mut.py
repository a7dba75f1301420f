"""Regression of the checks themselves: textual mutants (expected: VIOLATION) and neutral edits (expected: quiet),
applied to a scratch copy of /repo.  python3 tests/mut.py [-n] [name-prefix...]"""
import os, shutil, subprocess, sys, glob, importlib.util
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUT_DIR", "/tmp/xi-mut")
REPO, CACHE = f"{W}/repo", f"{W}/cache"

def sync():
    os.makedirs(W, exist_ok=True)
    subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", REPO + "/"]) if shutil.which("rsync") else \
        (shutil.rmtree(REPO, ignore_errors=True), subprocess.check_call(f"mkdir -p {REPO} && cd /repo && git ls-files | tar cf - -T - | tar xf - -C {REPO}", shell=True))
    if not os.path.exists(CACHE):
        shutil.copytree(f"{VERIF}/.cache", CACHE, symlinks=True)

def run(prop):
    e = dict(os.environ, XI_REPO=REPO, XI_CACHE=CACHE)
    return subprocess.run([sys.executable, "-m", "xs.run", prop, "--no-evidence"], cwd=VERIF, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    sys.path.insert(0, VERIF)
    from tests import mutants
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    verbose = "-v" in sys.argv
    sync()
    bad = 0
    for m in mutants.M:
        name, props, file, old, new, expect = m
        if args and not any(name.startswith(a) for a in args):
            continue
        path = f"{REPO}/rust/{file}"
        s = open(path).read()
        edits = [(old, new)] if isinstance(old, str) else old
        t = s
        ok = True
        for o, n in edits:
            if o not in t:
                print(f"{name}: NOT APPLICABLE: {o[:60]!r}"); bad += 1; ok = False
                break
            t = t.replace(o, n, 1)
        if not ok: continue
        open(path, "w").write(t)
        try:
            for prop in props.split(","):
                r = run(prop)
                got = {0: "quiet", 1: "VIOLATION"}.get(r.returncode, f"rc{r.returncode}")
                want = "VIOLATION" if expect else "quiet"
                flag = "" if got == want else "   <<<<<<<<"
                if got != want: bad += 1
                print(f"{name} {prop}: {got}{flag}", flush=True)
                if got != want or verbose:
                    print("   " + "\n   ".join(r.stdout.strip().splitlines()[-12:]))
        finally:
            open(path, "w").write(s)
    print("unexpected:", bad)
    return 1 if bad else 0
if __name__ == "__main__":
    sys.exit(main())
