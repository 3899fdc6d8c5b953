"""Development helper (no check uses it): plants the changes of defs.py in a scratch copy, confirms them, writes /verif/seeded/<id>/ and runs the checks on the copy.
usage: make.py ID... | make.py --check ID... (only run checks on the copy)"""
import os, sys, subprocess, json, shutil, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE))
W = os.environ.get("SEED_W", "/tmp/w")
sys.path.insert(0, HERE)
import defs
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.78.0", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
def run(cmd, cwd=W, env=ENV, t=900):
    r = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout
def build(): return run("cargo test --workspace --features rewards/test-sbf --no-run --offline --locked")
def test():
    rc, o = run("cargo test --workspace --features rewards/test-sbf --lib --bins --test create --no-fail-fast --offline --locked -- --test-threads 8")
    return rc, o
DEMO = open(os.path.join(HERE, "demo.sh")).read()
def clean(): run("git checkout -q -- .")
def apply(edits):
    for f, pairs in edits.items():
        p = os.path.join(W, f); s = open(p).read()
        for a, b in pairs:
            assert s.count(a) == 1, (f, s.count(a), a)
            s = s.replace(a, b)
        open(p, "w").write(s)
def checks(prop, all_=False):
    env = dict(os.environ, VERIF_REPO=W)
    out = []
    props = [prop] if not all_ else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    for p in props:
        rc, o = run(["python3", V + "/check.py", p], cwd=V, env=env)
        out.append((p, rc, [l for l in o.splitlines() if l.startswith(("VIOLATION", "UNDECIDED"))][:3]))
    return out
def main():
    args = sys.argv[1:]; only = "--check" in args; all_ = "--all" in args; ids = [a for a in args if not a.startswith("--")]
    if not os.path.exists(W): subprocess.run(["cp", "-a", "/repo", W], check=True)
    for i in ids or list(defs.SEEDS):
        s = defs.SEEDS[i]; clean(); h = run("git rev-parse HEAD", cwd="/repo")[1]; run("git fetch -q /repo && git reset -q --hard " + h.strip())
        d = os.path.join(V, "seeded", i)
        if not only:
            os.makedirs(d, exist_ok=True)
            if s.get("main"):
                kind = s.get("kind")
                if kind == "js":
                    open(d + "/main.js", "w").write("const { client, S, pk, signer, context, check } = require('./js.js');\n" + s["main"].strip() + "\n")
                    shutil.copy(V + "/tools/native/js.js", d + "/js.js")
                    open(d + "/demo.sh", "w").write(open(os.path.join(HERE, "jsdemo.sh")).read())
                else:
                    open(d + "/main.rs", "w").write('include!("h.rs");\n' + s["main"].strip() + "\n")
                    shutil.copy(V + "/tools/native/h.rs", d + "/h.rs")
                    open(d + "/demo.sh", "w").write(open(os.path.join(HERE, "clientdemo.sh")).read() if kind == "client" else DEMO)
            for n, t in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
            os.chmod(d + "/demo.sh", 0o755)
            rc, o = build()
            if rc: print(i, "BASE BUILD FAILED", o[-2000:]); continue
            rc0, o0 = run(["bash", d + "/demo.sh"])
        apply(s["edits"])
        if not only:
            rc, o = build()
            if rc: print(i, "BUILD FAILED", o[-2500:]); clean(); continue
            rct, ot = test()
            rc1, o1 = run(["bash", d + "/demo.sh"])
            open(d + "/patch.diff", "w").write(run("git diff")[1])
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            ok = rc0 == 0 and rc1 not in (0,) and rct == 0
            print(i, "OK" if ok else "BAD", "demo unchanged", rc0, "patched", rc1, "tests", rct, "|", o1.strip()[-160:], flush=True)
            if rc0: print("   ", o0[-1500:])
        for p, rc, l in checks(s["property"], all_):
            if not all_ or rc: print("   check", p, "exit", rc, l[:2], flush=True)
        clean()
main()
