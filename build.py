"""Builds the MIR dump driver and dumps /repo's current working tree (offline, nothing written inside /repo)."""
import os, sys, subprocess, hashlib, fcntl, json, shutil, glob
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(HERE, "build") if REPO == "/repo" else os.environ.get("VERIF_BUILD", os.path.join("/tmp", "verif-build-" + hashlib.sha1(REPO.encode()).hexdigest()[:10]))

class BuildError(Exception): pass

def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout
def filehash(paths):
    h = hashlib.sha1()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def driver():
    src = os.path.join(HERE, "driver", "mirdump.rs")
    d = os.path.join(HERE, "build"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "mirdump-" + filehash([src]))
    if not os.path.exists(out):
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", out + ".tmp", "-A", "warnings"])
        if rc: raise BuildError("the MIR driver did not build:\n" + o[-3000:])
        os.rename(out + ".tmp", out)
    return out
def sources():
    out = []
    for pat in ("Cargo.toml", "Cargo.lock", "programs/rewards/Cargo.toml", "clients/rust/Cargo.toml", "programs/rewards/src/**/*.rs", "clients/rust/src/**/*.rs", "rust-toolchain*"):
        out += [p for p in glob.glob(os.path.join(REPO, pat), recursive=True) if os.path.isfile(p)]
    return out
def dump():
    """-> paths of the dumps of the program and the Rust client, made from the current working tree"""
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        h = filehash(sources() + [drv])
        out = os.path.join(B, "dump-" + h)
        want = [os.path.join(out, c + ".json") for c in ("mplx_rewards", "rewards")]
        if all(os.path.exists(w) for w in want): return want, h
        for o in glob.glob(os.path.join(B, "dump-*")): shutil.rmtree(o, ignore_errors=True)
        tmp = out + ".tmp"; os.makedirs(tmp, exist_ok=True)
        rc, root = sh(["rustc", "+nightly", "--print", "sysroot"])
        env = dict(os.environ)
        tgt = os.path.join(B, "target")
        for c in ("mplx-rewards", "rewards"):
            shutil.rmtree(os.path.join(tgt, "debug", "build", c), ignore_errors=True)
        for p in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "*rewards-*")): shutil.rmtree(p, ignore_errors=True)
        env.update(LD_LIBRARY_PATH=root.strip() + "/lib", MIRDUMP_OUT=tmp, MIRDUMP_CRATES="mplx_rewards,rewards", RUSTC_WORKSPACE_WRAPPER=drv,
                   CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", RUSTFLAGS="-Zalways-encode-mir=yes", CARGO_NET_OFFLINE="true")
        for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"): env.pop(k, None)
        rc, o = sh(["cargo", "+nightly", "check", "-p", "mplx-rewards", "-p", "rewards", "--lib", "--offline", "--locked", "-q"], env=env, cwd=REPO)
        if rc: raise BuildError("/repo does not compile:\n" + o[-3000:])
        if not all(os.path.exists(os.path.join(tmp, os.path.basename(w))) for w in want): raise BuildError("the driver wrote no dump:\n" + o[-2000:])
        os.rename(tmp, out)
        return want, h
if __name__ == "__main__":
    try: print(dump())
    except BuildError as e: print(e); sys.exit(2)
