"""Development helper (no check uses it): mutates the Rust client and the program's instruction constructors one token or line at a time in scratch
clones and lists the mutants on which no interface obligation is violated.  usage: [MUT_MAX=N] cli.py WORKERS OUT [FILE-REGEX]"""
import os, sys, re, json, random, subprocess, multiprocessing, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE)); sys.path.insert(0, V)
SWAP = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bnew_readonly\(", "new("), (r"AccountMeta::new\(", "AccountMeta::new_readonly("), (r"\.unwrap_or\(", ".or(None).unwrap_or("), (r"\bSome\(([\w.]+)\)", "None"), (r"\.is_none\(\)", ".is_some()"),
        (r"extend_from_slice\((\w+)\)", r"extend_from_slice(&\1[..\1.len().min(1)])"), (r"\.push\(", ".insert(0, "), (r"remaining_account\.1\b", "remaining_account.2"), (r"remaining_account\.2\b", "remaining_account.1"), (r"remaining_account\.\d", "true"), (r"signers_seeds\.is_empty\(\)", "!signers_seeds.is_empty()"),
        (r"\bsigners_seeds\b", "&[]"), (r"invoke_signed\(&instruction, &account_infos, signers_seeds\)", "invoke(&instruction, &account_infos)"), (r"\.append\(&mut args\)", ".extend(args.iter().rev())"), (r"\.clone\(\)", ".clone().clone()"), (r"crate::MPLX_REWARDS_ID", "solana_program::system_program::ID"),
        (r"\.unwrap_or_default\(\)", ".unwrap()"), (r"\bSelf::PREFIX\b", "b\"x\""), (r"u64\b", "u32"), (r"u8\b", "u16"), (r"&\*self", "self"), (r"\.find\(", ".filter(")]
def mutants(f, text, rng):
    end = text.find("mod tests {") if "mod tests {" in text else len(text)
    def ok(a):
        l = text[text.rfind("\n", 0, a) + 1:text.find("\n", a)].strip()
        return a < end and not l.startswith(("//", "use ", "#", "pub use", "mod ", "pub mod"))
    for p, n in SWAP:
        for m in re.finditer(p, text):
            if ok(m.start()): yield f, m.start(), m.end(), m.expand(n), "%s -> %s" % (m.group(0), m.expand(n))
    for m in re.finditer(r"(?<![\w.\"])\d+(?![\w.\"])", text):
        if ok(m.start()): yield f, m.start(), m.end(), str(int(m.group()) + 1), "%s -> +1" % m.group()
    names = sorted(set(re.findall(r"self\.(?:instruction\.)?(?:__args\.)?(\w+)\b(?!\()", text)) - {"instruction", "__args", "__remaining_accounts"})
    for n in names:
        for m in re.finditer(r"(?<=\.)%s\b(?!\()|\b%s(?=\.key|\.clone|\.expect)" % (n, n), text):
            if ok(m.start()) and len(names) > 1:
                o = rng.choice([x for x in names if x != n]); yield f, m.start(), m.end(), o, "%s -> %s" % (n, o)
    pos = 0; ls = text.split("\n")
    for i, l in enumerate(ls):
        s = l.strip()
        if s and ok(pos) and s[-1] in ",;" and not s.startswith(("}", "let ", "pub ", "return", ")")): yield f, pos, pos + len(l) + 1, "", "del: " + s[:60]
        if i + 1 < len(ls) and ok(pos) and s.endswith((",", ";")) and ls[i + 1].strip().endswith(s[-1]) and not s.startswith(("//", "}", ")", "use", "let")): yield f, pos, pos + len(l) + len(ls[i + 1]) + 2, ls[i + 1] + "\n" + l + "\n", "swap: " + s[:40] + " / " + ls[i + 1].strip()[:40]
        pos += len(l) + 1
CODE = r'''
import sys, threading, os; sys.path.insert(0, %r); sys.setrecursionlimit(1000000); threading.stack_size(512 << 20)
os.environ["VERIF_REPO"] = %r
def go():
    import build
    build.REPO = %r
    try: (p, c), h = build.dump()
    except build.BuildError: print("RES stillborn"); return
    from engine import mir; from rules import client, catalog
    import multiprocessing, json
    ctx = multiprocessing.get_context("fork"); ds = {"prog": mir.Dump(p), "cli": mir.Dump(c)}
    only = %r; jobs = []
    for pid in ("I01", "I02", "I03", "I04", "I05", "I06", "I07"):
        for j in catalog.jobs(pid, ds["prog"]):
            if j[0] == "client" and j[:4] not in jobs and (not only or j[2] == only or j[2] == "helpers" and only == "x"): jobs.append(j[:4])
    bad, und = [], []
    for kind, wh, unit, kw in jobs:
        r, w = ctx.Pipe(False)
        def run():
            def th():
                try: w.send(client.unit(ds[wh], unit, dict(kw))[0])
                except Exception as e: w.send(repr(e)[:200])
            t = threading.Thread(target=th); t.start(); t.join()
        q = ctx.Process(target=run); q.start(); w.close()
        try: obs = r.recv()
        except EOFError: obs = "died"
        q.join()
        if isinstance(obs, str): und.append(obs); continue
        for o in obs:
            if o[2] == "violated": bad.append(o[0] + "/" + o[1])
            elif o[2] == "undecided": und.append(o[0] + "/" + o[1])
        if bad: break
    print("RES", "killed" if bad else "undecided" if und else "SURVIVED", bad[:2], und[:4])
t = threading.Thread(target=go); t.start(); t.join()
'''
def camel(s): return "".join(x.capitalize() for x in s.split("_"))
def one(w, mu):
    f, a, b, new, what = mu; W = "/tmp/mc/%d" % w; p = W + "/" + f; s = open(p).read()
    open(p, "w").write(s[:a] + new + s[b:])
    only = camel(os.path.basename(f)[:-3]) if "/instructions/" in f else ""
    r = subprocess.run(["timeout", "600", sys.executable, "-c", CODE % (V, W, W, only)], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W)); o = [x for x in r.stdout.splitlines() if x.startswith("RES")]
    open(p, "w").write(s)
    return o[0] if o else "CRASH " + r.stderr[-300:]
def worker(w, q, out):
    while True:
        m = q.get()
        if m is None: return
        t = time.time(); r = one(w, m); s = open("/tmp/mc/%d/%s" % (w, m[0])).read()
        out.put({"f": m[0], "line": s.count("\n", 0, m[1]) + 1, "what": m[4], "key": "%s:%d:%d:%s" % m[:4], "res": r, "s": round(time.time() - t)})
def main():
    n = int(sys.argv[1]); dst = sys.argv[2]; rx = sys.argv[3] if len(sys.argv) > 3 else "."; rng = random.Random(5); ms = []
    fs = subprocess.run(["git", "-C", "/repo", "ls-files", "clients/rust/src", "programs/rewards/src/instruction.rs"], capture_output=True, text=True).stdout.split()
    for f in fs:
        if re.search(rx, f): ms += list(mutants(f, open("/repo/" + f).read(), rng))
    done = {json.loads(l)["key"] for l in open(dst)} if os.path.exists(dst) else set()
    ms = [m for m in ms if "%s:%d:%d:%s" % m[:4] not in done]; rng.shuffle(ms); ms = ms[:int(os.environ.get("MUT_MAX", 10**9))]; print(len(ms), "mutants", len(done), "done", flush=True)
    os.makedirs("/tmp/mc", exist_ok=True)
    for w in range(n):
        if not os.path.exists("/tmp/mc/%d" % w): subprocess.run(["git", "clone", "-q", "/repo", "/tmp/mc/%d" % w], check=True)
        subprocess.run(["git", "-C", "/tmp/mc/%d" % w, "checkout", "-q", "--", "."])
    q, out = multiprocessing.Queue(), multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(w, q, out)) for w in range(n)]
    for p in ps: p.start()
    for m in ms: q.put(m)
    for _ in ps: q.put(None)
    for _ in ms:
        r = out.get(); open(dst, "a").write(json.dumps(r) + "\n")
if __name__ == "__main__": main()
