"""Development helper (no check uses it): mutates the JavaScript client and the IDL one token or line at a time in a scratch clone and
lists the mutants on which no JavaScript obligation is violated.  usage: js.py WORKERS OUT [FILE-REGEX]"""
import os, sys, re, json, random, subprocess, multiprocessing
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(HERE)); sys.path.insert(0, V)
SWAP = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"===", "!=="), (r"!==", "==="), (r"&&", "||"), (r"\|\|", "&&"), (r"\?\?", "&&"), (r"\bisWritable\b", "isSigner"), (r"\bisSigner\b", "isWritable"),
        (r"\bu64\(\)", "u32()"), (r"\bu64\(\)", "i64()"), (r"\bu128\(\)", "u64()"), (r"\bu8\(\)", "u16()"), (r"\bpublicKeySerializer\(\)", "bytes()"), (r"'u64'", "'u32'"), (r'"u64"', '"u32"'), (r'"publicKey"', '"u64"'),
        (r"\bpush\(", "unshift("), (r"\.filter\(\(a\) => ", ".filter((a) => !"), (r"!(\w)", r"\1"), (r" < ", " > "), (r" - ", " + "), (r"\.sort\(", ".concat("), (r"'programId'", "'omitted'"), (r"'omitted'", "'programId'"),
        (r"\bsome\(", "none("), (r"\bi \+ 1\b", "i"), (r"\bmap\(", "flatMap("), (r"publicKey\(", "String("), (r"context\.identity", "context.payer"), (r"context\.payer", "context.identity")]
def mutants(f, text, rng):
    ids = sorted({m for m in re.findall(r"\b(?:rewardPool|rewardMint|mining|vault|depositAuthority|delegateMining|fillAuthority|distributeAuthority|miningOwner|sourceTokenAccount|tokenProgram|payer|systemProgram|rent|newDelegateMining|oldDelegateMining|targetAccount|miningOwnerRewardTokenAccount|amount|lockupPeriod|delegate|share|unclaimedRewards|stakeFromOthers|indexWithPrecision|totalShare|owner|bump|data)\b", text)})
    def bad(a):
        l = text[text.rfind("\n", 0, a) + 1:text.find("\n", a)].strip()
        return l.startswith(("//", "*", "/*", "import", "export type", "} from"))
    for p, n in SWAP:
        for m in re.finditer(p, text):
            if not bad(m.start()): yield f, m.start(), m.end(), m.expand(n), "%s -> %s" % (m.group(0), m.expand(n))
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-f]+|\d+)(?![\w.])", text):
        if not bad(m.start()): v = int(m.group(1), 0); yield f, m.start(), m.end(), str(v + 1), "%d -> %d" % (v, v + 1)
    for i in ids:
        for m in re.finditer(r"\b%s\b" % i, text):
            if not bad(m.start()) and len(ids) > 1:
                n = rng.choice([x for x in ids if x != i]); yield f, m.start(), m.end(), n, "%s -> %s" % (i, n)
    for m in re.finditer(r"'([A-Za-z0-9]{3,50})'", text):
        if not bad(m.start()): s = m.group(1); t = s[:-1] + ("x" if s[-1] != "x" else "y"); yield f, m.start(1), m.end(1), t, "%s -> %s" % (s, t)
    pos = 0; ls = text.split("\n")
    for i, l in enumerate(ls):
        s = l.strip()
        if s and not s.startswith(("//", "*", "/*", "import", "}", "export")) and s[-1] in ",;" : yield f, pos, pos + len(l) + 1, "", "del: " + s[:60]
        if i + 1 < len(ls) and s.endswith(",") and ls[i + 1].strip().endswith(",") and not s.startswith("//"): yield f, pos, pos + len(l) + len(ls[i + 1]) + 2, ls[i + 1] + "\n" + l + "\n", "swap: " + s[:30] + " / " + ls[i + 1].strip()[:30]
        pos += len(l) + 1
def one(w, mu):
    f, a, b, new, what = mu; W = "/tmp/jm/%d" % w; p = W + "/" + f; s = open(p).read()
    open(p, "w").write(s[:a] + new + s[b:])
    code = "import sys; sys.path.insert(0,%r)\nfrom rules import js\nv=set();u=set()\nfor p in js.PROPS:\n  for n,s,m,w in js.check(p,%r):\n    (v if s=='violated' else u if s=='undecided' else set()).add(p+'/'+n)\nprint('RES',len(v),len(u),sorted(v)[:3],sorted(u)[:3])" % (V, W)
    r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True); o = [x for x in r.stdout.splitlines() if x.startswith("RES")]
    open(p, "w").write(s)
    return o[0] if o else "CRASH " + r.stderr[-300:]
def worker(w, q, out):
    while True:
        m = q.get()
        if m is None: return
        r = one(w, m); s = open("/tmp/jm/%d/%s" % (w, m[0])).read()
        out.put({"f": m[0], "line": s.count("\n", 0, m[1]) + 1, "what": m[4], "key": "%s:%d:%d:%s" % m[:4], "res": r})
def main():
    n = int(sys.argv[1]); dst = sys.argv[2]; rx = sys.argv[3] if len(sys.argv) > 3 else "."; rng = random.Random(7); ms = []
    fs = subprocess.run(["git", "-C", "/repo", "ls-files", "clients/js/src", "idls"], capture_output=True, text=True).stdout.split()
    for f in fs:
        if re.search(rx, f): ms += list(mutants(f, open("/repo/" + f).read(), rng))
    done = {json.loads(l)["key"] for l in open(dst)} if os.path.exists(dst) else set()
    ms = [m for m in ms if "%s:%d:%d:%s" % m[:4] not in done]; rng.shuffle(ms); print(len(ms), "mutants", len(done), "done")
    for w in range(n):
        if not os.path.exists("/tmp/jm/%d" % w): subprocess.run(["git", "clone", "-q", "/repo", "/tmp/jm/%d" % w], check=True)
        subprocess.run(["git", "-C", "/tmp/jm/%d" % w, "checkout", "-q", "--", "."])
    q, out = multiprocessing.Queue(), multiprocessing.Queue()
    ps = [multiprocessing.Process(target=worker, args=(w, q, out)) for w in range(n)]
    for p in ps: p.start()
    for m in ms: q.put(m)
    for _ in ps: q.put(None)
    for _ in ms:
        r = out.get(); open(dst, "a").write(json.dumps(r) + "\n")
if __name__ == "__main__": main()
