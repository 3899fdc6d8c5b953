"""The JavaScript client, the interface description (IDL) and the annotations it is generated from, against the published
interface. The client is read by rules/js/model.js, which evaluates the TypeScript syntax tree on symbolic inputs."""
import os, re, json, subprocess, tempfile
from . import iface as F
HERE = os.path.dirname(os.path.abspath(__file__))
PROPS = ("I01", "I02", "I03", "I04", "I05")
SRC, IDL, IXS, ERR = "clients/js/src", "idls/mplx_rewards.json", "programs/rewards/src/instruction.rs", "programs/rewards/src/error.rs"
EXTRA = ["deserialize%s", "get%sAccountDataSerializer", "get%sSize", "get%sGpaBuilder", "fetch%s"]
_M = {}
def low(n): return F.camel(F.snake(n))
def model(repo):
    if repo in _M: return _M[repo]
    spec = {"instructions": {low(n): {"accounts": [F.camel(a) for a, _, _ in F.ACCOUNTS[n]]} for n in F.ORDER}, "accounts": list(F.LAYOUT), "errors": [[i, e] for i, e in enumerate(F.ERRORS)], "enums": ["LockupPeriod", "AccountType"]}
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f: json.dump(spec, f)
    try:
        r = subprocess.run(["node", os.path.join(HERE, "js", "model.js"), os.path.join(repo, SRC), f.name], capture_output=True, text=True, timeout=300)
        _M[repo] = json.loads(r.stdout) if r.returncode == 0 else {"undecided": r.stderr.strip().split("\n")[-1][:200] if r.stderr else "exit %d" % r.returncode}
    except Exception as e: _M[repo] = {"undecided": "%s: %s" % (type(e).__name__, str(e)[:150])}
    finally: os.unlink(f.name)
    return _M[repo]

class Out:
    def __init__(self, prop): self.prop = prop; self.r = []
    def add(self, prop, name, status, msg, where):
        if prop == self.prop: self.r.append((name, status, msg, [[where, "JavaScript client" if where.startswith(SRC) else where.split("/")[-1]]]))
    def eq(self, prop, name, got, want, msg, where):
        self.add(prop, name, "proved" if got == want else "undecided" if soft(got) else "violated", "%s: %s, published %s" % (msg, short(got), short(want)), where)
def short(x):
    s = json.dumps(x); return s if len(s) < 160 else s[:157] + "..."
def soft(x):
    """whether part of a derived value could not be derived"""
    if isinstance(x, dict): return "undecided" in x or any(soft(v) for v in x.values())
    if isinstance(x, list): return any(soft(v) for v in x)
    return isinstance(x, str) and ("()" in x or x.startswith("umi:") or x.endswith("x?") or x in ("function", "[object Object]"))
def state(o, name, m, props, where, what):
    """missing, throwing or underivable items; True when there is something to compare"""
    for p in props:
        if m.get("missing"): o.add(p, name, "violated", "%s is not exported any more" % what, where)
        elif m.get("throws"): o.add(p, name, "undecided" if m.get("suppose") else "violated", "%s always fails" % what, where)
        elif "undecided" in m: o.add(p, name, "undecided", str(m["undecided"]), where)
    return not (m.get("missing") or m.get("throws") or "undecided" in m)
ARGK = {F.U: ["u64"], F.K: ["publicKey"], F.O: ["option<u64>"], F.L: ["enum:" + ",".join(F.LOCKUP)]}
def ident(x): return x if not isinstance(x, str) or x.startswith("key:") or "." in x or "(" in x else "key:" + x
def at(m): return SRC + "/" + m.get("where", "")

def client(o, j):
    if "undecided" in j:
        for p in PROPS: o.add(p, "js", "undecided", j["undecided"], SRC)
        return
    ex = j["exports"] if isinstance(j["exports"], list) else None
    for n in F.ORDER:
        m = j["instructions"][low(n)]; nm = "js/" + n; w = at(m)
        if not state(o, nm, m, ("I01", "I02"), SRC, "the JavaScript client's %s" % low(n)): continue
        accs = F.ACCOUNTS[n]
        for a, s, _ in accs:
            t = m["tags"].get(F.camel(a))
            o.add("I02", "%s/%s.type" % (nm, a), "violated" if t == "missing" or t == "pk" and s or t == "signer" and not s else "proved" if t in ("signer", "pk") else "undecided", "%s of %s takes %s" % (F.camel(a), n, "no such account" if t == "missing" else "a signer" if t == "signer" else "a plain address"), w)
        opt = [x for x in m["optional"] if x in [F.camel(a) for a, _, _ in accs]]
        for x in opt:
            if x not in [F.camel(a) for a in F.DEFAULTS] + ["payer"]: o.add("I02", "%s/%s.optional" % (nm, x), "violated", "%s of %s can be left out" % (x, n), w)
        for form, gone, f in [(q, q == "defaults" and opt or (), x) for q in ("full", "derived", "defaults") for x in [m[q]] + m[q].get("more", [])] + [("without " + q, q.split("+"), x) for q, r in m.get("some", {}).items() for x in [r] + r.get("more", [])]:
            fn = "%s/%s" % (nm, form); sup = f.get("suppose", {})
            if sup: fn += "/" + ",".join(("" if v else "not ") + k for k, v in sorted(sup.items()))
            if not state(o, fn, f, ("I01", "I02", "I05"), w, "building %s" % n): continue
            if len(f["items"]) != 1: o.add("I02", fn, "violated", "%d instructions are built" % len(f["items"]), w); continue
            it = f["items"][0]
            want, signers = [], []
            for a, s, wr in accs:
                c = F.camel(a); dflt = c in gone
                k = "input." + c if not dflt else "context.payer" if a == "payer" else "key:" + F.DEFAULTS.get(a, "?")
                want.append((k, s, wr)); signers += [k] if s else []
            keys = it["keys"]
            if not isinstance(keys, list): o.add("I02", fn, "undecided", "account list", w); continue
            o.eq("I02", fn + "/accounts", [k.get("pubkey") for k in keys], [x[0] for x in want], "accounts of %s" % n, w)
            if len(keys) == len(want):
                for k, (a, s, wr) in zip(keys, want):
                    o.eq("I02", "%s/%s.signer" % (fn, a), k.get("isSigner"), s, "signer flag of %s in %s" % (a, n), w)
                    if wr is not None: o.eq("I02", "%s/%s.writable" % (fn, a), k.get("isWritable"), wr, "writable flag of %s in %s" % (a, n), w)
            o.eq("I02", fn + "/signers", sorted(it["signers"]) if isinstance(it["signers"], list) and not soft(it["signers"]) else it["signers"], sorted(signers), "signers attached to %s" % n, w)
            o.eq("I05", fn + "/program", it["programId"], "key:" + F.PROGRAM_ID, "program of %s" % n, w)
            data = it["data"]
            if not isinstance(data, list): o.add("I01", fn, "undecided", "payload", w); continue
            pub = [{"kind": "u8", "value": F.DISC[n]}] + [{"kind": ARGK[k][0], "value": "input." + F.camel(x)} for x, k in F.ARGS[n]]
            got = [{"kind": x.get("kind"), "value": x.get("value")} if isinstance(x, dict) else x for x in data]
            for x, y in zip(got, pub):
                # under what was supposed of the input, a literal may be the input itself
                if isinstance(x, dict) and x["kind"] == y["kind"] and isinstance(x["value"], int) and isinstance(y["value"], str):
                    if sup.get("%s is %d" % (y["value"], x["value"])) or (x["kind"] == "u64" and x["value"] == 0 and sup.get(y["value"] + " truthy") is False): x["value"] = y["value"]
            o.eq("I01", fn + "/payload", got, pub, "payload of %s" % n, w)
        for x, _ in F.ARGS[n]:
            if F.camel(x) in m["optional"]: o.add("I01", "%s/%s.optional" % (nm, x), "violated", "%s of %s can be left out" % (F.camel(x), n), w)
        if ex is not None:
            s = "get%sInstructionDataSerializer" % n
            o.add("I01", "%s/serializer" % nm, "proved" if s in ex else "violated", "%s is not exported" % s, SRC)
    for a, (fields, size, _) in F.LAYOUT.items():
        m = j["accounts"][a]; want = [[F.camel(n), k] for n, k in fields]
        for part in ("serializer", "decode"):
            x = m[part]; nm = "js/%s/%s" % (a, part)
            if state(o, nm, x, ("I04",), SRC, "the JavaScript client's %s %s" % (a, part)): o.eq("I04", nm, x["fields"], want, "fields of %s" % a, at(x))
        x = m["size"]
        if state(o, "js/%s/size" % a, x, ("I04",), SRC, "get%sSize" % a): o.eq("I04", "js/%s/size" % a, x.get("size"), size, "size of %s" % a, at(x))
        x = m["gpa"]; nm = "js/%s/query" % a
        if state(o, nm, x, ("I04", "I05"), SRC, "get%sGpaBuilder" % a):
            off = 0; gw = {}
            for n, k in fields: gw[F.camel(n)] = [off, k]; off += F.WIDTH[k]
            o.eq("I04", nm + "/offsets", x["fields"], gw, "filter offsets of %s" % a, at(x))
            o.eq("I05", nm + "/program", x["program"], "key:" + F.PROGRAM_ID, "program whose %s accounts are queried" % a, at(x))
            o.eq("I04", nm + "/decoded", x["decoded"], "struct:" + ",".join("%s=%s" % tuple(y) for y in want), "decoding of queried %s" % a, at(x))
        dec = lambda p: p + ":" + ",".join("%s=%s" % tuple(y) for y in want)
        for fx, pres, absn in (("fetch", dec("p1"), "fails"), ("safeFetch", dec("p1"), None), ("fetchAll", [dec("p1"), dec("p2"), dec("p3")], "fails"), ("safeFetchAll", [dec("p1"), dec("p2"), dec("p3")], [dec("p1"), dec("p3")])):
            x = m[fx]; nm = "js/%s/%s" % (a, fx)
            if state(o, nm, x, ("I04",), SRC, fx + a):
                o.eq("I04", nm + "/stored", x["present"], pres, "what %s%s yields for stored accounts" % (fx, a), at(x))
                o.eq("I04", nm + "/absent", x["absent"], absn, "what %s%s yields when an account does not exist" % (fx, a), at(x))
        if ex is not None:
            for e in EXTRA:
                o.add("I04", "js/" + e % a, "proved" if e % a in ex else "violated", "%s is not exported" % (e % a), SRC)
    for i, e in enumerate(F.ERRORS):
        m = j["errors"][e]; nm = "js/error/" + e
        if not state(o, nm, m, ("I03",), SRC, "the JavaScript client's error lookup"): continue
        for by, k in (("code", "code %d" % i), ("name", "name " + e)):
            g = m[by]
            if g is None: o.add("I03", "%s/%s" % (nm, by), "violated", "%s is not recognised" % k, at(m))
            else: o.eq("I03", "%s/%s" % (nm, by), [g["name"], g["code"]], [e, i], "error found by %s" % k, at(m))
    x = j["errorBeyond"]
    if state(o, "js/error/unknown", x, ("I03",), SRC, "the JavaScript client's error lookup"): o.eq("I03", "js/error/unknown", x["nothing"], True, "an unknown code resolves to nothing", SRC)
    for e, names in (("LockupPeriod", F.LOCKUP), ("AccountType", F.ACCOUNT_TYPE)):
        x = j["enums"][e]; nm = "js/" + e
        if state(o, nm, x, ("I04",), SRC, "the JavaScript client's " + e):
            o.eq("I04", nm + "/numbers", x["names"], names, "numbers of %s" % e, at(x))
            o.eq("I04", nm + "/serializer", x["serializer"], "enum:" + ",".join(names), "encoding of %s" % e, at(x))
    p = j["program"]
    for k, what in (("id", "MPLX_REWARDS_PROGRAM_ID"), ("def", "createMplxRewardsProgram"), ("lookup", "getMplxRewardsProgramId")):
        if state(o, "js/program/" + k, p[k], ("I05",), SRC, what): o.eq("I05", "js/program/" + k, ident(p[k]["id"]), "key:" + F.PROGRAM_ID, what, at(p[k]))
    x = p["def"]
    if "name" in x: o.eq("I05", "js/program/name", x["name"], "mplxRewards", "name the program is registered under", at(x))
    if "err" in x: o.eq("I03", "js/program/errors", x["err"], F.ERRORS[1], "error 1 as the program definition reports it", at(x))
    if "clusters" in x and state(o, "js/program/clusters", x["clusters"], ("I05",), SRC, "isOnCluster"): o.eq("I05", "js/program/clusters", x["clusters"]["on"], [True] * 5, "clusters the program definition is available on", at(x))
    g = p["get"]
    if "name" in x and state(o, "js/program/get", g, ("I05",), SRC, "getMplxRewardsProgram"): o.add("I05", "js/program/get", "proved" if g["got"] == "registered:" + str(x["name"]) else "violated" if str(g["got"]).startswith("registered:") else "undecided", "the registered program is looked up as %s" % g["got"], at(g))
    known = {F.PROGRAM_ID: "mplxRewards"}
    known.update({v: k for k, v in (("splToken", F.DEFAULTS.get("token_program")), ("splSystem", F.DEFAULTS.get("system_program"))) if v})
    for name, fall, w in j.get("lookups", []):
        o.add("I05", "js/lookup/%s" % w, "proved" if known.get(fall) == name else "violated" if fall in known or name in known.values() else "undecided", "program %s is looked up under the name %s" % (fall, name), SRC + "/" + w)
    if "plugin" in p and state(o, "js/plugin", p["plugin"], ("I05",), SRC, "the Rewards plugin"): o.eq("I05", "js/plugin", [ident(x) for x in p["plugin"]["added"]], ["key:" + F.PROGRAM_ID], "programs the plugin registers", at(p["plugin"]))

def idl(o, repo):
    p = os.path.join(repo, IDL)
    try: j = json.load(open(p))
    except Exception as e:
        for q in PROPS: o.add(q, "idl", "violated", "the interface description cannot be read: %s" % str(e)[:80], IDL)
        return
    names = [x.get("name") for x in j.get("instructions", [])]
    o.eq("I01", "idl/instructions", names, F.ORDER, "instructions", IDL)
    ty = {F.U: "u64", F.K: "publicKey", F.L: {"defined": "LockupPeriod"}, F.O: {"option": "u64"}, "u128": "u128", "u8": "u8", "u8x7": {"array": ["u8", 7]}}
    for x in j.get("instructions", []):
        n = x.get("name")
        if n not in F.DISC: continue
        o.eq("I01", "idl/%s/number" % n, x.get("discriminant"), {"type": "u8", "value": F.DISC[n]}, "number of " + n, IDL)
        o.eq("I01", "idl/%s/arguments" % n, [[y.get("name"), y.get("type")] for y in x.get("args", [])], [[F.camel(a), ty[k]] for a, k in F.ARGS[n]], "arguments of " + n, IDL)
        acc = x.get("accounts", [])
        o.eq("I02", "idl/%s/accounts" % n, [y.get("name") for y in acc], [F.camel(a) for a, _, _ in F.ACCOUNTS[n]], "accounts of " + n, IDL)
        for y, (a, s, w) in zip(acc, F.ACCOUNTS[n]):
            o.eq("I02", "idl/%s/%s.signer" % (n, a), y.get("isSigner"), s, "signer flag of %s in %s" % (a, n), IDL)
            if w is not None: o.eq("I02", "idl/%s/%s.writable" % (n, a), y.get("isMut"), w, "writable flag of %s in %s" % (a, n), IDL)
            if y.get("optional") or y.get("isOptional"): o.add("I02", "idl/%s/%s.optional" % (n, a), "violated", "%s of %s is marked optional" % (a, n), IDL)
    have = {x.get("name"): x.get("type", {}) for x in j.get("accounts", [])}
    for a, (fields, _, _) in F.LAYOUT.items():
        o.eq("I04", "idl/" + a, [[y.get("name"), y.get("type")] for y in have.get(a, {}).get("fields", [])], [[F.camel(n), ty[k]] for n, k in fields], "fields of " + a, IDL)
    have = {x.get("name"): x.get("type", {}) for x in j.get("types", [])}
    for e, ns in (("LockupPeriod", F.LOCKUP), ("AccountType", F.ACCOUNT_TYPE)):
        o.eq("I04", "idl/" + e, [y.get("name") for y in have.get(e, {}).get("variants", [])], ns, "numbers of " + e, IDL)
    o.eq("I03", "idl/errors", [[y.get("code"), y.get("name")] for y in j.get("errors", [])], [[i, e] for i, e in enumerate(F.ERRORS)], "errors", IDL)
    o.eq("I05", "idl/address", j.get("metadata", {}).get("address"), F.PROGRAM_ID, "program address", IDL)

# ------------------------------------------------------------------ the annotations the description is generated from
def strip(s):
    """source text without comments; string literals kept"""
    return re.sub(r'//[^\n]*|/\*.*?\*/|("(?:\\.|[^"\\])*")', lambda m: m.group(1) or " ", s, flags=re.S)
def annotations(o, repo):
    try: src = strip(open(os.path.join(repo, IXS)).read())
    except OSError: return
    m = re.search(r"enum\s+RewardsInstruction\s*\{", src)
    if not m: return                # the type lives elsewhere: the derived units judge it
    at_, depth, i, n = m.end(), 1, m.end(), len(src)
    text = re.sub(r'"(?:\\.|[^"\\])*"', lambda q: '"' + re.sub(r"[{}()\[\],]", "_", q.group(0)[1:-1]) + '"', src)
    body = []
    while i < n and depth:
        depth += text[i] == "{"; depth -= text[i] == "}"; i += 1
    body = text[at_:i - 1]
    pend = []; found = {}
    for t in re.finditer(r"#\[\s*account\s*\(([^\]]*)\)\s*\]|#\[[^\]]*\]|(\w+)\s*(?=\{|,|$|\()|\{[^}]*\}|\([^)]*\)", body):
        if t.group(1) is not None: pend.append(t.group(1))
        elif t.group(2): found[t.group(2)] = pend; pend = []
    for v, (n, accs) in enumerate(F.ACCOUNTS.items()):
        if n not in found or not found[n]: continue
        rows = []
        for a in found[n]:
            parts = [x.strip() for x in a.split(",")]
            name = next((re.sub(r'^name\s*=\s*"|"$', "", x) for x in parts if x.startswith("name")), None)
            rows.append((int(parts[0]) if parts[0].isdigit() else None, name, "signer" in parts, bool({"writable", "write", "writ", "w", "mut"} & set(parts))))
        rows.sort(key=lambda r: -1 if r[0] is None else r[0])
        o.eq("I02", "annotation/%s/accounts" % n, [r[1] for r in rows], [a for a, _, _ in accs], "annotated accounts of " + n, IXS)
        for r, (a, s, w) in zip(rows, accs):
            o.eq("I02", "annotation/%s/%s.signer" % (n, a), r[2], s, "annotated signer flag of %s in %s" % (a, n), IXS)
            if w is not None: o.eq("I02", "annotation/%s/%s.writable" % (n, a), r[3], w, "annotated writable flag of %s in %s" % (a, n), IXS)

def check(prop, repo):
    if prop not in PROPS: return []
    o = Out(prop)
    client(o, model(repo)); idl(o, repo); annotations(o, repo)
    return o.r
if __name__ == "__main__":
    import sys, collections
    for p in PROPS:
        r = check(p, sys.argv[1] if len(sys.argv) > 1 else "/repo")
        print(p, collections.Counter(x[1] for x in r))
        for x in r:
            if x[1] != "proved": print("  ", x)
