"""Sets up the program's entry state (symbolic accounts, symbolic instruction payload) and runs one
instruction variant through the interpreter."""
import time
from .terms import *
from . import maps, interp, intr
from .interp import *

NACC = 16
class Run: pass

def account_hooks(I, acc_ty):
    d = I.T(acc_ty)
    names = [n for n, _ in d["v"][0]["f"]]
    pk = None
    def key(b): return leaf(term("key", b[1]))
    def owner(b): return leaf(term("owner", b[1]))
    def lam(b): return leaf(ps(term("lam", b[1], nn=True, meta={"max": 2**64 - 1})))
    def rcl(b): return leaf(ptr(("lam", b[1])))
    def rcd(b): return leaf(ptr(("data", b[1]), (), ("s", pc(0), ps(term("dlen", b[1], nn=True, meta={"max": 2**32})))))
    def data(b): return ("opaque-slice", None)
    def view(b): return I.expand(sym(I.base_ty[b], term("acc", b[1], b[2])))
    def mk(i):
        v = {"key": leaf(ptr(("key", i))), "lamports": leaf(ptr(("rcl", i))), "data": leaf(ptr(("rcd", i))), "owner": leaf(ptr(("owner", i))),
             "is_signer": BOOL(term("signer", i)), "is_writable": BOOL(term("writable", i)), "executable": BOOL(term("exec", i))}
        out = []
        for n, ft in d["v"][0]["f"]:
            if n in v: out.append(v[n])
            else: out.append(I.expand(sym(ft, term("acct", i, n))))
        return agg(*out)
    accts = agg(*[mk(i) for i in range(NACC)])
    I.hooks.update({"key": key, "owner": owner, "lam": lam, "rcl": rcl, "rcd": rcd, "data": data, "view": view,
                    "accts": lambda b: accts, "pid": lambda b: leaf(term("pid")), "input": lambda b: ("opaque-slice", None),
                    "text": lambda b: ("opaque-slice", None), "vec": lambda b: UNINIT})
    return mk

def find_entry(d):
    """the function the program's entrypoint hands the deserialized accounts to; without an entrypoint, the processor itself"""
    own = {f["id"]: f for f in d.fns if "blocks" in f and f["krate"] == "mplx_rewards" and f["argc"] == 3}
    for f in d.fns:
        if "blocks" in f and f["krate"] == "mplx_rewards" and f["name"].endswith("::entrypoint") and f["argc"] == 1:
            for b in f["blocks"]:
                t = b[1]
                if t[0] == "call" and t[1][0] == "i" and d.fns[t[1][1]]["id"] in own: return d.fns[t[1][1]]
    for f in own.values():
        if f["name"].endswith("::process_instruction"): return f
    return None

def payload(d, I, vi, cases, instr):
    """the published encoding of the instruction's arguments as a list of wire bytes; None when its types are not the published ones"""
    from rules import iface as F
    e = d.T(d.find_adt("RewardsInstruction")); have = dict(e["v"][vi]["f"])
    out = [leaf(pc(F.DISC[instr]))]
    byte = lambda v, i, w: leaf(ps(term("byte", v, i, w, nn=True, meta={"max": 255})))
    for name, kind in F.ARGS[instr]:
        if name not in have: return None
        x = I.expand(sym(have[name], term("arg", name)))
        if kind == F.K and isinstance(x, N): out += [leaf(ps(term("kbyte", x.val, i, nn=True, meta={"max": 255}))) for i in range(32)]
        elif kind == F.U and isinstance(x, N) and isinstance(x.val, Poly): out += [byte(x.val, i, 8) for i in range(8)]
        elif kind == F.L and isinstance(x, Enum) and name in cases:
            names = [v["n"] for v in d.T(have[name])["v"]]
            if sorted(names) != sorted(F.LOCKUP): return None
            out.append(leaf(pc(F.LOCKUP.index(names[cases[name]]))))
        elif kind == F.O and isinstance(x, Enum) and name in cases:
            if cases[name] == 0: out.append(leaf(pc(0)))
            else:
                v = x.p[1][0]; v = I.expand(v) if isinstance(v, Sym) else v
                if not isinstance(v, N) or not isinstance(v.val, Poly): return None
                out += [leaf(pc(1))] + [byte(v.val, i, 8) for i in range(8)]
        else: return None
    return out

def run_instruction(d, vi, enumname="RewardsInstruction", cases=None, assume=TRUE, instr=None, edit=None):
    I = interp.Interp(d, intr)
    I.arg_enum = (enumname, vi)
    I.arg_cases = dict(cases or {})
    f = find_entry(d)
    acc_ty = d.find_adt("AccountInfo")
    account_hooks(I, acc_ty)
    st = State(assume, {})
    n = ps(term("naccts", nn=True, meta={"max": 255}))
    R = Run()
    data = payload(d, I, vi, I.arg_cases, instr) if instr else None
    R.wire = data is not None
    if data is not None:
        if edit: data = edit(data)
        I.wire = True; I.arg_enum = None
        b = I.newheap(leaf(lst(tuple(data))), st)
        inp = leaf(ptr(b, (), ("s", pc(0), pc(len(data)))))
    else: inp = leaf(ptr(("input",), (), ("s", pc(0), ps(term("inlen", nn=True, meta={"max": 2**20})))))
    args = [leaf(ptr(("pid",))), leaf(ptr(("accts",), (), ("s", pc(0), n))), inp]
    t0 = time.time()
    r = I.call_fn(st, f, args)
    R.I = I; R.time = time.time() - t0; R.entry = f
    R.ret = R.st = None
    if r is not None:
        R.ret, R.st = r
    return R
