"""The rules for everything that builds one of the program's instructions from Rust: the published client's four ways
(the plain struct, the CPI struct and the two builders) and the program crate's own functions. Each unit runs one way for
one instruction through the interpreter on arbitrary inputs and compares the instruction it yields with the published interface."""
from engine import model, interp, intr
from engine.terms import *
from engine.interp import *
from .unit import eqn, num
from . import iface as F

KINDS = ("struct", "cpi", "builder", "cpibuilder")
MOD = "rewards::generated::instructions::"
WORD = {"struct": "the client's plain instruction", "cpi": "the client's CPI helper", "builder": "the client's instruction builder", "cpibuilder": "the client's CPI builder", "native": "the program crate's own builder", "decode": "the program's decoder", "entry": "the program's entry point", "layout": "the account layout", "codes": "the published codes", "helpers": "the public helpers", "context": "the program crate's account context"}
class Missing(Exception): pass

def kconst(b58): return leaf(term("kconst", F.unb58(b58)))

class Way:
    def __init__(self, d, instr, kind):
        self.d = d; self.instr = instr; self.kind = kind
        self.I = interp.Interp(d, intr)
        self.acct_ty = d.find_adt("AccountInfo")
        self.metas = [n for n, _ in d.T(d.find_adt("AccountMeta"))["v"][0]["f"]]
        self.ixf = [n for n, _ in d.T(d.find_adt("instruction::Instruction"))["v"][0]["f"]]
        self.accs = F.ACCOUNTS.get(instr, []); self.args = F.ARGS.get(instr, [])
        self.last = None
        self.obs = []
        self.fns = {}
        for f in d.fns:
            if "blocks" in f: self.fns.setdefault(f["full"], f)
        self.checked = 0
        self.reset()
    def reset(self):
        self.st = State(TRUE, {}); self.infos = {}; self.tags = {}; self.types = {}
    # -------------------------------------------------------------- inputs
    def key(self, name): return leaf(term("akey", name))
    def info(self, tag):
        """a reference to an arbitrary account"""
        if tag not in self.infos:
            kb = self.I.newheap(self.key(tag), self.st)
            self.tags[kb] = tag
            fs = [leaf(ptr(kb)) if n == "key" else sym(ft, term("info", tag, n)) for n, ft in self.d.T(self.acct_ty)["v"][0]["f"]]
            self.infos[tag] = self.I.newheap(agg(*fs), self.st)
        return leaf(ptr(self.infos[tag]))
    def meta(self, key, s, w):
        v = {"pubkey": key, "is_signer": s, "is_writable": w}
        return agg(*[v[n] for n in self.metas])
    def rem(self, i): return (self.key("rem%d" % i), BOOL(term("rem_signer", i)), BOOL(term("rem_writable", i)))
    def remtuple(self, i): return agg(self.info("rem%d" % i), self.rem(i)[2], self.rem(i)[1])
    def value(self, name, ty):
        return self.I.expand(sym(ty, term("arg", name)))
    def struct(self, full, vals):
        i = self.adt(full)
        return agg(*[vals(n, ty) for n, ty in self.d.T(i)["v"][0]["f"]])
    def adt(self, full):
        for i, t in enumerate(self.d.types):
            if t["k"] == "adt" and t["name"] == full: return i
        raise Missing(full)
    # -------------------------------------------------------------- calls
    def find(self, full, argc):
        f = self.fns.get(full)
        if f is None or f["argc"] != argc: raise Missing(full)
        return f
    def call(self, full, *args):
        f = self.find(full, len(args)); self.last = f
        r = self.I.call_fn(self.st, f, list(args))
        if r is None: return None
        self.st = r[1]
        return self.I.expand(r[0]) if isinstance(r[0], Sym) else r[0]
    def put(self, v): return leaf(ptr(self.I.newheap(v, self.st)))
    def slice_of(self, elems):
        b = self.I.newheap(leaf(lst(tuple(elems))), self.st)
        return leaf(ptr(b, (), ("s", pc(0), pc(len(elems)))))
    def ptype(self, full, i, argc): return self.find(full, argc)["locals"][i]
    # -------------------------------------------------------------- verdicts
    def where(self): return [[self.d.loc(self.last), self.last["full"]]] if self.last else []
    def ob(self, prop, name, status, msg=""): self.obs.append((prop, name, status, msg, self.where()))
    def judge(self, props, name, cond, msg):
        c = simp(cond, self.st.pc)
        self.checked += 1
        s = "proved" if c is TRUE else "undecided" if is_top(c) or is_top(self.st.pc) else "violated"
        for p in props: self.ob(p, name, s, "" if s == "proved" else msg)
    def props(self, p): return [p] if self.kind == "struct" else [p, "I06"]
    # -------------------------------------------------------------- what is expected
    def want_data(self, absent=()):
        out = [num(F.DISC[self.instr])]; opt = None
        for name, kind in self.args:
            v = self.value(name, self.types[name])
            if isinstance(v, N) and v.var is None and isinstance(v.val, Ptr): v = self.I.base_val(self.st, v.val.base)
            v = self.I.expand(v) if isinstance(v, Sym) else v
            if kind == F.K: out += [leaf(ps(term("kbyte", v.val, i, nn=True, meta={"max": 255}))) for i in range(32)]
            elif kind == F.U: out += byts(v)
            elif kind == F.L:
                names = [x["n"] for x in self.d.T(self.types[name])["v"]]
                if sorted(names) != sorted(F.LOCKUP): raise Missing("a lockup period type with its five periods")
                out.append(ap1(lambda p: num(F.LOCKUP.index(names[pconst(p)])), v.d))
            elif kind == F.O:
                if name in absent: opt = (FALSE, []); continue
                if not isinstance(v, Enum): opt = (TRUE, [num(1)] + byts(v)); continue   # a setter takes the bare number
                some = [x["n"] for x in self.d.T(self.types[name])["v"]].index("Some")
                x = v.p[some][0]
                opt = (ap1(lambda p: TRUE if pconst(p) == some else FALSE, v.d), [num(1)] + byts(self.I.expand(x) if isinstance(x, Sym) else x))
        if opt is None: return leaf(lst(tuple(out)))
        return ite(opt[0], leaf(lst(tuple(out + opt[1]))), leaf(lst(tuple(out + [num(0)]))))
    def check_ix(self, ix, nm, rem=0, absent=(), absent_args=()):
        """the built instruction against the published interface"""
        ix = self.I.expand(ix) if isinstance(ix, Sym) else ix
        w = WORD[self.kind]; n = self.instr
        if not isinstance(ix, Agg):
            for p in ("I01", "I02", "I05"): self.ob(p, nm, "undecided", "the built instruction is not a known value")
            return
        g = {f: self.I.expand(x) if isinstance(x, Sym) else x for f, x in zip(self.ixf, ix.f)}
        want_pid = self.key("program") if self.kind == "native" else kconst(F.PROGRAM_ID)
        if self.kind == "native": self.judge(["I06"], nm + "/program", eqn(g["program_id"], want_pid), "%s for %s does not address the program it is given" % (w, n))
        else: self.judge(["I05"], nm + "/program", eqn(g["program_id"], want_pid), "%s for %s does not address the published program id" % (w, n))
        want = []
        for name, s, wr in self.accs:
            k = self.key(name)
            if name in absent: k = kconst(F.DEFAULTS[name])
            want.append((name, k, TRUE if s else FALSE, None if wr is None else TRUE if wr else FALSE))
        for i in range(rem):
            k, s, wr = self.rem(i); want.append(("remaining account %d" % (i + 1), k, s, wr))
        al = self.list(g["accounts"])
        nacc = len(self.accs)
        self.judge(self.props("I02"), nm + "/accounts", self.count(al, len(want)), "%s for %s does not list %d accounts" % (w, n, len(want)))
        for i, (name, k, s, wr) in enumerate(want):
            props = self.props("I02") if i < nacc else ["I06"]
            def at(f): return self.at(al, i, f)
            self.judge(props, "%s/%s" % (nm, name), at(lambda m: eqn(m["pubkey"], k)), "%s for %s: account %d is not %s" % (w, n, i, name))
            self.judge(props, "%s/%s.signer" % (nm, name), at(lambda m: IFF(m["is_signer"], s)), "%s for %s: the signer flag of %s is wrong" % (w, n, name))
            if wr is not None: self.judge(props, "%s/%s.writable" % (nm, name), at(lambda m: IFF(m["is_writable"], wr)), "%s for %s: the writable flag of %s is wrong" % (w, n, name))
        self.judge(self.props("I01"), nm + "/data", eqbytes(self.list(g["data"]), self.want_data(absent_args)), "%s for %s does not encode the instruction's payload as the program reads it" % (w, n))
    def list(self, v):
        if isinstance(v, Agg): return leaf(lst(v.f))
        if isinstance(v, List): return leaf(v)
        return v if isinstance(v, N) else leaf(term("top", "list"))
    def count(self, al, n): return ap1(lambda l: (TRUE if len(l.e) == n else FALSE) if isinstance(l, List) and l.tail is None else BOOL(term("top", "list")), al)
    def at(self, al, i, f):
        def g(l):
            if not isinstance(l, List) or l.tail is not None: return BOOL(term("top", "list"))
            if i >= len(l.e): return FALSE
            m = self.I.expand(l.e[i]) if isinstance(l.e[i], Sym) else l.e[i]
            if not isinstance(m, Agg): return BOOL(term("top", "meta"))
            return f({n: self.I.expand(x) if isinstance(x, Sym) else x for n, x in zip(self.metas, m.f)})
        return ap1(g, al)
    def sure(self, nm, v):
        """building must not refuse"""
        if v is None: self.judge(["I06"], nm + "/builds", FALSE, "%s for %s never yields an instruction" % (WORD[self.kind], self.instr)); return False
        self.judge(["I06"], nm + "/builds", self.st.pc, "%s for %s refuses complete inputs" % (WORD[self.kind], self.instr)) if self.st.pc is not TRUE else self.ob("I06", nm + "/builds", "proved")
        return True
    def check_cpi(self, ret, n0, nm, rem=0, seeds=None, absent_args=()):
        evs = [e for e in self.I.events[n0:] if e["k"] == "cpi"]
        w = WORD[self.kind]; n = self.instr
        if len(evs) != 1 or evs[0]["g"] is not TRUE:
            s = "undecided" if len(evs) > 1 or is_top(self.st.pc) or (evs and is_top(evs[0]["g"])) else "violated"
            self.ob("I06", nm + "/call", s, "%s for %s does not make its one call" % (w, n)); return
        e = evs[0]
        self.ob("I06", nm + "/call", "proved")
        self.check_ix(e["ix"], nm, rem, absent_args=absent_args)
        ret = self.I.expand(ret) if isinstance(ret, Sym) else ret
        self.judge(["I06"], nm + "/result", IFF(ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, ret.d) if isinstance(ret, Enum) else BOOL(term("top", "ret")), e["ok"]), "%s for %s does not return the call's outcome" % (w, n))
        got = []
        for x in e["raw"] or []:
            k = x.f[[f for f, _ in self.d.T(self.acct_ty)["v"][0]["f"]].index("key")] if isinstance(x, Agg) else None
            t = self.tags.get(k.val.base) if isinstance(k, N) and k.var is None and isinstance(k.val, Ptr) else None
            got.append(t)
        want = {"program"} | {a for a, _, _ in self.accs} | {"rem%d" % i for i in range(rem)}
        miss = sorted(want - set(got))
        st = "proved" if not miss else "undecided" if e["raw"] is None or None in got else "violated"
        self.ob("I06", nm + "/infos", st, "%s for %s does not hand over the account %s" % (w, n, ", ".join(miss)) if miss else "")
        want = seeds or []
        ok = e["seeds"] == want
        self.ob("I06", nm + "/seeds", "proved" if ok else "undecided" if e["seeds"] is None or None in e["seeds"] else "violated", "" if ok else "%s for %s does not sign with the seeds it is given" % (w, n))
    def signer_seeds(self):
        kb = self.I.newheap(self.key("seed"), self.st)
        inner = self.slice_of([leaf(ptr(kb, (), ("s", pc(0), pc(32))))])
        outer = self.slice_of([inner])
        sd = intr.seeds_of(self.I, self.st, inner)
        return outer, [intr.flatten_seeds(intr.unleaf(sd))]
    # -------------------------------------------------------------- the ways
    def mod(self): return MOD + F.snake(self.instr) + "::" + self.instr
    def argstruct(self):
        full = self.mod() + "InstructionArgs"
        i = self.adt(full)
        self.fields(i, [a for a, _ in self.args], full)
        for n, ty in self.d.T(i)["v"][0]["f"]: self.types[n] = ty
        return self.struct(full, lambda n, ty: self.value(n, ty))
    def fields(self, i, names, what):
        have = [n for n, _ in self.d.T(i)["v"][0]["f"]]
        for n in names:
            if n not in have: raise Missing("field %s of %s" % (n, what))
    def go_struct(self):
        full = self.mod()
        i = self.adt(full); self.fields(i, [a for a, _, _ in self.accs], full)
        def mk(): return self.put(self.struct(full, lambda n, ty: self.key(n)))
        for nm, rem in (("instruction", 0), ("instruction_with_remaining_accounts", 2)):
            self.reset()
            a = [mk()] + ([self.argstruct()] if self.args else [])
            if rem: a.append(self.slice_of([self.meta(*self.rem(k)) for k in range(rem)]))
            v = self.call(full + "::" + nm, *a)
            if self.sure(nm, v): self.check_ix(v, nm, rem)
    def go_cpi(self):
        full = self.mod() + "Cpi"; LT = full + "::<'_, '_>::"
        for nm, rem, signed in (("invoke", 0, 0), ("invoke_with_remaining_accounts", 2, 0), ("invoke_signed", 0, 1), ("invoke_signed_with_remaining_accounts", 2, 1)):
            self.reset()
            i = self.adt(full + "Accounts"); self.fields(i, [a for a, _, _ in self.accs], full + "Accounts")
            a = [self.info("program"), self.struct(full + "Accounts", lambda n, ty: self.info(n))] + ([self.argstruct()] if self.args else [])
            c = self.call(LT + "new", *a)
            if c is None: self.sure(nm, None); continue
            seeds = None; x = [self.put(c)]
            if signed:
                s, seeds = self.signer_seeds(); x.append(s)
            if rem: x.append(self.slice_of([self.remtuple(k) for k in range(rem)]))
            n0 = len(self.I.events)
            v = self.call(LT + nm, *x)
            if self.sure(nm, v): self.check_cpi(v, n0, nm, rem, seeds)
    def setter(self, full, b, name, kind):
        """call one setter; afterwards the builder is still the one that was given"""
        ty = self.ptype(full + name, 2, 2)
        if kind == "acct": v = self.info(name) if self.kind == "cpibuilder" else self.key(name)
        else:
            self.types[name] = ty; v = self.value(name, ty)
        r = self.call(full + name, b, v)
        if r is None or self.st.pc is not TRUE: self.ob("I06", name + "/set", "undecided" if is_top(self.st.pc) else "violated", "%s for %s: setting %s can fail" % (WORD[self.kind], self.instr, name)); return False
        same = r is b or (isinstance(r, N) and r.var is None and isinstance(r.val, Ptr) and r.val.base == b.val.base and not r.val.path)
        if not same: self.ob("I06", name + "/set", "undecided" if not isinstance(r, N) or is_top(r) else "violated", "%s for %s: setting %s does not return the builder" % (WORD[self.kind], self.instr, name))
        return True
    def built(self, full, skip=(), order=1):
        """a builder with every published input set except those skipped"""
        self.reset()
        b = self.call(full + "new", *([self.info("program")] if self.kind == "cpibuilder" else []))
        if b is None: return None
        b = self.put(b)
        todo = [(a, "acct") for a, _, _ in self.accs] + [(a, "arg") for a, _ in self.args]
        # an account and an argument may share a name only in the interface's own order; setters are by name
        if order < 0: todo.reverse()
        for n, k in todo:
            if n in skip: self.types.setdefault(n, None); continue
            if not self.setter(full, b, n, k): return None
        return b
    def go_builder(self, cpi=False):
        full = self.mod() + ("CpiBuilder::<'_, '_>::" if cpi else "Builder::")
        opt_acc = [] if cpi else [a for a, _, _ in self.accs if a in F.DEFAULTS]
        opt_arg = [a for a, k in self.args if k == F.O]
        for nm, skip, rem, order in (("full", [], 3, 1), ("reversed", [], 0, -1), ("defaults", opt_acc + opt_arg, 0, 1)):
            if nm == "defaults" and not skip: continue
            b = self.built(full, skip, order)
            if b is None: self.sure(nm, None); continue
            if rem:
                k, s, w = self.rem(0)
                if cpi: self.call(full + "add_remaining_account", b, self.info("rem0"), w, s)
                else: self.call(full + "add_remaining_account", b, self.meta(k, s, w))
                self.call(full + "add_remaining_accounts", b, self.slice_of([self.remtuple(i) if cpi else self.meta(*self.rem(i)) for i in (1, 2)]))
            for a in opt_arg:
                if a in skip: self.types[a] = self.types[[x for x, k in self.args if k == F.U][0]]
            if not cpi:
                v = self.call(full + "instruction", b)
                if self.sure(nm, v): self.check_ix(v, nm, rem, absent=[a for a in opt_acc if a in skip], absent_args=skip)
            else:
                n0 = len(self.I.events); seeds = None
                if nm == "reversed":
                    s, seeds = self.signer_seeds(); v = self.call(full + "invoke_signed", b, s)
                else: v = self.call(full + "invoke", b)
                if self.sure(nm, v): self.check_cpi(v, n0, nm, rem, seeds, absent_args=skip)
        # nothing may be left out
        for n in [a for a, _, _ in self.accs if a not in opt_acc] + [a for a, k in self.args if k != F.O]:
            b = self.built(full, [n])
            if b is None: continue
            n0 = len(self.I.events)
            v = self.call(full + ("invoke" if cpi else "instruction"), b)
            bad = v is not None and self.st.pc is not FALSE
            self.ob("I06", "without " + n, "proved" if not bad else "undecided" if is_top(self.st.pc) or self.I.unknown else "violated", "%s for %s builds an instruction although %s was never set" % (WORD[self.kind], self.instr, n) if bad else "")
    def go_cpibuilder(self): self.go_builder(True)
    def go_native(self):
        full = "mplx_rewards::instruction::" + F.snake(self.instr)
        ps_ = F.NATIVE[self.instr]
        f = self.find(full, len(ps_) + 1)
        args = [self.put(self.key("program"))]
        for i, p in enumerate(ps_):
            ty = f["locals"][i + 2]
            if p[0] == "@":
                n = p[1:]; t = self.d.T(ty)
                if t["k"] == "ref":
                    self.types[n] = t["e"]; args.append(self.put(self.value(n, t["e"])))
                else: self.types[n] = ty; args.append(self.value(n, ty))
            else: args.append(self.put(self.key(p)))
        v = self.call(full, *args)
        given = {p for p in ps_ if p[0] != "@"}
        if self.sure("instruction", v): self.check_ix(v, "instruction", absent=[a for a, _, _ in self.accs if a not in given])
    # -------------------------------------------------------------- what the program reads back
    def go_decode(self):
        """decoding the published encoding yields exactly the published values; anything else is refused"""
        I = self.I; I.wire = True
        full = "<mplx_rewards::instruction::RewardsInstruction as borsh::BorshDeserialize>::try_from_slice"
        ei = self.d.find_adt("RewardsInstruction"); vs = self.d.T(ei)["v"]
        vi = [v["n"] for v in vs].index(self.instr)
        fields = vs[vi]["f"]
        for fn, ft in fields: self.types[fn] = ft
        for a, _ in self.args:
            if a not in self.types: raise Missing("payload field " + a)
        forms = [()] if not any(k == F.O for _, k in self.args) else [("None",), ("Some",)]
        for form in forms:
            for cut, nm in ((0, "exact"), (-1, "truncated"), (1, "trailing")):
                self.reset2(); nm = "/".join(("decode", nm) + form)
                data = self.wire_of(form)
                if cut < 0: data = data[:-1]
                if cut > 0: data = data + [leaf(ps(term("extra", nn=True, meta={"max": 255})))]
                if len(data) == 0: continue
                r = self.call(full, self.slice_of(data))
                if r is None: self.ob("I01", nm, "violated", "decoding %s panics" % self.instr); continue
                if not isinstance(r, Enum): self.ob("I01", nm, "undecided", "decoding %s" % self.instr); continue
                ok = ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d)
                if cut:
                    self.judge(["I01"], nm, NOT(ok), "the program accepts a %s %s payload" % ("truncated" if cut < 0 else "too long", self.instr)); continue
                self.judge(["I01"], nm, ok, "the program refuses the published encoding of %s" % self.instr)
                v = r.p[0][0]; v = I.expand(v) if isinstance(v, Sym) else v
                if not isinstance(v, Enum): self.ob("I01", nm + "/value", "undecided", "the decoded instruction"); continue
                self.judge(["I01"], nm + "/instruction", ap1(lambda p: TRUE if pconst(p) == vi else FALSE, v.d), "the program decodes the published encoding of %s as another instruction" % self.instr)
                got = v.p.get(vi)
                for i, (fn, ft) in enumerate(fields):
                    want = self.value(fn, ft)
                    if form and isinstance(want, Enum) and dict(self.args).get(fn) == F.O: want = enum(want.ty, num([x["n"] for x in self.d.T(ft)["v"]].index(form[0])), want.p)
                    c = self.equal(got[i], want) if got is not None else FALSE
                    self.judge(["I01"], nm + "/" + fn, c, "the program decodes %s of %s to something other than the published value" % (fn, self.instr))
        # an instruction number outside the published ones is refused
        if self.instr == F.ORDER[0]:
            for n in range(len(F.ORDER), 256):
                self.reset2()
                r = self.call(full, self.slice_of([num(n)] + [num(0)] * 200))
                r2 = self.call(full, self.slice_of([num(n)]))
                for x in (r, r2):
                    bad = ap1(lambda p: FALSE if pconst(p) == 0 else TRUE, x.d) if isinstance(x, Enum) else BOOL(term("top", "decode"))
                    if bad is not TRUE: self.judge(["I01"], "decode/unknown", bad, "the program accepts instruction number %d" % n); break
            self.ob("I01", "decode/unknown", "proved")
    def go_entry(self):
        """from the entry point: a payload that is not exactly a published encoding never succeeds"""
        ei = self.d.find_adt("RewardsInstruction"); vs = self.d.T(ei)["v"]
        vi = [v["n"] for v in vs].index(self.instr); fields = dict(vs[vi]["f"])
        for a, _ in self.args:
            if a not in fields: raise Missing("payload field " + a)
        kinds = [k for _, k in self.args]
        base = {a: 1 for a, k in self.args if k in (F.L, F.O)}
        self.last = model.find_entry(self.d)
        w = {F.K: 32, F.U: 8, F.L: 1}
        x = ps(term("stray", nn=True, meta={"max": 255}))
        def at(i, low): return (lambda d: d[:i] + [leaf(x)] + d[i + 1:], NOT(LT0(psub(x, pc(low)))))
        tests = [("trailing", lambda d: d + [leaf(x)], TRUE, {}, "with a byte behind it")]
        pos = 1
        for a, k in self.args:
            if k == F.L: tests.append(("lockup/" + a,) + at(pos, len(F.LOCKUP)) + ({}, "with an unpublished period in " + a))
            if k == F.O:
                tests.append(("option/" + a,) + at(pos, 2) + ({}, "with an unpublished option tag in " + a))
                tests.append(("trailing/none", lambda d: d + [leaf(x)], TRUE, {a: 0}, "with a byte behind it"))
            if k != F.O: pos += w[k]
        if self.args: tests.append(("truncated", lambda d: d[:-1], TRUE, {}, "that is cut short")); tests.append(("bare", lambda d: d[:1], TRUE, {}, "without its fields"))
        if self.instr == F.ORDER[0]:
            tests.append(("empty", lambda d: [], TRUE, {}, "without any byte"))
            tests.append(("number", lambda d: [leaf(x)], NOT(LT0(psub(x, pc(len(F.ORDER))))), {}, "with an unpublished number"))
            tests.append(("number/long", lambda d: [leaf(x)] + d[1:], NOT(LT0(psub(x, pc(len(F.ORDER))))), {}, "with an unpublished number"))
        for nm, edit, assume, cases, what in tests:
            R = model.run_instruction(self.d, vi, cases={**base, **cases}, assume=assume, instr=self.instr, edit=edit)
            if not R.wire: self.ob("I01", "entry/" + nm, "undecided", "the payload's types are not the published ones"); continue
            self.checked += 1; self.I.stats["fns"] |= set(R.I.stats["fns"])
            ok = FALSE
            if R.ret is not None:
                ret = R.I.expand(R.ret) if isinstance(R.ret, Sym) else R.ret
                ok = AND(R.st.pc, ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, ret.d) if isinstance(ret, Enum) else BOOL(term("top", "ret")))
            self.ob("I01", "entry/" + nm, "proved" if ok is FALSE else "undecided" if is_top(ok) or R.I.giveups else "violated", "" if ok is FALSE else "the program accepts %s payload %s" % (("an " if self.instr[0] in "AEIOU" else "a ") + self.instr, what))
    def reset2(self):
        self.st = State(TRUE, {})
    def wire_of(self, form):
        out = [num(F.DISC[self.instr])]
        for name, kind in self.args:
            ft = self.types[name]; v = self.value(name, ft)
            if kind == F.K: out += [leaf(ps(term("kbyte", v.val, i, nn=True, meta={"max": 255}))) for i in range(32)]
            elif kind == F.U: out += byts(v)
            elif kind == F.L:
                names = [x["n"] for x in self.d.T(ft)["v"]]
                if sorted(names) != sorted(F.LOCKUP): raise Missing("a lockup period type with its five periods")
                out.append(ap1(lambda p: num(F.LOCKUP.index(names[pconst(p)])), v.d))
            elif form == ("None",): out.append(num(0))
            else:
                some = [x["n"] for x in self.d.T(ft)["v"]].index("Some")
                x = v.p[some][0]
                out += [num(1)] + byts(self.I.expand(x) if isinstance(x, Sym) else x)
        return out
    def equal(self, a, b):
        """structural equality of two values of one type"""
        a = self.I.expand(a) if isinstance(a, Sym) else a; b = self.I.expand(b) if isinstance(b, Sym) else b
        if a is b: return TRUE
        if isinstance(a, N) and isinstance(b, N): return eqn(a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            r = TRUE
            for x, y in zip(a.f, b.f): r = AND(r, self.equal(x, y))
            return r
        if isinstance(a, Enum) and isinstance(b, Enum):
            r = eqn(a.d, b.d)
            for k in range(len(self.d.T(a.ty)["v"])):
                here = ap1(lambda p: TRUE if pconst(p) == k else FALSE, b.d)
                if here is FALSE: continue
                for x, y in zip(a.p.get(k, ()), b.p.get(k, ())): r = AND(r, OR(NOT(here), self.equal(x, y)))
            return r
        return BOOL(term("top", "equal"))
    # -------------------------------------------------------------- account layouts
    def go_layout(self):
        """field positions of the stored accounts in both crates, and what the client decodes from them"""
        I = self.I; I.wire = True
        fields, size, _ = F.LAYOUT[self.instr]
        side = "program" if self.d.crate == "mplx_rewards" else "client"
        i = self.d.find_adt(self.instr)
        if i is None: raise Missing("account type " + self.instr)
        t = self.d.T(i); have = {n: (o, ty) for (n, ty), o in zip(t["v"][0]["f"], t["off"])}
        if side == "program":
            at = 0
            for n, k in fields:
                ok = n in have and have[n][0] == at and self.d.T(have[n][1])["size"] == F.WIDTH[k]
                self.ob("I04", "%s.%s" % (self.instr, n), "proved" if ok else "violated", "the program does not store %s.%s at byte %d" % (self.instr, n, at))
                at += F.WIDTH[k]
            self.ob("I04", self.instr + ".size", "proved" if t["size"] == size else "violated", "the fixed part of %s is not %d bytes" % (self.instr, size))
            return
        full = t["name"]
        ln = [c for c in self.d.consts if c[0] == full + "::LEN"]
        self.ob("I04", self.instr + ".LEN", "proved" if ln and int.from_bytes(bytes.fromhex(ln[0][2]["b"]), "little") == size else "violated", "the client's %s::LEN is not %d" % (self.instr, size))
        data, want = [], {}
        for n, k in fields:
            if n not in have: raise Missing("%s.%s" % (full, n))
            x = term("stored", n); w = F.WIDTH[k]
            if k == F.K: data += [leaf(ps(term("kbyte", x, j, nn=True, meta={"max": 255}))) for j in range(32)]; want[n] = leaf(x)
            elif k == "u8x7":
                bs = [leaf(ps(term("stored", n, j, nn=True, meta={"max": 255}))) for j in range(7)]; data += bs; want[n] = agg(*bs)
            elif k == "u8":
                x.nn = True; x.meta = {"max": 255}; data.append(leaf(ps(x))); want[n] = leaf(ps(x))
            else:
                x.nn = True; x.meta = {"max": 2 ** (8 * w) - 1}
                data += [leaf(ps(term("byte", ps(x), j, w, nn=True, meta={"max": 255}))) for j in range(w)]; want[n] = leaf(ps(x))
        for nm, extra in (("exact", 0), ("with the account's list behind it", 3)):
            self.read_back(nm, full, t, want, self.call(full + "::from_bytes", self.slice_of(data + [leaf(ps(term("tail", j, nn=True, meta={"max": 255}))) for j in range(extra)])))
        fs = []
        for n, ft in self.d.T(self.acct_ty)["v"][0]["f"]:
            if n == "data": fs.append(self.put(self.slice_of(data + [leaf(ps(term("tail", j, nn=True, meta={"max": 255}))) for j in range(3)])))
            else: fs.append(sym(ft, term("info", "account", n)))
        self.read_back("account", full, t, want, self.call("<%s as std::convert::TryFrom<&solana_program::account_info::AccountInfo<'_>>>::try_from" % full, self.put(agg(*fs))))
    def read_back(self, nm, full, t, want, r):
        I = self.I
        if not isinstance(r, Enum): self.ob("I04", self.instr + "/" + nm, "undecided", "the client's %s decoder" % self.instr); return
        self.judge(["I04"], self.instr + "/" + nm, ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d), "the client refuses a stored %s" % self.instr)
        v = r.p[0][0]; v = I.expand(v) if isinstance(v, Sym) else v
        if not isinstance(v, Agg): self.ob("I04", self.instr + "/" + nm, "undecided", "the client's %s decoder" % self.instr); return
        for (n, _), got in zip(t["v"][0]["f"], v.f):
            if n in want: self.judge(["I04"], "%s/%s/%s" % (self.instr, nm, n), self.equal(got, want[n]), "the client reads %s.%s from other bytes than the program stores it in" % (self.instr, n))
    # -------------------------------------------------------------- codes, ids, addresses
    def go_codes(self):
        side = "program" if self.d.crate == "mplx_rewards" else "client"
        def codes(ty, names, prop, what):
            i = self.d.find_adt(ty)
            if i is None: self.ob(prop, ty, "violated", "%s type %s was not found" % (side, ty)); return None
            have = {v["n"]: v["d"] for v in self.d.T(i)["v"]}
            for k, n in enumerate(names): self.ob(prop, "%s/%s.%s" % (side, ty, n), "proved" if have.get(n) == k else "violated", "the %s numbers %s %s as %s, not %d" % (side, what, n, have.get(n), k))
            return i
        i = codes("MplxRewardsError", F.ERRORS, "I03", "error")
        codes("LockupPeriod", F.LOCKUP, "I04", "lockup period")
        codes("AccountType", F.ACCOUNT_TYPE, "I04", "account type")
        if side == "program":
            full = "mplx_rewards::error::<impl std::convert::From<mplx_rewards::error::MplxRewardsError> for solana_program::program_error::ProgramError>::from"
            for k, n in enumerate(F.ERRORS):
                pos = [v["n"] for v in self.d.T(i)["v"]].index(n)
                r = self.call(full, enum(i, num(pos), {pos: ()}))
                names = [v["n"] for v in self.d.T(r.ty)["v"]] if isinstance(r, Enum) else []
                if "Custom" not in names: self.ob("I03", "custom/" + n, "undecided", "the error conversion"); continue
                cu = names.index("Custom")
                c = AND(eqn(r.d, num(cu)), eqn(r.p[cu][0], num(k))) if cu in r.p else FALSE
                self.judge(["I03"], "custom/" + n, c, "the program reports %s as something other than custom error %d" % (n, k))
            self.find("mplx_rewards::id", 0)
            self.judge(["I05"], "program/id", eqn(self.call("mplx_rewards::id"), kconst(F.PROGRAM_ID)), "the program's own id is not the published one")
            o, p = self.key("owner"), self.key("pool"); m = self.key("mint"); pid = self.key("program")
            for fn, args, seeds in (("find_mining_program_address", (o, p), ("mining", o, p)), ("find_vault_program_address", (p, m), ("vault", p, m))):
                r = self.call("mplx_rewards::utils::" + fn, self.put(pid), *[self.put(a) for a in args])
                sd = (seeds[0].encode().hex(),) + tuple(x.val for x in seeds[1:])
                if not isinstance(r, Agg): self.ob("I05", fn, "undecided", fn); continue
                self.judge(["I05"], fn, AND(eqn(r.f[0], leaf(term("fpda", sd, pid.val))), eqn(r.f[1], leaf(ps(term("bump", sd, pid.val, nn=True, meta={"max": 255}))))), "%s does not derive the published address" % fn)
            b = term("arg", "bump", nn=True, meta={"max": 255})
            r = self.call("mplx_rewards::utils::create_mining_address", self.put(pid), self.put(o), self.put(p), leaf(ps(b)))
            sd = ("mining".encode().hex(), o.val, p.val, ps(b))
            if isinstance(r, Enum): self.judge(["I05"], "create_mining_address", OR(NOT(ap1(lambda q: TRUE if pconst(q) == 0 else FALSE, r.d)), eqn(r.p[0][0], leaf(term("pda", sd, pid.val)))), "create_mining_address does not derive the published address")
            else: self.ob("I05", "create_mining_address", "undecided", "create_mining_address")
        else:
            c = [c for c in self.d.consts if c[0].endswith("programs::MPLX_REWARDS_ID")]
            ok = bool(c) and c[0][2]["b"] == F.unb58(F.PROGRAM_ID)
            self.ob("I05", "client/id", "proved" if ok else "violated", "the client's program id is not the published one")
    # -------------------------------------------------------------- the account contexts the annotations generate
    def go_context(self):
        model.account_hooks(self.I, self.acct_ty)
        full = "mplx_rewards::instruction::accounts::%sAccounts::<'_>::context" % self.instr
        n = ps(term("naccts", nn=True, meta={"max": 255}))
        r = self.call(full, leaf(ptr(("accts",), (), ("s", pc(0), n))))
        if not isinstance(r, Enum) or not isinstance(r.p.get(0, (None,))[0], Agg): self.ob("I02", "context", "undecided", full); return
        need = len(self.accs); ok = ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d)
        self.judge(["I02"], "context/count", AND(self.st.pc, IFF(ok, NOT(LT0(psub(n, pc(need)))))), "the account context of %s does not ask for %d accounts" % (self.instr, need))
        v = r.p[0][0]; i = next(i for i, t in enumerate(self.d.types) if t["k"] == "adt" and t["name"] == "mplx_rewards::instruction::accounts::%sAccounts" % self.instr)
        a = v.f[0]; a = self.I.expand(a) if isinstance(a, Sym) else a
        have = dict(zip([x for x, _ in self.d.T(i)["v"][0]["f"]], a.f if isinstance(a, Agg) else ()))
        for k, (name, _, _) in enumerate(self.accs):
            g = have.get(name)
            ok = isinstance(g, N) and g.var is None and isinstance(g.val, Ptr) and g.val.base == ("accts",) and tuple(g.val.path) == (k,)
            self.ob("I02", "context/" + name, "proved" if ok else "violated" if g is None or isinstance(g, N) and g.var is None and isinstance(g.val, Ptr) else "undecided", "the account context of %s does not take %s from account %d" % (self.instr, name, k))
    # -------------------------------------------------------------- the program crate's public helpers
    def accept(self, nm, full, args, cond, msg):
        """Ok exactly under the condition, and never a panic"""
        self.st = State(TRUE, {k: v for k, v in self.st.mem.items()})
        r = self.call(full, *args)
        if r is None: self.judge(["I07"], nm + "/answers", FALSE, "%s always aborts" % nm); return None
        self.judge(["I07"], nm + "/answers", self.st.pc, "%s aborts for some inputs" % nm)
        if isinstance(r, Enum): got = ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d)
        elif isinstance(r, N): got = r
        else: self.ob("I07", nm, "undecided", nm); return None
        self.judge(["I07"], nm, IFF(got, cond), msg)
        return r
    def go_helpers(self):
        from .unit import DAY
        I = self.I; U = "mplx_rewards::utils::"; A = "mplx_rewards::asserts::"; S = "mplx_rewards::state::"
        mk = model.account_hooks(I, self.acct_ty)
        acc = lambda i: self.put(mk(i)); key = lambda i: leaf(term("key", i)); P = lambda n: leaf(term("akey", n))
        b = lambda t: BOOL(t)
        # the lockup table
        li = self.d.find_adt("LockupPeriod"); names = [v["n"] for v in self.d.T(li)["v"]]
        x = term("arg", "start", nn=True, meta={"max": 2 ** 64 - 1}); day0 = psub(ps(x), prem(ps(x), DAY))
        for n, (mult, days) in F.LOCKUP_TABLE.items():
            me = lambda: self.put(enum(li, num(names.index(n)), {names.index(n): ()}))
            self.st = State(TRUE, dict(self.st.mem))
            r = self.call(U + "LockupPeriod::multiplier", me())
            self.judge(["I07"], n + ".multiplier", eqn(r, num(mult)) if isinstance(r, N) else FALSE, "the multiplier of %s is not %d" % (n, mult))
            r = self.accept(n + ".days", U + "LockupPeriod::days", [me()], TRUE if days else FALSE, "days() answers for the wrong lockup periods (%s)" % n)
            if days and isinstance(r, Enum) and 0 in r.p: self.judge(["I07"], n + ".days.value", eqn(r.p[0][0], num(days)), "%s does not last %d days" % (n, days))
            self.st = State(LT0(psub(ps(x), pc(2 ** 62))), dict(self.st.mem))
            r = self.call(U + "LockupPeriod::end_timestamp", me(), leaf(ps(x)))
            if not isinstance(r, Enum): self.ob("I07", n + ".end", "undecided", "end_timestamp"); continue
            self.judge(["I07"], n + ".end", IFF(ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d), TRUE if days else FALSE), "end_timestamp answers for the wrong lockup periods (%s)" % n)
            if days and 0 in r.p: self.judge(["I07"], n + ".end.value", eqn(r.p[0][0], leaf(padd(day0, pc(days * DAY)))), "%s does not end %d days after the start of the day it began" % (n, days))
        # account checks
        for fn, args, cond, what in (("assert_signer", [acc(0)], b(term("signer", 0)), "the account signed"), ("assert_owned_by", [acc(0), self.put(P("k"))], eqn(leaf(term("owner", 0)), P("k")), "the account is owned by the given program"),
                                     ("assert_account_owner", [acc(0), self.put(P("k"))], eqn(leaf(term("owner", 0)), P("k")), "the account is owned by the given program"), ("assert_account_key", [acc(0), self.put(P("k"))], eqn(key(0), P("k")), "the account has the given address"),
                                     ("assert_pubkey_eq", [self.put(P("j")), self.put(P("k"))], eqn(P("j"), P("k")), "the two keys are equal"),
                                     ("assert_account_len", [acc(0), leaf(ps(term("arg", "len", nn=True, meta={"max": 2 ** 64 - 1})))], EQ0(psub(ps(term("dlen", 0, nn=True, meta={"max": 2 ** 32})), ps(term("arg", "len", nn=True, meta={"max": 2 ** 64 - 1})))), "the account holds the given number of bytes")):
            self.accept(fn, A + fn, args, cond, "%s does not accept exactly when %s" % (fn, what))
        self.st = State(TRUE, dict(self.st.mem))
        r = self.call(U + "get_delegate_mining", acc(0), acc(1))
        if isinstance(r, Enum) and isinstance(r.p.get(0, (None,))[0], Enum):
            o = r.p[0][0]
            self.judge(["I07"], "get_delegate_mining/ok", ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d), "get_delegate_mining refuses an account")
            self.judge(["I07"], "get_delegate_mining", IFF(ap1(lambda p: TRUE if pconst(p) == 1 else FALSE, o.d), NOT(eqn(key(0), key(1)))), "get_delegate_mining does not tell the mining itself from another one")
        else: self.ob("I07", "get_delegate_mining", "undecided", "get_delegate_mining")
        # account types
        ai = self.d.find_adt("AccountType"); an = [v["n"] for v in self.d.T(ai)["v"]]
        for k, n in enumerate(F.ACCOUNT_TYPE):
            self.st = State(TRUE, dict(self.st.mem))
            r = self.call("<%sAccountType as std::convert::From<u8>>::from" % S, num(k))
            self.judge(["I07"], n + ".from", eqn(r.d, num(an.index(n))) if isinstance(r, Enum) else FALSE, "account type number %d is not read as %s" % (k, n))
            r = self.call("%s<impl std::convert::From<%sAccountType> for u8>::from" % (S, S), enum(ai, num(an.index(n)), {an.index(n): ()}))
            self.judge(["I07"], n + ".into", eqn(r, num(k)) if isinstance(r, N) else FALSE, "%s is not written as account type number %d" % (n, k))
        t = term("arg", "type", nn=True, meta={"max": 255})
        self.st = State(NOT(LT0(psub(ps(t), pc(len(F.ACCOUNT_TYPE))))), dict(self.st.mem))
        r = self.call("<%sAccountType as std::convert::From<u8>>::from" % S, leaf(ps(t)))
        self.ob("I07", "AccountType.others", "proved" if r is None or self.st.pc is FALSE else "undecided" if is_top(self.st.pc) else "violated", "an unpublished account type number is accepted")
        for k, (ty, mod, wr) in enumerate((("RewardPool", "reward_pool", "RewardPool"), ("Mining", "mining", "Mining"))):
            i = self.d.find_adt(ty); tag = F.ACCOUNT_TYPE.index(ty); full = S + mod + "::" + ty
            for byte in range(len(F.ACCOUNT_TYPE)):
                rec = self.record(i, byte)
                self.accept("%s.is_initialized(%d)" % (ty, byte), "<%s as solana_program::program_pack::IsInitialized>::is_initialized" % full, [rec], TRUE if byte == tag else FALSE, "%s::is_initialized is wrong for type byte %d" % (ty, byte))
                if byte and full + "::account_type" in self.fns:
                    self.st = State(TRUE, dict(self.st.mem)); r = self.call(full + "::account_type", self.record(i, byte))
                    self.judge(["I07"], "%s.account_type(%d)" % (ty, byte), eqn(r.d, num(an.index(F.ACCOUNT_TYPE[byte]))) if isinstance(r, Enum) else FALSE, "%s::account_type misreads type byte %d" % (ty, byte))
        # the views of a stored account
        for ty, mod, views in F.VIEWS:
            for k, fn in enumerate(("WrappedImmutable%s::<'_>::from_bytes" % ty, "Wrapped%s::<'_>::from_bytes_mut" % ty)):
                full = S + mod + "::" + fn; i = 2 + k + 4 * F.VIEWS.index((ty, mod, views))
                self.st = State(TRUE, dict(self.st.mem)); I.base_ty = {b: t for b, t in I.base_ty.items() if b[0] != "view"}
                n = ps(term("dlen", i, nn=True, meta={"max": 2 ** 32}))
                self.st = State(EQ0(psub(n, pc(F.LAYOUT[ty][2]))), dict(self.st.mem))
                r = self.call(full, leaf(ptr(("data", i), (), ("s", pc(0), n))))
                if not isinstance(r, Enum) or not isinstance(r.p.get(0, (None,))[0], Agg): self.ob("I07", ty + "." + fn, "undecided", fn); continue
                self.judge(["I07"], "%s.%s" % (ty, fn), ap1(lambda p: TRUE if pconst(p) == 0 else FALSE, r.d), "%s refuses the bytes of a stored %s" % (fn, ty))
                v = r.p[0][0]
                rt = next(t for j, t in enumerate(self.d.types) if t["k"] == "adt" and t["name"] == S + mod + "::" + fn.split("::")[0])
                for (fnm, ft), got in zip(rt["v"][0]["f"], v.f):
                    off, sz = views[[x for x, _ in rt["v"][0]["f"]].index(fnm)] if len(views) == len(v.f) else (None, None)
                    e = self.d.T(self.d.T(ft)["e"])
                    ok = isinstance(got, N) and got.var is None and isinstance(got.val, Ptr) and got.val.base == ("view", i, off) and not got.val.path and e["size"] == sz
                    self.ob("I07", "%s.%s.%s" % (ty, fn, fnm), "proved" if ok else "violated" if isinstance(got, N) and got.var is None and isinstance(got.val, Ptr) else "undecided", "%s does not view %s at byte %s of the account" % (fn, fnm, off))
        # the account loader
    def record(self, i, byte):
        t = self.d.T(i); fs = []
        for n, ft in t["v"][0]["f"]:
            fs.append(agg(num(byte), *[leaf(ps(term("stored", "data", j, nn=True, meta={"max": 255}))) for j in range(1, 7)]) if n == "data" else sym(ft, term("stored", n)))
        return self.put(agg(*fs))
def byts(v):
    return [leaf(ps(term("byte", v.val, i, 8, nn=True, meta={"max": 255}))) for i in range(8)]
def eqbytes(a, b):
    def f(x, y):
        if not isinstance(x, List) or x.tail is not None: return BOOL(term("top", "bytes"))
        if len(x.e) != len(y.e): return FALSE
        r = TRUE
        for p, q in zip(x.e, y.e):
            if not isinstance(p, N): return BOOL(term("top", "bytes"))
            r = AND(r, eqn(p, q))
            if r is FALSE: break
        return r
    return ap2(f, a, b)

def unit(d, name, part):
    w = Way(d, name, part["kind"])
    own = {"struct": ("I01", "I02", "I05"), "decode": ("I01",), "entry": ("I01",), "layout": ("I04",), "codes": ("I03", "I04", "I05"), "helpers": ("I07",), "context": ("I02",)}
    try: getattr(w, "go_" + part["kind"])()
    except Missing as e:
        for p in own.get(part["kind"], ("I06",)): w.ob(p, "present", "violated", "%s for %s: %s was not found" % (WORD[part["kind"]], name, e))
    stats = {"functions": len(w.I.stats["fns"]), "giveups": len(w.I.giveups), "unknown": len(w.I.unknown), "instructions_compared": w.checked}
    return w.obs, stats
