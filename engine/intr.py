"""Models of the standard library, the Solana runtime, SPL token and the on-chain tree that the
interpreter uses instead of descending into them."""
import re
from .terms import *
from . import maps
from .interp import *
from .interp import _Un

ZERO = leaf(pc(0)); ONE = leaf(pc(1))
HANDLERS = []
def on(*rx):
    def d(fn):
        for r in rx: HANDLERS.append((re.compile(r), fn))
        return fn
    return d

# ---------------------------------------------------------------- helpers
def ex(I, v): return I.expand(v) if isinstance(v, Sym) else v
def some(I, retty, cond, val):
    p = {0: (), 1: (val,)}
    return enum(retty, ite(cond, ONE, ZERO), p)
def result(I, retty, okc, val, err):
    return enum(retty, ite(okc, ZERO, ONE), {0: (val,), 1: (err,)})
def variant_ty(I, retty, vi, fi=0):
    t = I.T(retty)
    return t["v"][vi]["f"][fi][1]
def target(I, st, v):
    """single (base,path,meta) of a pointer value or None"""
    l = I.deref(st, v)
    if len(l) == 1 and l[0][1][0] not in ("top", "dangling"): return l[0][1:]
    return None
def rdp(I, st, v):
    """value behind pointer"""
    return I.readlv(st, I.deref(st, v))
def wrp(I, st, v, x): I.writelv(st, I.deref(st, v), x)
def closure_inst(I, ty):
    t = I.T(ty)
    while t["k"] in ("ref", "ptr"): t = I.T(t["e"])
    return t.get("inst")
def call_closure(I, st, fv, fty, args):
    inst = closure_inst(I, fty)
    if inst is None:
        if isinstance(fv, N) and fv.var is None and isinstance(fv.val, T) and fv.val.op == "fn": inst = fv.val.args[0]
        else: return I.top("closure"), st
    f = I.d.fns[inst]
    t = I.T(fty)
    if t["k"] in ("ref", "ptr"):
        while True:
            e = I.T(I.T(fty)["e"])
            if e["k"] in ("ref", "ptr"): fv = rdp(I, st, fv); fty = I.T(fty)["e"]
            else: break
        t = I.T(I.T(fty)["e"])
        if t["k"] == "fndef": return I.invoke(st, inst, list(args), f.get("locals", [None] * 9)[1:1 + len(args)], None)
        return I.call_fn(st, f, [fv] + list(args))
    if t["k"] == "fndef": return I.invoke(st, inst, list(args), None, f["locals"][0] if "locals" in f else None)
    if "locals" in f and I.T(f["locals"][1])["k"] in ("ref", "ptr"):
        b = I.newheap(fv, st); fv = leaf(ptr(b))
    return I.call_fn(st, f, [fv] + list(args))
def elem_ptr(I, p, k):
    """pointer to element k of the sequence p designates (Ptr)"""
    if p.meta is not None and p.meta[0] == "s": k = padd(p.meta[1], k) if isinstance(k, Poly) else None
    c = pconst(k) if isinstance(k, Poly) else None
    if c is None: return None
    return leaf(ptr(p.base, p.path + (c,)))
def seqlen(p):
    if p.meta is not None and p.meta[0] == "s": return leaf(p.meta[2])
    return None
def divergent(I, st, f, args, argt, retty):
    I.events.append({"k": "panic", "g": st.pc, "msg": f["name"], "where": I.where()})
    return None
def as_list(I, v):
    v = ex(I, v)
    if isinstance(v, N) and v.var is None and isinstance(v.val, List): return v.val
    if isinstance(v, Agg): return lst(v.f)
    return None

# ---------------------------------------------------------------- panics / logging / formatting
@on(r"(^|::)(panic|panic_fmt|panic_nounwind\w*|unwrap_failed\w*|expect_failed|assert_failed\w*|panic_already_\w*borrowed|slice_index_fail|handle_alloc_error|panic_display|panic_explicit|panic_const_\w+|panic_str\w*|begin_panic\w*|panic_bounds_check|capacity_overflow|slice_\w+_fail|split_at_fail\w*|panic_misaligned\w*|abort_internal|abort)$", r"unwrap_failed")
def h_panic(I, st, f, args, argt, retty): return divergent(I, st, f, args, argt, retty)
@on(r"PrintProgramError>::print$", r"^solana_program::log::", r"log_compute_units|sol_log")
def h_log(I, st, f, args, argt, retty): return UNIT
@on(r"^std::fmt::format$", r"core::fmt::rt::", r"std::fmt::Arguments", r"fmt::Formatter", r"^<.* as std::fmt::(Display|Debug|Write|LowerHex|UpperHex)>::", r"core::fmt::", r"std::fmt::", r"ToString.*::to_string$", r"^alloc::fmt::", r"must_use$", r"as std::string::(SpecToString|ToString)>", r"std::string::String::")
def h_fmt(I, st, f, args, argt, retty):
    if f["name"].endswith("must_use"): return args[0]
    return leaf(term("text"))
@on(r"^<std::string::String as std::ops::Deref>::deref$", r"<std::string::String as .*as_ref")
def h_sderef(I, st, f, args, argt, retty): return leaf(ptr(("text",), (), ("s", pc(0), ps(term("textlen", nn=True)))))
@on(r"precondition_check$", r"assert_inhabited|assert_zero_valid|cold_path|assert_unsafe_precondition")
def h_nop(I, st, f, args, argt, retty): return UNIT

# ---------------------------------------------------------------- integer intrinsics
@on(r"intrinsics::saturating_(sub|add)")
def h_satur(I, st, f, args, argt, retty):
    w = I.rng(retty)
    sub = "saturating_sub" in f["name"]
    v, ov = I.arith("Sub" if sub else "Add", args[0], args[1], w)
    return ite(ov, leaf(pc(w[0] if sub else w[1])), v)
@on(r"core::num::<impl [ui]\w+>::saturating_(sub|add|mul)$")
def h_satur2(I, st, f, args, argt, retty):
    w = I.rng(retty); op = re.search(r"saturating_(\w+)$", f["name"]).group(1)
    v, ov = I.arith(op.capitalize(), args[0], args[1], w)
    return ite(ov, leaf(pc(w[0] if op == "sub" else w[1])), v)
@on(r"core::num::<impl [ui]\w+>::(wrapping|overflowing)_(sub|add|mul)$", r"intrinsics::(wrapping|\w+_with_overflow)_?(sub|add|mul)?")
def h_wrapping(I, st, f, args, argt, retty):
    m = re.search(r"(sub|add|mul)", f["name"])
    if not m: return NotImplemented
    op = m.group(1).capitalize()
    over = "overflow" in f["name"]
    ity = argt[0]
    w = I.rng(ity)
    v, ov = I.arith(op, args[0], args[1], w)
    if not isinstance(v, N): return I.top("wrap", retty)
    r = I.wrapv(v, simp(ov, st.pc), w)
    return agg(r, ov) if over else r
@on(r"core::num::<impl [ui]\w+>::checked_(sub|add|mul)$")
def h_checked(I, st, f, args, argt, retty):
    op = re.search(r"checked_(\w+)$", f["name"]).group(1).capitalize()
    v, ov = I.arith(op, args[0], args[1], I.rng(argt[0]))
    if not isinstance(v, N): return I.top("checked", retty)
    return some(I, retty, NOT(ov), v)
@on(r"core::num::<impl u\w+>::(checked_(div|rem)|div_ceil|abs_diff|pow|checked_pow|is_power_of_two|div_euclid|rem_euclid|checked_div_euclid|checked_rem_euclid|next_multiple_of|checked_next_multiple_of)$")
def h_cdiv(I, st, f, args, argt, retty):
    nm = f["name"].rsplit("::", 1)[1]
    if nm.startswith("checked_div") or nm.startswith("checked_rem"):
        z = ap1(lambda y: EQ0(y) if isinstance(y, Poly) else BOOL(term("top", "div")), args[1])
        ARITH.update(z._sup)
        return some(I, retty, NOT(z), I.divide(args[0], args[1], "rem" in nm))
    if nm in ("div_euclid", "rem_euclid"): return I.divide(args[0], args[1], nm[0] == "r")
    if nm in ("pow", "checked_pow"):
        a, b = args
        if b.var is None and pconst(b.val) is not None and pconst(b.val) <= 40:
            v = ONE; ov = FALSE
            for _ in range(pconst(b.val)):
                v, o = I.arith("Mul", v, a, I.rng(argt[0])); ov = OR(ov, o)
            if nm == "pow":
                if simp(ov, st.pc) is not FALSE: I.events.append({"k": "panic", "g": AND(st.pc, ov), "msg": "pow overflow", "where": I.where()}); st.pc = AND(st.pc, NOT(ov))
                return v
            return some(I, retty, NOT(ov), v)
    if nm == "div_ceil":
        q = I.divide(args[0], args[1]); r = I.divide(args[0], args[1], True)
        z = ap1(lambda y: EQ0(y), r)
        return ite(z, q, ap1(lambda y: leaf(padd(y, pc(1))), q))
    if nm == "abs_diff":
        lt = I.cmp("Lt", args[0], args[1])
        return ite(lt, I.num2(psub, args[1], args[0]), I.num2(psub, args[0], args[1]))
    return NotImplemented
@on(r"^std::cmp::impls::<impl std::cmp::Ord for [ui]\w+>::clamp$", r"Ord for [ui](8|16|32|64|128|size)>::clamp$")
def h_clamp(I, st, f, args, argt, retty):
    x, lo, hi = args
    bad = simp(I.cmp("Lt", hi, lo), st.pc)
    if bad is not FALSE:
        I.events.append({"k": "panic", "g": AND(st.pc, bad), "msg": "clamp", "where": I.where()})
        st = State(AND(st.pc, NOT(bad)), dict(st.mem))
        if st.pc is FALSE: return None
    return ite(I.cmp("Lt", x, lo), lo, ite(I.cmp("Lt", hi, x), hi, x)), st
@on(r"core::num::<impl [ui]\w+>::(isqrt|swap_bytes|reverse_bits|leading_zeros|trailing_zeros|count_ones|count_zeros|leading_ones|trailing_ones|rotate_left|rotate_right|next_power_of_two|ilog2|ilog10|ilog|midpoint)$", r"^std::intrinsics::(bswap|bitreverse|ctpop|ctlz|cttz|rotate_left|rotate_right)(::<.*>)?$", r"^std::f(32|64)::<impl f\d+>::\w+$", r"^core::f(32|64)::<impl f\d+>::\w+$")
def h_opaque(I, st, f, args, argt, retty):
    """a function of numbers that no rule of the program uses: known only to depend on its arguments"""
    t = I.T(retty) if retty is not None else None
    if t is None or not all(isinstance(a, N) for a in args): return NotImplemented
    nm = re.sub(r"::<.*>$", "", f["name"]).rsplit("::", 1)[1]
    if t["k"] == "int" and all(a.var is None and isinstance(a.val, Poly) and pconst(a.val) is not None for a in args): return NotImplemented
    def go(i, xs):
        if i == len(args):
            if t["k"] == "int": return leaf(ps(term("num", nm, *xs, nn=not t["s"], meta={"max": I.rng(retty)[1]})))
            if t["k"] == "bool": return BOOL(term("num", nm, *xs))
            return leaf(term("flt", nm, *xs))
        return ap1(lambda x: go(i + 1, xs + (x,)), args[i])
    return go(0, ())
@on(r"core::num::<impl .*>::(to_le_bytes|to_ne_bytes|to_be_bytes)$")
def h_lebytes(I, st, f, args, argt, retty):
    t = I.T(retty); n = t["n"]; be = "to_be" in f["name"]
    v = args[0]
    if not isinstance(v, N): return I.top("bytes", retty)
    def by(i):
        def g(x):
            if isinstance(x, Poly):
                c = pconst(x)
                if c is not None: return leaf(pc((c >> (8 * i)) & 255))
                return leaf(ps(term("byte", x, i, n, nn=True, meta={"max": 255})))
            return leaf(x)
        return ap1(g, v)
    r = [by(i) for i in range(n)]
    if be: r.reverse()
    return agg(*r)
@on(r"core::num::<impl .*>::(from_le_bytes|from_ne_bytes|from_be_bytes)$")
def h_fromle(I, st, f, args, argt, retty):
    v = ex(I, args[0])
    if isinstance(v, Agg):
        fs = list(v.f)
        if "from_be" in f["name"]: fs.reverse()
        r = join_bytes(fs)
        if r is not None: return r
        if all(isinstance(x, N) and x.var is None and isinstance(x.val, Poly) for x in fs):
            p = pc(0)
            for i, x in enumerate(fs): p = padd(p, pscale(x.val, 1 << (8 * i)))
            return leaf(p)
    return I.top("from_bytes", retty)
def join_bytes(fs):
    """inverse of to_le_bytes on a full set of bytes"""
    if not fs or not all(isinstance(x, N) for x in fs): return None
    def g(*xs):
        if all(isinstance(x, Poly) for x in xs):
            cs = [pconst(x) for x in xs]
            if all(c is not None for c in cs): return leaf(pc(sum(c << (8 * i) for i, c in enumerate(cs))))
            s = [psym(x) for x in xs]
            if all(t is not None and t.op == "byte" and t.args[1] == i and t.args[2] == len(xs) and t.args[0] is s[0].args[0] for i, t in enumerate(s)): return leaf(s[0].args[0])
        return leaf(ps(term("top", "join", nn=True)))
    r = apn(g, fs)
    return None if is_top(r) else r
@on(r"intrinsics::(ctpop|cttz\w*|ctlz\w*|exact_div|ptr_offset_from\w*|arith_offset|compare_bytes)")
def h_misc(I, st, f, args, argt, retty): return I.top("intrinsic", retty)
@on(r"intrinsics::discriminant_value|^std::mem::discriminant$")
def h_discr(I, st, f, args, argt, retty):
    v = ex(I, rdp(I, st, args[0]))
    return v.d if isinstance(v, Enum) else I.top("discriminant")
@on(r"^std::cmp::(min|max)$", r"std::cmp::Ord::(min|max)$", r"as std::cmp::Ord>::(min|max)$")
def h_minmax(I, st, f, args, argt, retty):
    if not all(isinstance(a, N) for a in args): return NotImplemented
    lt = I.cmp("Lt", args[1], args[0])
    return ite(lt, args[1], args[0]) if f["name"].endswith("min") else ite(lt, args[0], args[1])

# ---------------------------------------------------------------- memory helpers
@on(r"^std::mem::(swap|replace|take)$")
def h_swap(I, st, f, args, argt, retty):
    nm = f["name"].rsplit("::", 1)[1]
    a = rdp(I, st, args[0])
    if nm == "swap":
        b = rdp(I, st, args[1]); wrp(I, st, args[0], b); wrp(I, st, args[1], a); return UNIT
    if nm == "replace":
        wrp(I, st, args[0], args[1]); return a
    t = I.T(I.T(argt[0])["e"])
    if t["k"] == "int": z = ZERO
    elif t["k"] == "adt" and t["name"].endswith("Option"): z = enum(I.T(argt[0])["e"], ZERO, {0: ()})
    elif t["k"] == "adt" and t["name"].endswith("Vec"): z = leaf(lst(()))
    else: return NotImplemented
    wrp(I, st, args[0], z); return a
@on(r"^std::mem::(drop|forget)$")
def h_drop(I, st, f, args, argt, retty): return UNIT
@on(r"^std::ptr::(read|write)$")
def h_ptrrw(I, st, f, args, argt, retty):
    if f["name"].endswith("read"): return rdp(I, st, args[0])
    wrp(I, st, args[0], args[1]); return UNIT
@on(r"^std::intrinsics::(write_bytes|copy|copy_nonoverlapping)", r"^std::ptr::(copy|copy_nonoverlapping|write_bytes)$")
def h_wild(I, st, f, args, argt, retty):
    I.events.append({"k": "wild", "g": st.pc, "where": I.where()})
    I.havoc(st, args, argt, "raw copy")
    for a in args:
        if isinstance(a, N):
            for g, b, p, m in I.deref(st, a):
                if b[0] not in ("top", "dangling"): I.store(st, b, p, I.top("raw copy"), g)
    return UNIT

# ---------------------------------------------------------------- Rc / RefCell / Box / Cow
@on(r"^<std::(rc::Rc|sync::Arc)<.*> as std::(ops::Deref>::deref|convert::AsRef<T>>::as_ref|clone::Clone>::clone)$")
def h_rc(I, st, f, args, argt, retty):
    v = rdp(I, st, args[0])
    return v
@on(r"^std::(rc::Rc|boxed::Box|sync::Arc)::<T>::new$")
def h_rcnew(I, st, f, args, argt, retty):
    return leaf(ptr(I.newheap(args[0], st)))
@on(r"^<std::boxed::Box<T, A> as std::(convert::As(Ref|Mut)<T>>::as_(ref|mut)|ops::Deref(Mut)?>::deref(_mut)?|borrow::Borrow(Mut)?<T>>::borrow(_mut)?)$")
def h_boxref(I, st, f, args, argt, retty): return rdp(I, st, args[0])
@on(r"^std::cell::RefCell::<T>::(new|into_inner)$")
def h_refcellnew(I, st, f, args, argt, retty): return args[0]
@on(r"^std::cell::RefCell::<T>::(get_mut|as_ptr)$", r"^std::cell::Cell::<T>::as_ptr$")
def h_cellptr(I, st, f, args, argt, retty): return args[0]
@on(r"^std::cell::RefCell::<T>::(borrow|borrow_mut)$")
def h_borrow(I, st, f, args, argt, retty):
    mut = f["name"].endswith("_mut")
    c = simp(I.borrowed(st, args[0], mut), st.pc)
    if c is not FALSE:
        I.events.append({"k": "panic", "g": AND(st.pc, c), "msg": "already borrowed", "where": I.where()})
        st = State(AND(st.pc, NOT(c)), dict(st.mem))
        if st.pc is FALSE: return None
    return I.guard(st, args[0], mut), st
@on(r"^std::cell::RefCell::<T>::(try_borrow|try_borrow_mut)$")
def h_tryborrow(I, st, f, args, argt, retty):
    mut = f["name"].endswith("_mut")
    c = simp(I.borrowed(st, args[0], mut), st.pc)
    return result(I, retty, NOT(c), I.guard(st, args[0], mut, NOT(c)), UNIT)
@on(r"^<std::cell::Ref(Mut)?<'_, T> as std::ops::Deref(Mut)?>::deref(_mut)?$")
def h_refderef(I, st, f, args, argt, retty): return unguard(I, rdp(I, st, args[0]))
def unguard(I, v):
    v = ex(I, v)
    return v.f[0] if isinstance(v, Agg) and len(v.f) == 2 else v
@on(r"^std::cell::Ref(Mut)?::<'b, T>::(map|clone)$")
def h_refmap(I, st, f, args, argt, retty):
    if f["name"].endswith("clone"):
        g = ex(I, rdp(I, st, args[0]))
        return I.guard_again(st, g)
    g = ex(I, args[0])
    r = call_closure(I, st, args[1], argt[1], [unguard(I, g)])
    tok = g.f[1] if isinstance(g, Agg) and len(g.f) == 2 else UNINIT
    if r is None: return None
    if isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], State): return agg(r[0], tok), r[1]
    return agg(r, tok)
@on(r"^std::boxed::Box::<T>::new_uninit$", r"box_new_uninit$")
def h_boxuninit(I, st, f, args, argt, retty):
    b = I.newheap(UNINIT, st); return leaf(ptr(b))
@on(r"box_assume_init_into_vec_unsafe$", r"^std::slice::<impl \[T\]>::into_vec$")
def h_boxvec(I, st, f, args, argt, retty):
    v = ex(I, rdp(I, st, args[0]))
    while isinstance(v, Agg) and len(v.f) >= 1 and not is_elems(I, v, f):
        n = [x for x in v.f if x is not UNINIT]
        if len(n) != 1: break
        v = ex(I, n[0])
    if isinstance(v, Agg): return leaf(lst(v.f))
    return I.top("vec literal")
def is_elems(I, v, f):
    m = re.search(r"(\d+)>$", f["full"])
    n = int(m.group(1)) if m else None
    return n is not None and len(v.f) == n and not (n == 1 and isinstance(v.f[0], Agg) and len(v.f[0].f) == 1 and False) and not (len(v.f) == 2 and v.f[0] is UNINIT)

# ---------------------------------------------------------------- Pubkey
@on(r"<solana_program::pubkey::Pubkey as std::cmp::PartialEq>::(eq|ne)$", r"array::equality::<impl std::cmp::PartialEq<\[U; N\]> for \[T; N\]>::(eq|ne)$", r"intrinsics::raw_eq")
def h_pkeq(I, st, f, args, argt, retty):
    a, b = rdp(I, st, args[0]), rdp(I, st, args[1])
    r = eqval(I, a, b)
    return NOT(r) if f["name"].endswith("ne") or f["full"].endswith("::ne") else r
@on(r"^std::cmp::PartialEq::ne$")
def h_ne(I, st, f, args, argt, retty):
    if "Pubkey" in f["full"]:
        return NOT(eqval(I, rdp(I, st, args[0]), rdp(I, st, args[1])))
    return NotImplemented
def eqval(I, a, b):
    a, b = ex(I, a), ex(I, b)
    if isinstance(a, N) and isinstance(b, N): return I.cmp("Eq", a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
        r = TRUE
        for x, y in zip(a.f, b.f): r = AND(r, eqval(I, x, y))
        return r
    x, y = I.blob(a) if isinstance(a, (N, Agg)) else None, I.blob(b) if isinstance(b, (N, Agg)) else None
    if x is not None and y is not None: return I.cmp("Eq", x, y)
    return BOOL(term("top", "eqval", I.topn))
@on(r"^<solana_program::pubkey::Pubkey as std::default::Default>::default$")
def h_pkdef(I, st, f, args, argt, retty): return leaf(term("kconst", "00" * 32))
@on(r"^<solana_program::pubkey::Pubkey as std::clone::Clone>::clone$")
def h_pkclone(I, st, f, args, argt, retty): return rdp(I, st, args[0])
@on(r"^solana_program::pubkey::Pubkey::to_bytes$")
def h_pktob(I, st, f, args, argt, retty): return args[0]
@on(r"^solana_program::pubkey::Pubkey::(new_from_array)$", r"<solana_program::pubkey::Pubkey as std::convert::From<\[u8; 32\]>>::from")
def h_pknew(I, st, f, args, argt, retty):
    v = ex(I, args[0])
    b = I.blob(v) if isinstance(v, (N, Agg)) else None
    return b if b is not None else I.top("pubkey from bytes")
@on(r"Pubkey as std::convert::AsRef<\[u8\]>>::as_ref$", r"Pubkey::as_array$")
def h_pkref(I, st, f, args, argt, retty):
    def g(x):
        return leaf(ptr(x.base, x.path, ("s", pc(0), pc(32)))) if isinstance(x, Ptr) else leaf(x)
    return ap1(g, args[0]) if isinstance(args[0], N) else I.top("as_ref")
@on(r"^core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$", r"^core::slice::cmp::<impl std::cmp::PartialEq for \[u8\]>::(eq|ne)$", r"^core::array::equality::<impl std::cmp::PartialEq<&?\[U\]> for \[T; N\]>::(eq|ne)$", r"^core::array::equality::<impl std::cmp::PartialEq<\[U; N\]> for &?\[T\]>::(eq|ne)$")
def h_sliceeq(I, st, f, args, argt, retty):
    a, b = [slice_list(I, st, as_slice(I, st, rdp(I, st, x) if I.T(I.T(t)["e"])["k"] == "ref" else x, I.T(t)["e"] if I.T(I.T(t)["e"])["k"] == "ref" else t), "slices compared") for x, t in zip(args, argt)]
    def g(x, y):
        if not isinstance(x, List) or not isinstance(y, List): return BOOL(term("top", "slices compared"))
        if len(x.e) != len(y.e): return FALSE
        p, q = [one_key(z.e) for z in (x, y)]
        if p is not None and q is not None: return eqval(I, p, q)
        r = TRUE
        for v, w in zip(x.e, y.e): r = AND(r, eqval(I, v, w))
        return r
    r = ap2(g, a, b)
    return NOT(r) if f["name"].endswith("ne") else r
def one_key(e):
    """the key whose 32 bytes these are"""
    ks = [psym(x.val) if isinstance(x, N) and x.var is None and isinstance(x.val, Poly) else None for x in e]
    if len(e) == 32 and all(k is not None and k.op == "kbyte" and k.args[1] == i and k.args[0] is ks[0].args[0] for i, k in enumerate(ks)):
        return ks[0].args[0] if isinstance(ks[0].args[0], N) else leaf(ks[0].args[0])
    return I_const(e)
def I_const(e):
    cs = [pconst(x.val) if isinstance(x, N) and x.var is None and isinstance(x.val, Poly) else None for x in e]
    return leaf(term("kconst", "".join("%02x" % c for c in cs))) if len(e) == 32 and all(c is not None and 0 <= c < 256 for c in cs) else None
def slice_chunks(I, st, p):
    """bytes of the slice p (Ptr with meta) as a canonical tuple of chunks, or None"""
    if p.meta is None or p.meta[0] != "s": return None
    s, n = pconst(p.meta[1]), pconst(p.meta[2])
    v = I.base_val(st, p.base)
    for e in p.path: v = I.project(v, e, st)
    v = ex(I, v)
    if isinstance(v, N) and v.var is None and isinstance(v.val, List): v = agg(*v.val.e) if v.val.tail is None else v
    if isinstance(v, N): 
        if s == 0 and n == 32: return (simp(v, st.pc),)
        return None
    if isinstance(v, Agg):
        if s is None or n is None or s + n > len(v.f): return None
        out = []; run = ""
        for x in v.f[s:s+n]:
            x = ex(I, x)
            if not isinstance(x, N): return None
            k = pconst(x.val) if x.var is None and isinstance(x.val, Poly) else None
            if k is not None: run += "%02x" % (k & 255)
            else:
                if run: out.append(run); run = ""
                out.append(x)
        if run: out.append(run)
        return tuple(out)
    return None
def seeds_of(I, st, v):
    """tuple of chunks of a &[&[u8]] value"""
    t = target(I, st, v)
    if t is None: return None
    b, p, m = t
    v = I.base_val(st, b)
    for e in p: v = I.project(v, e, st)
    v = ex(I, v)
    l = as_list(I, v)
    if l is None or l.tail is not None: return None
    n = pconst(m[2]) if m is not None and m[0] == "s" else len(l.e)
    s = pconst(m[1]) if m is not None and m[0] == "s" else 0
    if n is None or s is None: return None
    out = []
    for x in l.e[s:s+n]:
        x = ex(I, x)
        x = simp(x, st.pc) if isinstance(x, N) else x
        if not (isinstance(x, N) and x.var is None and isinstance(x.val, Ptr)): return None
        c = slice_chunks(I, st, x.val)
        if c is None: return None
        out.append(c)
    return tuple(out)
def unleaf(c):
    def u(x):
        if isinstance(x, N) and x.var is None: return x.val
        return x
    return tuple(tuple(u(y) for y in x) for x in c)
@on(r"Pubkey::(create_program_address|find_program_address|try_find_program_address)$")
def h_pda(I, st, f, args, argt, retty):
    sd = seeds_of(I, st, args[0]); pid = rdp(I, st, args[1])
    if sd is None or not isinstance(pid, N):
        return I.top("pda", retty)
    sd = unleaf(sd); pidv = pid.val if pid.var is None else pid
    flat = flatten_seeds(sd)
    if f["name"].endswith("create_program_address"):
        last = sd[-1][0] if sd and len(sd[-1]) == 1 else None
        t = psym(last) if isinstance(last, Poly) else None
        if t is not None and t.op == "bump" and t.args[0] == flatten_seeds(sd[:-1]) and t.args[1] is pidv:
            return result(I, retty, TRUE, leaf(term("fpda", t.args[0], pidv)), UNINIT)
        k = term("pda", flat, pidv)
        return result(I, retty, BOOL(term("pda_ok", flat, pidv)), leaf(k), I.top("pda err", variant_ty(I, retty, 1)))
    v = agg(leaf(term("fpda", flat, pidv)), leaf(ps(term("bump", flat, pidv, nn=True, meta={"max": 255}))))
    if f["name"].endswith("try_find_program_address"): return some(I, retty, TRUE, v)
    return v
def flatten_seeds(sd):
    """concatenate the seed chunks (the address only depends on the concatenation)"""
    out = []
    for c in sd:
        for x in c:
            if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
    return tuple(out)

# ---------------------------------------------------------------- runtime
@on(r"<impl solana_program::sysvar::Sysvar for solana_program::clock::Clock>::get$", r"<impl solana_program::sysvar::Sysvar for solana_program::rent::Rent>::get$", r"Sysvar for .*>::(get|from_account_info)$")
def h_sysvar(I, st, f, args, argt, retty):
    ty = variant_ty(I, retty, 0)
    nm = I.T(ty)["name"].rsplit("::", 1)[1].lower()
    return result(I, retty, BOOL(term(nm + "_ok")), I.expand(sym(ty, term(nm))), I.top("sysvar err", variant_ty(I, retty, 1)))
@on(r"rent::Rent::(minimum_balance|is_exempt)$")
def h_rent(I, st, f, args, argt, retty):
    a = tuple(args[1:])
    if f["name"].endswith("minimum_balance"): return leaf(ps(term("minbal", *a, nn=True)))
    return BOOL(term("is_exempt", *a))
@on(r"^solana_program::program::(invoke|invoke_signed|invoke_unchecked|invoke_signed_unchecked)$")
def h_invoke(I, st, f, args, argt, retty):
    ix = ex(I, rdp(I, st, args[0]))
    infos = raw = None
    t = target(I, st, args[1])
    if t is not None:
        v = I.base_val(st, t[0])
        for e in t[1]: v = I.project(v, e, st)
        l = as_list(I, v)
        if l is not None and l.tail is None:
            infos = []; raw = []
            for x in l.e:
                x = ex(I, x); raw.append(x)
                infos.append(account_index(I, st, x))
    seeds = None
    if len(args) > 2:
        t = target(I, st, args[2])
        if t is not None:
            v = I.base_val(st, t[0])
            for e in t[1]: v = I.project(v, e, st)
            l = as_list(I, v)
            if l is not None and l.tail is None:
                seeds = []
                for x in l.e:
                    sd = seeds_of(I, st, ex(I, x))
                    seeds.append(flatten_seeds(unleaf(sd)) if sd is not None else None)
    else: seeds = []
    I.cpis += 1
    n = I.cpis
    ok = BOOL(term("cpi_ok", n))
    hl = held(I, st, ix, infos) if "unchecked" not in f["name"] else FALSE
    ok = AND(ok, NOT(hl))
    I.events.append({"k": "cpi", "g": st.pc, "n": n, "ix": ix, "infos": infos, "raw": raw, "seeds": seeds, "where": I.where(), "ok": ok, "held": hl})
    st.mem[("X", "cpi", n)] = TRUE
    return result(I, retty, ok, UNIT, I.top("cpi err", variant_ty(I, retty, 1)))
PASSES = {"spl_token::instruction::transfer": (1, 2), "spl_token::instruction::initialize_account": (1,), "system_instruction::create_account": (0, 1), "system_instruction::transfer": (0, 1), "system_instruction::allocate": (0,), "system_instruction::assign": (0,)}
def held(I, st, ix, infos):
    """when one of the accounts the call passes on is still borrowed here"""
    r = FALSE
    if not infos or not any(k[0] == "BT" for k in st.mem): return r
    for g, t in gates(ix, TRUE) if isinstance(ix, N) else []:
        if not (isinstance(t, T) and t.op == "ix"): continue
        keys = symbols(leaf(t))
        w = PASSES.get(t.args[0], ())
        wk = set()
        for j in w:
            if j + 1 < len(t.args) and isinstance(t.args[j + 1], N): wk |= symbols(t.args[j + 1])
        for i in {i for i in infos if i is not None}:
            k = term("key", i)
            if k not in keys: continue
            for c in ("rcl", "rcd"): r = OR(r, AND(g, I.borrowed(st, leaf(ptr((c, i))), k in wk)))
    return simp(r, st.pc)
def account_index(I, st, x):
    """index of the account an AccountInfo value denotes"""
    if isinstance(x, Agg) and x.f and isinstance(x.f[0], N):
        k = simp(x.f[0], st.pc)
        if k.var is None and isinstance(k.val, Ptr) and k.val.base[0] == "key": return k.val.base[1]
    return None
@on(r"^solana_program::program::set_return_data$")
def h_retdata(I, st, f, args, argt, retty):
    t = target(I, st, args[0]); data = None
    if t is not None:
        v = I.base_val(st, t[0])
        for e in t[1]: v = I.project(v, e, st)
        l = as_list(I, v)
        if l is not None and l.tail is None: data = l.e
    I.events.append({"k": "retdata", "g": st.pc, "data": data, "where": I.where()})
    return UNIT
@on(r"^spl_token::instruction::(transfer|transfer_checked|initialize_account\d?|close_account|mint_to|burn|approve|set_authority|sync_native|revoke)$", r"^solana_program::system_instruction::(create_account|transfer|allocate|assign|create_account_with_seed)$")
def h_ix(I, st, f, args, argt, retty):
    nm = f["name"].replace("solana_program::", "")
    vals = []
    for a, ty in zip(args, argt):
        t = I.T(ty) if ty is not None else None
        if t is not None and t["k"] == "ref":
            e = I.T(t["e"])
            if e["k"] == "slice":
                tg = target(I, st, a)
                n = pconst(tg[2][2]) if tg is not None and tg[2] is not None and tg[2][0] == "s" else None
                vals.append(leaf(pc(n)) if n is not None else leaf(term("top", "signers", I.topn)))
            else: vals.append(ex(I, rdp(I, st, a)))
        else: vals.append(ex(I, a))
    vals = [v if isinstance(v, N) else leaf(term("top", "ixarg", I.topn)) for v in vals]
    t = term("ix", nm, *vals)
    if I.T(retty)["k"] == "adt" and I.T(retty)["name"].endswith("Result"):
        return result(I, retty, TRUE, leaf(t), UNINIT)
    return leaf(t)
@on(r"as solana_program::program_pack::Pack>::unpack(_unchecked|_from_slice)?$", r"^solana_program::program_pack::Pack::unpack(_unchecked)?$", r"program_pack::Pack.*::unpack\w*$")
def h_unpack(I, st, f, args, argt, retty):
    ty = variant_ty(I, retty, 0)
    nm = I.T(ty)["name"].rsplit("::", 1)[1]
    p = simp(args[0], st.pc) if isinstance(args[0], N) else None
    if p is None or p.var is not None or not isinstance(p.val, Ptr): return I.top("unpack", retty)
    p = p.val
    src = p.base if not p.path else (p.base, p.path)
    ep = I.cpis
    checked = not f["name"].endswith(("unchecked", "from_slice"))
    t = term("spl", nm, src, ep)
    ok = AND(BOOL(term("spl_ok", nm, src, ep)), BOOL(term("spl_init", nm, src, ep)) if checked else TRUE)
    return result(I, retty, ok, I.expand(sym(ty, t)), I.top("unpack err", variant_ty(I, retty, 1)))
@on(r"ZeroCopy(>)?::load_(mut_)?bytes$")
def h_load(I, st, f, args, argt, retty):
    rt = variant_ty(I, retty, 1)
    ty = I.T(rt)["e"]; size = I.T(ty)["size"]
    a = simp(args[0], st.pc) if isinstance(args[0], N) else None
    if a is None: return I.top("load", retty)
    def g(x):
        if isinstance(x, Ptr) and x.meta is not None and x.meta[0] == "s" and pconst(x.meta[1]) is not None and x.base[0] == "data":
            off = pconst(x.meta[1]); b = ("view", x.base[1], off)
            old = I.base_ty.get(b)
            if old is not None and old != ty: return I.top("two views of the same bytes")
            I.base_ty[b] = ty
            return leaf(ptr(b))
        return I.top("load of unknown bytes")
    v = ap1(g, a)
    ok = ap1(lambda x: NOT(LT0(psub(x.meta[2], pc(size)))) if isinstance(x, Ptr) and x.meta is not None and x.meta[0] == "s" else BOOL(term("top", "fits")), a)
    return some(I, retty, ok, v)

# ---------------------------------------------------------------- borsh
@on(r"as borsh::BorshDeserialize>::(try_from_slice|deserialize|deserialize_reader|try_from_reader)$", r"^borsh::(from_slice|from_reader)$", r"^borsh::BorshDeserialize::")
def h_borsh_de(I, st, f, args, argt, retty):
    ty = variant_ty(I, retty, 0)
    if I.arg_enum is not None and I.T(ty)["k"] == "adt" and I.T(ty)["name"].endswith(I.arg_enum[0]):
        vi = I.arg_enum[1]
        vv = I.T(ty)["v"][vi]
        def field(fn, ft):
            x = I.expand(sym(ft, term("arg", fn)))
            if fn in I.arg_cases and isinstance(x, Enum): x = enum(x.ty, leaf(pc(I.arg_cases[fn])), x.p)
            return x
        v = enum(ty, leaf(pc(vi)), {vi: tuple(field(fn, ft) for fn, ft in vv["f"])})
        return result(I, retty, BOOL(term("decode_ok")), v, I.top("decode err", variant_ty(I, retty, 1)))
    if I.wire and f["name"].endswith("::deserialize_reader"):
        t = I.T(ty)
        n = t["w"] // 8 if t["k"] == "int" else 32 if I.is_pubkey(ty) else t["n"] if t["k"] == "array" and I.T(t["e"]).get("w") == 8 else None
        if n is not None: return read_wire(I, st, args[0], ty, n, retty)
    return NotImplemented
def read_wire(I, st, rd, ty, n, retty):
    """the wire format's primitive values: n bytes taken from the front of the reader"""
    sl = rdp(I, st, rd)
    p = simp(sl, st.pc) if isinstance(sl, N) else None
    if p is None or p.var is not None or not isinstance(p.val, Ptr) or p.val.meta is None or pconst(p.val.meta[1]) is None or pconst(p.val.meta[2]) is None: return I.top("reader", retty)
    x = p.val; s, ln = pconst(x.meta[1]), pconst(x.meta[2])
    if ln < n: return result(I, retty, FALSE, UNINIT, I.top("eof", variant_ty(I, retty, 1)))
    els = slice_elems(I, st, ptr(x.base, x.path, ("s", pc(s), pc(n))))
    if els is None: return I.top("reader bytes", retty)
    wrp(I, st, rd, leaf(ptr(x.base, x.path, ("s", pc(s + n), pc(ln - n)))))
    t = I.T(ty)
    if n == 1 and t["k"] == "int": v = els[0]
    elif t["k"] == "array": v = agg(*els)
    elif t["k"] == "int": v = join_bytes(els)
    else:
        ks = [psym(e.val) if isinstance(e, N) and e.var is None and isinstance(e.val, Poly) else None for e in els]
        v = None
        if all(k is not None and k.op == "kbyte" and k.args[1] == i and k.args[0] is ks[0].args[0] for i, k in enumerate(ks)): v = leaf(ks[0].args[0])
    if v is None: v = leaf(term("mix", ty, tuple(els)))      # bytes of different values put together: no known value
    return result(I, retty, TRUE, v, UNINIT)
@on(r"io::(impls::)?<impl std::io::Write for std::vec::Vec<u8, A>>::write_all$", r"as std::io::Write>::write_all$")
def h_writeall(I, st, f, args, argt, retty):
    p = simp(args[1], st.pc) if isinstance(args[1], N) else None
    els = slice_elems(I, st, p.val) if p is not None and p.var is None and isinstance(p.val, Ptr) else None
    wrp(I, st, args[0], grown(I, rdp(I, st, args[0]), els, "write_all"))
    return result(I, retty, TRUE, UNIT, UNINIT)
@on(r"^(std|core)::(slice|array)::(raw::)?from_ref$")
def h_fromref(I, st, f, args, argt, retty):
    b = I.newheap(agg(rdp(I, st, args[0])), st)
    return leaf(ptr(b, (), ("s", pc(0), pc(1)) if "slice" in f["name"] else None))
def grown(I, v, els, why):
    """a vector value with elements appended"""
    v = ex(I, v)
    if isinstance(v, Agg): v = leaf(lst(v.f))
    if els is None or not isinstance(v, N): return I.top(why)
    return ap1(lambda y: leaf(lst(y.e + tuple(els), y.tail)) if isinstance(y, List) else I.top(why), v)
def slice_elems(I, st, p):
    """element values of a concrete slice"""
    v = I.base_val(st, p.base)
    for e in p.path: v = I.project(v, e, st)
    v = ex(I, v)
    if isinstance(v, N) and v.var is not None: v = simp(v, st.pc)
    if p.meta is None or p.meta[0] != "s": return None
    s, n = pconst(p.meta[1]), pconst(p.meta[2])
    if s is None or n is None: return None
    if isinstance(v, N) and v.var is None and isinstance(v.val, T) and s + n <= 32 and (n == 32 or v.val.op in ("key", "f", "pda", "pda0", "kconst", "owner")):
        return [leaf(ps(term("kbyte", v.val, i, nn=True, meta={"max": 255}))) for i in range(s, s + n)]
    if isinstance(v, N) and n == 32 and s == 0 and as_list(I, v) is None:
        return [leaf(ps(term("kbyte", v, i, nn=True, meta={"max": 255}))) for i in range(32)]
    l = as_list(I, v)
    if l is None or l.tail is not None or s + n > len(l.e): return None
    return list(l.e[s:s+n])

def slice_list(I, st, s, why):
    """the list a slice pointer designates, alternative by alternative"""
    s = simp(s, st.pc) if isinstance(s, N) else None
    if s is None: return I.top(why)
    out = None
    for g, p in gates(s, TRUE):
        e = slice_elems(I, State(AND(st.pc, g), st.mem), p) if isinstance(p, Ptr) else None
        x = leaf(lst(tuple(e))) if e is not None else I.top(why)
        out = x if out is None else ite(g, x, out)
    return out if out is not None else I.top(why)
# ---------------------------------------------------------------- slices, arrays, Vec
@on(r"^core::slice::<impl \[T\]>::(iter|iter_mut)$")
def h_iter(I, st, f, args, argt, retty):
    a = args[0]
    if not isinstance(a, N): return I.top("iter")
    ln = ap1(lambda x: leaf(x.meta[2]) if isinstance(x, Ptr) and x.meta is not None and x.meta[0] == "s" else leaf(ps(term("top", "len", nn=True))), a)
    return agg(a, ZERO, ln)
@on(r"^core::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\[T\]>::into_iter$")
def h_iter2(I, st, f, args, argt, retty): return h_iter(I, st, f, args, argt, retty)
@on(r"IntoIterator for &'a (mut )?(std::vec::)?Vec<T, A>.*into_iter$", r"^<&'a (mut )?std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"^<&'a (mut )?\[T; N\] as std::iter::IntoIterator>::into_iter$", r"IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def h_iter3(I, st, f, args, argt, retty):
    s = as_slice(I, st, args[0], argt[0])
    return h_iter(I, st, f, [s], argt, retty)
def as_slice(I, st, v, ty):
    """slice pointer for a pointer to a Vec/array"""
    e = I.T(I.T(ty)["e"]) if ty is not None and I.T(ty)["k"] in ("ref", "ptr") else None
    def g(x):
        if not isinstance(x, Ptr): return leaf(x)
        if x.meta is not None and x.meta[0] == "s": return leaf(x)
        if e is not None and e["k"] == "array": return leaf(ptr(x.base, x.path, ("s", pc(0), pc(e["n"]))))
        val = I.load(st, x.base, x.path); val = ex(I, val)
        val = simp(val, st.pc) if isinstance(val, N) else val
        if isinstance(val, N): return ap1(lambda y: leaf(ptr(x.base, x.path, ("s", pc(0), list_len(y)))) if isinstance(y, List) else I.top("slice of opaque"), val)
        if isinstance(val, Agg): return leaf(ptr(x.base, x.path, ("s", pc(0), pc(len(val.f)))))
        return I.top("slice of opaque")
    return ap1(g, v) if isinstance(v, N) else I.top("as_slice")
def list_len(y):
    n = pc(len(y.e))
    if y.tail is not None: n = padd(n, ps(term("llen", y.tail, nn=True, meta={"max": 2**32})))
    return n
@on(r"^<std::vec::Vec<T, A> as std::ops::Deref(Mut)?>::deref(_mut)?$", r"^std::vec::Vec::<T, A>::as_(mut_)?slice$", r"^<(std::vec::)?Vec<T, A> as std::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)$", r"^std::array::<impl .*\[T; N\]>::as_(mut_)?(slice|ref)$", r"^<std::vec::Vec<T, A> as std::borrow::Borrow(Mut)?<\[T\]>>::borrow(_mut)?$", r"array::<impl std::convert::AsRef<\[T\]> for \[T; N\]>::as_ref$")
def h_deref(I, st, f, args, argt, retty): return as_slice(I, st, args[0], argt[0])
@on(r"convert::AsRef<\[T\]> for \[T\]>::as_ref$", r"str::<impl str>::as_bytes$", r"AsRef<\[u8\]> for str>::as_ref$", r"^<\[T\] as std::convert::AsRef<\[T\]>>::as_ref$")
def h_ident(I, st, f, args, argt, retty): return args[0]
@on(r"^core::slice::<impl \[T\]>::(len|is_empty)$", r"^std::vec::Vec::<T, A>::(len|is_empty)$", r"str::<impl str>::len$")
def h_len(I, st, f, args, argt, retty):
    s = as_slice(I, st, args[0], argt[0])
    n = ap1(lambda x: leaf(x.meta[2]) if isinstance(x, Ptr) and x.meta is not None and x.meta[0] == "s" else leaf(ps(term("top", "len", nn=True))), s)
    if f["name"].endswith("is_empty"): return ap1(lambda x: EQ0(x), n)
    return n
@on(r"^core::slice::<impl \[T\]>::split_at(_mut)?(_unchecked|_checked)?$", r"^core::slice::<impl \[T\]>::split_at_mut_checked$")
def h_split(I, st, f, args, argt, retty):
    s, mid = args[0], args[1]
    if not isinstance(s, N) or not isinstance(mid, N): return I.top("split", retty)
    bad = ap2(lambda x, m: LT0(psub(x.meta[2], m)) if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" and isinstance(m, Poly) else BOOL(term("top", "split")), s, mid)
    l = ap2(lambda x, m: leaf(ptr(x.base, x.path, ("s", x.meta[1], m))) if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" and isinstance(m, Poly) else I.top("split"), s, mid)
    r = ap2(lambda x, m: leaf(ptr(x.base, x.path, ("s", padd(x.meta[1], m), psub(x.meta[2], m)))) if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" and isinstance(m, Poly) else I.top("split"), s, mid)
    if f["name"].endswith("_checked"): return some(I, retty, NOT(bad), agg(l, r))
    bad = simp(bad, st.pc)
    if bad is not FALSE:
        I.events.append({"k": "panic", "g": AND(st.pc, bad), "msg": "split_at", "where": I.where()})
        st = State(AND(st.pc, NOT(bad)), dict(st.mem))
        if st.pc is FALSE: return None
    return agg(l, r), st
def bounds(I, st, r, rty):
    """(lo, hi|None) polys of a range value"""
    nm = I.T(rty)["name"].rsplit("::", 1)[1]
    v = ex(I, r)
    fs = list(v.f) if isinstance(v, Agg) else []
    one = lambda i: fs[i].val if i < len(fs) and isinstance(fs[i], N) and fs[i].var is None and isinstance(fs[i].val, Poly) else None
    if nm == "Range": return one(0), one(1), True
    if nm == "RangeFrom": return one(0), None, True
    if nm == "RangeTo": return pc(0), one(0), True
    if nm == "RangeFull": return pc(0), None, True
    if nm == "RangeInclusive": 
        b = one(1); return one(0), padd(b, pc(1)) if b is not None else None, b is not None
    if nm == "RangeToInclusive":
        b = one(0); return pc(0), padd(b, pc(1)) if b is not None else None, b is not None
    return None, None, False
@on(r"slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$", r"^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$", r"^core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$", r"^core::slice::<impl \[T\]>::get(_mut)?$", r"^core::slice::<impl \[T\]>::get_unchecked(_mut)?$")
def h_index(I, st, f, args, argt, retty):
    s = as_slice(I, st, args[0], argt[0])
    if not isinstance(s, N): return I.top("index", retty)
    get = bool(re.search(r"::get(_mut)?$", f["name"]))
    it = I.T(argt[1])
    if it["k"] == "int":
        i = args[1]
        bad = ap2(lambda x, k: NOT(LT0(psub(k, x.meta[2]))) if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" and isinstance(k, Poly) else BOOL(term("top", "idx")), s, i)
        def g(x, k):
            if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" and isinstance(k, Poly):
                c = pconst(padd(x.meta[1], k))
                if c is not None: return leaf(ptr(x.base, x.path + (c,)))
            return I.top("symbolic index")
        v = ap2(g, s, i)
    else:
        lo, hi, okk = bounds(I, st, args[1], argt[1])
        if not okk or lo is None: return I.top("range", retty)
        def hh(x): return hi if hi is not None else x.meta[2]
        bad = ap1(lambda x: OR(LT0(psub(x.meta[2], hh(x))), LT0(psub(hh(x), lo))) if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" else BOOL(term("top", "idx")), s)
        v = ap1(lambda x: leaf(ptr(x.base, x.path, ("s", padd(x.meta[1], lo), psub(hh(x), lo)))) if isinstance(x, Ptr) and x.meta and x.meta[0] == "s" else I.top("range"), s)
    if get: return some(I, retty, NOT(bad), v)
    bad = simp(bad, st.pc)
    if bad is not FALSE:
        I.events.append({"k": "panic", "g": AND(st.pc, bad), "msg": "index", "where": I.where()})
        st = State(AND(st.pc, NOT(bad)), dict(st.mem))
        if st.pc is FALSE: return None
    return v, st
@on(r"^core::slice::<impl \[T\]>::(first|last)(_mut)?$")
def h_first(I, st, f, args, argt, retty):
    s = simp(args[0], st.pc) if isinstance(args[0], N) else None
    if s is None or s.var is not None or not isinstance(s.val, Ptr) or s.val.meta is None: return I.top("first", retty)
    n = pconst(s.val.meta[2])
    if n is None: return NotImplemented
    if n == 0: return some(I, retty, FALSE, UNINIT)
    return some(I, retty, TRUE, elem_ptr(I, s.val, pc(0 if "first" in f["name"] else n - 1)))
@on(r"^core::slice::<impl \[T\]>::(fill|copy_from_slice|clone_from_slice)$", r"program_memory::sol_mem(set|cpy|move)$")
def h_fill(I, st, f, args, argt, retty):
    nm = f["name"].rsplit("::", 1)[1]
    for g, b, p, m in I.deref(st, args[0]):
        if b[0] == "data":
            v = args[1] if nm in ("fill", "sol_memset") else leaf(term("top", "copied"))
            n = m[2] if m is not None and m[0] == "s" else None
            if nm == "sol_memset": n = args[2].val if isinstance(args[2], N) and args[2].var is None else None
            I.events.append({"k": "fill", "g": AND(st.pc, g), "acct": b[1], "start": m[1] if m else None, "n": n, "val": v, "where": I.where()})
            for vb in [x for x in list(I.base_ty) if x[0] == "view" and x[1] == b[1]]:
                zero = isinstance(v, N) and v.var is None and isinstance(v.val, Poly) and pconst(v.val) == 0
                lo = pconst(m[1]) if m is not None and m[0] == "s" else None
                hi = lo + pconst(n) if lo is not None and isinstance(n, Poly) and pconst(n) is not None else None
                if lo is not None and hi is not None and hi <= vb[2]: continue          # ends before this part
                if hi is not None or lo != 0: zero = zero and lo is not None and lo <= vb[2] and (hi is None or hi >= I.T(I.base_ty[vb])["size"] + vb[2])
                nv = I.zero_val(I.base_ty[vb]) if zero else I.top("filled", I.base_ty[vb])
                old = I.base_val(st, vb)
                st.mem[vb] = I.merge(restrict(g, st.pc), nv, old) if g is not TRUE else nv
        else:
            l = as_list(I, I.load(st, b, p)) if b[0] not in ("top", "dangling") else None
            if nm in ("copy_from_slice", "clone_from_slice"):
                src = simp(args[1], st.pc)
                e = slice_elems(I, st, src.val) if src.var is None and isinstance(src.val, Ptr) else None
            elif nm == "fill" and l is not None and m is not None and pconst(m[2]) is not None: e = [args[1]] * pconst(m[2])
            else: e = None
            if l is None or e is None or l.tail is not None or m is None or pconst(m[1]) is None:
                if b[0] not in ("top",): I.store(st, b, p, I.top("fill"), g)
                I.events.append({"k": "wild", "g": AND(st.pc, g), "where": I.where()})
            else:
                s = pconst(m[1]); els = list(l.e); els[s:s+len(e)] = e
                cur = ex(I, I.load(st, b, p))
                I.store(st, b, p, agg(*els) if isinstance(cur, Agg) else leaf(lst(els)), g)
    return UNIT
@on(r"^core::slice::<impl \[T\]>::(to_vec|to_owned)$", r"^std::slice::<impl \[T\]>::(to_vec|into_vec)$", r"ToOwned for \[T\]>::to_owned$", r"std::vec::Vec<T> as std::convert::From<&\[T\]>>::from", r"^<std::vec::Vec<T, A> as std::clone::Clone>::clone$")
def h_tovec(I, st, f, args, argt, retty):
    s = as_slice(I, st, args[0], argt[0])
    if isinstance(s, N) and s.var is not None: return slice_list(I, st, s, "to_vec")
    if isinstance(s, N) and s.var is None and isinstance(s.val, Ptr):
        e = slice_elems(I, st, s.val)
        if e is not None: return leaf(lst(e))
        v = ex(I, I.load(st, s.val.base, s.val.path))
        if isinstance(v, N) and all(isinstance(x, List) for x in leaves(v)): return v
    return I.top("to_vec")
@on(r"^std::vec::Vec::<T>::(new|with_capacity)$", r"^std::vec::Vec::<T, A>::(new_in|with_capacity_in)$", r"^<std::vec::Vec<T> as std::default::Default>::default$")
def h_vecnew(I, st, f, args, argt, retty): return leaf(lst(()))
@on(r"^std::vec::Vec::<T, A>::(reserve|reserve_exact|shrink_to_fit)$")
def h_reserve(I, st, f, args, argt, retty): return UNIT
@on(r"^std::vec::Vec::<T, A>::(push|push_mut)$")
def h_push(I, st, f, args, argt, retty):
    v = ex(I, rdp(I, st, args[0]))
    if isinstance(v, N): wrp(I, st, args[0], ap1(lambda y: leaf(lst(y.e + (args[1],), y.tail)) if isinstance(y, List) else I.top("push"), v))
    else: wrp(I, st, args[0], I.top("push"))
    return UNIT if f["name"].endswith("push") else args[0]
@on(r"^std::vec::Vec::<T, A>::(extend_from_slice|append)$")
def h_extend(I, st, f, args, argt, retty):
    a = ex(I, rdp(I, st, args[0]))
    if isinstance(a, Agg): a = leaf(lst(a.f))
    pt = I.T(argt[1]) if argt is not None else {"k": ""}
    if pt["k"] in ("ref", "ptr") and I.T(pt["e"])["k"] == "adt":       # a vector
        b = ex(I, rdp(I, st, args[1]))
        if isinstance(b, Agg): b = leaf(lst(b.f))
        if f["name"].endswith("append"): wrp(I, st, args[1], leaf(lst(())))
    else: b = slice_list(I, st, as_slice(I, st, args[1], argt[1]), "extend")
    if isinstance(a, N) and isinstance(b, N): wrp(I, st, args[0], ap2(lambda x, y: leaf(lst(x.e + y.e, x.tail)) if isinstance(x, List) and isinstance(y, List) and y.tail is None else I.top("extend"), simp(a, st.pc), simp(b, st.pc)))
    else: wrp(I, st, args[0], I.top("extend"))
    return UNIT
@on(r"^<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$", r"array::.*IntoIterator for \[T; N\]>::into_iter$", r"^<\[T; N\] as std::iter::IntoIterator>::into_iter$")
def h_intoiter(I, st, f, args, argt, retty):
    v = ex(I, args[0])
    if isinstance(v, Agg): v = leaf(lst(v.f))
    if not isinstance(v, N): return I.top("into_iter")
    b = I.newheap(v, st)
    n = ap1(lambda y: leaf(list_len(y)) if isinstance(y, List) else leaf(ps(term("top", "len", nn=True))), v)
    return agg(leaf(ptr(b, (), ("s", pc(0), pc(0)))), ZERO, n)
SEQ = r"<std::(slice::Iter(Mut)?<'a, T>|vec::IntoIter<T, A>|array::IntoIter<T, N>|slice::Iter(Mut)?<'_, T>)"
def seq_elem(I, st, p, k, byval):
    """element designated by Ptr p at Poly k"""
    v = None
    if isinstance(p, Ptr):
        e = elem_ptr(I, p, k)
        cont = ex(I, I.load(st, p.base, p.path)) if p.base[0] not in ("top", "dangling") else None
        if isinstance(cont, N):
            ls = [x for x in leaves(simp(cont, st.pc))]
            tails = {x.tail for x in ls if isinstance(x, List)}
            if len(ls) == 1 and isinstance(ls[0], List) and ls[0].tail is not None and ls[0].tail.op == "coll":
                I.symbolic_next = True
                v = I.coll_elem(ls[0].tail, k)
                if not byval:
                    b = ("H", "ce", ls[0].tail, k)
                    st.mem[b] = v
                    return leaf(ptr(b))
                return v
            if any(t is not None for t in tails):
                I.symbolic_next = True
                return I.top("element of opaque list")
        if e is not None:
            return I.readlv(st, I.deref(st, e)) if byval else e
    I.symbolic_next = True
    return I.top("element at symbolic position")
def seq_next(I, st, it, back, byval):
    """(cond, value, newit)"""
    it = ex(I, it)
    if not (isinstance(it, Agg) and len(it.f) == 3): return None
    a, fr, bk = [simp(x, st.pc) if isinstance(x, N) else x for x in it.f]
    if not all(isinstance(x, N) for x in (a, fr, bk)): return None
    c = simp(I.cmp("Lt", fr, bk), st.pc)
    if c is not FALSE and c is not TRUE and not (a.var is None and isinstance(a.val, Ptr) and a.val.base == ("accts",)): I.symbolic_next = True
    v = None
    for g1, p in gates(a, TRUE):
        for g2, k in gates(bk if back else fr, TRUE):
            if AND(AND(g1, g2), AND(st.pc, c)) is FALSE: continue
            if back: k = psub(k, pc(1))
            x = seq_elem(I, st, p, k, byval)
            v = x if v is None else I.merge(AND(g1, g2), x, v)
    if v is None: v = UNINIT
    if back: nit = agg(a, fr, ite(c, ap1(lambda x: leaf(psub(x, pc(1))), bk), bk))
    else: nit = agg(a, ite(c, ap1(lambda x: leaf(padd(x, pc(1))), fr), fr), bk)
    return c, v, nit
@on(SEQ + r" as std::iter::(DoubleEnded)?Iterator>::next(_back)?$")
def h_next(I, st, f, args, argt, retty):
    it = rdp(I, st, args[0])
    byval = "IntoIter" in f["name"]
    r = seq_next(I, st, it, f["name"].endswith("next_back"), byval)
    if r is None: return I.top("next", retty)
    c, v, nit = r
    wrp(I, st, args[0], nit)
    return some(I, retty, c, v)
@on(SEQ + r" as std::iter::(Iterator|ExactSizeIterator)>::(size_hint|len|count)$")
def h_sizehint(I, st, f, args, argt, retty):
    nm = f["name"].rsplit("::", 1)[1]
    it = ex(I, rdp(I, st, args[0]) if nm != "count" else args[0])
    if not (isinstance(it, Agg) and len(it.f) == 3): return I.top("size", retty)
    n = I.num2(psub, it.f[2], it.f[1])
    if nm in ("len", "count"): return n
    oty = I.T(retty)["e"][1]
    return agg(n, some(I, oty, TRUE, n))
@on(SEQ + r" as std::iter::(DoubleEnded)?Iterator>::(all|any|find|position|for_each|fold|find_map|nth|last|rfind|rposition|rfold|nth_back)$", r"^std::vec::Vec::<T, A>::drain$")
def h_seqfn(I, st, f, args, argt, retty):
    nm = f["name"].rsplit("::", 1)[1]
    byval = "IntoIter" in f["name"]
    byref = I.T(argt[0])["k"] in ("ref", "ptr")
    it = ex(I, rdp(I, st, args[0]) if byref else args[0])
    if nm in ("nth", "drain", "nth_back", "rposition"): return NotImplemented if nm == "drain" else I.top("nth", retty)
    if not (isinstance(it, Agg) and len(it.f) == 3): return I.top(nm, retty)
    # account data scans: one opaque fact per account and predicate
    p = it.f[0]
    p = simp(p, st.pc)
    if nm in ("all", "any") and p.var is None and isinstance(p.val, Ptr) and p.val.base[0] == "data":
        return data_scan(I, st, p.val, it, nm, args[1], argt[1]), st
    from .loops import pyloop
    itb = I.newheap(it, st)
    # body: next; closure
    kind = nm.lstrip("r") if nm in ("rfind", "rfold") else nm
    back = nm.startswith("r") and nm in ("rfind", "rfold")
    if kind == "fold": acc0, fv, fty = args[1], args[2], argt[2]
    elif kind == "last": acc0, fv, fty = enum(retty, ZERO, {0: ()}), None, None
    else: acc0, fv, fty = UNIT, args[1], argt[1]
    accb = I.newheap(acc0, st)
    if fv is not None and I.T(fty)["k"] not in ("ref", "fndef"):
        fb = I.newheap(fv, st)
    resb = I.newheap(UNINIT, st)
    posb = I.newheap(ZERO, st)
    def callf(s, xs):
        inst = closure_inst(I, fty)
        fn = I.d.fns[inst] if inst is not None else None
        if fn is None: return I.top("closure"), s
        t = I.T(fty)
        if t["k"] == "fndef": return I.invoke(s, inst, xs, None, fn["locals"][0] if "locals" in fn else None)
        if t["k"] == "ref": return call_closure(I, s, fv, fty, xs)
        self_ = leaf(ptr(fb)) if I.T(fn["locals"][1])["k"] in ("ref", "ptr") else I.base_val(s, fb)
        return I.call_fn(s, fn, [self_] + xs)
    def step(s):
        outs = {}
        s = s.copy()
        r = seq_next(I, s, I.base_val(s, itb), back, byval)
        if r is None: return None
        c, v, nit = r
        s.mem[itb] = nit
        pn = AND(s.pc, NOT(c))
        if pn is not FALSE: outs["done"] = State(pn, dict(s.mem))
        pcn = AND(s.pc, c)
        if pcn is FALSE: return outs
        s2 = State(pcn, dict(s.mem))
        if kind == "last":
            s2.mem[accb] = enum(retty, ONE, {1: (v,)}); outs["cont"] = s2; return outs
        if kind == "fold":
            rr = callf(s2, [I.base_val(s2, accb), v])
            if rr is not None: x, s3 = rr; s3.mem[accb] = x; outs["cont"] = s3
            return outs
        if kind == "find":
            vb = I.newheap(v, s2); rr = callf(s2, [leaf(ptr(vb))])
        else: rr = callf(s2, [v])
        if rr is None: return outs
        x, s3 = rr
        if kind == "for_each": outs["cont"] = s3; return outs
        if kind == "find_map":
            x = ex(I, x)
            hit = ap1(lambda d: TRUE if pconst(d) == 1 else FALSE, x.d) if isinstance(x, Enum) else BOOL(term("top", "find_map"))
        else: hit = x if isinstance(x, N) else BOOL(term("top", "pred", I.topn))
        if kind == "all": hit = NOT(hit)
        ph = AND(s3.pc, hit); pl = AND(s3.pc, NOT(hit))
        if ph is not FALSE:
            h = State(ph, dict(s3.mem))
            h.mem[resb] = x if kind == "find_map" else I.base_val(s3, posb) if kind == "position" else v
            outs["hit"] = h
        if pl is not FALSE:
            l = State(pl, dict(s3.mem))
            if kind == "position": l.mem[posb] = ap1(lambda q: leaf(padd(q, pc(1))), I.base_val(l, posb))
            outs["cont"] = l
        return outs
    ex_ = pyloop(I, st, step, "iter." + nm)
    done, hit = ex_.get("done"), ex_.get("hit")
    def fin(s, h):
        if kind == "all": v = FALSE if h else TRUE
        elif kind == "any": v = TRUE if h else FALSE
        elif kind in ("find", "position"): v = some(I, retty, TRUE if h else FALSE, I.base_val(s, resb) if h else UNINIT)
        elif kind == "find_map": v = I.base_val(s, resb) if h else enum(retty, ZERO, {0: ()})
        elif kind in ("fold", "last"): v = I.base_val(s, accb)
        else: v = UNIT
        s.mem[("X", "r")] = v
        return s
    s = None
    if done is not None: s = fin(done, False)
    if hit is not None: s = I.join(s, fin(hit, True))
    if s is None: return None
    v = s.mem.pop(("X", "r"))
    if byref: wrp(I, s, args[0], I.base_val(s, itb))
    return v, s
def data_scan(I, st, p, it, nm, fv, fty):
    """all/any over the bytes of an account: recognise a scan against a constant"""
    byt = leaf(ps(term("anybyte", p.base[1], nn=True, meta={"max": 255})))
    b = I.newheap(byt, st)
    n0 = len(I.events)
    r = call_closure(I, State(TRUE, dict(st.mem)), fv, fty, [leaf(ptr(b))])
    del I.events[n0:]
    if r is None or not isinstance(r[0], N): return BOOL(term("top", "scan", I.topn))
    c = r[0]
    rngkey = (p.meta[1], p.meta[2]) if p.meta else None
    x = psym(byt.val)
    def atom_for(c): return BOOL(term("allbytes", p.base[1], p.meta[1], p.meta[2], c, I.cpis))
    return atom_for(c) if nm == "all" else NOT(atom_for(NOT(c)))

# ---------------------------------------------------------------- collect
@on(r"^std::iter::Iterator::collect$")
def h_collect(I, st, f, args, argt, retty):
    t = I.T(retty)
    if not (t["k"] == "adt" and t["name"].endswith("vec::Vec")): return NotImplemented
    return collect_vec(I, st, args[0], argt[0], retty)
@on(r"^<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter$")
def h_fromiter(I, st, f, args, argt, retty): return collect_vec(I, st, args[0], argt[0], retty)
def find_next(I, ity):
    s = I.T(ity)["s_"]
    for pat in ("<%s as std::iter::Iterator>::next" % s,):
        r = I.fnidx.get(pat)
        if r is not None: return r
    return None
def collect_vec(I, st, itv, ity, retty):
    from .loops import pyloop
    itb = I.newheap(itv, st); accb = I.newheap(leaf(lst(())), st)
    seq = ex(I, itv)
    isseq = re.match(r"std::(slice::Iter|vec::IntoIter|array::IntoIter)", I.T(ity)["s_"])
    nx = None
    if not isseq:
        nx = find_next(I, ity)
        if nx is None: return NotImplemented
        oty = I.d.fns[nx]["locals"][0]
    def step(s):
        s = s.copy(); outs = {}
        if isseq:
            r = seq_next(I, s, I.base_val(s, itb), False, "IntoIter" in I.T(ity)["s_"])
            if r is None: return None
            c, v, nit = r; s.mem[itb] = nit
        else:
            rr = I.invoke(s, nx, [leaf(ptr(itb))], [I.d.fns[nx]["locals"][1]], oty)
            if rr is None: return outs
            o, s = rr
            o = ex(I, o)
            if not isinstance(o, Enum): return None
            c = ap1(lambda d: TRUE if pconst(d) == 1 else FALSE, o.d)
            v = o.p.get(1, (UNINIT,))[0]
        pn = AND(s.pc, NOT(c)); py = AND(s.pc, c)
        if pn is not FALSE: outs["done"] = State(pn, dict(s.mem))
        if py is not FALSE:
            s2 = State(py, dict(s.mem))
            l = s2.mem[accb]
            s2.mem[accb] = ap1(lambda y: leaf(lst(y.e + (v,), y.tail)) if isinstance(y, List) else I.top("collect"), l) if isinstance(l, N) else I.top("collect")
            outs["cont"] = s2
        return outs
    o = pyloop(I, st, step, "collect")
    s = o.get("done")
    if s is None: return None
    return I.base_val(s, accb), s

@on(r"^<std::vec::Vec<.*> as std::iter::Extend<.*>>::(extend|extend_one)$")
def h_extendit(I, st, f, args, argt, retty):
    """a vector extended by whatever an iterator yields (copied when it yields references)"""
    from .loops import pyloop
    t = I.T(argt[1]); byref = "Extend<&" in f["name"]
    v = ex(I, rdp(I, st, args[0]))
    if isinstance(v, Agg): v = leaf(lst(v.f))
    itv, ity = args[1], argt[1]
    if f["name"].endswith("extend_one"): its = leaf(lst((itv,)))
    else:
        r = collected(I, st, itv, ity)
        if r is None: return NotImplemented
        its, st = r
        if st is None: return None
    its = ex(I, its)
    if isinstance(its, Agg): its = leaf(lst(its.f))
    if not isinstance(v, N) or not isinstance(its, N): wrp(I, st, args[0], I.top("extend")); return UNIT, st
    def one(x): return rdp(I, st, x) if byref else x
    wrp(I, st, args[0], ap2(lambda x, y: leaf(lst(x.e + tuple(one(e) for e in y.e), x.tail)) if isinstance(x, List) and isinstance(y, List) and y.tail is None else I.top("extend"), simp(v, st.pc), simp(its, st.pc)))
    return UNIT, st
def collected(I, st, itv, ity):
    """the values an `impl IntoIterator` yields, as a list: (list, state) or None when the type is not understood"""
    s = I.T(ity)["s_"]
    if re.match(r"std::(slice::Iter|vec::IntoIter|array::IntoIter)", s) or find_next(I, ity) is not None:
        r = collect_vec(I, st, itv, ity, None)
        return None if r is NotImplemented else (None, None) if r is None else r
    t = I.T(ity)
    if t["k"] == "array" or (t["k"] == "adt" and t["name"].endswith("vec::Vec")): return itv, st
    if t["k"] in ("ref", "ptr"):
        e = I.T(t["e"])
        if e["k"] in ("array", "slice") or (e["k"] == "adt" and e["name"].endswith("vec::Vec")):
            p = as_slice(I, st, itv, ity); p = simp(p, st.pc) if isinstance(p, N) else p
            if not (isinstance(p, N) and p.var is None and isinstance(p.val, Ptr) and p.val.meta is not None): return I.top("extend"), st
            n = pconst(p.val.meta[2])
            return (leaf(lst(tuple(elem_ptr(I, p.val, pc(i)) for i in range(n)))) if n is not None else I.top("extend")), st
    if t["k"] == "adt" and t["name"].endswith("option::Option"):
        o = ex(I, itv)
        if isinstance(o, Enum): return ap1(lambda d: leaf(lst((o.p[1][0],))) if pconst(d) == 1 else leaf(lst(())), o.d), st
    return None
@on(r"^std::slice::<impl \[T\]>::(concat|join)$", r"^<\[V\] as std::slice::Concat<T>>::concat$")
def h_concat(I, st, f, args, argt, retty):
    if f["name"].endswith("join"): return I.top("join", retty)
    s = as_slice(I, st, args[0], argt[0]); s = simp(s, st.pc) if isinstance(s, N) else s
    outer = slice_elems(I, st, s.val) if isinstance(s, N) and s.var is None and isinstance(s.val, Ptr) else None
    t = I.T(argt[0]); e = I.T(t["e"]) if t["k"] in ("ref", "ptr") else {"k": ""}
    if outer is None or e["k"] not in ("slice", "array"): return I.top("concat", retty)
    v = leaf(lst(())); el = I.T(e["e"])
    for x in outer:
        x = ex(I, x)
        if el["k"] in ("ref", "ptr"):
            inner = I.T(el["e"])
            if inner["k"] == "slice" and isinstance(x, N):
                def pick(p): 
                    es = slice_elems(I, st, p) if isinstance(p, Ptr) else None
                    return leaf(lst(tuple(es))) if es is not None else I.top("concat")
                x = ap1(pick, simp(x, st.pc))
            else: x = ex(I, rdp(I, st, x))
        if isinstance(x, Agg): x = leaf(lst(x.f))
        if not isinstance(x, N): return I.top("concat", retty)
        v = ap2(lambda a, b: leaf(lst(a.e + b.e)) if isinstance(a, List) and isinstance(b, List) and a.tail is None and b.tail is None else I.top("concat"), v, simp(x, st.pc))
    return v
@on(r"^std::vec::Vec::<T, A>::(pop|clear|truncate|insert|remove|first|last)$")
def h_vecedit(I, st, f, args, argt, retty):
    nm = f["name"].rsplit("::", 1)[1]
    v = ex(I, rdp(I, st, args[0]))
    if isinstance(v, Agg): v = leaf(lst(v.f))
    v = simp(v, st.pc) if isinstance(v, N) else v
    if nm == "clear": wrp(I, st, args[0], leaf(lst(()))); return UNIT
    k = pconst(args[1].val) if nm in ("truncate", "insert", "remove") and isinstance(args[1], N) and args[1].var is None and isinstance(args[1].val, Poly) else None
    if not isinstance(v, N) or v.var is not None or not isinstance(v.val, List) or v.val.tail is not None or (nm != "pop" and k is None):
        I.events.append({"k": "wild", "g": st.pc, "where": I.where()})
        wrp(I, st, args[0], I.top("vector " + nm)); return I.top("vector " + nm, retty)
    e = list(v.val.e); r = UNIT
    if nm == "pop": r = some(I, retty, TRUE, e.pop()) if e else some(I, retty, FALSE, UNINIT)
    elif nm == "truncate": e = e[:k]
    elif k > len(e) or (nm == "remove" and k == len(e)): return None
    elif nm == "insert": e.insert(k, args[2])
    else: r = e.pop(k)
    wrp(I, st, args[0], leaf(lst(tuple(e))))
    return r
@on(r"^<std::vec::Vec<T> as std::convert::From<\[T; N\]>>::from$")
def h_vecfrom(I, st, f, args, argt, retty):
    v = ex(I, args[0])
    return leaf(lst(v.f)) if isinstance(v, Agg) else v
@on(r"^std::array::<impl \[T; N\]>::map$", r"^std::array::from_fn$")
def h_arraymap(I, st, f, args, argt, retty):
    gen = f["name"].endswith("from_fn")
    if gen: els = [leaf(pc(i)) for i in range(I.T(retty)["n"])]; fv, fty = args[0], argt[0]
    else:
        v = ex(I, args[0]); l = as_list(I, v)
        if l is None or l.tail is not None: return NotImplemented
        els = list(l.e); fv, fty = args[1], argt[1]
    inst = closure_inst(I, fty); fn = I.d.fns[inst] if inst is not None else None
    if fn is None: return NotImplemented
    fb = I.newheap(fv, st) if I.T(fty)["k"] not in ("ref", "fndef") else None; out = []
    for x in els:
        if fb is not None: r = I.call_fn(st, fn, [leaf(ptr(fb)) if I.T(fn["locals"][1])["k"] in ("ref", "ptr") else I.base_val(st, fb), x])
        else: r = call_closure(I, st, fv, fty, [x])
        if r is None: return None
        out.append(r[0]); st = r[1]
    return agg(*out), st
@on(r"^<std::iter::Zip<A, B> as std::iter::Iterator>::next$")
def h_zipnext(I, st, f, args, argt, retty):
    """both sides advance in step; the pair exists while both do"""
    t = I.T(argt[0]); zt = I.T(t["e"]); fields = zt["v"][0]["f"]; out = []; have = TRUE
    pt = I.deref(st, args[0])
    if len(pt) != 1 or pt[0][1][0] in ("top", "dangling"): return NotImplemented
    for i in (0, 1):
        nx = find_next(I, fields[i][1])
        if nx is None: return NotImplemented
    for i in (0, 1):
        nx = find_next(I, fields[i][1]); fn = I.d.fns[nx]
        p = leaf(ptr(pt[0][1], pt[0][2] + (i,)))
        if i == 0 or have is TRUE: r = I.invoke(st, nx, [p], [fn["locals"][1]] if "locals" in fn else [None], None if "locals" not in fn else fn["locals"][0])
        else:
            sy = State(AND(st.pc, have), dict(st.mem)); sn = State(AND(st.pc, NOT(have)), dict(st.mem))
            if sy.pc is FALSE: return some(I, retty, FALSE, UNINIT), st
            r = I.invoke(sy, nx, [p], [fn["locals"][1]] if "locals" in fn else [None], None if "locals" not in fn else fn["locals"][0])
            if r is not None and sn.pc is not FALSE:
                o = ex(I, r[0]); s2 = r[1]
                if not isinstance(o, Enum): return NotImplemented
                c = ap1(lambda d: TRUE if pconst(d) == 1 else FALSE, o.d)
                out.append(o.p.get(1, (UNINIT,))[0]); have = AND(have, c)
                st = I.join(s2, sn); break
        if r is None: return None
        o = ex(I, r[0]); st = r[1]
        if not isinstance(o, Enum): return NotImplemented
        c = ap1(lambda d: TRUE if pconst(d) == 1 else FALSE, o.d)
        out.append(o.p.get(1, (UNINIT,))[0]); have = AND(have, c)
        if simp(have, st.pc) is FALSE: return some(I, retty, FALSE, UNINIT), st
    return some(I, retty, have, agg(*out)), st
# ---------------------------------------------------------------- the on-chain tree
TREE = r"sokoban::RedBlackTree<K, V, MAX_SIZE>|sokoban::RedBlackTree"
def tree(I, st, v):
    m = rdp(I, st, v)
    m = ex(I, m)
    return m if isinstance(m, N) else leaf(maps.mtop("tree"))
def key_of(I, st, v, ty):
    t = I.T(ty) if ty is not None else None
    return rdp(I, st, v) if t is not None and t["k"] in ("ref", "ptr") else v
@on(r"RedBlackTree.*(::|>)initialize$")
def h_tinit(I, st, f, args, argt, retty):
    # the library refuses (panics) to initialise a tree that is already in use
    fr = ap1(lambda x: TRUE if x is maps.EMPTY else BOOL(term("fresh", x)) if isinstance(x, T) else BOOL(term("top", "fresh")), tree(I, st, args[0]))
    fr = simp(fr, st.pc)
    if fr is not TRUE:
        I.events.append({"k": "panic", "g": AND(st.pc, NOT(fr)), "msg": "tree in use", "where": I.where()})
        st.pc = AND(st.pc, fr)
        if st.pc is FALSE: return None
    wrp(I, st, args[0], leaf(maps.EMPTY)); return UNIT
@on(r"RedBlackTree.*::(new|default)$")
def h_tnew(I, st, f, args, argt, retty): return leaf(maps.EMPTY)
@on(r"RedBlackTree.*NodeAllocatorMap<.*>>?::insert$", r"<sokoban::RedBlackTree.*>::insert$")
def h_tinsert(I, st, f, args, argt, retty):
    M = tree(I, st, args[0]); k, v = args[1], args[2]
    has = maps.HAS(M, k); full = maps.FULL(M)
    ok = OR(has, NOT(full))
    I.events.append({"k": "insert", "g": st.pc, "m": M, "key": k, "ok": ok, "where": I.where()})
    for g, b, p, m in I.deref(st, args[0]):
        if b[0] == "top": I.events.append({"k": "wild", "g": AND(st.pc, g), "where": I.where()}); continue
        cur = I.load(st, b, p)
        nm = maps.SET(cur, k, v) if isinstance(cur, N) and isinstance(k, N) and isinstance(v, N) else leaf(maps.mtop("insert"))
        I.store(st, b, p, nm, AND(g, simp(ok, st.pc)))
    return some(I, retty, ok, leaf(ps(term("slot", I.topn, nn=True))))
@on(r"<sokoban::RedBlackTree.*>::remove$")
def h_tremove(I, st, f, args, argt, retty):
    M = tree(I, st, args[0]); k = key_of(I, st, args[1], argt[1])
    has = maps.HAS(M, k); old = maps.VV(M, k)
    for g, b, p, m in I.deref(st, args[0]):
        if b[0] == "top": I.events.append({"k": "wild", "g": AND(st.pc, g), "where": I.where()}); continue
        cur = I.load(st, b, p)
        I.store(st, b, p, maps.REM(cur, k) if isinstance(cur, N) and isinstance(k, N) else leaf(maps.mtop("remove")), g)
    return some(I, retty, has, old)
@on(r"<sokoban::RedBlackTree.*>::(get|get_mut|contains)$")
def h_tget(I, st, f, args, argt, retty):
    M = tree(I, st, args[0]); k = key_of(I, st, args[1], argt[1])
    has = maps.HAS(M, k)
    if f["name"].endswith("contains"): return has
    v = None
    for g, b, p, m in I.deref(st, args[0]):
        for g2, kk in gates(k, TRUE):
            if AND(AND(g, g2), st.pc) is FALSE: continue
            x = leaf(ptr(b, p + (("mv", kk),))) if b[0] != "top" and isinstance(kk, Poly) else I.top("tree get")
            v = x if v is None else ite(AND(g, g2), x, v)
    return some(I, retty, has, v if v is not None else I.top("get"))
@on(r"RedBlackTree.*::(len|size|is_empty|is_full|capacity)$")
def h_tlen(I, st, f, args, argt, retty):
    M = tree(I, st, args[0]); nm = f["name"].rsplit("::", 1)[1]
    if nm == "is_full": return maps.FULL(M)
    if nm in ("len", "size"): return ap1(lambda m: leaf(pc(0)) if m is maps.EMPTY else leaf(ps(term("tlen", m, nn=True))), M)
    if nm == "is_empty": return NOT(BOOL(term("more", M, pc(0), pc(0))))
    m = re.search(r", (\d+)>", f["full"])
    return leaf(pc(int(m.group(1)))) if m else I.top("cap", retty)
@on(r"<sokoban::RedBlackTree.*>::(iter|iter_mut)$")
def h_titer(I, st, f, args, argt, retty):
    mp = args[0]
    b = I.newheap(treeit(mp, ZERO, ZERO, f["name"].endswith("iter_mut")), st)
    return leaf(ptr(b))
def tree_next(I, st, selfp, back, retty):
    t = target(I, st, selfp)
    if t is None: return I.top("tree next", retty)
    v = ex(I, I.load(st, t[0], t[1]))
    if isinstance(v, N) and v.var is None and isinstance(v.val, Ptr): # &mut Box
        t = (v.val.base, v.val.path, None); v = ex(I, I.load(st, t[0], t[1]))
    if not isinstance(v, TreeIt): return I.top("tree next", retty)
    M = rdp(I, st, v.m)
    if not isinstance(M, N): return I.top("tree next", retty)
    if M is not leaf(maps.EMPTY): I.symbolic_next = True
    fr, bk = simp(v.f, st.pc), simp(v.b, st.pc)
    if fr.var is not None or bk.var is not None: return I.top("tree next", retty)
    Mh = M.val if M.var is None else M
    if Mh is maps.EMPTY: more = FALSE
    else: more = BOOL(term("more", Mh, fr.val, bk.val))
    pos = bk.val if back else fr.val
    k = ps(term("ek", Mh, "b" if back else "f", pos, nn=True, meta={"max": 2**64 - 1}))
    kb = ("H", "ek", k); st.mem[kb] = leaf(k)
    if v.mut:
        vp = ap1(lambda x: leaf(ptr(x.base, x.path + (("mv", k),))) if isinstance(x, Ptr) else I.top("iter_mut"), v.m)
    else:
        vb = ("H", "ev", k); st.mem[vb] = leaf(ps(term("ev", Mh, "b" if back else "f", pos, nn=True)))
        vp = leaf(ptr(vb))
    inc = lambda n: ite(simp(more, st.pc), ap1(lambda x: leaf(padd(x, pc(1))), n), n)
    nit = treeit(v.m, v.f if back else inc(v.f), inc(v.b) if back else v.b, v.mut)
    I.store(st, t[0], t[1], nit)
    return some(I, retty, more, agg(leaf(ptr(kb)), vp))
@on(r"^<dyn std::iter::DoubleEndedIterator.* as std::iter::(DoubleEnded)?Iterator>::next(_back)?$", r"^std::iter::(DoubleEnded)?Iterator::next(_back)?$")
def h_tnext(I, st, f, args, argt, retty): return tree_next(I, st, args[0], f["full"].endswith("next_back"), retty)
@on(r"^std::iter::Iterator::size_hint$", r"^<dyn std::iter::DoubleEndedIterator.*size_hint$")
def h_tsize(I, st, f, args, argt, retty): return I.top("size_hint", retty)
@on(r"RedBlackTree::<.*>::(get_left|get_right|get_node|get_parent|is_red|get_color)$", r"RedBlackTree.*::(get_left|get_right|get_node)$")
def h_tnode(I, st, f, args, argt, retty):
    M = tree(I, st, args[0]); nm = f["name"].rsplit("::", 1)[1]
    I.symbolic_next = True
    idn = args[1]
    if not isinstance(idn, N): return I.top(nm, retty)
    Mh = M.val if M.var is None else M
    if nm == "get_node":
        def g(x):
            if not isinstance(x, Poly): return I.top("node")
            b = ("H", "node", Mh, x)
            st.mem[b] = agg(leaf(ps(term("nk", Mh, x, nn=True))), leaf(ps(term("nv", Mh, x, nn=True))))
            return leaf(ptr(b))
        return ap1(g, idn)
    if nm in ("get_left", "get_right"):
        return ap1(lambda x: leaf(ps(term("child", Mh, x, "r" if nm == "get_right" else "l", nn=True))) if isinstance(x, Poly) else I.top("child"), idn)
    return I.top(nm, retty)

# ---------------------------------------------------------------- conversions that are opaque
@on(r"ProgramError as std::convert::From<std::io::Error>>::from$", r"std::io::Error::(new|kind|other)", r"io::error::<impl std::io::Error>::")
def h_ioerr(I, st, f, args, argt, retty):
    t = I.T(retty)
    return I.top("io error", retty)
@on(r"FromPrimitive>::from_", r"bincode::serialize")
def h_opaque(I, st, f, args, argt, retty): return I.top("opaque " + f["name"], retty)

def lookup(I, f):
    for r, h in HANDLERS:
        if r.search(f["name"]) or (f["kind"] in ("virtual", "intrinsic") and r.search(f["full"])): return h
    return None
