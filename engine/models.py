"""Semantics of the std / external calls that the analysed crates make.

Each model maps a call to value-graph terms (and stores); anything without a
model becomes an uninterpreted application: non-opaque for deterministic,
state-free libraries (`pure_ext`), opaque otherwise.
"""
import re
import struct
from terms import *
import terms as TM
import vg
from vg import State, width_of, is_signed, is_v1, is_seqlike, binop, ovf, PYFN, f2i, kcast, eq_val

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
LOCAL = ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils")


def none():
    return agg(OPT, 0, ())


def some(x):
    return agg(OPT, 1, (x,))


def ok(x):
    return agg(RES, 0, (x,))


def err(x):
    return agg(RES, 1, (x,))


def el(s, i):
    return idx(s, i, elem_w(s))


def match2(x, f, w0=None, w1=None):
    """eliminate a two-variant sum value: f(variant, payload|None)"""
    if x.op == "agg":
        return f(x.a[1], x.a[2][0] if x.a[2] else None)
    if x.op == "ite":
        return ite(x.a[0], match2(x.a[1], f, w0, w1), match2(x.a[2], f, w0, w1))
    return ite(is_v1(x), f(1, fld(x, 1, 0, w1)), f(0, fld(x, 0, 0, w0)))


def is_variant1(x):
    return match2(x, lambda v, p: TT if v == 1 else FF)


def payload(ctx, i):
    """(w of variant0 payload, w of variant1 payload) for Option/Result arg i"""
    t = ctx.arg_ty(i)
    while t is not None and t["k"] == "ref":
        t = ctx.tys[t["to"]]
    if t is None or t["k"] != "adt" or not t.get("args"):
        return None, None
    ws = [width_of(ctx.tys, a) for a in t["args"]]
    if t["path"].endswith("Option"):
        return None, ws[0]
    return ws[0], (ws[1] if len(ws) > 1 else None)


# ------------------------------------------------------------------ iterators
def IT(s, p=None):
    return agg("It", 0, (s, p if p is not None else c64(0)))


def is_it(v, *tags):
    return v.op == "agg" and v.a[0] in (tags or ITTAGS)


ITTAGS = ("It", "ItMut", "ItMap", "ItEnum", "ItZip", "ItTake", "ItFilter", "ItFilterMap", "ItRefs", "ItMutCh", "ItFrom",
          "ItTakeW", "ItMapW", "ItSkipW", "ItScan", "ItChain", "ItCycle", "ItRepeat", "ItGen", "ItSucc")


def is_opt(v, ty=None):
    """an Option by its form or by its static type"""
    while v.op == "ite":
        v = v.a[1]
    return v.op == "agg" and v.a[0] == OPT or v.op != "agg" and not is_seqlike(v) and ty is not None and ty["k"] == "adt" and ty["path"].endswith("option::Option")


def opt_seq(v):
    return match2(v, lambda k, p: seq(p) if k == 1 else SEQ_EMPTY)


def peeled(ctx, i, tyi=None):
    """static type of argument i (or type index tyi) behind references"""
    t = ctx.arg_ty(i) if tyi is None else ctx.tys[tyi]
    while t is not None and t["k"] == "ref":
        t = ctx.tys[t["to"]]
    return t


def wc(ctx, i):
    """width of a type argument, as a constant (0 unknown)"""
    ts = ctx.fn.get("targs") or []
    w = width_of(ctx.tys, ts[i]) if i < len(ts) else None
    return c64(w if isinstance(w, int) else 0)


def payload1(r, wcst):
    """the content of an option known to be Some"""
    w = cval(wcst) or None
    return match2(r, lambda v, p: p if v == 1 else mk("bad", w=p.w if p is not None else w), None, w)


def targ(ctx, i):
    ts = ctx.fn.get("targs") or []
    return peeled(ctx, None, ts[i]) if i < len(ts) else None
FP = lambda tag, i, n: ("f", 0, i, None, n, tag, (None,) * n)


def remaining(v):
    s, p = v.a[2]
    if is_c(p) and cval(p) == 0:
        return s
    return slice_(s, p, monus(slen(s), p))


def to_iter(I, S, v, ty=None):
    """IntoIterator for a value"""
    if ty is not None and ty["k"] == "adt" and ty["path"].endswith(("result::Result", "collections::hash::map::HashMap", "collections::hash::set::HashSet")):
        raise vg.Undecided("iteration over " + ty["path"])
    if v.op == "ref":
        cur = I.load(S, v)
        if is_opt(cur, ty):
            raise vg.Undecided("iteration over a mutable option")
        if is_it(cur) or (cur.op == "agg" and cur.a[0].startswith("core::ops::range")):
            return agg("ItRefs", 0, (v,))
        n = slen(cur)
        return agg("ItMut", 0, (v, c64(0), n, c64(0), FF))
    if v.op == "ite" and I.has_ref(v):
        n = slen(I.load(S, v))
        return agg("ItMut", 0, (v, c64(0), n, c64(0), FF))
    if is_it(v):
        return v
    if is_opt(v, ty):
        return IT(opt_seq(v))
    if ty is not None and ty["k"] == "adt" and "collections::btree" in ty["path"]:
        return IT(mk("app", "hm_items", v))
    if v.op == "agg":
        p = v.a[0]
        if p.endswith("range::Range") or p.endswith("ops::Range"):
            a, b = v.a[2]
            return IT(range_seq(a, b))
        if p.endswith("RangeInclusive"):
            a, b = v.a[2][:2]
            return IT(range_seq(a, add(b, const(1, b.w))))
        if p.endswith("RangeFrom"):
            return agg("ItFrom", 0, (v.a[2][0],))
    return IT(v)


def range_seq(a, b):
    w = a.w
    n = zext(monus(b, a), 64) if w < 64 else monus(b, a)
    k = fresh_var(64, [n])
    return mk_map(n, k, add(a, kcast(k, w)))


def pure_next(v):
    t = v.a[0]
    if t == "It":
        s, p = v.a[2]
        return lt(p, slen(s)), el(s, p), IT(s, add(p, c64(1)))
    if t == "ItFrom":
        a = v.a[2][0]
        return TT, a, agg("ItFrom", 0, (add(a, const(1, a.w)),))
    if t == "ItRepeat":
        return TT, v.a[2][0], v
    if t == "ItCycle":
        s, p = v.a[2]
        return pos(slen(s)), el(s, rem(p, slen(s))), agg("ItCycle", 0, (s, add(p, c64(1))))
    return None


def mut_next(I, S, v):
    r, lo, n, p, rv = v.a[2]
    i = add(lo, ite(rv, sub(sub(n, c64(1)), p), p))
    cur = I.load(S, r)
    item = I.extend_ref(r, (("i", i, elem_w(cur)),))
    return lt(p, n), item, agg("ItMut", 0, (r, lo, n, add(p, c64(1)), rv))


def mutch_next(I, S, v):
    r, size, n, tot, p = v.a[2]
    lo = mul(p, size)
    item = I.extend_ref(r, (("s", lo, min_(size, sub(tot, lo))),))
    return lt(p, n), item, agg("ItMutCh", 0, (r, size, n, tot, add(p, c64(1))))


def split(S, c):
    a = b = None
    pa, pb = b_and(S.pc, c), b_and(S.pc, b_not(c))
    if c is FF:
        return None, S
    if c is TT:
        return S, None
    a, b = S.copy(), S.copy()
    a.pc, b.pc = pa, pb
    if pa is FF:
        a = None
    if pb is FF:
        b = None
    return a, b


def nx(I, S, itref):
    """advance: (state with item | None, item, state at end | None)"""
    it = I.load(S, itref)
    if it.op == "ite" and is_it(it.a[1]):
        raise vg.Undecided("conditional iterator")
    if it.op != "agg" or not is_it(it):
        if it.op == "agg" and "range" in it.a[0].lower():
            it = to_iter(I, S, it)
            I.store(S, itref, it)
        else:
            it = to_iter(I, S, it)
            I.store(S, itref, it)
    t = it.a[0]
    if t in ("It", "ItMut", "ItMutCh", "ItFrom", "ItRepeat", "ItCycle"):
        has, item, new = pure_next(it) or (mut_next(I, S, it) if t == "ItMut" else mutch_next(I, S, it))
        s1, s0 = split(S, has)
        if s1 is not None:
            I.store(s1, itref, new)
        return s1, item, s0
    if t == "ItRefs":
        return nx(I, S, it.a[2][0])
    if t == "ItMap":
        s1, x, s0 = nx(I, S, I.extend_ref(itref, (FP(t, 0, 2),)))
        if s1 is None:
            return None, None, s0
        r, s1 = I.call_value(s1, I.extend_ref(itref, (FP(t, 1, 2),)), [x])
        return s1, r, s0
    if t == "ItEnum":
        s1, x, s0 = nx(I, S, I.extend_ref(itref, (FP(t, 0, 2),)))
        if s1 is None:
            return None, None, s0
        c = it.a[2][1]
        I.store(s1, I.extend_ref(itref, (FP(t, 1, 2),)), add(c, c64(1)))
        return s1, tup(c, x), s0
    if t == "ItZip":
        s1, x, s0 = nx(I, S, I.extend_ref(itref, (FP(t, 0, 2),)))
        if s1 is None:
            return None, None, s0
        s2, y, s00 = nx(I, s1, I.extend_ref(itref, (FP(t, 1, 2),)))
        end = I.merge([s for s in (s0, s00) if s is not None]) if (s0 is not None or s00 is not None) else None
        return s2, (tup(x, y) if s2 is not None else None), end
    if t == "ItTake":
        n = it.a[2][1]
        s1, s0 = split(S, b_not(eq0(n)))
        if s1 is None:
            return None, None, s0
        I.store(s1, I.extend_ref(itref, (FP(t, 1, 2),)), sub(n, c64(1)))
        s2, x, s00 = nx(I, s1, I.extend_ref(itref, (FP(t, 0, 2),)))
        ends = [s for s in (s0, s00) if s is not None]
        return s2, x, (I.merge(ends) if ends else None)
    if t in ("ItFilter", "ItFilterMap"):
        itemc = I.tmp(S, mk("uninit"))

        def step(st):
            s1, x, s0 = nx(I, st, I.extend_ref(itref, (FP(t, 0, 2),)))
            ex = []
            if s0 is not None:
                ex.append(("end", s0))
            if s1 is None:
                return [], ex
            r, s1 = I.call_value(s1, I.extend_ref(itref, (FP(t, 1, 2),)), [x], "b" if t == "ItFilter" else None)
            if s1 is None:
                return [], ex
            c = r if t == "ItFilter" else is_variant1(r)
            a, b = split(s1, c)
            if a is not None:
                a.mem[itemc.a[0]] = x if t == "ItFilter" else match2(r, lambda v, p: p if v == 1 else mk("bad", w=p.w if p is not None else None))
                ex.append(("found", a))
            return ([b] if b is not None else []), ex
        res = I.solve_loop(S, step, "filter", None)
        a = I.merge([s for t_, s in res if t_ == "found"])
        b = I.merge([s for t_, s in res if t_ == "end"])
        return a, (a.mem.get(itemc.a[0]) if a is not None else None), b
    F = lambda k: I.extend_ref(itref, (FP(t, k, len(it.a[2])),))
    if t in ("ItTakeW", "ItMapW", "ItScan"):
        s1, x, s0 = nx(I, S, F(0))
        if s1 is None:
            return None, None, s0
        r, s1 = I.call_value(s1, F(1), [F(2), x] if t == "ItScan" else [x], "b" if t == "ItTakeW" else None)
        if s1 is None:
            return None, None, s0
        a, b = split(s1, r if t == "ItTakeW" else is_variant1(r))
        if a is not None and t != "ItTakeW":
            x = payload1(r, it.a[2][-1])
        ends = [s for s in (s0, b) if s is not None]
        return a, x, (I.merge(ends) if ends else None)
    if t == "ItSkipW":
        itemc = I.tmp(S, mk("uninit"))

        def step(st):
            s1, x, s0 = nx(I, st, F(0))
            ex = [("end", s0)] if s0 is not None else []
            if s1 is None:
                return [], ex
            a, b = split(s1, I.load(s1, F(2)))
            if a is not None:
                a.mem[itemc.a[0]] = x
                ex.append(("found", a))
            if b is None:
                return [], ex
            r, b = I.call_value(b, F(1), [x], "b")
            if b is None:
                return [], ex
            again, b = split(b, r)
            if b is not None:
                I.store(b, F(2), TT)
                b.mem[itemc.a[0]] = x
                ex.append(("found", b))
            return ([again] if again is not None else []), ex
        res = I.solve_loop(S, step, "skip_while", None)
        a = I.merge([s for t_, s in res if t_ == "found"])
        b = I.merge([s for t_, s in res if t_ == "end"])
        return a, (a.mem.get(itemc.a[0]) if a is not None else None), b
    if t == "ItChain":
        s1, x, s0 = nx(I, S, F(0))
        if s0 is None:
            return s1, x, None
        s2, y, end = nx(I, s0, F(1))
        if s1 is None:
            return s2, y, end
        if s2 is None:
            return s1, x, end
        itemc = I.tmp(S, mk("uninit"))
        s1.mem[itemc.a[0]] = x
        s2.mem[itemc.a[0]] = y
        m = I.merge([s1, s2])
        return m, m.mem.get(itemc.a[0]), end
    if t == "ItGen":
        r, s1 = I.call_value(S, F(0), [])
        if s1 is None:
            return None, None, None
        a, b = split(s1, is_variant1(r))
        return a, payload1(r, it.a[2][-1]), b
    if t == "ItSucc":
        cur = I.load(S, F(1))
        s1, s0 = split(S, is_variant1(cur))
        if s1 is None:
            return None, None, s0
        x = payload1(cur, it.a[2][-1])
        r, s1 = I.call_value(s1, F(0), [x])
        if s1 is None:
            return None, None, s0
        I.store(s1, F(1), r)
        return s1, x, s0
    raise vg.Undecided("iterator " + t)


_pure_memo = {}


def call_pure(I, S, f, args, w=None, loop=None):
    """call a closure for its value only; None if it changes memory or draws"""
    st = State(dict(S.mem), S.pc)
    before = dict(st.mem)
    d0 = I.draws
    e0 = len(I.events)
    if loop is not None:
        I.loopctx.append(loop)
    try:
        fr = f
        r, st2 = I.call_value(st, fr, args, w)
    finally:
        if loop is not None:
            I.loopctx.pop()
    if st2 is None:
        del I.events[e0:]
        return None
    for c, v in before.items():
        if st2.mem.get(c) is not v:
            del I.events[e0:]
            return None
    if I.draws != d0:
        del I.events[e0:]
        return None
    for e in I.events[e0:]:
        if e["kind"] == "call" and e.get("ext") and not pure_path(e["path"]):
            del I.events[e0:]
            return None
    return r


def it_map(I, S, it, f):
    if is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        r = call_pure(I, S, f, [el(s, j)], None, (j, n, S.pc))
        if r is not None:
            return IT(mk_map(n, j, I.deep(S, r)))
    return agg("ItMap", 0, (it, f))


def it_filter(I, S, it, f, fm=False):
    if is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        r = call_pure(I, S, f, [el(s, j)], None if fm else "b", (j, n, S.pc))
        if r is not None and (fm or r.w == "b"):
            if fm:
                body = ite(is_variant1(r), seq(match2(r, lambda v, p: p if v == 1 else mk("bad"))), SEQ_EMPTY)
            else:
                body = ite(r, seq(el(s, j)), SEQ_EMPTY)
            return IT(mk_flat(n, j, body))
    return agg("ItFilterMap" if fm else "ItFilter", 0, (it, f))


def it_enum(I, S, it):
    if is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        return IT(mk_map(n, j, tup(j, el(s, j))))
    return agg("ItEnum", 0, (it, c64(0)))


def it_zip(I, S, a, b):
    if is_it(a, "It") and is_it(b, "It"):
        x, y = remaining(a), remaining(b)
        n = min_(slen(x), slen(y))
        j = fresh_var(64, [n])
        return IT(mk_map(n, j, tup(el(x, j), el(y, j))))
    if is_it(a, "It") and is_it(b, "ItFrom"):
        x = remaining(a)
        n = slen(x)
        j = fresh_var(64, [n])
        o = b.a[2][0]
        return IT(mk_map(n, j, tup(el(x, j), add(o, kcast(j, o.w)))))
    if is_it(b, "It") and is_it(a, "ItFrom"):
        x = remaining(b)
        n = slen(x)
        j = fresh_var(64, [n])
        o = a.a[2][0]
        return IT(mk_map(n, j, tup(add(o, kcast(j, o.w)), el(x, j))))
    return agg("ItZip", 0, (a, b))


def it_rev(I, S, it):
    if is_it(it, "It"):
        return IT(rev_(remaining(it)))
    if is_it(it, "ItMut"):
        r, lo, n, p, rv = it.a[2]
        lo2 = ite(rv, lo, add(lo, p))
        return agg("ItMut", 0, (r, lo2, sub(n, p), c64(0), b_not(rv)))
    if is_it(it, "ItMap"):
        return agg("ItMap", 0, (it_rev(I, S, it.a[2][0]), it.a[2][1]))
    if is_it(it, "ItEnum") and is_it(it.a[2][0], "ItMut"):
        r, lo, n, p, rv = it.a[2][0].a[2]
        j = fresh_var(64, [n])
        cnt = IT(rev_(mk_map(sub(n, p), j, add(it.a[2][1], j))))
        return agg("ItZip", 0, (cnt, it_rev(I, S, it.a[2][0])))
    raise vg.Undecided("rev of " + it.a[0])


def it_take(I, S, it, n):
    if is_it(it, "It"):
        s = remaining(it)
        return IT(slice_(s, c64(0), min_(n, slen(s))))
    if is_it(it, "ItFrom"):
        a = it.a[2][0]
        j = fresh_var(64, [n])
        return IT(mk_map(n, j, add(a, kcast(j, a.w))))
    if is_it(it, "ItRepeat"):
        j = fresh_var(64, [n])
        return IT(mk_map(n, j, it.a[2][0]))
    if is_it(it, "ItCycle"):
        s, p = it.a[2]
        m = ite(pos(slen(s)), n, c64(0))
        j = fresh_var(64, [m])
        return IT(mk_map(m, j, el(s, rem(add(p, j), slen(s)))))
    if is_it(it, "ItMut"):
        r, lo, m, p, rv = it.a[2]
        if rv is FF:
            return agg("ItMut", 0, (r, add(lo, p), min_(n, sub(m, p)), c64(0), rv))
    if is_it(it, "ItMap"):
        return agg("ItMap", 0, (it_take(I, S, it.a[2][0], n), it.a[2][1]))
    return agg("ItTake", 0, (it, n))


def it_skip(I, S, it, n):
    if is_it(it, "It"):
        s = remaining(it)
        m = min_(n, slen(s))
        return IT(slice_(s, m, sub(slen(s), m)))
    if is_it(it, "ItMut"):
        r, lo, m, p, rv = it.a[2]
        if rv is FF:
            q = min_(n, sub(m, p))
            return agg("ItMut", 0, (r, add(add(lo, p), q), sub(sub(m, p), q), c64(0), rv))
    if is_it(it, "ItEnum"):
        inner = it.a[2][0]
        if is_it(inner, "ItMut"):
            r, lo, m, p, rv = inner.a[2]
            q = min_(n, sub(m, p))
            return agg("ItEnum", 0, (it_skip(I, S, inner, n), add(it.a[2][1], q)))
    raise vg.Undecided("skip of " + it.a[0])


def it_step(I, S, it, st):
    if is_it(it, "It"):
        s = remaining(it)
        n = cdiv(slen(s), st)
        j = fresh_var(64, [n])
        return IT(mk_map(n, j, el(s, mul(j, st))))
    raise vg.Undecided("step_by of " + it.a[0])


def it_chain(I, S, a, b):
    if is_it(a, "It") and is_it(b, "It"):
        return IT(cat(remaining(a), remaining(b)))
    return agg("ItChain", 0, (a, b))


def it_flatmap(I, S, it, f, ty=None):
    if is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        if f is None:
            r = el(s, j)
        else:
            r = call_pure(I, S, f, [el(s, j)], None, (j, n, S.pc))
        if r is not None:
            inner = to_iter(I, S, I.load(S, r), ty)
            if is_it(inner, "It"):
                return IT(mk_flat(n, j, remaining(inner)))
    raise vg.Undecided("flat_map with effects")


def chunks(I, S, s, c, exact):
    n = slen(s)
    cnt = div(n, c) if exact else cdiv(n, c)
    j = fresh_var(64, [cnt])
    lo = mul(j, c)
    ln = c if exact else min_(c, sub(n, lo))
    return IT(mk_map(cnt, j, slice_(s, lo, ln)))


def windows(I, S, s, c):
    n = slen(s)
    cnt = monus(add(n, c64(1)), c)
    j = fresh_var(64, [cnt])
    return IT(mk_map(cnt, j, slice_(s, j, c)))


def drive(I, S, it, acc0, fn, what):
    """generic consumer: fn(S, item, accref) -> [(tag|None, state)]"""
    S = S.copy()
    itc = I.tmp(S, it)
    acc = I.tmp(S, acc0) if acc0 is not None else None
    keep = set(S.mem)

    def step(st):
        s1, x, s0 = nx(I, st, itc)
        ex, backs = [], []
        if s0 is not None:
            ex.append(("done", s0))
        if s1 is not None:
            for tag, s in fn(s1, x, acc):
                if s is None:
                    continue
                (ex if tag else backs).append((tag, s) if tag else s)
        return backs, ex
    res = I.solve_loop(S, step, what, None)
    for t, s in res:
        s.mem = {c: v for c, v in s.mem.items() if c in keep or not (isinstance(c[1], str) and c[1].startswith("t"))}
    return res, acc


def finish(I, res, val):
    """merge exit states, computing the return value per tag"""
    out = []
    cell = (I.depth, "rv")
    for t, s in res:
        v = val(t, s)
        s.mem[cell] = v
        out.append(s)
    m = I.merge(out)
    if m is None:
        return None, None
    return m.mem.pop(cell), m


def fold_model(I, S, it, init, f, w):
    fr = I.tmp(S, f)

    def fn(s, x, acc):
        r, s2 = I.call_value(s, fr, [I.load(s, acc), x], w)
        if s2 is None:
            return []
        I.store(s2, acc, r)
        return [(None, s2)]
    res, acc = drive(I, S, it, init, fn, "fold")
    return finish(I, res, lambda t, s: I.load(s, acc))


# ------------------------------------------------------------------ dispatch tables
IDENT = {
    "as_slice", "as_mut_slice", "into_boxed_slice", "to_vec", "into_vec", "as_bytes", "as_str", "into_bytes", "to_owned",
    "into_string", "into_boxed_str", "as_ref", "as_mut", "borrow", "borrow_mut", "deref", "deref_mut", "clone", "cloned", "copied",
    "by_ref", "as_mut_ptr", "must_use", "black_box", "into_inner", "box_assume_init_into_vec_unsafe", "assume_init", "peekable",
    "fuse", "as_deref", "as_deref_mut", "as_os_str", "to_str", "into_iter_ident", "as_ptr", "leak", "into_raw", "from_raw", "from_utf8_unchecked", "identity",
}

PURE_PREFIX = ("base64::", "bincode::", "serde_json::", "sha2::", "digest::", "clap::", "libm::", "core::fmt::", "alloc::fmt::", "alloc::string::", "core::str::", "generic_array::",
               "std::fs::", "std::io::", "alloc::io::", "core::io::", "std::env::", "serde::", "serde_core::", "core::error", "alloc::boxed", "std::path::", "core::hash", "hashbrown::", "alloc::collections", "core::f64", "std::f64", "core::char", "alloc::str", "core::any", "std::error")
IMPURE = ("std::env::", "std::fs::", "std::io::", "alloc::io::", "core::io::")


def pure_path(p):
    p = p.lstrip("<")
    return p.startswith(PURE_PREFIX) and not p.startswith(IMPURE)


def pure_ext(fn):
    p = (fn.get("rpath") or fn["path"]).lstrip("<")
    q = fn["path"].lstrip("<")
    return p.startswith(PURE_PREFIX) or q.startswith(PURE_PREFIX)


def inlinable(fn, body):
    p = (fn.get("rpath") or fn["path"]).lstrip("<")
    return p.startswith(("core::option", "core::result", "core::cmp", "core::ops", "core::num", "core::mem", "core::convert", "core::bool", "core::tuple", "core::array::from_fn"))


def load(I, S, v):
    return I.load(S, v)


def need(I, S, what, good, ops):
    if good is TT:
        return
    if good is FF:
        I.ev("panic", S, what=what, cond=TT, ops=ops, body=None, block=None)
        return
    I.ev("assert", S, what=what, ops=ops, good=good, body=None, block=None)


def range_bounds(r, n):
    """(lo, hi) of a range aggregate against length n"""
    p = r.a[0].split("::")[-1]
    if p == "Range":
        return r.a[2][0], r.a[2][1]
    if p == "RangeFrom":
        return r.a[2][0], n
    if p == "RangeTo":
        return c64(0), r.a[2][0]
    if p == "RangeFull":
        return c64(0), n
    if p == "RangeInclusive":
        return r.a[2][0], add(r.a[2][1], c64(1))
    if p == "RangeToInclusive":
        return c64(0), add(r.a[2][0], c64(1))
    return None


def index_model(I, S, base, i, mut):
    cur = I.load(S, base)
    n = slen(cur)
    if isinstance(i.w, int):
        need(I, S, "bounds", lt(i, n), [n, i])
        if mut and (base.op == "ref" or base.op == "ite" and I.has_ref(base)):
            return I.extend_ref(base, (("i", i, elem_w(cur)),))
        return el(cur, i)
    if i.op == "agg":
        if i.a[0].endswith("RangeFull"):
            return base if mut else cur
        b = range_bounds(i, n)
        if b is not None:
            lo, hi = b
            need(I, S, "range", b_and(le(lo, hi), le(hi, n)), [n, lo, hi])
            if mut and base.op == "ref":
                return I.extend_ref(base, (("s", lo, sub(hi, lo)),))
            return slice_(cur, lo, sub(hi, lo))
    return mk("app", "hm_index", cur, i)


_NUM = re.compile(r"^core::num::<impl ([iu](?:\d+|size))>::(\w+)$")


def num_model(I, S, ctx, m):
    tyn, name = m.group(1), m.group(2)
    sg = tyn[0] == "i"
    w = 64 if tyn[1:] == "size" else int(tyn[1:])
    a = [I.load(S, x) for x in ctx.args]
    if name in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        n = w // 8
        s = a[0]
        r = const(0, w)
        for i in range(n):
            b = idx(s, c64(i), 8)
            sh = 8 * i if name != "from_be_bytes" else 8 * (n - 1 - i)
            r = add(r, shl(zext(b, w) if w > 8 else b, const(sh, w)))
        return r, S
    if name in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        n = w // 8
        xs = [trunc(shr(a[0], const(8 * i, w)), 8) if w > 8 else a[0] for i in range(n)]
        if name == "to_be_bytes":
            xs = xs[::-1]
        return seq(*xs), S
    OPN = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr"}
    for pre in ("wrapping_", "overflowing_", "checked_", "saturating_", "unchecked_", "strict_"):
        if name.startswith(pre):
            o = name[len(pre):]
            if o in OPN:
                x, y = a[0], a[1]
                if o in ("shl", "shr"):
                    y2 = rem(cast(y, 64), c64(w)) if pre in ("wrapping_", "overflowing_") else cast(y, 64)
                    r = binop(OPN[o], x, cast(y2, x.w), sg)
                    bad = le(c64(w), cast(y, 64))
                else:
                    r = binop(OPN[o], x, y, sg)
                    bad = eq0(y) if o in ("div", "rem") else ovf(OPN[o], x, y, sg)
                if pre in ("wrapping_", "unchecked_"):
                    return r, S
                if pre == "strict_":
                    need(I, S, "overflow", b_not(bad), [x, y])
                    return r, S
                if pre == "overflowing_":
                    return tup(r, bad), S
                if pre == "checked_":
                    return ite(bad, none(), some(r)), S
                if pre == "saturating_":
                    if not sg and o == "sub":
                        return monus(x, y), S
                    if o in ("add", "mul", "div", "sub"):
                        if not sg:
                            return ite(bad, const((1 << w) - 1, w), r), S
                        top = const((1 << (w - 1)) - 1, w)
                        low = lt(x, const(0, w), True) if o != "mul" else b_not(eq(lt(x, const(0, w), True), lt(y, const(0, w), True)))
                        return ite(bad, top if o == "div" else ite(low, const(1 << (w - 1), w), top), r), S
                    return mk("app", name, x, y, w=w), S
            if o in ("neg", "abs"):
                low = eq(a[0], const(1 << (w - 1), w)) if sg else b_not(eq0(a[0]))
                r = neg(a[0]) if o == "neg" else ite(lt(a[0], const(0, w), True), neg(a[0]), a[0])
                if pre == "wrapping_":
                    return r, S
                if pre == "checked_":
                    return ite(low, none(), some(r)), S
                if pre == "overflowing_":
                    return tup(r, low), S
                if pre == "strict_":
                    need(I, S, "overflow", b_not(low), [a[0]])
                    return r, S
                if pre == "saturating_":
                    return ite(low, const((1 << (w - 1)) - 1, w), r), S
            if o in ("ilog2", "ilog10", "next_power_of_two", "next_multiple_of", "rem_euclid", "div_euclid", "isqrt") and pre == "checked_":
                bad = mk("app", f"num::{tyn}::bad_{o}", *a, w="b")
                return ite(bad, none(), some(mk("app", f"num::{tyn}::{o}", *a, w=32 if o.startswith("ilog") else w))), S
            if o == "pow":
                r = pow_term(a[0], a[1], w)
                if pre == "wrapping_":
                    return r, S
                bad = mk("ovf", "Pow", a[0], a[1], sg, w="b")
                if pre == "checked_":
                    return ite(bad, none(), some(r)), S
                if pre == "overflowing_":
                    return tup(r, bad), S
                if pre == "saturating_" and not sg:
                    return ite(bad, const((1 << w) - 1, w), r), S
                return mk("app", name, *a, w=w), S
    if name == "pow":
        ok_ = pow_fits(a[0], a[1], w)
        if ok_ is not TT:
            need(I, S, "overflow_pow", ok_ if ok_ is not None else b_not(mk("ovf", "Pow", a[0], a[1], sg, w="b")), [a[0], a[1]])
        return pow_term(a[0], a[1], w), S
    if name in ("rotate_left", "rotate_right"):
        k = rem(cast(a[1], 64), c64(w))
        return rotl(a[0], k if name == "rotate_left" else rem(sub(c64(w), k), c64(w))), S
    if name == "abs_diff":
        return ite(lt(a[0], a[1], sg), sub(a[1], a[0]), sub(a[0], a[1])), S
    if name == "is_multiple_of":
        return ite(eq0(a[1]), eq0(a[0]), eq0(rem(a[0], a[1]))), S
    if name == "div_ceil":
        return cdiv(a[0], a[1]), S
    if name == "rem_euclid" and not sg:
        return rem(a[0], a[1]), S
    if name == "div_euclid" and not sg:
        return div(a[0], a[1]), S
    if name in ("unsigned_abs", "abs"):
        if name == "abs":
            need(I, S, "overflow_neg", b_not(eq(a[0], const(1 << (w - 1), w))), [a[0]])
        return ite(lt(a[0], const(0, w), True), neg(a[0]), a[0]), S
    if name == "signum":
        return ite(lt(a[0], const(0, w), True), const((1 << w) - 1, w), ite(eq0(a[0]), const(0, w), const(1, w))), S
    if name == "is_negative":
        return lt(a[0], const(0, w), True), S
    if name == "is_positive":
        return lt(const(0, w), a[0], True), S
    if name in ("cast_signed", "cast_unsigned"):
        return a[0], S
    if name in ("ilog2", "ilog10", "next_power_of_two", "next_multiple_of", "rem_euclid", "div_euclid"):
        need(I, S, "overflow", b_not(mk("app", f"num::{tyn}::bad_{name}", *a, w="b")), a)
    if all(isinstance(x.w, int) for x in a):
        return mk("app", f"num::{tyn}::{name}", *a, w="b" if name.startswith("is_") else ctx.w() or w), S
    return None


def pow_term(b, e, w):
    if is_c(b) and cval(b) and cval(b) & (cval(b) - 1) == 0:
        m = cval(b).bit_length() - 1
        return pow2(mul(cast(e, 64), c64(m)), w)
    if is_c(e):
        r = const(1, w)
        for _ in range(min(cval(e), 64)):
            r = mul(r, b)
        return r
    return mk("app", "pow", b, e, w=w)


def pow_fits(b, e, w):
    if is_c(b) and cval(b) and cval(b) & (cval(b) - 1) == 0:
        m = cval(b).bit_length() - 1
        return lt(mul(cast(e, 64), c64(m)), c64(w))
    return None


def ord_agg(a, b, sg=False):
    return binop("Cmp", a, b, sg)


def cmp_widths(I, S, ctx):
    a = I.load(S, ctx.args[0])
    b = I.load(S, ctx.args[1]) if len(ctx.args) > 1 else None
    sg = False
    t = ctx.arg_ty(0)
    while t is not None and t["k"] == "ref":
        t = ctx.tys[t["to"]]
    if t is not None and t["k"] == "int":
        sg = True
    return a, b, sg


def convert(I, S, ctx, v, dt):
    """From/Into by destination type"""
    if dt is None:
        return v
    if dt["k"] in ("int", "uint"):
        if v.w == "b":
            return ite(v, const(1, dt["bits"]), const(0, dt["bits"]))
        if isinstance(v.w, int):
            st = ctx.arg_ty(0)
            return cast(v, dt["bits"], st is not None and st["k"] == "int")
        st = peeled(ctx, 0)
        if st is not None and st["k"] in ("int", "uint"):
            return mk("app", "seq_into", v, st["bits"] if st["k"] == "int" else 0, w=dt["bits"])
        return mk("app", "into", v, w=dt["bits"])
    if dt["k"] == "float":
        return mk("fi", v) if isinstance(v.w, int) else v
    if dt["k"] == "adt":
        p = dt["path"]
        if p.endswith("Option"):
            return some(v) if not (v.op == "agg" and v.a[0] == OPT) else v
    return v


# ------------------------------------------------------------------ main entry
def call(I, S, ctx):
    fn = ctx.fn
    path, name, args = ctx.path, ctx.name, ctx.args
    rpath = fn.get("rpath") or path
    tr = fn.get("trait") or ""
    m = _NUM.match(path)
    if m:
        r = num_model(I, S, ctx, m)
        if r is not None:
            return r
    L = lambda i: I.load(S, args[i])
    owner = path.rsplit("::", 1)[0]

    if path == ((ctx.dest() or {}).get("path")):
        return agg(path, 0, tuple(args)), S

    # ---------------- operators through traits
    if tr.startswith("core::ops::") or owner.startswith("core::ops::arith") or owner.startswith("core::ops::bit"):
        o = owner.split("::")[-1]
        BI = {"Add": "Add", "Sub": "Sub", "Mul": "Mul", "Div": "Div", "Rem": "Rem", "BitXor": "BitXor", "BitAnd": "BitAnd", "BitOr": "BitOr", "Shl": "Shl", "Shr": "Shr"}
        if o in BI and len(args) == 2:
            a, b, sg = cmp_widths(I, S, ctx)
            if isinstance(a.w, int) or a.w == "b":
                if o in ("Add", "Sub", "Mul"):
                    need(I, S, "overflow", b_not(ovf(o, a, b, sg)), [o, a, b])
                if o in ("Div", "Rem"):
                    need(I, S, "divzero", b_not(eq0(b)), [a, b])
                return binop(BI[o], a, b, sg), S
        if o.endswith("Assign") and o[:-6] in BI and len(args) == 2:
            a, b, sg = cmp_widths(I, S, ctx)
            if isinstance(a.w, int) or a.w == "b":
                if o[:-6] in ("Add", "Sub", "Mul"):
                    need(I, S, "overflow", b_not(ovf(o[:-6], a, b, sg)), [o[:-6], a, b])
                if o[:-6] in ("Div", "Rem"):
                    need(I, S, "divzero", b_not(eq0(b)), [a, b])
                I.store(S, args[0], binop(BI[o[:-6]], a, b, sg))
                return UNIT, S
        if o == "Not" and len(args) == 1:
            a = L(0)
            return (b_not(a) if a.w == "b" else vg.not_int(a)), S
        if o == "Neg" and len(args) == 1 and isinstance(L(0).w, int):
            return neg(L(0)), S
    if name in ("index", "index_mut") and owner.startswith("core::ops::index"):
        return index_model(I, S, args[0], L(1), name == "index_mut"), S
    if name in ("call", "call_mut", "call_once") and owner.startswith("core::ops::function"):
        t = L(1)
        xs = list(t.a[2]) if t.op == "agg" and t.a[0] == "tuple" else [t]
        return I.call_value(S, args[0], xs, ctx.w())
    if name == "branch" and owner.startswith("core::ops::try_trait"):
        v = L(0)
        t = ctx.arg_ty(0)
        isopt = (t is not None and t["k"] == "adt" and t["path"].endswith("Option")) or "Option" in rpath
        w0, w1 = payload(ctx, 0)

        def br(k, p):
            if isopt:
                return agg(CF, 0, (p,)) if k == 1 else agg(CF, 1, (none(),))
            return agg(CF, 0, (p,)) if k == 0 else agg(CF, 1, (err(p),))
        return match2(v, br, w0, w1), S
    if name == "from_residual":
        v = L(0)
        d = ctx.dest()
        if d is not None and d["k"] == "adt" and d["path"].endswith("Option"):
            return none(), S
        return match2(v, lambda k, p: err(p) if k == 1 else mk("bad")), S
    if name == "from_output" and owner.startswith("core::ops::try_trait"):
        d = ctx.dest()
        return (some(args[0]) if d is not None and d["path"].endswith("Option") else ok(args[0])), S
    if path.startswith("core::ops::range::Range") and name == "contains":
        r, x = L(0), L(1)
        p = r.a[0].split("::")[-1] if r.op == "agg" else ""
        b = range_bounds(r, None) if p in ("Range", "RangeTo") else None
        if b:
            return b_and(le(b[0], x), lt(x, b[1])), S
    if path.startswith("core::ops::range::RangeInclusive") and name == "new":
        return agg("core::ops::range::RangeInclusive", 0, (args[0], args[1], FF)), S

    # ---------------- Option / Result
    if path.startswith(OPT + "::") or path.startswith(RES + "::"):
        r = optres(I, S, ctx, path.startswith(OPT))
        if r is not None:
            return r

    # ---------------- comparison
    if owner.startswith("core::cmp"):
        if name in ("min", "max") and len(args) == 2:
            a, b, sg = cmp_widths(I, S, ctx)
            if isinstance(a.w, int):
                if sg:
                    c = lt(a, b, True)
                    return (ite(c, a, b) if name == "min" else ite(c, b, a)), S
                return (min_(a, b) if name == "min" else max_(a, b)), S
        if name == "clamp" and len(args) == 3:
            a, lo, hi = L(0), L(1), L(2)
            if isinstance(a.w, int):
                sg = cmp_widths(I, S, ctx)[2]
                need(I, S, "clamp", b_not(lt(hi, lo, sg)), [lo, hi])
                if sg:
                    return ite(lt(a, lo, True), lo, ite(lt(hi, a, True), hi, a)), S
                return min_(max_(a, lo), hi), S
        if name in ("eq", "ne"):
            a, b, sg = cmp_widths(I, S, ctx)
            a, b = I.deep(S, a), I.deep(S, b)
            if a.w == b.w:
                r = eq_val(a, b)
                return (r if name == "eq" else b_not(r)), S
        if name in ("lt", "le", "gt", "ge"):
            a, b, sg = cmp_widths(I, S, ctx)
            if isinstance(a.w, int):
                return binop(name.capitalize(), a, b, sg), S
        if name == "cmp":
            a, b, sg = cmp_widths(I, S, ctx)
            if isinstance(a.w, int):
                return ord_agg(a, b, sg), S
        if name == "partial_cmp":
            a, b, sg = cmp_widths(I, S, ctx)
            if isinstance(a.w, int):
                return some(ord_agg(a, b, sg)), S

    # ---------------- conversion / clone / default
    if name == "clone_from" and len(args) == 2:
        I.store(S, args[0], I.deep(S, args[1]))
        return UNIT, S
    if tr.endswith("clone::Clone") and name == "clone":
        return I.deep(S, args[0]), S
    if name == "default" and tr.endswith("default::Default"):
        v = default_value(I, ctx, ctx.destty)
        if v is not None:
            return v, S
    if name in ("into", "from") and (tr.endswith("convert::Into") or tr.endswith("convert::From")):
        d = ctx.dest()
        if d is not None and d["k"] == "adt" and d["path"].split("::")[0] in LOCAL:
            b = I.P.find_method(d["path"], "core::convert::From", "from")
            if b is not None:
                return I.call_body(b, [args[0]], S)
        v = I.deep(S, args[0]) if not (d is not None and d["k"] == "ref" and d["mut"]) else args[0]
        return convert(I, S, ctx, v, d), S
    if name in ("try_into", "try_from") and (tr.endswith("TryInto") or tr.endswith("TryFrom")):
        d = ctx.dest()
        v = L(0)
        if d is not None and d.get("args"):
            u = ctx.tys[d["args"][0]]
            while u["k"] == "ref":
                u = ctx.tys[u["to"]]
            E = mk("app", "try_from_error")
            if u["k"] == "array":
                return ite(eq(slen(v), c64(u["len"])), ok(v), err(E)), S
            if u["k"] in ("uint", "int") and isinstance(v.w, int):
                st = ctx.arg_ty(0)
                ssg = st is not None and st["k"] == "int"
                W = u["bits"]
                if u["k"] == "uint" and not ssg:
                    if v.w <= W:
                        return ok(cast(v, W)), S
                    return ite(lt(v, const(1 << W, v.w)), ok(trunc(v, W)), err(E)), S
                if u["k"] == "int" and not ssg:
                    if v.w < W:
                        return ok(cast(v, W)), S
                    return ite(lt(v, const(1 << (W - 1), v.w)), ok(cast(v, W)), err(E)), S
                return ite(mk("app", "try_fits", v, W, u["k"], w="b"), ok(cast(v, W, ssg)), err(E)), S
        return None
    if path.startswith("core::convert::identity"):
        return args[0], S

    # ---------------- memory
    if path == "core::mem::size_of" or path == "core::mem::size_of_val":
        t = fn.get("targs") or []
        if t:
            n = size_of(ctx.tys, t[0])
            if n is not None:
                return c64(n), S
    if path == "core::mem::swap":
        a, b = L(0), L(1)
        I.store(S, args[0], b)
        I.store(S, args[1], a)
        return UNIT, S
    if path == "core::mem::replace":
        a = L(0)
        I.store(S, args[0], args[1])
        return a, S
    if path == "core::mem::take":
        a = L(0)
        v = default_value(I, ctx, ctx.destty)
        if v is not None:
            I.store(S, args[0], v)
            return a, S
    if path in ("core::mem::drop", "core::mem::forget"):
        return UNIT, S
    if path == "alloc::boxed::Box::<T>::new":
        return args[0], S
    if name == "new_uninit" or name == "uninit":
        return mk("uninit"), S
    if re.match(r"alloc::(rcs::)?(rc::Rc|sync::Arc)::<T>::new$", path) or path.startswith("alloc::borrow::Cow::") and name == "into_owned":
        return I.deep(S, args[0]), S

    # ---------------- randomness
    r = rng_model(I, S, ctx, rpath)
    if r is not None:
        return r

    # ---------------- iterators
    if tr.endswith("iterator::Iterator") or tr.endswith("collect::IntoIterator") or tr.endswith("DoubleEndedIterator") or tr.endswith("ExactSizeIterator") or tr.endswith("collect::Extend") or tr.endswith("collect::FromIterator") or tr.endswith("accum::Sum"):
        r = iter_model(I, S, ctx)
        if r is not None:
            return r
    if path.startswith("core::iter::"):
        if name == "repeat_n":
            n = args[1]
            k = fresh_var(64, [n])
            return IT(mk_map(n, k, args[0])), S
        if name == "once":
            return IT(seq(args[0])), S
        if name == "empty":
            return IT(SEQ_EMPTY), S
        if name == "repeat":
            return agg("ItRepeat", 0, (I.deep(S, args[0]),)), S
        if name == "repeat_with":
            r = call_pure(I, S, args[0], [])
            return (agg("ItRepeat", 0, (I.deep(S, r),)), S) if r is not None else None
        if name == "from_fn":
            return agg("ItGen", 0, (args[0], wc(ctx, 0))), S
        if name == "successors":
            return agg("ItSucc", 0, (args[1], args[0], wc(ctx, 0))), S
        if name in ("peek", "next_if", "next_if_eq") and "peekable" in path:
            it = I.load(S, args[0])
            if not is_it(it, "It"):
                return None
            has, item, new = pure_next(it)
            if name == "peek":
                return ite(has, some(item), none()), S
            if name == "next_if_eq":
                c = b_and(has, eq_val(I.deep(S, item), I.deep(S, args[1])))
            else:
                r = call_pure(I, S, args[1], [item], "b")
                if r is None:
                    return None
                c = b_and(has, r)
            I.store(S, args[0], ite(c, new, it) if c not in (TT, FF) else (new if c is TT else it))
            return ite(c, some(item), none()), S
        if name == "zip":
            return it_zip(I, S, to_iter(I, S, args[0]), to_iter(I, S, args[1])), S

    # ---------------- slices / vectors / strings
    if name in ("box_assume_init_into_vec_unsafe", "write_box_via_move"):
        return I.deep(S, args[-1]), S
    if path.startswith(("alloc::vec::", "core::slice::", "alloc::slice::", "core::array::", "alloc::string::String", "core::str::<impl str>", "alloc::str::<impl str>", "alloc::borrow::")) or tr.endswith(("deref::Deref", "deref::DerefMut", "convert::AsRef", "convert::AsMut", "borrow::Borrow", "borrow::BorrowMut", "borrow::ToOwned", "string::ToString")):
        r = seq_model(I, S, ctx)
        if r is not None:
            return r
    if path.startswith("core::bool::<impl bool>"):
        c = L(0)
        if name == "then_some":
            return ite(c, some(args[1]), none()), S
        if name == "then":
            a, b = split(S, c)
            out = []
            if a is not None:
                r, a = I.call_value(a, args[1], [])
                if a is not None:
                    out.append(("t", a, some(r)))
            if b is not None:
                out.append(("f", b, none()))
            return finish(I, [((t, v), s) for t, s, v in out], lambda t, s: t[1])

    # ---------------- floats
    if name in ("floor", "trunc") and len(args) == 1:
        v = L(0)
        if v.op == "fq":
            return mk("fi", div(v.a[0], v.a[1])), S
        if v.op == "fi":
            return v, S
    if name == "ceil" and len(args) == 1:
        v = L(0)
        if v.op == "fq":
            return mk("fi", cdiv(v.a[0], v.a[1])), S
        if v.op == "fi":
            return v, S

    # ---------------- trait methods of a type parameter (taking &self)
    if path.startswith("xorf::Filter::") and name in ("contains", "len"):
        return mk("app", path, *(I.deep(S, a) for a in args), w=ctx.w()), S

    # ---------------- maps / sets
    if path.startswith(("hashbrown::map::HashMap", "std::collections::hash::map::HashMap", "alloc::collections::btree")) or path.startswith("hashbrown::set") or path.startswith("std::collections::hash::set"):
        if name in ("new", "with_capacity", "default"):
            return mk("app", "hm_new", owner.split("::")[-1][:12]), S
        if name == "insert":
            old = L(0)
            vals = [I.deep(S, a) for a in args[1:]]
            I.store(S, args[0], mk("app", "hm_insert", old, *vals))
            if len(vals) == 1:
                return mk("app", "hs_added", old, vals[0], w="b"), S
            return mk("app", "hm_old", old, vals[0]), S
        if name == "get":
            return mk("app", "hm_get", L(0), I.deep(S, args[1])), S
        if name in ("contains", "contains_key"):
            return mk("app", "hm_has", L(0), I.deep(S, args[1]), w="b"), S
        if name == "len":
            return mk("app", "hm_len", L(0), w=64), S

    # ---------------- panics
    if path.startswith("core::panicking::") or path in ("std::process::exit", "std::process::abort", "core::result::unwrap_failed", "core::option::unwrap_failed"):
        I.ev("panic", S, what="call:" + path, cond=TT, body=None, block=None, args=args)
        return None, None
    if path.startswith("core::hint::unreachable"):
        return None, None
    if name in ("must_use", "black_box") and path.startswith("core::hint"):
        return args[0], S
    if path.startswith("core::hint") or path.startswith("core::intrinsics::cold_path") or path.startswith("core::intrinsics::assume"):
        return UNIT, S
    if path.startswith("core::intrinsics::likely") or path.startswith("core::intrinsics::unlikely"):
        return args[0], S
    if path in ("std::io::stdio::_print", "std::io::stdio::_eprint"):
        I.ev("call", S, path=path, key=None, args=args, ext=True)
        return UNIT, S
    if name == "update" and "Digest" in path or name in ("chain", "chain_update") and "igest" in path or name == "update" and "digest" in tr:
        old = L(0)
        nv = mk("app", "digest_update", old, I.deep(S, args[1]))
        if args[0].op == "ref":
            I.store(S, args[0], nv)
            return UNIT, S
        return nv, S
    if name == "new" and "Digest" in path or "Digest" in tr and name == "new":
        return mk("app", "digest_new", impl_name(ctx, rpath)), S
    if name == "finalize" and ("Digest" in path or "igest" in tr):
        v = mk("app", "digest_final", L(0))
        TM.DESC[v] = ("s", 8, 32)
        return v, S
    if name == "digest" and ("Digest" in path or "igest" in tr):
        v = mk("app", "digest_final", mk("app", "digest_update", mk("app", "digest_new", impl_name(ctx, rpath)), I.deep(S, args[0])))
        TM.DESC[v] = ("s", 8, 32)
        return v, S
    return None


def impl_name(ctx, rpath):
    t = ctx.fn.get("targs") or []
    return ctx.tys[t[0]]["s"] if t else str(rpath)


def size_of(tys, i):
    t = tys[i]
    k = t["k"]
    if k in ("int", "uint", "float"):
        return t["bits"] // 8
    if k == "bool":
        return 1
    if k == "char":
        return 4
    if k == "array":
        n = size_of(tys, t["elem"])
        return None if n is None else n * t["len"]
    return None


def default_value(I, ctx, ti):
    if ti is None or isinstance(ti, tuple):
        return None
    t = ctx.tys[ti]
    k = t["k"]
    if k in ("int", "uint"):
        return const(0, t["bits"])
    if k == "bool":
        return FF
    if k == "float":
        return mk("fc", 0)
    if k == "char":
        return const(0, 32)
    if k == "array":
        v = default_value(I, ctx, t["elem"])
        if v is None:
            return None
        n = c64(t["len"])
        j = fresh_var(64, [n])
        return mk_map(n, j, v)
    if k == "tuple":
        vs = [default_value(I, ctx, f) for f in t["fields"]]
        return None if any(v is None for v in vs) else tup(*vs)
    if k == "param":
        return mk("app", "default", str(t.get("name", t.get("s", ""))))
    if k == "adt":
        p = t["path"]
        if p.endswith(("vec::Vec", "string::String")):
            return SEQ_EMPTY
        if p.endswith("Option"):
            return none()
        if p.endswith("PhantomData"):
            return agg(p, 0, ())
        if p.endswith("boxed::Box") and t["args"] and ctx.tys[t["args"][0]]["k"] == "slice":
            return SEQ_EMPTY
        if "HashMap" in p or "BTree" in p or "HashSet" in p:
            return mk("app", "hm_new", p.split("::")[-1][:12])
    return None


def optres(I, S, ctx, isopt):
    name, args = ctx.name, ctx.args
    v = I.load(S, args[0])
    w0, w1 = payload(ctx, 0)
    good = 1 if isopt else 0
    M = lambda f: match2(v, f, w0, w1)
    isgood = M(lambda k, p: TT if k == good else FF)
    gp = lambda: M(lambda k, p: p if k == good else mk("bad", w=(w1 if isopt else w0)))
    bp = lambda: M(lambda k, p: p if k != good else mk("bad", w=w1))
    if name in ("unwrap", "expect", "unwrap_unchecked"):
        need(I, S, "unwrap", isgood, [v])
        if isgood is FF:
            return None, None
        return pick(v, good, w0, w1), S
    if name in ("unwrap_err", "expect_err"):
        need(I, S, "unwrap", b_not(isgood), [v])
        return pick(v, 1, w0, w1), S
    if name in ("is_some", "is_ok"):
        return isgood, S
    if name in ("is_none", "is_err"):
        return b_not(isgood), S
    if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut", "copied", "cloned"):
        if name in ("as_mut", "as_deref_mut") and args[0].op == "ref":
            r = I.extend_ref(args[0], (("f", good, 0, None, 1, OPT if isopt else RES, (None,)),))
            if isopt:
                return ite(isgood, some(r), none()), S
        return v, S
    if name == "ok":
        return M(lambda k, p: some(p) if k == 0 else none()), S
    if name == "err":
        return M(lambda k, p: some(p) if k == 1 else none()), S
    if name == "unwrap_or":
        return M(lambda k, p: p if k == good else args[1]), S
    if name == "unwrap_or_default":
        d = default_value(I, ctx, ctx.destty)
        if d is not None:
            return M(lambda k, p: p if k == good else d), S
    if name == "ok_or":
        return M(lambda k, p: ok(p) if k == 1 else err(args[1])), S
    if name in ("map", "and_then", "map_err", "ok_or_else", "unwrap_or_else", "or_else", "is_some_and", "is_ok_and", "map_or", "map_or_else", "filter", "is_none_or"):
        a, b = split(S, isgood)
        out = []
        f = args[-1]
        gpay = pick(v, good, w0, w1) if a is not None else None
        bpay = (pick(v, 1, w0, w1) if not isopt else None) if b is not None else None
        wrap = some if isopt else ok
        dw = ctx.w()
        if a is not None:
            if name == "map":
                r, a = I.call_value(a, f, [gpay])
                r = wrap(r) if a is not None else None
            elif name in ("and_then", "is_some_and", "is_ok_and", "is_none_or"):
                r, a = I.call_value(a, f, [gpay], dw)
            elif name in ("map_or", "map_or_else"):
                r, a = I.call_value(a, f, [gpay], dw)
            elif name == "filter":
                c, a = I.call_value(a, f, [gpay], "b")
                r = ite(c, some(gpay), none())
            elif name in ("map_err", "or_else"):
                r = wrap(gpay)
            elif name == "ok_or_else":
                r = ok(gpay)
            else:
                r = gpay
            if a is not None:
                out.append((r, a))
        if b is not None:
            if name in ("map", "and_then", "filter"):
                r = none() if isopt else err(bpay)
            elif name == "map_err":
                r, b = I.call_value(b, f, [bpay])
                r = err(r) if b is not None else None
            elif name in ("or_else",):
                r, b = I.call_value(b, f, [] if isopt else [bpay])
            elif name == "ok_or_else":
                r, b = I.call_value(b, f, [])
                r = err(r) if b is not None else None
            elif name == "unwrap_or_else":
                r, b = I.call_value(b, f, [] if isopt else [bpay], dw)
            elif name == "map_or":
                r = args[1]
            elif name == "map_or_else":
                r, b = I.call_value(b, args[1], [] if isopt else [bpay], dw)
            elif name == "is_none_or":
                r = TT
            else:
                r = FF
            if b is not None:
                out.append((r, b))
        return finish(I, [(r, s) for r, s in out], lambda t, s: t)
    if name == "take" and isopt:
        I.store(S, args[0], none())
        return v, S
    if name == "replace" and isopt:
        I.store(S, args[0], some(args[1]))
        return v, S
    if name == "insert" and isopt:
        I.store(S, args[0], some(args[1]))
        return I.extend_ref(args[0], (("f", 1, 0, None, 1, OPT, (None,)),)), S
    if name in ("iter", "into_iter"):
        return IT(ite(isgood, seq(pick(v, good, w0, w1)), SEQ_EMPTY)), S
    if name in ("or", "and", "zip", "xor"):
        o = args[1]
        if name == "or":
            return M(lambda k, p: (some(p) if isopt else ok(p)) if k == good else o), S
        if name == "and":
            return M(lambda k, p: o if k == good else (none() if isopt else err(p))), S
    if name == "unwrap_or_default":
        return None
    return None


def pick(v, variant, w0, w1):
    return fld(v, variant, 0, w0 if variant == 0 else w1)


# ------------------------------------------------------------------ rng
def rng_model(I, S, ctx, rpath):
    tr = ctx.fn.get("trait") or ""
    name, args = ctx.name, ctx.args
    path = ctx.path
    if path.endswith("thread_rng") and "rand::" in path:
        return agg("threadrng", 0, ()), S
    if "SeedableRng" in tr or "SeedableRng" in path:
        who = impl_name(ctx, rpath)
        if name == "from_seed":
            return agg("rng", 0, (mk("app", "rngseed", who, I.deep(S, args[0])), c64(0))), S
        if name == "seed_from_u64":
            return agg("rng", 0, (mk("app", "rngseed64", who, args[0]), c64(0))), S
        if name in ("from_entropy", "from_os_rng"):
            I.draws += 1
            return agg("rng", 0, (mk("app", "rngseed", who, mk("freshseq", "os:" + I.site(), I.ctx_ks(), c64(32))), c64(0))), S
        if name == "from_rng":
            I.draws += 1
            return agg("rng", 0, (mk("app", "rngfrom", who, mk("fresh", kind_of(I, S, ctx, rpath, 0) + ":" + I.site(), I.ctx_ks(), w=64)), c64(0))), S
    if "RngCore" in tr or "rand_core::RngCore" in path or tr.endswith("rand::rng::Rng") or path.startswith("rand::rng::Rng"):
        who = kind_of(I, S, ctx, rpath, 0)
        cur = I.load(S, args[0])
        isd = cur.op == "agg" and cur.a[0] == "rng"
        w = ctx.w()
        if name in ("next_u32", "next_u64", "gen", "random", "r#gen"):
            d = ctx.dest()
            if name in ("gen", "random", "r#gen") and not isinstance(w, int):
                if d is not None and d["k"] == "array":
                    ew = width_of(ctx.tys, d["elem"])
                    n = c64(d["len"])
                    I.draws += 1
                    if ew == 8 and not isd:
                        return mk("freshseq", who + ":" + I.site(), I.ctx_ks(), n), S
                    k = fresh_var(64, [n])
                    if not isd:
                        return mk_map(n, k, mk("fresh", who + ":" + I.site(), I.ctx_ks() + (k,), w=ew)), S
                return None
            I.draws += 1
            if isd:
                seed, p = cur.a[2]
                I.store(S, args[0], agg("rng", 0, (seed, add(p, c64(1)))))
                return mk("draw", seed, p, name if name != "random" else "gen", w=w), S
            return mk("fresh", who + ":" + I.site(), I.ctx_ks(), w=w), S
        if name in ("fill_bytes", "fill", "try_fill_bytes", "try_fill"):
            I.draws += 1
            tgt = args[1]
            old = I.load(S, tgt)
            n = slen(old)
            if isd:
                seed, p = cur.a[2]
                v = mk("app", "drawbytes", seed, p, n)
                I.store(S, args[0], agg("rng", 0, (seed, add(p, c64(1)))))
                TM.DESC[v] = ("s", 8, None)
            else:
                ew = elem_w(old)
                if ew in (8, None):
                    v = mk("freshseq", who + ":" + I.site(), I.ctx_ks(), n)
                else:
                    k = fresh_var(64, [n])
                    v = mk_map(n, k, mk("fresh", who + ":" + I.site(), I.ctx_ks() + (k,), w=ew))
            I.store(S, tgt, v)
            return (ok(UNIT) if name.startswith("try") else UNIT), S
        if name in ("gen_range", "random_range", "gen_bool", "random_bool", "sample"):
            I.draws += 1
            extra = [I.deep(S, a) for a in args[1:]]
            if isd:
                seed, p = cur.a[2]
                I.store(S, args[0], agg("rng", 0, (seed, add(p, c64(1)))))
                return mk("app", "draw_" + name, seed, p, *extra, w=w), S
            return mk("app", "fresh_" + name, mk("fresh", who + ":" + I.site(), I.ctx_ks(), w=64), *extra, w=w), S
    if "SliceRandom" in tr:
        I.draws += 1
        return None
    return None


def kind_of(I, S, ctx, rpath, i):
    s = rpath or ""
    t = ctx.arg_ty(i)
    while t is not None and t["k"] == "ref":
        t = ctx.tys[t["to"]]
    ts = t["s"] if t is not None else ""
    if "OsRng" in s or "OsRng" in ts:
        return "os"
    if "ThreadRng" in s or "ThreadRng" in ts:
        return "thread"
    return "rng<" + (ts or s) + ">"


# ------------------------------------------------------------------ iterator methods
def iter_model(I, S, ctx):
    name, args = ctx.name, ctx.args
    tr = ctx.fn.get("trait") or ""
    if name == "into_iter":
        return to_iter(I, S, args[0], peeled(ctx, 0)), S
    if tr.endswith("FromIterator") and name == "from_iter":
        return collect(I, S, to_iter(I, S, args[0], peeled(ctx, 0)), ctx)
    if tr.endswith("Extend"):
        if name == "extend":
            it = to_iter(I, S, args[1], peeled(ctx, 1))
            old = I.load(S, args[0])
            if not (old.w is None and is_seqlike(old) or old.op in ("seq", "phi")):
                return None
            if is_it(it, "It"):
                I.store(S, args[0], cat(old, remaining(it)))
                return UNIT, S
            tgt = args[0]

            def fn(s, x, acc):
                I.store(s, tgt, cat(I.load(s, tgt), seq(x)))
                return [(None, s)]
            res, _ = drive(I, S, it, None, fn, "extend")
            return finish(I, res, lambda t, s: UNIT)
        return None
    if name == "next" or name == "next_back":
        ref = args[0]
        it = I.load(S, ref)
        if it.op == "agg" and "range" in it.a[0].lower() and not is_it(it):
            p = it.a[0].split("::")[-1]
            if p == "Range":
                a, b = it.a[2]
                has = lt(a, b)
                one = const(1, a.w)
                if name == "next":
                    I.store(S, ref, agg(it.a[0], 0, (add(a, one), b)))
                    return ite(has, some(a), none()), S
                I.store(S, ref, agg(it.a[0], 0, (a, sub(b, one))))
                return ite(has, some(sub(b, one)), none()), S
        if not is_it(it):
            if it.op == "ref":
                ref = it
                it = I.load(S, it)
            if not is_it(it):
                if it.op == "ite":
                    return None
                it = to_iter(I, S, it)
                I.store(S, ref, it)
        if is_it(it, "ItRefs"):
            ref = it.a[2][0]
            it = I.load(S, ref)
            if not is_it(it):
                it = to_iter(I, S, it)
                I.store(S, ref, it)
        if name == "next_back":
            if is_it(it, "It"):
                s = remaining(it)
                n = slen(s)
                has = pos(n)
                I.store(S, ref, IT(slice_(s, c64(0), sub(n, c64(1)))))
                return ite(has, some(el(s, sub(n, c64(1)))), none()), S
            return None
        pn = pure_next(it)
        if pn is None and is_it(it, "ItMut"):
            pn = mut_next(I, S, it)
        if pn is None and is_it(it, "ItMutCh"):
            pn = mutch_next(I, S, it)
        if pn is None and is_it(it, "ItEnum"):
            inner = it.a[2][0]
            q = mut_next(I, S, inner) if is_it(inner, "ItMut") else (mutch_next(I, S, inner) if is_it(inner, "ItMutCh") else None)
            if q is not None:
                pn = (q[0], tup(it.a[2][1], q[1]), agg("ItEnum", 0, (q[2], add(it.a[2][1], c64(1)))))
        if pn is None and is_it(it, "ItZip"):
            qs = []
            for inner in it.a[2]:
                q = pure_next(inner) or (mut_next(I, S, inner) if is_it(inner, "ItMut") else (mutch_next(I, S, inner) if is_it(inner, "ItMutCh") else None))
                qs.append(q)
            if all(q is not None for q in qs):
                pn = (b_and(qs[0][0], qs[1][0]), tup(qs[0][1], qs[1][1]), agg("ItZip", 0, (qs[0][2], qs[1][2])))
        if pn is not None:
            has, item, new = pn
            I.store(S, ref, new)
            return ite(has, some(item), none()), S
        s1, x, s0 = nx(I, S, ref)
        out = []
        if s1 is not None:
            out.append((some(x), s1))
        if s0 is not None:
            out.append((none(), s0))
        return finish(I, out, lambda t, s: t)

    # everything below consumes / adapts self
    if name in ("size_hint",):
        return None
    it = to_iter(I, S, args[0]) if not (name in ("len",) and args[0].op != "ref") else to_iter(I, S, I.load(S, args[0]))
    base = None
    if name in ("nth", "rposition", "is_sorted", "peek") and is_it(it, "ItRefs") and is_it(I.load(S, it.a[2][0]), "It"):
        base, it = it.a[2][0], I.load(S, it.a[2][0])
    if name == "map":
        return it_map(I, S, it, args[1]), S
    if name == "enumerate":
        return it_enum(I, S, it), S
    if name == "zip":
        return it_zip(I, S, it, to_iter(I, S, args[1], peeled(ctx, 1))), S
    if name == "rev":
        return it_rev(I, S, it), S
    if name == "take":
        return it_take(I, S, it, args[1]), S
    if name == "skip":
        return it_skip(I, S, it, args[1]), S
    if name == "step_by":
        return it_step(I, S, it, args[1]), S
    if name == "chain":
        return it_chain(I, S, it, to_iter(I, S, args[1], peeled(ctx, 1))), S
    if name == "peekable" and not is_it(it, "It"):
        return None
    if name == "cycle":
        return (agg("ItCycle", 0, (remaining(it), c64(0))), S) if is_it(it, "It") else None
    if name in ("take_while", "map_while"):
        return agg("ItTakeW" if name == "take_while" else "ItMapW", 0, (it, args[1], wc(ctx, 1))), S
    if name == "skip_while":
        return agg("ItSkipW", 0, (it, args[1], FF)), S
    if name == "scan":
        return agg("ItScan", 0, (it, args[2], args[1], wc(ctx, 2))), S
    if name in ("copied", "cloned", "fuse", "peekable", "by_ref", "into_iter"):
        return (args[0] if name == "by_ref" else it), S
    if name == "filter":
        return it_filter(I, S, it, args[1]), S
    if name == "filter_map":
        return it_filter(I, S, it, args[1], True), S
    if name == "flat_map":
        return it_flatmap(I, S, it, args[1], targ(ctx, 1)), S
    if name == "flatten":
        self_s = (targ(ctx, 0) or {}).get("s", "")
        opt = {"k": "adt", "path": OPT} if "Option<" in self_s and "Vec<" not in self_s else None
        return it_flatmap(I, S, it, None, opt), S
    if name == "inspect":
        return (it, S) if not is_it(it, "It") or call_pure(I, S, args[1], [el(remaining(it), fresh_var(64, [slen(remaining(it))]))]) is not None else None
    if name == "collect":
        return collect(I, S, it, ctx)
    if name in ("len", "count"):
        if is_it(it, "It"):
            return slen(remaining(it)), S
        if is_it(it, "ItMut"):
            return sub(it.a[2][2], it.a[2][3]), S
        return None
    if name == "fold":
        return fold_model(I, S, it, args[1], args[2], ctx.w())
    if name in ("sum", "product"):
        w = ctx.w()
        if not isinstance(w, int):
            return None
        init = const(0 if name == "sum" else 1, w)
        dd = ctx.dest()
        sg = dd is not None and dd["k"] == "int"

        def fn(s, x, acc):
            a = I.load(s, acc)
            x = I.load(s, x)
            if not isinstance(x.w, int):
                x = mk("app", "num", x, w=w)
            o = "Add" if name == "sum" else "Mul"
            need(I, s, "overflow", b_not(ovf(o, a, x, sg)), [o, a, x])
            I.store(s, acc, add(a, x) if name == "sum" else mul(a, x))
            return [(None, s)]
        res, acc = drive(I, S, it, init, fn, name)
        return finish(I, res, lambda t, s: I.load(s, acc))
    if name == "reduce" and is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        a, b = split(S, pos(n))
        out = [(none(), b)] if b is not None else []
        if a is not None:
            w = el(s, c64(0)).w
            r, a = fold_model(I, a, it_skip(I, a, it, c64(1)), el(s, c64(0)), args[1], w)
            if a is not None:
                out.append((some(r), a))
        return finish(I, out, lambda t, s: t)
    if name == "rposition" and is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        r = call_pure(I, S, args[1], [el(s, j)], "b", (j, n, S.pc))
        if r is None:
            return None
        k = mk("app", "seq_first", rev_(mk_map(n, j, r)), w=64)
        return ite(lt(k, n), some(sub(sub(n, c64(1)), k)), none()), S
    if name == "partition" and is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        r = call_pure(I, S, args[1], [el(s, j)], "b", (j, n, S.pc))
        if r is None or r.w != "b":
            return None
        x = seq(el(s, j))
        return tup(mk_flat(n, j, ite(r, x, SEQ_EMPTY)), mk_flat(n, j, ite(r, SEQ_EMPTY, x))), S
    if name in ("min_by_key", "max_by_key") and is_it(it, "It"):
        s = remaining(it)
        n = slen(s)
        j = fresh_var(64, [n])
        r = call_pure(I, S, args[1], [el(s, j)], None, (j, n, S.pc))
        if r is None:
            return None
        kt = targ(ctx, 1)
        k = mk("app", "seq_" + name[:3] + "at", mk_map(n, j, I.deep(S, r)), sgn(kt), w=64)
        return ite(pos(n), some(el(s, k)), none()), S
    if name in ("min_by", "max_by") and is_it(it, "It"):
        s = remaining(it)
        m = cmp_matrix(I, S, s, args[1])
        if m is None:
            return None
        k = mk("app", "cmp_" + name[:3] + "at", m, w=64)
        return ite(pos(slen(s)), some(el(s, k)), none()), S
    if name in ("is_sorted", "is_sorted_by", "is_sorted_by_key") and is_it(it, "It"):
        return sorted_test(I, S, ctx, remaining(it), name)
    if name in ("cmp", "partial_cmp", "lt", "le", "gt", "ge") and len(args) == 2:
        o = to_iter(I, S, args[1], peeled(ctx, 1))
        if is_it(it, "It") and is_it(o, "It"):
            return None
    if name == "for_each":
        fr = I.tmp(S, args[1])

        def fn(s, x, acc):
            r, s2 = I.call_value(s, fr, [x])
            return [(None, s2)] if s2 is not None else []
        res, _ = drive(I, S, it, None, fn, name)
        return finish(I, res, lambda t, s: UNIT)
    if name in ("any", "all"):
        fr = I.tmp(S, args[1])

        def fn(s, x, acc):
            r, s2 = I.call_value(s, fr, [x], "b")
            if s2 is None:
                return []
            c = r if name == "any" else b_not(r)
            a, b = split(s2, c)
            return [("hit", a), (None, b)]
        res, _ = drive(I, S, it, None, fn, name)
        hit = TT if name == "any" else FF
        return finish(I, res, lambda t, s: hit if t == "hit" else b_not(hit))
    if name in ("find", "position", "find_map"):
        fr = I.tmp(S, args[1])
        out = I.tmp(S, none())
        cnt = I.tmp(S, c64(0))

        def fn(s, x, acc):
            r, s2 = I.call_value(s, fr, [x], None if name == "find_map" else "b")
            if s2 is None:
                return []
            c = is_variant1(r) if name == "find_map" else r
            a, b = split(s2, c)
            if a is not None:
                a.mem[out.a[0]] = r if name == "find_map" else (some(x) if name == "find" else some(I.load(s2, cnt)))
            if b is not None:
                b.mem[cnt.a[0]] = add(I.load(s2, cnt), c64(1))
            return [("hit", a), (None, b)]
        res, _ = drive(I, S, it, None, fn, name)
        return finish(I, res, lambda t, s: I.load(s, out) if t == "hit" else none())
    if name in ("try_for_each", "try_fold"):
        f = args[-1]
        fr = I.tmp(S, f)
        rc = I.tmp(S, UNIT)
        d = ctx.dest()
        isopt = d is not None and d["path"].endswith("Option")

        def fn(s, x, acc):
            aa = [x] if name == "try_for_each" else [I.load(s, acc), x]
            r, s2 = I.call_value(s, fr, aa)
            if s2 is None:
                return []
            good = is_variant1(r) if isopt else b_not(is_variant1(r))
            a, b = split(s2, good)
            if a is not None and name == "try_fold":
                I.store(a, acc, pick(r, 1 if isopt else 0, None, None))
            if b is not None:
                b.mem[rc.a[0]] = r
            return [(None, a), ("bad", b)]
        res, acc = drive(I, S, it, args[1] if name == "try_fold" else UNIT, fn, name)
        wrap = some if isopt else ok
        return finish(I, res, lambda t, s: I.load(s, rc) if t == "bad" else wrap(I.load(s, acc)))
    if name in ("last", "nth", "min", "max"):
        if name == "nth" and is_it(it, "It"):
            s = remaining(it)
            i = args[1]
            if base is not None:
                I.store(S, base, it_skip(I, S, it, add(i, c64(1))))
            return ite(lt(i, slen(s)), some(el(s, i)), none()), S
        if name == "last" and is_it(it, "It"):
            s = remaining(it)
            n = slen(s)
            return ite(pos(n), some(el(s, sub(n, c64(1)))), none()), S
        if name in ("min", "max") and is_it(it, "It"):
            s = remaining(it)
            d = ctx.dest()
            k = mk("app", "seq_" + name + "at", I.deep(S, s), sgn(peeled(ctx, None, d["args"][0]) if d is not None and d.get("args") else None), w=64)
            return ite(pos(slen(s)), some(el(s, k)), none()), S
        if name in ("min", "max"):
            r, S = collect_any(I, S, it)
            if S is None:
                return None, None
            d = ctx.dest()
            k = mk("app", "seq_" + name + "at", r, sgn(peeled(ctx, None, d["args"][0]) if d is not None and d.get("args") else None), w=64)
            return ite(pos(slen(r)), some(el(r, k)), none()), S
        if name == "last":
            def fn(s, x, acc):
                I.store(s, acc, some(x))
                return [(None, s)]
            res, acc = drive(I, S, it, none(), fn, name)
            return finish(I, res, lambda t, s: I.load(s, acc))
        if name == "nth":
            def fn(s, x, acc):
                a, b = split(s, eq(I.load(s, acc), args[1]))
                if a is not None:
                    a.mem[out.a[0]] = some(x)
                if b is not None:
                    I.store(b, acc, add(I.load(b, acc), c64(1)))
                return [("hit", a), (None, b)]
            out = I.tmp(S, none())
            res, acc = drive(I, S, it, c64(0), fn, name)
            return finish(I, res, lambda t, s: I.load(s, out) if t == "hit" else none())
    if name == "unzip":
        if is_it(it, "It"):
            s = remaining(it)
            n = slen(s)
            j = fresh_var(64, [n])
            x = el(s, j)
            return tup(mk_map(n, j, fld(x, 0, 0)), mk_map(n, j, fld(x, 0, 1))), S

        def fn(s, x, acc):
            c = I.load(s, acc)
            I.store(s, acc, tup(cat(fld(c, 0, 0), seq(fld(x, 0, 0))), cat(fld(c, 0, 1), seq(fld(x, 0, 1)))))
            return [(None, s)]
        res, acc = drive(I, S, it, tup(SEQ_EMPTY, SEQ_EMPTY), fn, name)
        return finish(I, res, lambda t, s: I.load(s, acc))
    if name in ("eq", "ne"):
        o = to_iter(I, S, args[1])
        if is_it(it, "It") and is_it(o, "It"):
            r = eq_val(remaining(it), remaining(o))
            return (r if name == "eq" else b_not(r)), S
    if name in ("peek", "next_if", "next_if_eq") and is_it(it, "It"):
        return None
    return None


def sgn(t):
    """1 signed, 0 unsigned, 2 unknown: how values of a type are ordered"""
    if t is None:
        return 2
    if t["k"] == "int":
        return 1
    if t["k"] in ("uint", "bool", "char"):
        return 0
    return 0 if not re.search(r"\bi(8|16|32|64|128|size)\b|\bf(32|64)\b", t.get("s", "i8")) and "::" not in t.get("s", "::") else 2


def cmp_matrix(I, S, s, f):
    """-1/0/1 of the comparison closure for every pair of elements"""
    n = slen(s)
    i, j = fresh_var(64, [n]), fresh_var(64, [n])
    I.loopctx.append((i, n, S.pc))
    try:
        r = call_pure(I, S, f, [el(s, i), el(s, j)], None, (j, n, S.pc))
    finally:
        I.loopctx.pop()
    if r is None:
        return None
    return mk_map(n, i, mk_map(n, j, I.deep(S, r)))


def sorted_test(I, S, ctx, s, name):
    n = slen(s)
    m = monus(n, c64(1))
    j = fresh_var(64, [m])
    x, y = el(s, j), el(s, add(j, c64(1)))
    if name == "is_sorted":
        d = None
        if not isinstance(x.w, int):
            return None
        st = targ(ctx, 0)
        sg = sgn(st) if st is not None and st["k"] != "adt" else 2
        if sg == 2:
            return None
        r = le(x, y) if not sg else b_not(lt(y, x, True))
    elif name == "is_sorted_by":
        r = call_pure(I, S, ctx.args[1], [x, y], "b", (j, m, S.pc))
    else:
        return None
    if r is None or r.w != "b":
        return None
    return b_not(lt(mk("app", "seq_first", mk_map(m, j, b_not(r)), w=64), m)), S


def collect(I, S, it, ctx):
    d = ctx.dest()
    if d is None:
        return None
    p = d.get("path", "")
    while d["k"] == "adt" and p.endswith("boxed::Box"):
        d = ctx.tys[d["args"][0]]
        p = d.get("path", "")
    if d["k"] == "adt" and p.endswith(("Result", "Option")):
        isopt = p.endswith("Option")
        good = 1 if isopt else 0
        rc = I.tmp(S, UNIT)
        gt = d["args"][0]
        ew = None
        e = ctx.tys[gt]
        if e["k"] == "adt" and e.get("args"):
            ew = width_of(ctx.tys, e["args"][0])

        def fn(s, x, acc):
            v = is_variant1(x)
            a, b = split(s, v if isopt else b_not(v))
            if a is not None:
                I.store(a, acc, cat(I.load(a, acc), seq(pick(x, good, ew, ew))))
            if b is not None:
                b.mem[rc.a[0]] = none() if isopt else err(pick(x, 1, None, None))
            return [(None, a), ("bad", b)]
        res, acc = drive(I, S, it, SEQ_EMPTY, fn, "collect")
        wrap = some if isopt else ok
        return finish(I, res, lambda t, s: I.load(s, rc) if t == "bad" else wrap(I.load(s, acc)))
    if d["k"] == "adt" and not p.endswith(("vec::Vec", "string::String")):
        kind = p.split("::")[-1]
        if kind in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
            r, S = collect_any(I, S, it)
            return (mk("app", "hm_collect", kind, r), S) if S is not None else (None, None)
        if kind not in ("VecDeque", "Rc", "Arc", "Cow", "LinkedList"):
            raise vg.Undecided("collect into " + p)
    if is_it(it, "It"):
        return remaining(it), S

    def fn(s, x, acc):
        I.store(s, acc, cat(I.load(s, acc), seq(I.deep(s, x))))
        return [(None, s)]
    res, acc = drive(I, S, it, SEQ_EMPTY, fn, "collect")
    return finish(I, res, lambda t, s: I.load(s, acc))


# ------------------------------------------------------------------ slices, vectors, strings
def seq_model(I, S, ctx):
    name, args, path = ctx.name, ctx.args, ctx.path
    L = lambda i: I.load(S, args[i])
    tr = ctx.fn.get("trait") or ""
    if name in ("deref_mut", "as_mut_slice", "as_mut", "borrow_mut", "as_mut_ptr"):
        return args[0], S
    if name == "to_string":
        v = L(0)
        return (v if v.w is None and (is_seqlike(v) or v.op == "sym") else mk("app", "to_string", v)), S
    if name in IDENT or name in ("from",) and "String" in path:
        return I.deep(S, args[0]), S
    if name == "from_elem" and "vec" in path:
        n = args[1]
        k = fresh_var(64, [n])
        return mk_map(n, k, args[0]), S
    if name in ("new", "with_capacity") and ("vec::Vec" in path or "String" in path):
        return SEQ_EMPTY, S
    if name in ("with_capacity", "reserve", "reserve_exact", "shrink_to_fit"):
        return UNIT, S
    if name == "len":
        return slen(L(0)), S
    if name == "is_empty":
        return eq0(slen(L(0))), S
    if name == "push":
        I.store(S, args[0], cat(L(0), seq(args[1])))
        return UNIT, S
    if name == "push_str" or name == "extend_from_slice" or name == "append":
        o = L(1)
        I.store(S, args[0], cat(L(0), o))
        if name == "append":
            I.store(S, args[1], SEQ_EMPTY)
        return UNIT, S
    if name == "clear":
        I.store(S, args[0], SEQ_EMPTY)
        return UNIT, S
    if name == "truncate":
        o = L(0)
        I.store(S, args[0], slice_(o, c64(0), min_(slen(o), args[1])))
        return UNIT, S
    if name == "resize":
        o = L(0)
        n = args[1]
        k = fresh_var(64)
        ext = monus(n, slen(o))
        TM.VAR_UB[k.a[0]] = [ext]
        I.store(S, args[0], cat(slice_(o, c64(0), min_(slen(o), n)), mk_map(ext, k, args[2])))
        return UNIT, S
    if name == "pop":
        o = L(0)
        n = slen(o)
        I.store(S, args[0], slice_(o, c64(0), monus(n, c64(1))))
        return ite(eq0(n), none(), some(el(o, sub(n, c64(1))))), S
    if name == "iter" or name == "into_iter":
        return to_iter(I, S, L(0)), S
    if name == "iter_mut":
        return to_iter(I, S, args[0]), S
    if name in ("chunks", "chunks_exact"):
        need(I, S, "chunk_size", b_not(eq0(args[1])), [args[1]])
        return chunks(I, S, L(0), args[1], name == "chunks_exact"), S
    if name in ("chunks_mut", "chunks_exact_mut"):
        n = slen(L(0))
        cnt = cdiv(n, args[1]) if name == "chunks_mut" else div(n, args[1])
        return agg("ItMutCh", 0, (args[0], args[1], cnt, n, c64(0))), S
    if name == "windows":
        return windows(I, S, L(0), args[1]), S
    if name in ("get", "get_mut"):
        o, i = L(0), L(1)
        if isinstance(i.w, int):
            item = I.extend_ref(args[0], (("i", i, elem_w(o)),)) if name == "get_mut" and args[0].op == "ref" else el(o, i)
            return ite(lt(i, slen(o)), some(item), none()), S
        if i.op == "agg":
            b = range_bounds(i, slen(o))
            if b:
                lo, hi = b
                g = b_and(le(lo, hi), le(hi, slen(o)))
                return ite(g, some(slice_(o, lo, sub(hi, lo))), none()), S
    if name in ("get_unchecked", "get_unchecked_mut"):
        return index_model(I, S, args[0], L(1), name.endswith("mut")), S
    if name in ("first", "last"):
        o = L(0)
        n = slen(o)
        return ite(eq0(n), none(), some(el(o, c64(0) if name == "first" else sub(n, c64(1))))), S
    if name == "fill":
        o = L(0)
        n = slen(o)
        k = fresh_var(64, [n])
        I.store(S, args[0], mk_map(n, k, args[1]))
        return UNIT, S
    if name in ("copy_from_slice", "clone_from_slice"):
        o, s = L(0), L(1)
        need(I, S, "copylen", eq(slen(o), slen(s)), [slen(o), slen(s)])
        I.store(S, args[0], s)
        return UNIT, S
    if name in ("rchunks", "rchunks_exact"):
        o, c = L(0), args[1]
        need(I, S, "chunk_size", b_not(eq0(c)), [c])
        n = slen(o)
        cnt = cdiv(n, c) if name == "rchunks" else div(n, c)
        j = fresh_var(64, [cnt])
        hi = sub(n, mul(j, c))
        lo = monus(hi, c)
        return IT(mk_map(cnt, j, slice_(o, lo, sub(hi, lo)))), S
    if name in ("remainder", "into_remainder"):
        it = L(0)
        s = it.a[2][0] if is_it(it, "It") else None
        if s is not None and s.op == "map":
            j = fresh_var(64)
            x = el(s, j)
            if x.op == "slice" and j not in set(TM.subterms(x.a[0])) and j not in set(TM.subterms(x.a[2])):
                done = mul(s.a[0], x.a[2])
                return slice_(x.a[0], done, sub(slen(x.a[0]), done)), S
        return None
    if name in ("rotate_left", "rotate_right"):
        o, k = L(0), args[1]
        n = slen(o)
        need(I, S, "range", le(k, n), [n, k])
        m_ = k if name == "rotate_left" else sub(n, k)
        I.store(S, args[0], cat(slice_(o, m_, sub(n, m_)), slice_(o, c64(0), m_)))
        return UNIT, S
    if name in ("split_first", "split_last"):
        o = L(0)
        n = slen(o)
        a = el(o, c64(0)) if name == "split_first" else el(o, sub(n, c64(1)))
        r = slice_(o, c64(1) if name == "split_first" else c64(0), monus(n, c64(1)))
        return ite(eq0(n), none(), some(tup(a, r))), S
    if name in ("first_mut", "last_mut") and args[0].op == "ref":
        o = L(0)
        n = slen(o)
        return ite(eq0(n), none(), some(I.extend_ref(args[0], (("i", c64(0) if name == "first_mut" else sub(n, c64(1)), elem_w(o)),)))), S
    if name == "swap_remove" and "vec::Vec" in path:
        o, i = L(0), args[1]
        n = slen(o)
        need(I, S, "bounds", lt(i, n), [n, i])
        x = el(o, i)
        m_ = sub(n, c64(1))
        I.store(S, args[0], slice_(upd(o, i, el(o, m_)), c64(0), m_))
        return x, S
    if name == "split_off" and "vec::Vec" in path:
        o, k = L(0), args[1]
        n = slen(o)
        need(I, S, "range", le(k, n), [n, k])
        I.store(S, args[0], slice_(o, c64(0), k))
        return slice_(o, k, sub(n, k)), S
    if name in ("copy_within", "extend_from_within"):
        o, r = L(0), L(1)
        n = slen(o)
        b = range_bounds(r, n) if r.op == "agg" else None
        if b is None:
            return None
        lo, hi = b
        need(I, S, "range", b_and(le(lo, hi), le(hi, n)), [n, lo, hi])
        k = sub(hi, lo)
        x = slice_(o, lo, k)
        if name == "extend_from_within":
            I.store(S, args[0], cat(o, x))
            return UNIT, S
        d = args[2]
        need(I, S, "range", b_and(le(d, n), le(k, sub(n, d))), [n, d, k])
        e = add(d, k)
        I.store(S, args[0], cat(slice_(o, c64(0), d), x, slice_(o, e, sub(n, e))))
        return UNIT, S
    if name in ("starts_with", "ends_with") and "str" not in path:
        o, x = I.deep(S, L(0)), I.deep(S, L(1))
        n, m_ = slen(o), slen(x)
        return b_and(le(m_, n), eq_val(slice_(o, c64(0) if name == "starts_with" else monus(n, m_), m_), x)), S
    if name == "partition_point":
        o = L(0)
        n = slen(o)
        j = fresh_var(64, [n])
        r = call_pure(I, S, args[1], [el(o, j)], "b", (j, n, S.pc))
        return (mk("app", "seq_ppoint", mk_map(n, j, r), w=64), S) if r is not None and r.w == "b" else None
    if name == "binary_search":
        o, x = L(0), L(1)
        if isinstance(x.w, int) and sgn(targ(ctx, 0)) == 0:
            n = slen(o)
            j = fresh_var(64, [n])
            k = mk("app", "seq_bsearch", o, x, w=64)
            return ite(b_and(lt(k, n), eq(el(o, k), x)), ok(k), err(k)), S
        return None
    if name in ("sort_by", "sort_unstable_by"):
        o = L(0)
        m_ = cmp_matrix(I, S, o, args[1])
        if m_ is None:
            return None
        I.store(S, args[0], mk("app", "cmp_sorted", o, m_))
        return UNIT, S
    if name in ("is_sorted", "is_sorted_by"):
        return sorted_test(I, S, ctx, L(0), name)
    if name == "select_nth_unstable":
        return None
    if name == "swap":
        o = L(0)
        i, j = args[1], args[2]
        x, y = el(o, i), el(o, j)
        need(I, S, "bounds", lt(i, slen(o)), [slen(o), i])
        need(I, S, "bounds", lt(j, slen(o)), [slen(o), j])
        I.store(S, args[0], upd(upd(o, i, y), j, x))
        return UNIT, S
    if name == "reverse":
        I.store(S, args[0], rev_(L(0)))
        return UNIT, S
    if name in ("split_at", "split_at_mut"):
        o = L(0)
        n = slen(o)
        m_ = args[1]
        need(I, S, "range", le(m_, n), [n, m_])
        if name == "split_at_mut" and args[0].op == "ref":
            return tup(I.extend_ref(args[0], (("s", c64(0), m_),)), I.extend_ref(args[0], (("s", m_, sub(n, m_)),))), S
        return tup(slice_(o, c64(0), m_), slice_(o, m_, sub(n, m_))), S
    if name in ("concat",):
        o = L(0)
        n = slen(o)
        j = fresh_var(64, [n])
        return mk_flat(n, j, el(o, j)), S
    if name == "contains" and not "str" in path:
        return mk("app", "slice_contains", L(0), L(1), w="b"), S
    if name in ("sort", "sort_unstable") and sgn(targ(ctx, 0)) == 1:
        return None
    if name in ("sort", "sort_unstable"):
        I.store(S, args[0], mk("app", "sorted", L(0)))
        return UNIT, S
    if name in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "dedup_by_key", "retain", "retain_mut") and len(args) == 2:
        o = L(0)
        n = slen(o)
        j = fresh_var(64, [n])
        r = call_pure(I, S, args[1], [el(o, j)], "b" if name.startswith("retain") else ctx_retw(I, args[1]), (j, n, S.pc))
        if r is None:
            return None
        if name.startswith("retain"):
            I.store(S, args[0], mk_flat(n, j, ite(r, seq(el(o, j)), SEQ_EMPTY)))
        else:
            I.store(S, args[0], mk("app", "dedupk" if name == "dedup_by_key" else "sortk", o, mk_map(n, j, I.deep(S, r))))
        return UNIT, S
    if name == "dedup" and len(args) == 1:
        o = L(0)
        I.store(S, args[0], mk("app", "dedupk", o, o))
        return UNIT, S
    if name == "insert" and "vec::Vec" in path:
        o, i = L(0), args[1]
        I.store(S, args[0], cat(slice_(o, c64(0), i), seq(args[2]), slice_(o, i, sub(slen(o), i))))
        return UNIT, S
    if name in ("remove", "swap_remove") and "vec::Vec" in path:
        o, i = L(0), args[1]
        n = slen(o)
        x = el(o, i)
        if name == "remove":
            I.store(S, args[0], cat(slice_(o, c64(0), i), slice_(o, add(i, c64(1)), sub(sub(n, i), c64(1)))))
            return x, S
    if name == "map" and path.startswith("core::array"):
        r = it_map(I, S, IT(L(0)), args[1])
        return collect_any(I, S, r)
    if path.startswith("core::array::from_fn"):
        d = ctx.dest()
        if d is not None and d["k"] == "array":
            n = c64(d["len"])
            j = fresh_var(64, [n])
            r = it_map(I, S, IT(mk_map(n, j, j)), args[0])
            return collect_any(I, S, r)
    if name == "parse":
        d = ctx.dest()
        return mk("app", "parse:" + (ctx.tys[d["args"][0]]["s"] if d is not None and d.get("args") else "?"), L(0)), S
    if name == "drain" and "vec::Vec" in path:
        o = L(0)
        r = L(1)
        b = range_bounds(r, slen(o)) if r.op == "agg" else None
        if b:
            lo, hi = b
            I.store(S, args[0], cat(slice_(o, c64(0), lo), slice_(o, hi, sub(slen(o), hi))))
            return IT(slice_(o, lo, sub(hi, lo))), S
    if name == "repeat":
        o, n = L(0), args[1]
        j = fresh_var(64, [n])
        return mk_flat(n, j, o), S
    return None


def ctx_retw(I, f):
    return None


def collect_any(I, S, it):
    if is_it(it, "It"):
        return remaining(it), S

    def fn(s, x, acc):
        I.store(s, acc, cat(I.load(s, acc), seq(I.deep(s, x))))
        return [(None, s)]
    res, acc = drive(I, S, it, SEQ_EMPTY, fn, "collect")
    return finish(I, res, lambda t, s: I.load(s, acc))
