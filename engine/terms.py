"""Hash-consed canonical terms: the value domain of the abstract interpreter.

Integers are polynomials mod 2^w over atoms, booleans are ordered decision
diagrams over atoms, sequences are comprehension terms (map / flat / slice ...),
lambdas are closed with a height-indexed bound variable so that alpha-equivalent
terms are the same object.  Equal objects denote equal values; the converse
holds only as far as the rewrite rules below go.
"""
import sys
from math import gcd

sys.setrecursionlimit(200000)

_tab = {}
_ids = 0


class T:
    __slots__ = ("op", "a", "w", "id", "fv", "h", "op_flag")

    def __repr__(self):
        return show(self)


def _kids(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _kids(x)


EMPTY = frozenset()


def mk(op, *a, w=None):
    """raw interning constructor. w: None opaque/aggregate, 'b' bool, int width."""
    global _ids
    key = (op, w) + a
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.w = w
    _ids += 1
    t.id = _ids
    fv = None
    h = 0
    fl = op in OPAQUE_OPS
    for k in _kids(a):
        if k.fv:
            fv = k.fv if fv is None else (fv if k.fv <= fv else fv | k.fv)
        if k.h > h:
            h = k.h
        if k.op_flag:
            fl = True
    if op == "var":
        fv = frozenset((a[0],))
    if op == "lam":
        h = a[0]
    t.fv = fv or EMPTY
    t.h = h
    t.op_flag = fl
    _tab[key] = t
    return t


# ops whose presence means "the analysis did not fully understand this value"
OPAQUE_OPS = {"unk", "loopval", "havoc", "unkcall", "fold", "loopn", "bad"}

LOOPLEN = {}  # (loop site, leaf) -> (outer ks, length) of sequences whose length the loop preserves
LOOPSYS = {}  # loop site -> (k, outer ks, {leaf: (phi, next, init)}) of unsolved recurrences
EXITS = {}    # loop site -> (outer ks, k, exit condition) of data-dependent loops
_var_n = 0
VAR_UB = {}   # var id -> list of upper-bound terms (exclusive)


def fresh_var(w=64, ub=None, hint="k"):
    global _var_n
    _var_n += 1
    t = mk("var", _var_n, hint, w=w)
    if ub is not None:
        VAR_UB[_var_n] = ub
    return t


# ------------------------------------------------------------------ constants
def const(v, w):
    return mk("c", v & ((1 << w) - 1), w=w)


def is_c(t):
    return t.op == "c"


def cval(t):
    return t.a[0]


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


TT = mk("tt", w="b")
FF = mk("ff", w="b")


def c64(v):
    return const(v, 64)


# ------------------------------------------------------------------ polynomials
def to_poly(t):
    if t.op == "poly":
        return dict(t.a[0])
    if t.op == "c":
        return {(): t.a[0]} if t.a[0] else {}
    return {(t,): 1}


def from_poly(d, w):
    m = (1 << w) - 1
    d = {k: v & m for k, v in d.items() if v & m}
    if not d:
        return const(0, w)
    if len(d) == 1:
        (k, v), = d.items()
        if k == ():
            return const(v, w)
        if len(k) == 1 and v == 1:
            return k[0]
    if len(d) > 1:
        d = _poly_rules(d, w)
        if len(d) <= 1:
            return from_poly(d, w)
    items = tuple(sorted(d.items(), key=lambda kv: tuple(x.id for x in kv[0])))
    return mk("poly", items, w=w)


def _poly_rules(d, w):
    changed = True
    m = (1 << w) - 1
    n = 0
    while changed and n < 12:
        changed = False
        n += 1
        for mono, c in list(d.items()):
            # y*div(x,y) + rem(x,y) -> x
            for at in mono:
                if at.op == "rem":
                    x, y = at.a
                    q = mul(y, div(x, y))
                    rest = tuple(z for z in mono if z is not at) if mono.count(at) == 1 else None
                    if rest is None or rest:
                        continue
                    qp = to_poly(q)
                    ok = all((d.get(k, 0) - c * v) & m == 0 for k, v in qp.items())
                    if ok and qp:
                        for k, v in qp.items():
                            d.pop(k, None)
                        d[mono] = (d.get(mono, 0) - c) & m
                        for k, v in to_poly(x).items():
                            d[k] = (d.get(k, 0) + c * v) & m
                        d = {k: v for k, v in d.items() if v}
                        changed = True
                        break
                elif at.op == "div":
                    # -c*y*div(x,y) + c*x -> c*rem(x,y)
                    x, y = at.a
                    if w != at.w or len(to_poly(y)) != 1:
                        continue
                    q = to_poly(mul(y, at))
                    if mono not in q:
                        continue
                    qc = q[mono]
                    if len(q) != 1:
                        continue
                    # coefficient k with c = -k*qc
                    if qc == 0:
                        continue
                    cs = signed(c, w)
                    if cs % qc != 0 or cs >= 0:
                        continue
                    k = -cs // qc
                    xp = to_poly(x)
                    if all(signed(d.get(mm, 0), w) == k * signed(v, w) for mm, v in xp.items()) and xp:
                        for mm in xp:
                            d.pop(mm, None)
                        d.pop(mono, None)
                        r = rem(x, y)
                        for mm, v in to_poly(r).items():
                            d[mm] = (d.get(mm, 0) + k * v) & m
                        d = {kk: v for kk, v in d.items() if v}
                        changed = True
                        break
                elif at.op == "ite" and len(mono) == 1:
                    # div(x,y) + ite(rem(x,y)==0, 0, 1) -> cdiv(x,y)
                    cnd, a0, b0 = at.a
                    if cnd.op == "eq0" and is_c(a0) and is_c(b0) and cval(a0) == 0 and cval(b0) == 1 and cnd.a[0].op == "rem":
                        x, y = cnd.a[0].a
                        if x.w != w:
                            continue
                        q = div(x, y)
                        qp = to_poly(q)
                        if all((d.get(k, 0) - c * v) & m == 0 for k, v in qp.items()):
                            for k in qp:
                                d.pop(k, None)
                            d.pop(mono, None)
                            for k, v in to_poly(cdiv(x, y)).items():
                                d[k] = (d.get(k, 0) + c * v) & m
                            d = {k: v for k, v in d.items() if v}
                            changed = True
                            break
            if changed:
                break
    return d


def add(a, b):
    assert a.w == b.w, (a.w, b.w, show(a), show(b))
    if is_c(a) and cval(a) == 0:
        return b
    if is_c(b) and cval(b) == 0:
        return a
    d = to_poly(a)
    for k, v in to_poly(b).items():
        d[k] = d.get(k, 0) + v
    return from_poly(d, a.w)


def neg(a):
    return from_poly({k: -v for k, v in to_poly(a).items()}, a.w)


def sub(a, b):
    if a is b:
        return const(0, a.w)
    d = to_poly(a)
    for k, v in to_poly(b).items():
        d[k] = d.get(k, 0) - v
    return from_poly(d, a.w)


def mul(a, b):
    if a.w != b.w:
        raise AssertionError("mul width")
    if is_c(a) and not is_c(b):
        a, b = b, a
    if is_c(b):
        if cval(b) == 0:
            return b
        if cval(b) == 1:
            return a
        return from_poly({k: v * cval(b) for k, v in to_poly(a).items()}, a.w)
    da, db = to_poly(a), to_poly(b)
    if len(da) * len(db) > 64:
        return from_poly({tuple(sorted((mk("par", a, w=a.w), mk("par", b, w=b.w)), key=lambda x: x.id)): 1}, a.w)
    r = {}
    for k1, v1 in da.items():
        for k2, v2 in db.items():
            k = tuple(sorted(k1 + k2, key=lambda x: x.id))
            k = _mono_norm(k)
            if k is None:
                continue
            kk, cf = k
            r[kk] = r.get(kk, 0) + v1 * v2 * cf
    return from_poly(r, a.w)


def _mono_norm(k):
    """merge pow2 atoms; returns (mono, coef)"""
    ps = [x for x in k if x.op == "pow2"]
    if len(ps) > 1:
        rest = [x for x in k if x.op != "pow2"]
        e = ps[0].a[0]
        for p in ps[1:]:
            e = add(e, p.a[0])
        p = pow2(e, ps[0].w)
        pp = to_poly(p)
        if len(pp) == 1:
            (m, c), = pp.items()
            return tuple(sorted(rest + list(m), key=lambda x: x.id)), c
        return tuple(sorted(rest + [p], key=lambda x: x.id)), 1
    return k, 1


def pow2(e, w):
    """2^e in width w; e is a 64-bit term"""
    if e.w != 64:
        e = zext(e, 64)
    if is_c(e):
        return const(1 << cval(e), w) if cval(e) < w else const(0, w)
    d = to_poly(e)
    c = d.get((), 0)
    c = signed(c, 64)
    if 0 < c < w:
        d2 = dict(d)
        d2.pop(())
        p = mk("pow2", from_poly(d2, 64), w=w)
        return from_poly({(p,): 1 << c}, w)
    return mk("pow2", e, w=w)


def as_pow2(t):
    """t == 2^e ? return e (64-bit term)"""
    if is_c(t):
        v = cval(t)
        if v and v & (v - 1) == 0:
            return c64(v.bit_length() - 1)
        return None
    if t.op == "pow2":
        return t.a[0]
    if t.op == "zext":
        return as_pow2(t.a[0])
    if t.op == "trunc":
        return None
    if t.op == "poly" and len(t.a[0]) == 1:
        (m, c), = t.a[0]
        if len(m) == 1 and m[0].op == "pow2" and c & (c - 1) == 0:
            return add(m[0].a[0], c64(c.bit_length() - 1))
    return None


# ---- bounds -----------------------------------------------------------------
def ub_const(t, depth=0):
    """inclusive constant upper bound"""
    full = (1 << t.w) - 1 if isinstance(t.w, int) else 1
    if depth > 12:
        return full
    if is_c(t):
        return cval(t)
    o = t.op
    if o == "rem":
        u = ub_const(t.a[1], depth + 1)
        return max(0, min(ub_const(t.a[0], depth + 1), (u - 1) if u else full))
    if o == "div":
        lb = lb_const(t.a[1], depth + 1)
        return ub_const(t.a[0], depth + 1) // max(1, lb)
    if o == "zext":
        return ub_const(t.a[0], depth + 1)
    if o == "min":
        return min(ub_const(x, depth + 1) for x in t.a)
    if o == "max":
        return max(ub_const(x, depth + 1) for x in t.a)
    if o == "monus":
        return ub_const(t.a[0], depth + 1)
    if o == "ite":
        return max(ub_const(t.a[1], depth + 1), ub_const(t.a[2], depth + 1))
    if o == "var":
        r = full
        for b in VAR_UB.get(t.a[0], ()):
            r = min(r, max(0, ub_const(b, depth + 1) - 1))
        return r
    if o == "and":
        return min(ub_const(x, depth + 1) for x in t.a)
    if o == "poly":
        s = 0
        for m, c in t.a[0]:
            p = c
            for x in m:
                p *= ub_const(x, depth + 1)
            s += p
            if s > full:
                return full
        return s
    return full


def lb_const(t, depth=0):
    if is_c(t):
        return cval(t)
    if depth > 6:
        return 0
    if t.op == "zext":
        return lb_const(t.a[0], depth + 1)
    if t.op == "pow2":
        return 1
    if t.op == "max":
        return max(lb_const(x, depth + 1) for x in t.a)
    if t.op == "min":
        return min(lb_const(x, depth + 1) for x in t.a)
    if t.op == "ite":
        return min(lb_const(t.a[1], depth + 1), lb_const(t.a[2], depth + 1))
    if t.op == "poly":
        s = 0
        for m, c in t.a[0]:
            if signed(c, t.w) < 0:
                return 0
            p = c
            for x in m:
                p *= lb_const(x, depth + 1)
            s += p
        return s if s < (1 << t.w) else 0
    return 0


def var_below(t, bound):
    """is t < bound known (t a var or const, bound a term)?"""
    if is_c(t) and is_c(bound):
        return cval(t) < cval(bound)
    if is_c(bound) and ub_const(t) < cval(bound):
        return True
    if t.op == "var":
        for b in VAR_UB.get(t.a[0], ()):
            if le_known(b, bound):
                return True
    if t.op == "rem" and le_known(t.a[1], bound):
        return True
    return False


def le_known(a, b):
    if a is b:
        return True
    if is_c(a) and is_c(b):
        return cval(a) <= cval(b)
    if a.op == "min":
        if any(le_known(x, b) for x in a.a):
            return True
    if b.op == "max":
        if any(le_known(a, x) for x in b.a):
            return True
    if a.op == "monus" and le_known(a.a[0], b):
        return True
    if b.op == "min":
        return all(le_known(a, x) for x in b.a)
    if is_c(b) and ub_const(a) <= cval(b):
        return True
    if a.w == 64 and b.w == 64:
        d = sub(b, a)
        if nonneg_known(d):
            return True
    return False


def nonneg_known(d):
    """all-positive signed coefficients over non-negative atoms"""
    for m, c in to_poly(d).items():
        if signed(c, d.w) < 0:
            return False
    return True


# ---- integer operations -----------------------------------------------------
def zext(t, w):
    if t.w == w:
        return t
    assert t.w < w, (t.w, w)
    if is_c(t):
        return const(cval(t), w)
    o = t.op
    if o == "zext":
        return zext(t.a[0], w)
    if o == "ite":
        return ite(t.a[0], zext(t.a[1], w), zext(t.a[2], w))
    if o == "div":
        return div(zext(t.a[0], w), zext(t.a[1], w))
    if o == "rem":
        return rem(zext(t.a[0], w), zext(t.a[1], w))
    if o == "cdiv":
        return cdiv(zext(t.a[0], w), zext(t.a[1], w))
    if o == "min":
        return min_(zext(t.a[0], w), zext(t.a[1], w))
    if o == "max":
        return max_(zext(t.a[0], w), zext(t.a[1], w))
    if o == "pow2":
        return pow2(t.a[0], w)
    if o == "xor":
        return xor_(*[zext(x, w) for x in t.a[0]])
    if o == "poly" and ub_const_exact(t):
        d = {}
        for m, c in t.a[0]:
            k = tuple(sorted((zext(x, w) for x in m), key=lambda x: x.id))
            if any(x.op == "poly" or is_c(x) for x in k):
                break
            d[k] = d.get(k, 0) + c
        else:
            return from_poly(d, w)
    return mk("zext", t, w=w)


def ub_const_exact(t):
    """polynomial that cannot wrap: sum of ub fits in width"""
    s = 0
    for m, c in t.a[0]:
        p = c
        for x in m:
            p *= ub_const(x)
        s += p
    return s < (1 << t.w)


def sext(t, w):
    if t.w == w:
        return t
    if is_c(t):
        return const(signed(cval(t), t.w), w)
    return mk("sext", t, w=w)


def trunc(t, w):
    if t.w == w:
        return t
    o = t.op
    if o == "c":
        return const(cval(t), w)
    if o == "poly":
        r = const(0, w)
        for m, c in t.a[0]:
            p = const(c, w)
            for x in m:
                p = mul(p, trunc(x, w))
            r = add(r, p)
        return r
    if o in ("zext", "sext"):
        x = t.a[0]
        if x.w == w:
            return x
        if x.w < w:
            return zext(x, w) if o == "zext" else sext(x, w)
        return trunc(x, w)
    if o == "trunc":
        return trunc(t.a[0], w)
    if o == "ite":
        return ite(t.a[0], trunc(t.a[1], w), trunc(t.a[2], w))
    if o == "xor":
        return xor_(*[trunc(x, w) for x in t.a[0]])
    if o == "and":
        return and_(trunc(t.a[0], w), trunc(t.a[1], w))
    if o == "or":
        return or_(trunc(t.a[0], w), trunc(t.a[1], w))
    if o == "rem":
        x, y = t.a
        if is_c(y):
            v = cval(y)
            if v & (v - 1) == 0:
                if v >= (1 << w):
                    return trunc(x, w)
                return rem(trunc(x, w), const(v, w))
        if x.op == "zext" and y.op == "zext" and x.a[0].w == w and y.a[0].w == w:
            return rem(x.a[0], y.a[0])
        if ub_const(x) < (1 << w) and ub_const(y) < (1 << w):
            return rem(trunc(x, w), trunc(y, w))
    if o == "div":
        x, y = t.a
        if x.op == "zext" and x.a[0].w == w and ub_const(y) < (1 << w):
            return div(x.a[0], trunc(y, w))
    if o == "par":
        return trunc(t.a[0], w)
    if o in ("min", "max") and all(ub_const(x) < (1 << w) for x in t.a):
        return (min_ if o == "min" else max_)(*[trunc(x, w) for x in t.a])
    if o == "sum" and isinstance(w, int):
        n, l = t.a
        v = fresh_var(64, [n])
        return mk_sum(n, v, trunc(open_(l, v), w))
    return mk("trunc", t, w=w)


def cast(t, w, signed_src=False):
    if t.w == "b":
        return ite(t, const(1, w), const(0, w))
    if t.w > w:
        return trunc(t, w)
    if t.w < w:
        return sext(t, w) if signed_src else zext(t, w)
    return t


def div(a, b):
    w = a.w
    if is_c(b):
        v = cval(b)
        if v == 1:
            return a
        if v == 0:
            return mk("div", a, b, w=w)
        if is_c(a):
            return const(cval(a) // v, w)
        if ub_const(a) < v:
            return const(0, w)
        if a.op == "div" and is_c(a.a[1]):
            return div(a.a[0], const(cval(a.a[1]) * v, w)) if cval(a.a[1]) * v < (1 << w) else const(0, w)
        if a.op == "poly":
            # exact 64-bit index arithmetic: (v*q + r)/v with r < v
            q, r = {}, {}
            for m, c in a.a[0]:
                if signed(c, w) > 0 and c % v == 0:
                    q[m] = c // v
                else:
                    r[m] = c
            if q and (w == 64):
                rp = from_poly(r, w)
                neg_ = any(signed(c, w) < 0 for c in r.values())
                if not neg_ or False:
                    return add(from_poly(q, w), div(rp, b))
        # ceil-division idiom
        if a.op == "poly" and w == 64:
            d = dict(a.a[0])
            if d.get((), 0) == v - 1 and len(d) > 1 and v > 1:
                d.pop(())
                return cdiv(from_poly(d, w), b)
    else:
        if a is b:
            return const(1, w)
        if is_c(a) and cval(a) == 0:
            return a
        if a.op == "var" and var_below(a, b):
            return const(0, w)
        if b.op != "c":
            # (x + b - 1) / b
            d = to_poly(a)
            bp = to_poly(b)
            one = d.get((), 0)
            if signed(one, w) - signed(bp.get((), 0), w) == -1 and all(d.get(k, 0) == v for k, v in bp.items() if k != ()):
                x = add(sub(a, b), const(1, w))
                if not is_c(x):
                    return cdiv(x, b)
            # (x*b + r)/b
            q = {}
            r = {}
            bm = list(bp.items())
            if len(bm) == 1 and bm[0][1] == 1 and w == 64:
                bk = bm[0][0]
                for m, c in d.items():
                    mm = list(m)
                    ok = signed(c, w) > 0
                    for x in bk:
                        if x in mm:
                            mm.remove(x)
                        else:
                            ok = False
                            break
                    if ok:
                        q[tuple(mm)] = c
                    else:
                        r[m] = c
                if q and not any(signed(c, w) < 0 for c in r.values()):
                    return add(from_poly(q, w), div(from_poly(r, w), b))
    return mk("div", a, b, w=w)


def cdiv(a, b):
    if is_c(a) and is_c(b) and cval(b):
        return const(-(-cval(a) // cval(b)), a.w)
    if is_c(b) and cval(b) == 1:
        return a
    if a.op == "poly":
        # exact multiples
        d = to_poly(a)
        bp = to_poly(b)
        if is_c(b) and all(signed(c, a.w) > 0 and c % cval(b) == 0 for c in d.values()):
            return from_poly({m: c // cval(b) for m, c in d.items()}, a.w)
    if not is_c(b):
        bp = to_poly(b)
        d = to_poly(a)
        if len(bp) == 1:
            (bk, bc), = bp.items()
            if bc == 1:
                q = {}
                for m, c in d.items():
                    mm = list(m)
                    for x in bk:
                        if x in mm:
                            mm.remove(x)
                        else:
                            q = None
                            break
                    if q is None:
                        break
                    q[tuple(mm)] = c
                if q:
                    return from_poly(q, a.w)
    return mk("cdiv", a, b, w=a.w)


def low_bits(x, v, w):
    """a w-bit term congruent to x (narrower) modulo v (a power of two <= 2^x.w), or None"""
    if x.op == "trunc" and x.a[0].w == w:
        return x.a[0]
    if x.op == "poly":
        r = const(0, w)
        for m, c in x.a[0]:
            p = const(c, w)
            for y in m:
                q = low_bits(y, v, w)
                if q is None:
                    q = zext(y, w)
                p = mul(p, q)
            r = add(r, p)
        return r
    return None


def rem(a, b):
    w = a.w
    if is_c(b):
        v = cval(b)
        if v == 1:
            return const(0, w)
        if v == 0:
            return mk("rem", a, b, w=w)
        if is_c(a):
            return const(cval(a) % v, w)
        if ub_const(a) < v:
            return a
        if v & (v - 1) == 0:
            # low bits: look through zero extension of truncations
            if a.op == "zext":
                x = a.a[0]
                if v <= (1 << x.w):
                    y = low_bits(x, v, w)
                    if y is not None:
                        return rem(y, b)
    if a is b:
        return const(0, w)
    if var_below(a, b):
        return a
    if a.op == "rem" and a.a[1] is b:
        return a
    e = as_pow2(b)
    if e is not None or w == 64:
        # congruence: drop multiples of b, strip inner rem by multiples
        d = to_poly(a)
        out = {}
        ch = False
        for m, c in d.items():
            if is_c(b) and (e is not None or signed(c, w) > 0 or True):
                if e is not None:
                    nc = c % cval(b)
                else:
                    if signed(c, w) < 0:
                        return mk("rem", a, b, w=w)
                    nc = c % cval(b)
                if nc != c:
                    ch = True
                if nc == 0:
                    continue
            else:
                nc = c
            mm = list(m)
            drop = False
            if not is_c(b):
                if signed(c, w) < 0 and e is None:
                    return mk("rem", a, b, w=w)
                bp = to_poly(b)
                if len(bp) == 1:
                    (bk, bc), = bp.items()
                    t2 = list(mm)
                    ok = c % bc == 0
                    for x in bk:
                        if x in t2:
                            t2.remove(x)
                        else:
                            ok = False
                            break
                    if ok:
                        ch = True
                        drop = True
            if drop:
                continue
            if e is not None:
                nm = []
                factor_poly = None
                for x in mm:
                    if x.op == "rem" and factor_poly is None and (x.a[1] is b or (as_pow2(x.a[1]) is not None and le_known(e, as_pow2(x.a[1])))):
                        factor_poly = x.a[0]
                        ch = True
                    else:
                        nm.append(x)
                if factor_poly is not None:
                    p = factor_poly
                    for x in nm:
                        p = mul(p, x)
                    p = mul(p, const(nc, w))
                    for k2, v2 in to_poly(p).items():
                        out[k2] = (out.get(k2, 0) + v2) & ((1 << w) - 1)
                    continue
            else:
                # mod v, v not a power of two, exact 64-bit arithmetic
                nm = []
                fp = None
                for x in mm:
                    if x.op == "rem" and x.a[1] is b and fp is None:
                        fp = x.a[0]
                        ch = True
                    else:
                        nm.append(x)
                if fp is not None:
                    p = fp
                    for x in nm:
                        p = mul(p, x)
                    p = mul(p, const(nc, w))
                    for k2, v2 in to_poly(p).items():
                        out[k2] = (out.get(k2, 0) + v2) & ((1 << w) - 1)
                    continue
            out[tuple(mm)] = (out.get(tuple(mm), 0) + nc) & ((1 << w) - 1)
        if ch:
            return rem(from_poly(out, w), b)
    if is_c(b) and a.op == "rem" and is_c(a.a[1]) and cval(a.a[1]) % cval(b) == 0:
        return rem(a.a[0], b)
    return mk("rem", a, b, w=w)


def shl(a, s):
    if s.w != 64:
        s = zext(s, 64)
    if is_c(s) and cval(s) >= a.w:
        s = c64(cval(s) % a.w)
    return mul(a, pow2(s, a.w))


def shr(a, s):
    if s.w != 64:
        s = zext(s, 64)
    if is_c(s):
        if cval(s) >= a.w:
            s = c64(cval(s) % a.w)
        return div(a, const(1 << cval(s), a.w)) if cval(s) else a
    return div(a, pow2(s, a.w))


def and_(a, b):
    w = a.w
    if is_c(a) and not is_c(b):
        a, b = b, a
    if is_c(a) and is_c(b):
        return const(cval(a) & cval(b), w)
    if is_c(b):
        v = cval(b)
        if v == 0:
            return b
        if v == (1 << w) - 1:
            return a
        if v & (v + 1) == 0:
            return rem(a, const(v + 1, w))
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        # y = 2^e - 1
        e = as_pow2(add(y, const(1, w)))
        if e is not None and not is_c(y):
            return rem(x, pow2(e, w))
    for x, y in ((a, b), (b, a)):
        e = as_pow2(y)
        if e is not None:
            # single bit mask
            return ite(bit(x, e), y, const(0, w))
    if is_c(b) and a.op == "and" and is_c(a.a[1]):
        return and_(a.a[0], const(cval(b) & cval(a.a[1]), w))
    if is_c(b) and not is_c(a):
        return mk("and", a, b, w=w)
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("and", x, y, w=w)


def _rotl_pair(x, y):
    """x = n*2^c, y = n / 2^(w-c)  ->  rotl(n,c)"""
    w = x.w
    for p, q in ((x, y), (y, x)):
        if q.op == "div":
            n, m = q.a
            e = as_pow2(m)
            if e is None:
                continue
            c = sub(c64(w), e)
            if shl(n, c) is p:
                return mk("rotl", n, c, w=w)
    return None


def or_(a, b):
    w = a.w
    if is_c(a) and is_c(b):
        return const(cval(a) | cval(b), w)
    if is_c(a):
        a, b = b, a
    if is_c(b):
        if cval(b) == 0:
            return a
        if cval(b) == (1 << w) - 1:
            return b
    if a is b:
        return a
    r = _rotl_pair(a, b)
    if r is not None:
        return r
    if disjoint(a, b):
        return add(a, b)
    if is_c(b):
        return mk("or", a, b, w=w)
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("or", x, y, w=w)


def disjoint(a, b):
    """bitwise-disjoint for sure?  (multiple of 2^c  vs  < 2^c)"""
    for x, y in ((a, b), (b, a)):
        tz = trailing_zeros(x)
        if tz and ub_const(y) < (1 << tz):
            return True
    return False


def trailing_zeros(t):
    if is_c(t):
        v = cval(t)
        return t.w if v == 0 else (v & -v).bit_length() - 1
    if t.op == "poly":
        r = t.w
        for m, c in t.a[0]:
            z = (c & -c).bit_length() - 1
            for x in m:
                z += trailing_zeros(x) if x.op != "poly" else 0
            r = min(r, z)
        return r
    if t.op == "ite":
        return min(trailing_zeros(t.a[1]), trailing_zeros(t.a[2]))
    if t.op == "zext":
        return trailing_zeros(t.a[0])
    return 0


def xor_(*xs):
    w = xs[0].w
    cnt = {}
    k = 0
    for x in xs:
        parts = x.a[0] if x.op == "xor" else (x,)
        for p in parts:
            if is_c(p):
                k ^= cval(p)
            else:
                cnt[p] = cnt.get(p, 0) ^ 1
    ps = [p for p, v in cnt.items() if v]
    # rotations written with xor
    done = True
    while done:
        done = False
        for i in range(len(ps)):
            for j in range(len(ps)):
                if i < j:
                    r = _rotl_pair(ps[i], ps[j])
                    if r is not None:
                        ps = [p for z, p in enumerate(ps) if z not in (i, j)] + [r]
                        done = True
                        break
            if done:
                break
    if k:
        if k == (1 << w) - 1 and not ps:
            return const(k, w)
        ps.append(const(k, w))
    if not ps:
        return const(0, w)
    if len(ps) == 1:
        return ps[0]
    if len(ps) == 2 and disjoint(ps[0], ps[1]) :
        return add(ps[0], ps[1])
    return mk("xor", tuple(sorted(ps, key=lambda x: x.id)), w=w)


def rotl(x, c):
    if c.w != 64:
        c = zext(c, 64)
    if is_c(c):
        c = c64(cval(c) % x.w)
        if cval(c) == 0:
            return x
    if is_c(x) and is_c(c):
        v, s, w = cval(x), cval(c), x.w
        return const((v << s) | (v >> (w - s)), w)
    return mk("rotl", x, c, w=x.w)


def not_int(a):
    return sub(const(-1, a.w), a)


def min_(a, b):
    if a is b:
        return a
    if is_c(a) and is_c(b):
        return a if cval(a) < cval(b) else b
    if le_known(a, b):
        return a
    if le_known(b, a):
        return b
    if a.op == "min":
        return min_(a.a[0], min_(a.a[1], b)) if not (b is a.a[0] or b is a.a[1]) else a
    x, y = (a, b) if a.id < b.id else (b, a)
    if y.op == "min" and (x is y.a[0] or x is y.a[1]):
        return y
    # common addend
    if a.w == 64:
        com = _common(a, b)
        if com is not None:
            c, ra, rb = com
            if nonneg_known(ra) and nonneg_known(rb) and (ra.op != "c" or rb.op != "c"):
                r = min_(ra, rb)
                return add(c, r)
    return mk("min", x, y, w=a.w)


def _common(a, b):
    da, db = to_poly(a), to_poly(b)
    com = {k: v for k, v in da.items() if db.get(k) == v}
    if not com:
        return None
    ra = {k: v for k, v in da.items() if k not in com}
    rb = {k: v for k, v in db.items() if k not in com}
    return from_poly(com, a.w), from_poly(ra, a.w), from_poly(rb, a.w)


def max_(a, b):
    if a is b:
        return a
    if is_c(a) and is_c(b):
        return a if cval(a) > cval(b) else b
    if le_known(a, b):
        return b
    if le_known(b, a):
        return a
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("max", x, y, w=a.w)


def monus(a, b):
    """max(a-b,0) over Z"""
    if is_c(b) and cval(b) == 0:
        return a
    if a is b:
        return const(0, a.w)
    if is_c(a) and is_c(b):
        return const(max(0, cval(a) - cval(b)), a.w)
    d = sub(a, b)
    if nonneg_known(d):
        return d
    if le_known(a, b):
        return const(0, a.w)
    return mk("monus", a, b, w=a.w)


# ------------------------------------------------------------------ booleans
def _is_bite(t):
    return t.op == "bite"


def _top(t):
    """(atom, hi, lo) for a non-constant bool"""
    if t.op == "bite":
        return t.a
    return (t, TT, FF)


def _mkb(x, hi, lo):
    if hi is lo:
        return hi
    if hi is TT and lo is FF:
        return x
    return mk("bite", x, hi, lo, w="b")


_bmemo = {}


def bite(c, a, b):
    if c is TT:
        return a
    if c is FF:
        return b
    if a is b:
        return a
    if a is TT and b is FF:
        return c
    key = (c, a, b)
    r = _bmemo.get(key)
    if r is not None:
        return r
    tops = [_top(c)[0]]
    if a is not TT and a is not FF:
        tops.append(_top(a)[0])
    if b is not TT and b is not FF:
        tops.append(_top(b)[0])
    x = min(tops, key=lambda t: t.id)

    def cof(t, v):
        if t is TT or t is FF:
            return t
        y, hi, lo = _top(t)
        if y is x:
            return hi if v else lo
        return t
    hi = bite(cof(c, True), cof(a, True), cof(b, True))
    lo = bite(cof(c, False), cof(a, False), cof(b, False))
    r = _mkb(x, hi, lo)
    _bmemo[key] = r
    return r


def b_not(a):
    return bite(a, FF, TT)


def b_and(*xs):
    r = TT
    for x in xs:
        r = bite(r, x, FF)
    return r


def b_or(*xs):
    r = FF
    for x in xs:
        r = bite(r, TT, x)
    return r


def b_xor(a, b):
    return bite(a, b_not(b), b)


def b_eq(a, b):
    return bite(a, b, b_not(b))


def implies_known(a, b):
    return bite(a, b, TT) is TT


def b_atoms(t, acc=None):
    acc = set() if acc is None else acc
    if t is TT or t is FF:
        return acc
    x, hi, lo = _top(t)
    acc.add(x)
    b_atoms(hi, acc)
    b_atoms(lo, acc)
    return acc


_rmemo = {}


def restrict(t, care):
    """simplify bool t given that care holds (Coudert-Madre restrict)"""
    if care is TT or t is TT or t is FF:
        return t
    if care is FF:
        return t
    key = (t, care)
    r = _rmemo.get(key)
    if r is not None:
        return r
    cx, ch, cl = _top(care)
    tx, th, tl = _top(t)
    if cx.id < tx.id:
        r = restrict(t, b_or(ch, cl))
    elif cx is tx:
        if ch is FF:
            r = restrict(tl, cl)
        elif cl is FF:
            r = restrict(th, ch)
        else:
            r = _mkb(tx, restrict(th, ch), restrict(tl, cl))
    else:
        r = _mkb(tx, restrict(th, care), restrict(tl, care))
    _rmemo[key] = r
    return r


def restrict_val(t, care, depth=0):
    """simplify a value's leading decisions under care"""
    if care is TT or care is FF:
        return t
    if t.w == "b":
        return restrict(t, care)
    if t.op == "ite":
        c = restrict(t.a[0], care)
        if c is TT:
            return restrict_val(t.a[1], care, depth)
        if c is FF:
            return restrict_val(t.a[2], care, depth)
        # is c decided by care semantically?
        if b_and(care, c) is FF:
            return restrict_val(t.a[2], care, depth)
        if b_and(care, b_not(c)) is FF:
            return restrict_val(t.a[1], care, depth)
        a = restrict_val(t.a[1], b_and(care, c), depth)
        b = restrict_val(t.a[2], b_and(care, b_not(c)), depth)
        return ite(c, a, b)
    if depth < 4:
        if t.op == "agg":
            fs = tuple(restrict_val(x, care, depth + 1) for x in t.a[2])
            return agg(t.a[0], t.a[1], fs) if any(x is not y for x, y in zip(fs, t.a[2])) else t
        if t.op == "poly":
            r = None
            for m, c in t.a[0]:
                if any(x.op == "ite" for x in m):
                    r = True
            if r:
                out = const(0, t.w)
                for m, c in t.a[0]:
                    p = const(c, t.w)
                    for x in m:
                        p = mul(p, restrict_val(x, care, depth + 1))
                    out = add(out, p)
                return out
        if t.op == "cat":
            ps = [restrict_val(x, care, depth + 1) for x in t.a[0]]
            if any(x is not y for x, y in zip(ps, t.a[0])):
                return cat(*ps)
    return t


def eq0(d):
    """d == 0 (mod 2^w)"""
    w = d.w
    if is_c(d):
        return TT if cval(d) == 0 else FF
    p = to_poly(d)
    if d.op == "ite" and is_c(d.a[1]) and is_c(d.a[2]):
        return bite(d.a[0], eq0(d.a[1]), eq0(d.a[2]))
    # single ite with const leaves plus const
    items = sorted(p.items(), key=lambda kv: tuple(x.id for x in kv[0]))
    if len(items) <= 2:
        nc = [(m, c) for m, c in items if m != ()]
        if len(nc) == 1 and len(nc[0][0]) == 1:
            x = nc[0][0][0]
            k0 = p.get((), 0)
            if x.op == "ite" and _const_leaves(x):
                def go(y):
                    if y.op == "ite":
                        return bite(y.a[0], go(y.a[1]), go(y.a[2]))
                    return TT if (cval(y) * nc[0][1] + k0) & ((1 << w) - 1) == 0 else FF
                return go(x)
            if nc[0][1] == 1 or nc[0][1] == (1 << w) - 1:
                # x == k
                k = (-k0 * (1 if nc[0][1] == 1 else -1)) & ((1 << w) - 1)
                if x.op == "zext":
                    if k >= (1 << x.a[0].w):
                        return FF
                    return eq0(sub(x.a[0], const(k, x.a[0].w)))
                if k > ub_const(x):
                    return FF
                if x.op == "rem" and is_c(x.a[1]) and cval(x.a[1]) == 2:
                    bt = bit(x.a[0], c64(0))
                    return bt if k == 1 else b_not(bt) if k == 0 else FF
                if x.op == "discr" :
                    pass
                if x.op == "div" and k == 0 and as_pow2(x.a[1]) is None:
                    return lt(x.a[0], x.a[1])
                if x.op == "pow2" and k == 0:
                    return FF
                if x.op == "cdiv" and k == 0:
                    return eq0(x.a[0])
                if x.op == "min" and k == 0:
                    return b_or(eq0(x.a[0]), eq0(x.a[1]))
                if x.op == "monus" and k == 0:
                    return b_not(lt(x.a[1], x.a[0]))
                return mk("eq0", sub(x, const(k, w)), w="b")
            # c*x == 0 with exact arithmetic (64-bit)
            if k0 == 0 and w == 64:
                return eq0(x)
    # zext both sides
    if len(p) == 2 and () not in p:
        (m1, c1), (m2, c2) = items
        if len(m1) == 1 and len(m2) == 1 and {signed(c1, w), signed(c2, w)} == {1, -1}:
            x, y = m1[0], m2[0]
            if x.op == "zext" and y.op == "zext" and x.a[0].w == y.a[0].w:
                return eq0(sub(x.a[0], y.a[0]))
    lead = items[-1] if items[0][0] == () and len(items) > 1 else items[0]
    lead = [i for i in items if i[0] != ()][0]
    if signed(lead[1], w) < 0:
        d = neg(d)
    # strip gcd for exact index arithmetic
    if w == 64:
        p = to_poly(d)
        g = 0
        for v in p.values():
            g = gcd(g, abs(signed(v, w)))
        if g > 1:
            d = from_poly({k: signed(v, w) // g for k, v in p.items()}, w)
    return mk("eq0", d, w="b")


def _const_leaves(t):
    if t.op == "ite":
        return _const_leaves(t.a[1]) and _const_leaves(t.a[2])
    return is_c(t)


def eq(a, b):
    if a is b:
        return TT
    if a.w == "b":
        return b_eq(a, b)
    if isinstance(a.w, int) and isinstance(b.w, int):
        return eq0(sub(a, b))
    if a.op == "strc" and b.op == "strc":
        return FF
    if a.op == "agg" and b.op == "agg":
        if a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return FF
            r = TT
            for x, y in zip(a.a[2], b.a[2]):
                r = b_and(r, eq(x, y))
            return r
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("eqv", x, y, w="b")


def ne(a, b):
    return b_not(eq(a, b))


def _simple(t):
    if is_c(t):
        return True
    if t.op != "poly":
        return True
    return False


def lt(a, b, sgn=False):
    """unsigned a < b"""
    if a is b:
        return FF
    w = a.w
    if is_c(a) and is_c(b):
        if sgn:
            return TT if signed(cval(a), w) < signed(cval(b), w) else FF
        return TT if cval(a) < cval(b) else FF
    if sgn:
        return mk("slt", a, b, w="b")
    if is_c(b):
        if cval(b) == 0:
            return FF
        if ub_const(a) < cval(b):
            return TT
    if is_c(a):
        if cval(a) >= ub_const(b):
            return FF
        if cval(a) < lb_const(b):
            return TT
    for x, flip in ((a, False), (b, True)):
        if x.op == "ite" and _const_leaves(x) and (is_c(b) if not flip else is_c(a)):
            def go(y):
                if y.op == "ite":
                    return bite(y.a[0], go(y.a[1]), go(y.a[2]))
                return lt(y, b) if not flip else lt(a, y)
            return go(x)
    if var_below(a, b):
        return TT
    if w == 64:
        return pos(sub(b, a))
    if (_simple(a) or ub_poly_ok(a)) and (_simple(b) or ub_poly_ok(b)):
        return pos(sub(zext(b, 64), zext(a, 64)))
    return mk("lt", a, b, w="b")


def ub_poly_ok(t):
    return t.op == "poly" and ub_const_exact(t)


def pos(d):
    """d > 0 over Z (64-bit two's complement coefficients)"""
    if is_c(d):
        return TT if signed(cval(d), 64) > 0 else FF
    p = {k: signed(v, 64) for k, v in to_poly(d).items()}
    # g*q + r > 0 -> normalise by gcd of non-constant coefficients
    g = 0
    for k, v in p.items():
        if k != ():
            g = gcd(g, abs(v))
    c = p.get((), 0)
    if g > 1:
        # g*X + c > 0  <=>  X > -c/g  <=> X >= floor(-c/g)+1 <=> X - floor(-c/g) > 0
        f = (-c) // g
        p = {k: v // g for k, v in p.items() if k != ()}
        if f:
            p[()] = -f
        c = -f
    noncs = [(k, v) for k, v in p.items() if k != ()]
    if all(v > 0 for _, v in noncs) and c > 0:
        return TT
    if all(v < 0 for _, v in noncs) and c <= 0:
        return FF
    # constant bound reasoning
    if all(v < 0 for _, v in noncs):
        s = 0
        for k, v in noncs:
            u = -v
            for x in k:
                u *= ub_const(x)
            s += u
        if s < c:
            return TT
    if all(v > 0 for _, v in noncs):
        s = 0
        for k, v in noncs:
            u = v
            for x in k:
                u *= ub_const(x)
            s += u
        if s + c <= 0:
            return FF
        s = 0
        for k, v in noncs:
            u = v
            for x in k:
                u *= lb_const(x)
            s += u
        if s + c > 0:
            return TT
    if len(noncs) == 1 and noncs[0][1] in (1, -1):
        k, v = noncs[0]
        if len(k) == 1:
            x = k[0]
            if v == 1 and c == 0:
                return b_not(eq0(x))
            if v == -1 and c == 1:
                return eq0(x)
            if x.op == "ite" and _const_leaves(x):
                def go(y):
                    if y.op == "ite":
                        return bite(y.a[0], go(y.a[1]), go(y.a[2]))
                    return TT if v * cval(y) + c > 0 else FF
                return go(x)
            if x.op == "var" and v == -1:
                # c - x > 0
                for b in VAR_UB.get(x.a[0], ()):
                    if le_known(b, c64(c)) if c > 0 else False:
                        return TT
    # var bounds: n - x > 0 with x < n
    for k, v in noncs:
        if v < 0 and len(k) == 1 and k[0].op == "var":
            x = k[0]
            for b in VAR_UB.get(x.a[0], ()):
                # d with x -> b-1 (worst case)
                d2 = dict(p)
                d2.pop(k)
                base = from_poly(d2, 64)
                worst = add(base, mul(const(v, 64), sub(b, c64(1))))
                wp = {kk: signed(vv, 64) for kk, vv in to_poly(worst).items()}
                if all(vv > 0 for kk, vv in wp.items()) and wp.get((), 0) > 0:
                    return TT
    # leading coefficient positive
    noncs.sort(key=lambda kv: tuple(x.id for x in kv[0]))
    if noncs[0][1] < 0:
        p2 = {k: -v for k, v in p.items()}
        p2[()] = p2.get((), 0) + 1
        return b_not(mk("pos", from_poly(p2, 64), w="b"))
    return mk("pos", from_poly(p, 64), w="b")


def le(a, b):
    return b_not(lt(b, a))


def bit(x, e):
    """bit e of x as a bool"""
    if e.w != 64:
        e = zext(e, 64)
    w = x.w
    if is_c(x) and is_c(e):
        return TT if (cval(x) >> cval(e)) & 1 else FF
    if is_c(e) and cval(e) >= w:
        return FF
    if x.op == "zext":
        return b_and(lt(e, c64(x.a[0].w)), bit(x.a[0], e))
    if x.op == "trunc":
        if var_below(e, c64(w)):
            return bit(x.a[0], e)
    if x.op == "div":
        q = as_pow2(x.a[1])
        if q is not None:
            return bit(x.a[0], add(e, q))
    if x.op == "rem":
        q = as_pow2(x.a[1])
        if q is not None:
            return b_and(lt(e, q), bit(x.a[0], e))
    if x.op == "ite":
        return bite(x.a[0], bit(x.a[1], e), bit(x.a[2], e))
    if x.op == "sum":
        # sum_t ite(c(t), 2^t, 0) with t < n
        n, l = x.a
        v = fresh_var(64, [n])
        body = open_(l, v)
        if body.op == "ite" and is_c(body.a[2]) and cval(body.a[2]) == 0:
            p = as_pow2(body.a[1])
            if p is v:
                return b_and(lt(e, n), open_(mk_lam(v, body.a[0]), e))
    if x.op == "xor":
        r = FF
        for y in x.a[0]:
            r = b_xor(r, bit(y, e))
        return r
    if is_c(x) and not is_c(e) and cval(x) == 0:
        return FF
    return mk("bit", x, e, w="b")


# ------------------------------------------------------------------ ite
_imemo = {}
NO_SINK = {"zext", "trunc", "c", "var", "bv", "phi", "sym", "poly", "tt", "ff", "ite", "lam", "strc", "fresh", "draw", "freshseq", "ref", "vref"}


def ite(c, a, b):
    if c is TT:
        return a
    if c is FF:
        return b
    if a is b:
        return a
    if a.w == "b" and b.w == "b":
        return bite(c, a, b)
    key = (c, a, b)
    r = _imemo.get(key)
    if r is None:
        r = _ite(c, a, b)
        _imemo[key] = r
    return r


def _ite(c, a, b):
    # prune nested decisions on the same condition
    a = restrict_val(a, c)
    b = restrict_val(b, b_not(c))
    if a is b:
        return a
    # orient: condition of form not(atom)
    if c.op == "bite" and c.a[1] is FF and c.a[2] is TT:
        return ite(c.a[0], b, a)
    if isinstance(a.w, int) and a.w == b.w:
        # min / max
        if c.op == "pos" or (c.op == "eq0"):
            r = _minmax(c, a, b)
            if r is not None:
                return r
        com = _common(a, b)
        if com is not None and not (is_c(com[0]) and False):
            k, ra, rb = com
            if not (is_c(a) or is_c(b)):
                return add(k, ite(c, ra, rb))
        if c.op == "eq0":
            r = _eq_collapse(c, a, b)
            if r is not None:
                return r
    elif c.op == "eq0":
        r = _eq_collapse(c, a, b)
        if r is not None:
            return r
    # sink into identical constructors that differ in one argument
    if a.op == b.op and a.w == b.w and a.op not in NO_SINK:
        r = _sink(c, a, b)
        if r is not None:
            return r
    # nested ite with shared branch: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
    if b.op == "ite":
        if b.a[1] is a:
            return ite(b_or(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(b_or(c, b_not(b.a[0])), a, b.a[1])
    if a.op == "ite":
        if a.a[2] is b:
            return ite(b_and(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(b_and(c, b_not(a.a[0])), a.a[2], b)
    # order decisions
    top_atoms = []
    x = _top(c)[0]
    y = _first_atom(a)
    z = _first_atom(b)
    best = x
    for q in (y, z):
        if q is not None and q.id < best.id:
            best = q
    if best is not x or c.op == "bite":
        def cof(t, v):
            return restrict_val(t, best if v else b_not(best))
        hi_c, lo_c = restrict(c, best) if best in b_atoms(c) else c, restrict(c, b_not(best)) if best in b_atoms(c) else c
        # keep compound conditions whole when splitting would not help
        if best is not x:
            hi = ite(hi_c, cof(a, True), cof(b, True))
            lo = ite(lo_c, cof(a, False), cof(b, False))
            if hi is lo:
                return hi
            return mk("ite", best, hi, lo, w=a.w) if not _would_simplify(best, hi, lo) else ite(best, hi, lo)
    return mk("ite", c, a, b, w=a.w)


def _would_simplify(c, a, b):
    return a is b


def _first_atom(t):
    if t.op == "ite":
        return _top(t.a[0])[0]
    return None


def _minmax(c, a, b):
    if a.w == 64:
        za, zb = a, b
    else:
        if not ((_simple(a)) and (_simple(b))) or not isinstance(a.w, int) or a.w > 64:
            return None
        za, zb = zext(a, 64), zext(b, 64)
    if c.op == "pos":
        d = c.a[0]
        df = sub(za, zb)
        if df is neg(d) or df is neg(sub(d, c64(1))):
            return min_(a, b)
        if df is d or df is sub(d, c64(1)):
            return max_(a, b)
        # saturating subtraction: a > b ? a-b : 0
        if is_c(b) and cval(b) == 0 and (a is d or a is sub(d, c64(1))) and not is_c(a):
            p = to_poly(a)
            posp = {k: v for k, v in p.items() if signed(v, 64) > 0}
            negp = {k: -signed(v, 64) for k, v in p.items() if signed(v, 64) < 0}
            if posp and negp:
                return monus(from_poly(posp, 64), from_poly(negp, 64))
    return None


def _eq_collapse(c, a, b):
    """ite(x==k, A, B) = B when B[x:=k] is A (x an atom)"""
    d = c.a[0]
    p = to_poly(d)
    nc = [(m, v) for m, v in p.items() if m != ()]
    if len(nc) == 1 and len(nc[0][0]) == 1 and nc[0][1] == 1:
        x = nc[0][0][0]
        if x.op in ("sym", "var", "fld", "len", "phi", "idx"):
            k = const(-p.get((), 0), x.w)
            if contains(b, x) and size_le(b, 400):
                if subst(b, {x: k}) is a:
                    return b
            if contains(a, x) and not contains(b, x) is False and size_le(a, 400):
                pass
    return None


def _sink(c, a, b):
    if a.op == "agg":
        if a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            return agg(a.a[0], a.a[1], tuple(ite(c, x, y) if x is not y else x for x, y in zip(a.a[2], b.a[2])))
        return None
    if len(a.a) != len(b.a):
        return None
    diff = [i for i in range(len(a.a)) if a.a[i] is not b.a[i] and a.a[i] != b.a[i]]
    if len(diff) != 1:
        return None
    i = diff[0]
    x, y = a.a[i], b.a[i]
    if a.op == "map" or a.op == "sum" or a.op == "flat":
        n1, n2 = a.a[0], b.a[0]
        if i == 1 and n1 is n2:
            v = fresh_var(64, [n1])
            body = ite(c, open_(x, v), open_(y, v))
            return {"map": mk_map, "sum": mk_sum, "flat": mk_flat}[a.op](n1, v, body)
        if i == 0 and isinstance(x, T):
            v = fresh_var(64)
            n = ite(c, n1, n2)
            return {"map": mk_map, "sum": mk_sum, "flat": mk_flat}[a.op](n, v, open_(a.a[1], v))
        return None
    if isinstance(x, T) and isinstance(y, T) and x.w == y.w and x.op != "lam":
        m = ite(c, x, y)
        if a.op in ("idx", "fld", "discr", "down", "len") and m.op == "ite" and i == 0:
            return None
        args = list(a.a)
        args[i] = m
        return rebuild(a.op, tuple(args), a.w)
    if isinstance(x, tuple) and isinstance(y, tuple) and a.op in ("cat", "seq", "call", "unkcall") and len(x) == len(y):
        dd = [j for j in range(len(x)) if x[j] is not y[j]]
        if len(dd) == 1 and isinstance(x[dd[0]], T) and x[dd[0]].w == y[dd[0]].w:
            if a.op == "call" and False:
                return None
            xs = list(x)
            xs[dd[0]] = ite(c, x[dd[0]], y[dd[0]])
            args = list(a.a)
            args[i] = tuple(xs)
            return rebuild(a.op, tuple(args), a.w)
    return None


# ------------------------------------------------------------------ lambdas
def mk_lam(v, body):
    """abstract var v in body"""
    h = body.h + 1
    b = subst(body, {v: mk("bv", h, w=v.w)})
    # body heights may have changed through re-normalisation
    if b.h + 1 != h:
        h2 = b.h + 1
        b = subst(b, {mk("bv", h, w=v.w): mk("bv", h2, w=v.w)})
        h = max(h2, b.h + 1)
        if h != h2:
            b = subst(body, {v: mk("bv", h, w=v.w)})
    return mk("lam", h, v.w, b)


def open_(lam, arg):
    assert lam.op == "lam"
    return subst(lam.a[2], {mk("bv", lam.a[0], w=lam.a[1]): arg})


def lam_const(lam):
    """body if it does not use its variable"""
    bvv = mk("bv", lam.a[0], w=lam.a[1])
    if not contains(lam.a[2], bvv):
        return lam.a[2]
    return None


def contains(t, x):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u is x:
            return True
        if u.id in seen or u.id < x.id and False:
            continue
        seen.add(u.id)
        st.extend(_kids(u.a))
    return False


def size_le(t, n):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if len(seen) > n:
            return False
        st.extend(_kids(u.a))
    return True


def subterms(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        yield u
        st.extend(_kids(u.a))


def subst(t, m):
    if not m:
        return t
    fvs = None
    if all(k.op == "var" for k in m):
        fvs = {k.a[0] for k in m}
    return _subst(t, m, {}, fvs)


def _subst(t, m, memo, fvs):
    r = m.get(t)
    if r is not None:
        return r
    if fvs is not None:
        if not (t.fv and not fvs.isdisjoint(t.fv)):
            return t
    if t.op in ("c", "tt", "ff", "strc", "sym", "var", "bv", "phi"):
        if t.op == "sym" and any(isinstance(x, T) for x in t.a):
            pass
        else:
            return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "lam":
        h, w, body = t.a
        bvv = mk("bv", h, w=w)
        if bvv in m:
            m2 = {k: v for k, v in m.items() if k is not bvv}
        else:
            m2 = m
        v = fresh_var(w)
        b2 = _subst(body, {bvv: v}, {}, None)
        nb = _subst(b2, m2, {}, fvs)
        if nb is b2:
            r = t
        else:
            r = mk_lam(v, nb)
    elif t.op in BINDERS:
        # binder node: open with a bounded variable so that bounds can be used
        n = _subst(t.a[0], m, memo, fvs)
        l = t.a[1]
        v = fresh_var(64, [n])
        b0 = open_(l, v)
        b1 = _subst(b0, m, {}, fvs)
        if b1 is b0 and n is t.a[0]:
            r = t
        else:
            r = BINDERS[t.op](n, v, b1, *[_subst(x, m, memo, fvs) if isinstance(x, T) else x for x in t.a[2:]])
    else:
        args = tuple(_sub_arg(x, m, memo, fvs) for x in t.a)
        if all(x is y for x, y in zip(args, t.a)):
            r = t
        else:
            r = rebuild(t.op, args, t.w)
            if r.op == t.op and r not in DESC:
                d = DESC.get(t)
                if d is not None:
                    DESC[r] = d
    memo[t] = r
    return r


def _sub_arg(x, m, memo, fvs):
    if isinstance(x, T):
        return _subst(x, m, memo, fvs)
    if isinstance(x, tuple):
        y = tuple(_sub_arg(z, m, memo, fvs) for z in x)
        if all(p is q for p, q in zip(x, y)):
            return x
        return y
    return x


def rebuild(op, a, w):
    if op == "poly":
        r = const(0, w)
        for m, c in a[0]:
            p = const(c, w)
            for x in m:
                p = mul(p, x)
            r = add(r, p)
        return r
    f = REB.get(op)
    if f:
        return f(a, w)
    return mk(op, *a, w=w)


# ------------------------------------------------------------------ aggregates
def agg(tag, variant, fields):
    return mk("agg", tag, variant, tuple(fields))


UNIT = agg("tuple", 0, ())


def tup(*xs):
    return agg("tuple", 0, xs)


def fld(x, variant, i, w=None):
    """field i of variant of aggregate x"""
    if x.op == "agg":
        if x.a[1] == variant or variant is None:
            if i < len(x.a[2]):
                return x.a[2][i]
        return mk("bad", x, variant, i, w=w)
    if x.op == "ite":
        a, b = x.a[1], x.a[2]
        va, vb = agg_variant(a), agg_variant(b)
        if variant is not None:
            if va is not None and va != variant:
                return fld(b, variant, i, w)
            if vb is not None and vb != variant:
                return fld(a, variant, i, w)
        fa, fb = fld(a, variant, i, w), fld(b, variant, i, w)
        if fa.op == "bad":
            return fb
        if fb.op == "bad":
            return fa
        if fa.op == "fld" and fb.op == "fld":
            return mk("fld", x, variant, i, w=w)
        if fa.w != fb.w:
            return mk("fld", x, variant, i, w=w)
        return ite(x.a[0], fa, fb)
    return mk("fld", x, variant, i, w=w)


def agg_variant(x):
    if x.op == "agg":
        return x.a[1]
    return None


def set_fld(x, variant, i, v, nfields, tag, getf):
    if x.op == "agg" and (variant is None or x.a[1] == variant):
        fs = list(x.a[2])
        while len(fs) <= i:
            fs.append(mk("uninit"))
        fs[i] = v
        return agg(x.a[0], x.a[1], fs)
    fs = [getf(j) for j in range(nfields)]
    fs[i] = v
    return agg(tag, variant or 0, fs)


def discr(x, table=None):
    """variant index of x as 64-bit term"""
    if x.op == "agg":
        return c64(x.a[1])
    if x.op == "ite":
        a, b = discr(x.a[1]), discr(x.a[2])
        return ite(x.a[0], a, b)
    return mk("discr", x, w=64)


# ------------------------------------------------------------------ sequences
def seq(*xs):
    xs = tuple(xs)
    if len(xs) >= 4:
        r = _roll(xs)
        if r is not None:
            return r
    return mk("seq", xs)


def _roll(xs):
    """seq literal -> map when elements follow one pattern with arithmetic
    progressions of constants"""
    n = len(xs)
    if all(x is xs[0] for x in xs):
        v = fresh_var(64, [c64(n)])
        return mk_map(c64(n), v, xs[0])
    v = fresh_var(64, [c64(n)])

    budget = [400]

    def au(ts):
        budget[0] -= 1
        if budget[0] < 0:
            raise ValueError
        t0 = ts[0]
        if all(t is t0 for t in ts):
            return t0
        if all(is_c(t) for t in ts) and all(t.w == t0.w for t in ts):
            d = cval(ts[1]) - cval(ts[0])
            for i in range(n):
                if cval(ts[i]) != cval(ts[0]) + i * d:
                    # powers of two progression
                    ps = [as_pow2(t) for t in ts]
                    if all(p is not None for p in ps):
                        e = au(ps)
                        return pow2(e, t0.w)
                    raise ValueError
            k = trunc(v, t0.w) if t0.w < 64 else v
            if t0.w > 64:
                raise ValueError
            return add(const(cval(ts[0]), t0.w), mul(const(d, t0.w), k))
        # treat missing polynomial constant as 0
        if isinstance(t0.w, int) and all(t.w == t0.w for t in ts) and any(t.op == "poly" or is_c(t) for t in ts):
            keys = set()
            for t in ts:
                keys |= set(to_poly(t))
            nk = [k for k in keys if k != ()]
            cs = [const(to_poly(t).get((), 0), t0.w) for t in ts]
            rests = [from_poly({k: c for k, c in to_poly(t).items() if k != ()}, t0.w) for t in ts]
            if all(r.op != "poly" or True for r in rests):
                if all(r is rests[0] for r in rests):
                    return add(rests[0], au(cs))
        if any(t.op != t0.op or t.w != t0.w or len(t.a) != len(t0.a) for t in ts):
            raise ValueError
        if t0.op in ("lam", "var", "bv", "phi", "sym", "strc", "fresh") or t0.op in BINDERS or not t0.a:
            raise ValueError
        args = []
        for j in range(len(t0.a)):
            col = [t.a[j] for t in ts]
            if all(isinstance(x, T) for x in col):
                args.append(au(col))
            elif all(isinstance(x, tuple) for x in col):
                if any(len(x) != len(col[0]) for x in col):
                    raise ValueError
                args.append(tuple(au([x[q] for x in col]) if isinstance(col[0][q], T) else _same([x[q] for x in col]) for q in range(len(col[0]))))
            else:
                args.append(_same(col))
        return rebuild(t0.op, tuple(args), t0.w)

    def _same(col):
        if all(x == col[0] for x in col):
            return col[0]
        raise ValueError
    try:
        body = au(list(xs))
    except (ValueError, AssertionError):
        return None
    # the pattern must reproduce the elements
    l = mk_lam(v, body)
    for i in (0, 1, n - 1):
        if open_(l, c64(i)) is not xs[i]:
            return None
    return mk_map(c64(n), v, body)


SEQ_EMPTY = mk("seq", ())


def slen(s):
    o = s.op
    if o == "seq":
        return c64(len(s.a[0]))
    if o == "map":
        return s.a[0]
    if o == "flat":
        n, l = s.a
        v = fresh_var(64, [n])
        b = open_(l, v)
        return mk_sum(n, v, slen(b))
    if o == "cat":
        r = c64(0)
        for x in s.a[0]:
            r = add(r, slen(x))
        return r
    if o == "upd":
        return slen(s.a[0])
    if o == "app" and s.a[0] in ("sorted", "sortk"):
        return slen(s.a[1])
    if o == "slice":
        return s.a[2]
    if o == "ite":
        a, b = slen(s.a[1]), slen(s.a[2])
        if a.op == "len" and b.op == "len":
            return mk("len", s, w=64)
        return ite(s.a[0], a, b)
    if o == "rev":
        return slen(s.a[0])
    if o == "strc":
        return c64(len(s.a[0].encode()))
    if o == "freshseq":
        return s.a[2]
    if o == "sha256":
        return c64(32)
    if o == "phi" and s in PHI_LEN:
        return PHI_LEN[s]
    if o == "loopval" and (s.a[0], s.a[1]) in LOOPLEN:
        site = (s.a[0], s.a[1])
        ks0, n = LOOPLEN[site]
        if site in _looplen_active:
            return mk("len", s, w=64)
        _looplen_active.add(site)
        try:
            return subst(n, {k0: kv for k0, kv in zip(ks0, s.a[3]) if k0.op == "var" and k0 is not kv})
        finally:
            _looplen_active.discard(site)
    d = desc_of(s)
    if isinstance(d, tuple) and d[0] == "s" and d[2] is not None:
        return c64(int(d[2]))
    return mk("len", s, w=64)


PHI_LEN = {}
_looplen_active = set()
DESC = {}    # term -> type description: ('s', elem, len|None) | ('a', path, fields) | width


def desc_of(t):
    d = DESC.get(t)
    if d is not None:
        return d
    o = t.op
    if o == "idx":
        d = desc_of(t.a[0])
        if isinstance(d, tuple) and d[0] == "s":
            return d[1]
    elif o == "slice":
        d = desc_of(t.a[0])
        if isinstance(d, tuple) and d[0] == "s":
            return ("s", d[1], None)
    elif o in ("rev", "upd"):
        return desc_of(t.a[0])
    elif o == "fld":
        d = desc_of(t.a[0])
        if isinstance(d, tuple) and d[0] == "a" and t.a[2] < len(d[2]):
            return d[2][t.a[2]]
        if isinstance(d, tuple) and d[0] == "e":
            v = t.a[1] or 0
            if isinstance(v, int) and v < len(d[2]) and t.a[2] < len(d[2][v]):
                return d[2][v][t.a[2]]
    elif o == "map":
        b = t.a[1].a[2]
        if b.w is not None:
            return ("s", b.w, None)
        d = desc_of(b)
        if d is not None:
            return ("s", d, None)
    elif o == "ite":
        return desc_of(t.a[1])
    return None


def desc_is_seq(t):
    d = desc_of(t)
    return isinstance(d, tuple) and d[0] == "s"


def idx(s, i, w=None):
    o = s.op
    if o == "map":
        return open_(s.a[1], i)
    if o == "seq":
        if is_c(i) and cval(i) < len(s.a[0]):
            return s.a[0][cval(i)]
        xs = s.a[0]
        if xs and len(xs) <= 3 and not is_c(i):
            r = xs[-1]
            if all(x.w == r.w for x in xs):
                for j in range(len(xs) - 2, -1, -1):
                    r = ite(eq(i, c64(j)), xs[j], r)
                return r
    if o == "upd":
        e = eq(s.a[1], i)
        if e is TT:
            return s.a[2]
        if e is FF:
            return idx(s.a[0], i, w)
        return ite(e, s.a[2], idx(s.a[0], i, w if w is not None else s.a[2].w))
    if o == "slice":
        return idx(s.a[0], add(s.a[1], i), w)
    if o == "cat":
        parts = s.a[0]
        n0 = slen(parts[0])
        c = lt(i, n0)
        rest = cat(*parts[1:])
        if c is TT:
            return idx(parts[0], i, w)
        if c is FF:
            return idx(rest, sub(i, n0), w)
        x = idx(parts[0], i, w)
        y = idx(rest, sub(i, n0), w)
        if x.w == y.w:
            return ite(c, x, y)
    if o == "ite":
        x, y = idx(s.a[1], i, w), idx(s.a[2], i, w)
        if x.w == y.w and not (x.op == "idx" and y.op == "idx"):
            return ite(s.a[0], x, y)
    if o == "rev":
        return idx(s.a[0], sub(sub(slen(s.a[0]), c64(1)), i), w)
    if o == "flat":
        pass
    return mk("idx", s, i, w=w)


def elem_w(s):
    """width of elements when known"""
    o = s.op
    if o == "map":
        return s.a[1].a[2].w
    if o == "seq":
        return s.a[0][0].w if s.a[0] else None
    if o == "upd":
        return s.a[2].w
    if o in ("slice", "rev"):
        return elem_w(s.a[0])
    if o == "flat":
        return elem_w(s.a[1].a[2])
    if o in ("freshseq",):
        return 8
    if o == "cat":
        for x in s.a[0]:
            r = elem_w(x)
            if r is not None:
                return r
    if o == "ite":
        return elem_w(s.a[1]) or elem_w(s.a[2])
    d = desc_of(s)
    if isinstance(d, tuple) and d[0] == "s" and not isinstance(d[1], tuple):
        return d[1]
    return SEQ_W.get(s)


SEQ_W = {}   # symbolic sequence term -> element width


def cat(*xs):
    out = []
    for x in xs:
        if x.op == "cat":
            out.extend(x.a[0])
        elif x.op == "seq" and not x.a[0]:
            continue
        elif x.op in ("map", "slice") and is_c(slen(x)) and cval(slen(x)) == 0:
            continue
        else:
            out.append(x)
    # merge adjacent literals and adjacent slices
    m = []
    for x in out:
        if m and m[-1].op == "seq" and x.op == "seq":
            m[-1] = mk("seq", m[-1].a[0] + x.a[0])
        elif m and m[-1].op == "slice" and x.op == "slice" and m[-1].a[0] is x.a[0] and add(m[-1].a[1], m[-1].a[2]) is x.a[1]:
            m[-1] = slice_(x.a[0], m[-1].a[1], add(m[-1].a[2], x.a[2]))
        elif m and m[-1].op == "map" and x.op == "map" and _adjacent_maps(m[-1], x):
            m[-1] = mk("map", add(m[-1].a[0], x.a[0]), m[-1].a[1])
        elif m and m[-1].op == "map" and x.op == "seq" and len(x.a[0]) == 1 and open_(m[-1].a[1], m[-1].a[0]) is x.a[0][0]:
            m[-1] = mk("map", add(m[-1].a[0], c64(1)), m[-1].a[1])
        elif m and m[-1].op == "map" and x.op == "map" and is_c(m[-1].a[0]) and is_c(x.a[0]) and cval(m[-1].a[0]) + cval(x.a[0]) <= 256:
            l1, l2 = m[-1], x
            els = tuple(open_(l1.a[1], c64(i)) for i in range(cval(l1.a[0]))) + tuple(open_(l2.a[1], c64(i)) for i in range(cval(l2.a[0])))
            r = _roll(els) if len(els) >= 4 else None
            if r is not None:
                m[-1] = r
            else:
                m.append(x)
        else:
            m.append(x)
    if not m:
        return SEQ_EMPTY
    if len(m) == 1:
        if m[0].op == "seq":
            return seq(*m[0].a[0])
        return m[0]
    return mk("cat", tuple(m))


def _adjacent_maps(a, b):
    """b(j) = a(n_a + j)?"""
    v = fresh_var(64)
    return open_(a.a[1], add(a.a[0], v)) is open_(b.a[1], v)


def slice_(s, lo, n):
    if s.op == "slice":
        return slice_(s.a[0], add(s.a[1], lo), n)
    if is_c(n) and cval(n) == 0:
        return SEQ_EMPTY
    if is_c(lo) and cval(lo) == 0 and n is slen(s):
        return s
    if s.op == "map":
        v = fresh_var(64, [n])
        return mk_map(n, v, open_(s.a[1], add(lo, v)))
    if s.op == "seq" and is_c(lo) and is_c(n) and cval(lo) + cval(n) <= len(s.a[0]):
        return seq(*s.a[0][cval(lo):cval(lo) + cval(n)])
    if s.op == "cat":
        # within leading / trailing parts
        off = c64(0)
        parts = s.a[0]
        for k, p in enumerate(parts):
            ln = slen(p)
            rel = sub(lo, off)
            if le_known(off, lo) and le_known(add(rel, n), ln):
                return slice_(p, rel, n)
            off = add(off, ln)
        # suffix
        off = c64(0)
        for k, p in enumerate(parts):
            if off is lo and k and n is slen(cat(*parts[k:])):
                return cat(*parts[k:])
            off = add(off, slen(p))
    return mk("slice", s, lo, n)


def rev_(s):
    if s.op == "rev":
        return s.a[0]
    n = slen(s)
    if s.op == "map":
        v = fresh_var(64, [n])
        return mk_map(n, v, open_(s.a[1], sub(sub(n, c64(1)), v)))
    if s.op == "seq":
        return seq(*reversed(s.a[0]))
    return mk("rev", s)


def upd(s, i, v):
    if s.op == "upd" and s.a[1] is i:
        return upd(s.a[0], i, v)
    if s.op == "seq" and is_c(i) and cval(i) < len(s.a[0]):
        xs = list(s.a[0])
        xs[cval(i)] = v
        return seq(*xs)
    if s.op == "map" and is_c(i) and is_c(s.a[0]) and cval(s.a[0]) <= 64 and cval(i) < cval(s.a[0]):
        xs = [open_(s.a[1], c64(j)) for j in range(cval(s.a[0]))]
        if xs[cval(i)] is v:
            return s
        xs[cval(i)] = v
        r = seq(*xs)
        return r
    cur = idx(s, i, v.w)
    if cur is v:
        return s
    # commute constant indices into order
    if s.op == "upd" and is_c(i) and is_c(s.a[1]) and cval(i) < cval(s.a[1]):
        return mk("upd", upd(s.a[0], i, v), s.a[1], s.a[2])
    return mk("upd", s, i, v)


def mk_map(n, v, body):
    """[body(v) for v in 0..n]"""
    if is_c(n):
        if cval(n) == 0:
            return SEQ_EMPTY
        if cval(n) <= 3:
            l = mk_lam(v, body)
            return mk("seq", tuple(open_(l, c64(i)) for i in range(cval(n))))
    # under the binder v < n
    fact = pos(sub(n, v))
    if fact is not TT and fact is not FF:
        body = assume(body, fact)
    # eta
    if body.op == "idx" and body.a[1] is v and slen(body.a[0]) is n and not dep(body.a[0], v):
        return body.a[0]
    if body.op == "idx" and not dep(body.a[0], v):
        o = sub(body.a[1], v)
        if not dep(o, v):
            return slice_raw(body.a[0], o, n)
    if body.op == "upd" or body.op == "ite":
        pass
    return mk("map", n, mk_lam(v, body))


def slice_raw(s, lo, n):
    if s.op in ("map",):
        return mk("slice", s, lo, n)
    return slice_(s, lo, n)


def dep(t, v):
    return bool(t.fv) and v.a[0] in t.fv if v.op == "var" else contains(t, v)


def assume(t, fact):
    """use a boolean fact inside t (deep, bounded)"""
    if fact is TT or fact is FF:
        return t
    neg_ = False
    atom = fact
    if fact.op == "bite" and fact.a[1] is FF and fact.a[2] is TT:
        atom = fact.a[0]
        neg_ = True
    if atom.op == "bite":
        return restrict_val(t, fact)
    if not contains(t, atom):
        return t
    return subst(t, {atom: FF if neg_ else TT})


def mk_flat(n, v, body):
    """concatenation of body(v) for v in 0..n"""
    if is_c(n):
        if cval(n) == 0:
            return SEQ_EMPTY
        if cval(n) == 1:
            return open_(mk_lam(v, body), c64(0))
    L = slen(body)
    if is_c(L) and cval(L) == 1:
        return mk_map(n, v, idx(body, c64(0)))
    if not dep(L, v):
        if is_c(L) and cval(L) == 0:
            return SEQ_EMPTY
        j = fresh_var(64, [mul(n, L)])
        l = mk_lam(v, body)
        q = open_(l, div(j, L))
        return mk_map(mul(n, L), j, idx(q, rem(j, L)))
    if is_c(n) and cval(n) <= 3:
        l = mk_lam(v, body)
        return cat(*[open_(l, c64(i)) for i in range(cval(n))])
    return mk("flat", n, mk_lam(v, body))


def mk_sum(n, v, body, *_):
    w = body.w
    if is_c(n):
        if cval(n) == 0:
            return const(0, w)
        if cval(n) <= 3:
            l = mk_lam(v, body)
            r = const(0, w)
            for i in range(cval(n)):
                r = add(r, open_(l, c64(i)))
            return r
    fact = pos(sub(n, v))
    if fact is not TT and fact is not FF:
        body = assume(body, fact)
    if not dep(body, v):
        return mul(cast(n, w), body) if w <= 64 else mk("sum", n, mk_lam(v, body), w=w)
    # linearity: pull out constant factors / split sums
    if body.op == "poly":
        r = const(0, w)
        if len(body.a[0]) > 1:
            for m, c in body.a[0]:
                r = add(r, mk_sum(n, v, from_poly({m: c}, w)))
            return r
        (m, c), = body.a[0]
        inn = [x for x in m if dep(x, v)]
        out = [x for x in m if not dep(x, v)]
        if c != 1 or out:
            f = const(c, w)
            for x in out:
                f = mul(f, x)
            b2 = const(1, w)
            for x in inn:
                b2 = mul(b2, x)
            return mul(f, mk_sum(n, v, b2))
    if body is (v if w == 64 else None):
        pass
    return mk("sum", n, mk_lam(v, body), w=w)


def mk_xorsum(n, v, body, *_):
    if is_c(n) and cval(n) == 0:
        return const(0, body.w)
    return mk("xorsum", n, mk_lam(v, body), w=body.w)


def mk_any(n, v, body, *_):
    """exists v<n: body(v)"""
    if is_c(n) and cval(n) == 0:
        return FF
    if body is FF:
        return FF
    fact = pos(sub(n, v))
    if fact is not TT and fact is not FF:
        body = restrict(body, fact)
    if body is FF:
        return FF
    if not dep(body, v):
        return b_and(body, b_not(eq0(n)))
    if is_c(n) and cval(n) <= 3:
        l = mk_lam(v, body)
        return b_or(*[open_(l, c64(i)) for i in range(cval(n))])
    # split off invariant conjuncts: any(c & f(v)) = c & any(f(v))  (c atom)
    if body.op == "bite" and body.a[2] is FF and not dep(body.a[0], v):
        return b_and(body.a[0], mk_any(n, v, body.a[1]))
    if body.op == "bite" and body.a[1] is FF and not dep(body.a[0], v):
        return b_and(b_not(body.a[0]), mk_any(n, v, body.a[2]))
    if body.op == "bite" and body.a[1] is TT and not dep(body.a[0], v):
        return b_or(b_and(body.a[0], b_not(eq0(n))), mk_any(n, v, body.a[2]))
    return mk("any", n, mk_lam(v, body), w="b")


def mk_first(n, v, body, *_):
    """first v<n with body(v)"""
    if body is TT or not dep(body, v):
        return c64(0)
    return mk("first", n, mk_lam(v, body), w=64)


BINDERS = {"map": lambda n, v, b: mk_map(n, v, b), "flat": lambda n, v, b: mk_flat(n, v, b),
           "sum": lambda n, v, b: mk_sum(n, v, b), "any": lambda n, v, b: mk_any(n, v, b),
           "first": lambda n, v, b: mk_first(n, v, b), "xorsum": lambda n, v, b: mk_xorsum(n, v, b)}


REB = {
    "zext": lambda a, w: zext(a[0], w),
    "sext": lambda a, w: sext(a[0], w),
    "trunc": lambda a, w: trunc(a[0], w),
    "div": lambda a, w: div(*a),
    "cdiv": lambda a, w: cdiv(*a),
    "rem": lambda a, w: rem(*a),
    "pow2": lambda a, w: pow2(a[0], w),
    "and": lambda a, w: and_(*a),
    "or": lambda a, w: or_(*a),
    "xor": lambda a, w: xor_(*a[0]),
    "rotl": lambda a, w: rotl(*a),
    "par": lambda a, w: a[0],
    "min": lambda a, w: min_(*a),
    "max": lambda a, w: max_(*a),
    "monus": lambda a, w: monus(*a),
    "bite": lambda a, w: bite(*a),
    "eq0": lambda a, w: eq0(a[0]),
    "eqv": lambda a, w: eq(*a),
    "lt": lambda a, w: lt(*a),
    "slt": lambda a, w: lt(a[0], a[1], True),
    "pos": lambda a, w: pos(a[0]),
    "bit": lambda a, w: bit(*a),
    "ite": lambda a, w: ite(*a),
    "agg": lambda a, w: agg(*a),
    "fld": lambda a, w: fld(a[0], a[1], a[2], w),
    "discr": lambda a, w: discr(a[0]),
    "len": lambda a, w: slen(a[0]),
    "idx": lambda a, w: idx(a[0], a[1], w),
    "seq": lambda a, w: seq(*a[0]),
    "cat": lambda a, w: cat(*a[0]),
    "slice": lambda a, w: slice_(*a),
    "rev": lambda a, w: rev_(a[0]),
    "upd": lambda a, w: upd(*a),
}


# ------------------------------------------------------------------ printing
def show(t, depth=0, lim=40):
    if depth > lim:
        return "…"
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1, lim) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.a
    s = lambda x: show(x, depth + 1, lim)
    if o == "c":
        v = a[0]
        return str(v) if v < 4096 or (v & 0xfff) else hex(v)
    if o in ("tt", "ff"):
        return {"tt": "true", "ff": "false"}[o]
    if o == "poly":
        out = []
        for m, c in a[0]:
            cs = signed(c, t.w)
            body = "*".join(s(x) for x in m)
            if not m:
                out.append(str(cs))
            elif cs == 1:
                out.append(body)
            else:
                out.append(f"{cs}*{body}")
        return "(" + " + ".join(out) + ")"
    if o in ("sym",):
        return str(a[0])
    if o == "var":
        return f"{a[1]}{a[0]}"
    if o == "bv":
        return f"#{a[0]}"
    if o == "phi":
        return f"phi{a[0]}"
    if o == "lam":
        return f"\\#{a[0]}. {s(a[2])}"
    if o == "fld":
        return f"{s(a[0])}.{'' if a[1] in (None, 0) else 'v%s.' % a[1]}{a[2]}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "agg":
        return f"{a[0].split('::')[-1]}@{a[1]}{{{', '.join(s(x) for x in a[2])}}}"
    if o == "seq":
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if o == "ite":
        return f"if({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if o == "bite":
        if a[1] is FF and a[2] is TT:
            return f"!{s(a[0])}"
        return f"b({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if o == "eq0":
        return f"{s(a[0])}==0"
    if o == "pos":
        return f"{s(a[0])}>0"
    if o == "strc":
        return repr(a[0])
    if o == "trunc":
        return f"trunc{t.w}({s(a[0])})"
    return f"{o}({', '.join(s(x) for x in a)})"
