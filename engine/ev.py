"""Random interpretation of value-graph terms (Gulwani & Necula style).

Two summary terms that the rewrite system does not identify are interpreted
under random valuations of their leaves (arguments, random-source leaves and
uninterpreted library applications).  A valuation on which they differ is a
witness that the two value graphs denote different functions; agreement on all
valuations identifies them.  Nothing of the analysed program is executed.
"""
import hashlib
import math
import random
import os
import re
import struct
import terms as TM
from terms import T, signed


class Opaque(Exception):
    """the term contains something the analysis did not understand"""


class Partial(Exception):
    """the valuation is outside the domain (index out of range ...)"""


import contextlib


@contextlib.contextmanager
def deep(n=0):
    """larger bounds, for values of the sizes a value graph singles out"""
    global MAXN, MAXITER, MAXSTEPS
    old = MAXN, MAXITER, MAXSTEPS
    MAXN, MAXITER, MAXSTEPS = max(20000, 2 * n), max(9000, n), max(60000, 4 * n)
    try:
        yield
    finally:
        MAXN, MAXITER, MAXSTEPS = old


class Big(Exception):
    pass


MAXN = 5000
MAXITER = 2000
MAXSTEPS = 20000


def h64(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=16).digest(), "little")


_fb = {}


def fbv(t):
    """free bound-variable heights of a term"""
    r = _fb.get(t)
    if r is not None:
        return r
    if t.op == "bv":
        r = frozenset((t.a[0],))
    elif t.op == "lam":
        r = fbv(t.a[2]) - {t.a[0]}
    else:
        r = frozenset()
        for k in TM._kids(t.a):
            r |= fbv(k)
    _fb[t] = r
    return r


_hf = {}


def has_fresh(t):
    if t in _hf:
        return _hf[t]
    r = t.op in ("fresh", "freshseq", "draw", "loopn", "loopval") or any(has_fresh(k) for k in TM._kids(t.a))
    _hf[t] = r
    return r


class Env:
    def __init__(self, seed, syms=None, maxlen=5, small=None):
        self.seed = seed
        self.syms = dict(syms or {})      # name -> value
        self.vars = {}                    # var id -> value
        self.maxlen = maxlen
        self.memo = {}
        self.apps = {}
        self.small = small
        self.phis = {}
        self.kleene = 0
        self.loops = {}
        self.touch = set()
        self.freshfn = None
        self.maxiter = MAXITER
        self.hooks = {}

    def child(self, vars, phis):
        c = Env.__new__(Env)
        c.kleene = self.kleene
        c.seed, c.syms, c.maxlen, c.apps, c.small = self.seed, self.syms, self.maxlen, self.apps, self.small
        c.vars = dict(self.vars)
        c.vars.update(vars)
        c.phis = dict(self.phis)
        c.phis.update(phis)
        c.memo = {}
        c.loops = self.loops
        c.touch, c.freshfn, c.maxiter, c.hooks = self.touch, self.freshfn, self.maxiter, self.hooks
        if self.budget is None:
            self.budget = [MAXSTEPS]
        c.budget = self.budget
        return c

    budget = None

    def bindks(self, ks0, ksv):
        """bind the recorded outer loop variables to the values in this use"""
        return {k0.a[0]: v for k0, v in zip(ks0, ksv) if isinstance(k0, T) and k0.op == "var"}

    def tick(self):
        if self.budget is None:
            self.budget = [MAXSTEPS]
        self.budget[0] -= 1
        if self.budget[0] < 0:
            raise Big("steps")

    def loopn(self, t, b):
        site, ks = t.a[0], t.a[1]
        rec = TM.EXITS.get(site)
        if rec is None:
            raise Opaque("loopn")
        ksv = tuple(self.ev(x, b) if isinstance(x, T) else x for x in ks)
        key = ("n", site, ksv)
        if key in self.loops:
            return self.loops[key]
        ks0, k, E = rec
        bind = self.bindks(ks0, ksv)
        for n in range(self.maxiter):
            self.tick()
            bind[k.a[0]] = n
            c = self.child(bind, {})
            if c.ev(E):
                self.loops[key] = n
                return n
        raise Big("loop")

    def loopval(self, t, b):
        site, leaf, k, ks = t.a
        rec = TM.LOOPSYS.get(site)
        if rec is None or leaf not in rec[2]:
            raise Opaque("loopval")
        kv = self.ev(k, b)
        ksv = tuple(self.ev(x, b) if isinstance(x, T) else x for x in ks)
        kt, ks0, sysd = rec
        key = ("s", site, ksv)
        bind = self.bindks(ks0, ksv)
        if key not in self.loops:
            c = self.child(bind, {})
            self.loops[key] = [{lf: c.ev(x0) for lf, (p, nx, x0) in sysd.items()}]
        st = self.loops[key]
        if kv > MAXITER:
            raise Big("loop")
        while len(st) <= kv:
            self.tick()
            i = len(st) - 1
            bind[kt.a[0]] = i
            c = self.child(bind, {p: st[i][lf] for lf, (p, nx, x0) in sysd.items()})
            st.append({lf: c.ev(nx) for lf, (p, nx, x0) in sysd.items()})
        return st[kv][leaf]

    # ------------------------------------------------ shaped random values
    def shape(self, d, key, w=None, depth=0):
        """a pseudo-random value of descriptor d determined by key"""
        if d is None:
            d = w
        if d == "b":
            return bool(h64(self.seed, key, "b") & 1)
        if isinstance(d, int):
            x = h64(self.seed, key, "i")
            m = (x >> 64) & 7
            v = x & ((1 << d) - 1)
            if d == 64 and m < 7:
                v &= 0xff if m < 4 else 0xffff
            elif m == 0:
                v &= 7
            elif m == 1:
                v = ((1 << d) - 1) - (v & 7)
            if d == 64 and (x >> 68) & 15 == 0:
                v = (0, (1 << 64) - 1 - ((x >> 80) & 0x7f), 1 << 63, (1 << 32) - 1)[(x >> 72) & 3]
            return v
        if isinstance(d, tuple):
            if d[0] == "s":
                n = d[2]
                if isinstance(n, str) or n is None:
                    n = h64(self.seed, key, "n") % (self.maxlen + 1)
                return tuple(self.shape(d[1], (key, i), None, depth + 1) for i in range(n))
            if d[0] == "a":
                return ("agg", d[1], 0, tuple(self.shape(x, (key, "f", i), None, depth + 1) for i, x in enumerate(d[2])))
            if d[0] == "e":
                nv = len(d[2])
                x = h64(self.seed, key, "v")
                v = x % nv
                if nv == 2 and v == 1 and d[1].endswith("Result") and x % 8:
                    v = 0        # mostly successes
                if nv == 2 and v == 0 and d[1].endswith("Option") and (x >> 8) % 4:
                    v = 1
                return ("agg", d[1], v, tuple(self.shape(f, (key, "p", v, i), None, depth + 1) for i, f in enumerate(d[2][v])))
        return ("opq", h64(self.seed, key))

    # ------------------------------------------------ evaluation
    def ev(self, t, b=()):
        """b: tuple of (height, value) pairs"""
        fs = fbv(t)
        if fs:
            bb = tuple(p for p in b if p[0] in fs)
        else:
            bb = ()
        key = (t, bb)
        if key in self.memo:
            r = self.memo[key]
            if r is self:
                raise Opaque("cyclic")
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._ev(t, bb)
        except (Partial, Opaque) as e:
            self.memo[key] = e
            raise
        self.memo[key] = r
        return r

    def lam(self, l, b, v):
        return self.ev(l.a[2], tuple(p for p in b if p[0] != l.a[0]) + ((l.a[0], v),))

    def leafkey(self, t):
        return (t.op, str(t.a[0]) if t.a else "")

    def opq_part(self, v, key, t):
        d = TM.desc_of(t)
        return self.shape(d, ("part", v[1], key), t.w)

    def count(self, n):
        if n > MAXN:
            raise Big(n)
        return n

    def _ev(self, t, b):
        o, a, w = t.op, t.a, t.w
        ev = self.ev
        if o == "c":
            return a[0]
        if o == "tt":
            return True
        if o == "ff":
            return False
        if o == "strc":
            if str(t.a[0]).startswith("const:[('opaque'"):
                raise Opaque("constant of unknown value " + t.a[0])
            return ("str", a[0])
        if o == "sym":
            if a[0] not in self.syms:
                self.syms[a[0]] = self.shape(TM.desc_of(t), ("sym", a[0]), w)
            return self.syms[a[0]]
        if o == "var":
            if a[0] not in self.vars:
                ub = TM.VAR_UB.get(a[0])
                v = h64(self.seed, "var", a[0])
                if ub:
                    m = min(ev(u) for u in ub)
                    if m <= 0:
                        raise Partial("empty range")
                    v %= m
                    if self.small and m > self.small and h64(self.seed, "vs", a[0]) & 1:
                        v %= self.small
                else:
                    v &= 0xff
                if isinstance(w, int):
                    v &= (1 << w) - 1
                self.vars[a[0]] = v
            return self.vars[a[0]]
        if o == "bv":
            for h, v in b:
                if h == a[0]:
                    return v
            raise Opaque("unbound")
        if o == "poly":
            r = 0
            m = (1 << w) - 1
            for mono, c in a[0]:
                x = c
                for f in (sorted(mono, key=has_fresh) if len(mono) > 1 else mono):
                    x *= ev(f, b)
                    if not x:
                        break
                r += x
            return r & m
        if o in ("div", "rem", "cdiv"):
            x, y = ev(a[0], b), ev(a[1], b)
            if y == 0:
                raise Partial("div0")
            return x // y if o == "div" else x % y if o == "rem" else -(-x // y)
        if o == "pow2":
            e = ev(a[0], b)
            return (1 << e) & ((1 << w) - 1) if e < 4096 else 0
        if o == "zext":
            return ev(a[0], b)
        if o == "sext":
            return signed(ev(a[0], b), a[0].w) & ((1 << w) - 1)
        if o == "trunc":
            return ev(a[0], b) & ((1 << w) - 1)
        if o in ("and", "or", "xor"):
            xs = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
            vs = [ev(x, b) for x in xs]
            r = vs[0]
            for v in vs[1:]:
                r = (r & v) if o == "and" else (r | v) if o == "or" else (r ^ v)
            return r
        if o == "rotl":
            x, c = ev(a[0], b), (ev(a[1], b) if isinstance(a[1], T) else a[1]) % w
            return ((x << c) | (x >> (w - c))) & ((1 << w) - 1) if c else x
        if o == "min":
            return min(ev(a[0], b), ev(a[1], b))
        if o == "max":
            return max(ev(a[0], b), ev(a[1], b))
        if o == "monus":
            return max(ev(a[0], b) - ev(a[1], b), 0)
        if o == "bit":
            e = ev(a[1], b)
            return bool((ev(a[0], b) >> e) & 1) if e < 4096 else False
        if o == "bite":
            try:
                c = ev(a[0], b)
            except Partial:
                # the order of the tests is the decision diagram's, not the program's
                if self.kleene > 5:
                    raise
                self.kleene += 1
                try:
                    x = ev(a[1], b)
                    if x != ev(a[2], b):
                        raise
                finally:
                    self.kleene -= 1
                return x
            return ev(a[1], b) if c else ev(a[2], b)
        if o == "ite":
            return ev(a[1], b) if ev(a[0], b) else ev(a[2], b)
        if o == "eq0":
            return ev(a[0], b) == 0
        if o == "pos":
            return signed(ev(a[0], b), 64) > 0
        if o == "lt":
            return ev(a[0], b) < ev(a[1], b)
        if o == "slt":
            return signed(ev(a[0], b), a[0].w) < signed(ev(a[1], b), a[1].w)
        if o == "ovf":
            x, y = ev(a[1], b), ev(a[2], b)
            ww = a[1].w
            if len(a) > 3 and a[3]:
                x = signed(x, ww)
                y = signed(y, a[2].w)
                lo, hi = -(1 << (ww - 1)), (1 << (ww - 1)) - 1
            else:
                lo, hi = 0, (1 << ww) - 1
            k = a[0]
            if k == "Pow":
                if y > 4096:
                    return x > 1
                r = x ** y
            else:
                r = x + y if k == "Add" else x - y if k == "Sub" else x * y if k == "Mul" else None
            if r is None:
                raise Opaque("ovf " + str(k))
            return r < lo or r > hi
        if o in ("eqv",):
            return ev(a[0], b) == ev(a[1], b)
        if o == "isv1":
            v = ev(a[0], b)
            return self.variant(v, a[0]) == 1
        if o == "discr":
            return self.variant(ev(a[0], b), a[0])
        if o == "agg":
            return ("agg", a[0], a[1], tuple(ev(x, b) for x in a[2]))
        if o == "ctor":
            return ("ctor", a[0], a[1])
        if o == "fld":
            v = ev(a[0], b)
            if isinstance(v, tuple) and v and v[0] == "agg":
                if a[1] is not None and v[2] != a[1]:
                    raise Partial("variant")
                if a[2] < len(v[3]):
                    x = v[3][a[2]]
                    return x
                raise Partial("field")
            if isinstance(v, tuple) and v and v[0] == "opq":
                return self.opq_part(v, ("fld", a[1], a[2]), t)
            if isinstance(v, tuple) and not a[1] and a[2] < len(v):
                return v[a[2]]
            raise Opaque("fld of " + str(type(v)))
        if o == "loopn":
            return self.loopn(t, b)
        if o == "loopval":
            return self.loopval(t, b)
        if o == "phi":
            if t in self.phis:
                return self.phis[t]
            raise Opaque("phi")
        if o == "fold":
            n = ev(a[0], b)
            v = ev(a[2], b)
            if n > MAXITER:
                raise Big("loop")
            l1 = a[1]
            l2 = l1.a[2]
            for i in range(n):
                self.tick()
                bb = tuple(p for p in b if p[0] not in (l1.a[0], l2.a[0])) + ((l1.a[0], i), (l2.a[0], v))
                v = ev(l2.a[2], bb)
            return v
        if o == "seq":
            return tuple(ev(x, b) for x in a[0])
        if o == "map":
            n = self.count(ev(a[0], b))
            return tuple(self.lam(a[1], b, i) for i in range(n))
        if o == "flat":
            n = self.count(ev(a[0], b))
            out = []
            for i in range(n):
                out.extend(self.seqv(self.lam(a[1], b, i)))
            return tuple(out)
        if o == "cat":
            out = []
            for x in a[0]:
                out.extend(self.seqv(ev(x, b)))
            return tuple(out)
        if o == "slice":
            s, lo, n = self.seqv(ev(a[0], b)), ev(a[1], b), ev(a[2], b)
            if lo + n > len(s):
                raise Partial("slice")
            return s[lo:lo + n]
        if o == "rev":
            return tuple(reversed(self.seqv(ev(a[0], b))))
        if o == "upd":
            s, i, v = self.seqv(ev(a[0], b)), ev(a[1], b), ev(a[2], b)
            if i >= len(s):
                raise Partial("upd")
            return s[:i] + (v,) + s[i + 1:]
        if o == "idx" and a[0].op == "freshseq":
            q = a[0].a
            i = ev(a[1], b)
            if i >= ev(q[2], b):
                raise Partial("idx")
            return self.fresh(("fresh", q[0], tuple(ev(k, b) if isinstance(k, T) else k for k in q[1]), i), 8)
        if o == "idx":
            s, i = ev(a[0], b), ev(a[1], b)
            if isinstance(s, tuple) and s and s[0] == "opq":
                return self.opq_part(s, ("idx", i), t)
            s = self.seqv(s)
            if i >= len(s):
                raise Partial("idx")
            return s[i]
        if o == "len":
            s = ev(a[0], b)
            if isinstance(s, tuple) and s and s[0] == "opq":
                return h64(self.seed, "len", s[1]) % (self.maxlen + 1)
            return len(self.seqv(s))
        if o in ("sum", "xorsum"):
            n = self.count(ev(a[0], b))
            r = 0
            for i in range(n):
                v = self.lam(a[1], b, i)
                r = r + v if o == "sum" else r ^ v
            return r & ((1 << w) - 1)
        if o in ("any", "first"):
            n = self.count(ev(a[0], b))
            for i in range(n):
                if self.lam(a[1], b, i):
                    return True if o == "any" else i
            if o == "any":
                return False
            raise Partial("first")
        if o in ("fresh",):
            return self.fresh(("fresh", a[0], tuple(ev(k, b) if isinstance(k, T) else k for k in a[1])), w)
        if o == "freshseq":
            n = self.count(ev(a[2], b))
            ks = tuple(ev(k, b) if isinstance(k, T) else k for k in a[1])
            self.touch.add(("whole", a[0], ks))
            return tuple(self.fresh(("fresh", a[0], ks, i), 8) for i in range(n))
        if o == "draw":
            t0, self.touch = self.touch, set()
            try:
                xs = tuple(ev(x, b) if isinstance(x, T) else x for x in a)
            finally:
                sub, self.touch = self.touch, t0
            self.touch |= {("seed", k) for k in sub}
            return self.fresh(("draw", xs), w)
        if o == "fc":
            return struct.unpack("<d", struct.pack("<Q", a[0]))[0]
        if o == "fi":
            return float(ev(a[0], b))
        if o == "fq":
            return ev(a[0], b) / ev(a[1], b)
        if o in ("fnval", "uninit"):
            return ("opq", h64(o, tuple(ev(x, b) if isinstance(x, T) else x for x in a)))
        if o == "app":
            xs = tuple(self.canon(x, b) for x in a)
            f = self.hooks.get(a[0]) or APPS.get(a[0]) or (APPS.get("libm:" + a[0].split("::")[-1]) if isinstance(a[0], str) and a[0].startswith("libm::") else None)
            if f is not None:
                r = f(self, xs[1:], t)
                if r is not None:
                    return r
            UNINT.setdefault(a[0], w)
            if isinstance(a[0], str) and a[0].endswith("_gen_range") and isinstance(xs[-1], tuple) and xs[-1][:1] == ("agg",):
                lo, hi = xs[-1][3][:2]
                hi += "Inclusive" in xs[-1][1]
                if not (isinstance(lo, int) and isinstance(hi, int)) or hi <= lo:
                    raise Partial("empty range")
                return lo + h64(self.seed, ("app", xs), "r") % (hi - lo)
            if isinstance(a[0], str) and (a[0].startswith(("seq_", "cmp_", "hm_")) or "::" in a[0] and not OWN.match(a[0])):
                raise Opaque("library function " + a[0])
            return self.shape(TM.desc_of(t), ("app", xs), w)
        raise Opaque(o)

    def fresh(self, key, w):
        self.touch.add(key)
        if self.freshfn is not None:
            v = self.freshfn(key, w)
            if v is not None:
                return v
        return self.shape(w, key, w)

    def canon(self, x, b):
        if isinstance(x, T):
            if x.op == "lam":
                return ("lam", tuple(self.lam(x, b, i) for i in range(4)))
            return self.ev(x, b)
        if isinstance(x, tuple):
            return tuple(self.canon(y, b) for y in x)
        return x

    def seqv(self, v):
        if isinstance(v, tuple):
            if v and v[0] == "str":
                return tuple(v[1].encode()) if isinstance(v[1], str) else tuple(v[1])
            if v and v[0] in ("opq", "agg", "lam"):
                raise Opaque("sequence expected")
            if v and v[0] == "hm":
                if not v[1].startswith("BTree"):
                    raise Opaque("unordered iteration")
                ks = sorted(v[2], key=lambda kv: _ord(kv[0]))
                return tuple(k for k, _ in ks) if v[1].startswith("BTreeSet") else tuple(("agg", "tup", 0, kv) for kv in ks)
            return v
        raise Opaque("sequence expected")

    def variant(self, v, t):
        if isinstance(v, tuple) and v and v[0] == "agg":
            return v[2]
        if isinstance(v, tuple) and v and v[0] == "opq":
            return h64(self.seed, "variant", v[1]) & 1
        raise Opaque("variant")


APPS = {}


def _pow(E, xs, t):
    if len(xs) == 2 and all(isinstance(x, int) for x in xs):
        return (xs[0] ** min(xs[1], 4096)) & ((1 << t.w) - 1)


APPS["pow"] = _pow


def _flt(f, n):
    def g(E, xs, t):
        if len(xs) == n and all(isinstance(x, float) for x in xs):
            try:
                return f(*xs)
            except (ZeroDivisionError, OverflowError, ValueError):
                raise Partial("float")
    return g


def _f2i(E, xs, t):
    if len(xs) == 1 and isinstance(xs[0], float):
        if xs[0] != xs[0]:
            return 0
        return max(0, min(int(xs[0]) if abs(xs[0]) < 1e30 else 0, (1 << t.w) - 1))


def _round(x):
    return float(math.floor(x + 0.5)) if x >= 0 else -float(math.floor(-x + 0.5))


APPS["f2i"] = _f2i


def _sg(f):
    def g(E, xs, t):
        if len(xs) != 2 or not all(isinstance(x, int) for x in xs):
            raise Opaque("signed arithmetic on unknown value")
        return f(signed(xs[0], t.w), xs[1], t.w) & ((1 << t.w) - 1)
    return g


def _sdiv(x, y, w):
    y = signed(y, w)
    if y == 0:
        raise Partial("division by zero")
    q = abs(x) // abs(y)
    return -q if (x < 0) != (y < 0) else q


APPS["sshr"] = _sg(lambda x, k, w: x >> min(k, w - 1))
APPS["sdiv"] = _sg(_sdiv)
APPS["srem"] = _sg(lambda x, y, w: x - _sdiv(x, y, w) * signed(y, w))
APPS["i2f"] = lambda E, xs, t: float(xs[0])
APPS["f32r"] = _flt(lambda x: struct.unpack("<f", struct.pack("<f", x))[0], 1)
APPS["seq_into"] = lambda E, xs, t: ((xs[0] - (1 << xs[1]) if xs[1] and xs[0] >> (xs[1] - 1) else int(xs[0])) & ((1 << t.w) - 1)) if isinstance(xs[0], int) else None
APPS["slice_contains"] = lambda E, xs, t: xs[1] in E.seqv(xs[0])
for _n, _f in (("fAdd", lambda x, y: x + y), ("fSub", lambda x, y: x - y), ("fMul", lambda x, y: x * y), ("fDiv", lambda x, y: x / y),
               ("fLt", lambda x, y: x < y), ("fLe", lambda x, y: x <= y), ("fGt", lambda x, y: x > y), ("fGe", lambda x, y: x >= y)):
    APPS[_n] = _flt(_f, 2)
APPS["fneg"] = _flt(lambda x: -x, 1)
for _n, _f, _k in (("log", math.log, 1), ("floor", lambda x: float(math.floor(x)), 1), ("ceil", lambda x: float(math.ceil(x)), 1), ("round", _round, 1),
                   ("trunc", lambda x: float(int(x)), 1), ("sqrt", math.sqrt, 1), ("log2", math.log2, 1), ("fmax", max, 2), ("fmin", min, 2), ("pow", lambda x, y: x ** y, 2)):
    APPS["libm:" + _n] = _flt(_f, _k)


    if _n != "log":
        for _p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::", "core::f64::math::"):
            APPS[_p + {"fmax": "max", "fmin": "min", "pow": "powf"}.get(_n, _n)] = _flt(_f, _k)
for _p in ("std::f64::<impl f64>::", "core::f64::<impl f64>::"):
    APPS[_p + "ln"], APPS[_p + "log10"], APPS[_p + "exp"], APPS[_p + "abs"] = _flt(math.log, 1), _flt(math.log10, 1), _flt(math.exp, 1), _flt(abs, 1)
    APPS[_p + "powi"] = lambda E, xs, t: xs[0] ** (xs[1] - (1 << 32) if xs[1] >> 31 else xs[1]) if isinstance(xs[0], float) and isinstance(xs[1], int) else None


# ------------------------------------------------ integer library functions
def _nums():
    for ty in [s + b for s in "iu" for b in ("8", "16", "32", "64", "128", "size")]:
        w, sg = 64 if ty[1:] == "size" else int(ty[1:]), ty[0] == "i"
        M = (1 << w) - 1
        top = (1 << (w - 1)) - 1 if sg else M
        s = (lambda x, w=w: x - (1 << w) if x >> (w - 1) else x) if sg else (lambda x: x)

        def euclid(x, y, s=s):
            a, b = s(x), s(y)
            r = a % abs(b)
            return (a - r) // b, r
        npo = lambda x: 1 << max(0, x - 1).bit_length()
        nmo = lambda x, y: x if x % y == 0 else x + y - x % y
        F = {
            "count_ones": lambda x: x.bit_count(), "count_zeros": lambda x, w=w: w - x.bit_count(),
            "leading_zeros": lambda x, w=w: w - x.bit_length(), "leading_ones": lambda x, w=w, M=M: w - (x ^ M).bit_length(),
            "trailing_zeros": lambda x, w=w: (x & -x).bit_length() - 1 if x else w, "trailing_ones": lambda x, w=w, M=M: ((x ^ M) & -(x ^ M)).bit_length() - 1 if x ^ M else w,
            "swap_bytes": lambda x, w=w: int.from_bytes(x.to_bytes(w // 8, "little"), "big"), "to_be": lambda x, w=w: int.from_bytes(x.to_bytes(w // 8, "little"), "big"),
            "from_be": lambda x, w=w: int.from_bytes(x.to_bytes(w // 8, "little"), "big"), "to_le": lambda x: x, "from_le": lambda x: x,
            "reverse_bits": lambda x, w=w: int(format(x, f"0{w}b")[::-1], 2), "is_power_of_two": lambda x: x.bit_count() == 1,
            "next_power_of_two": lambda x, M=M: npo(x) & M, "bad_next_power_of_two": lambda x, M=M: npo(x) > M,
            "ilog2": lambda x, s=s: s(x).bit_length() - 1 if s(x) > 0 else None, "bad_ilog2": lambda x, s=s: s(x) <= 0,
            "ilog10": lambda x, s=s: len(str(s(x))) - 1 if s(x) > 0 else None, "bad_ilog10": lambda x, s=s: s(x) <= 0,
            "isqrt": lambda x, s=s: math.isqrt(s(x)) if s(x) >= 0 else None, "bad_isqrt": lambda x, s=s: s(x) < 0,
            "rem_euclid": lambda x, y: euclid(x, y)[1] if y else None, "div_euclid": lambda x, y, M=M: euclid(x, y)[0] & M if y else None,
            "bad_rem_euclid": lambda x, y, s=s: not y or euclid(x, y)[0] > top, "bad_div_euclid": lambda x, y, top=top: not y or euclid(x, y)[0] > top,
            "next_multiple_of": lambda x, y, M=M: nmo(x, y) & M if y else None, "bad_next_multiple_of": lambda x, y, M=M: not y or nmo(x, y) > M,
            "midpoint": (lambda x, y, s=s, M=M: int((s(x) + s(y)) / 2 if abs(s(x) + s(y)) < 1 << 50 else (s(x) + s(y) + (1 if s(x) + s(y) < 0 else 0)) // 2) & M) if sg else (lambda x, y: (x + y) // 2),
        }
        F["rem_euclid"] = lambda x, y, e=euclid, M=M: e(x, y)[1] & M if y else None
        F["div_euclid"] = lambda x, y, e=euclid, M=M: e(x, y)[0] & M if y else None
        F["bad_rem_euclid"] = F["bad_div_euclid"] = lambda x, y, e=euclid, t=top: not y or e(x, y)[0] > t
        for n, f in F.items():
            def h(E, xs, t, f=f):
                if not all(isinstance(x, int) for x in xs):
                    raise Opaque("number function on unknown value")
                r = f(*xs)
                if r is None:
                    raise Partial("number function outside its domain")
                return r
            APPS[f"num::{ty}::{n}"] = h


_nums()


# ------------------------------------------------ ordering of sequences
def _ord(x):
    """a totally ordered image of integers, byte strings, texts, tuples of them"""
    if isinstance(x, (bool, int)):
        return int(x)
    if isinstance(x, tuple) and len(x) == 2 and x[0] == "str" and isinstance(x[1], str):
        return x[1].encode()
    if isinstance(x, tuple) and len(x) == 4 and x[0] == "agg" and x[1] == "tup":
        return tuple(_ord(y) for y in x[3])
    if isinstance(x, tuple) and not (x and isinstance(x[0], str)):
        return tuple(_ord(y) for y in x)
    raise Opaque("order of values")


def _at(best):
    def f(E, xs, t):
        s, sg = E.seqv(xs[0]), xs[1]
        if not s:
            raise Partial("empty")
        if sg == 2:
            raise Opaque("order of values")
        if sg == 1:
            if not all(isinstance(x, int) for x in s):
                raise Opaque("order of values")
            raise Opaque("order of signed values")
        ks = [_ord(x) for x in s]
        m = best(ks)
        return ks.index(m) if best is min else len(ks) - 1 - ks[::-1].index(m)
    return f


APPS["seq_minat"], APPS["seq_maxat"] = _at(min), _at(max)
APPS["seq_first"] = lambda E, xs, t: next((i for i, x in enumerate(E.seqv(xs[0])) if x), len(E.seqv(xs[0])))


def _ppoint(E, xs, t):
    s = [bool(x) for x in E.seqv(xs[0])]
    k = s.index(False) if False in s else len(s)
    if any(s[k:]):
        raise Opaque("partition point of an unpartitioned sequence")
    return k


def _bsearch(E, xs, t):
    s = E.seqv(xs[0])
    if not all(isinstance(x, int) for x in s) or any(x >= y for x, y in zip(s, s[1:])):
        raise Opaque("binary search in a sequence that is not strictly sorted")
    import bisect
    return bisect.bisect_left(s, xs[1])


APPS["seq_ppoint"], APPS["seq_bsearch"] = _ppoint, _bsearch


def _ordering(v):
    if isinstance(v, int) and not isinstance(v, bool):
        return v - 256 if v > 127 else v
    if isinstance(v, tuple) and v[:2] == ("agg", "core::cmp::Ordering"):
        return v[2] - 1
    raise Opaque("comparison result")


def _cmps(E, m):
    import functools
    m = [[_ordering(x) for x in E.seqv(r)] for r in E.seqv(m)]
    return functools.cmp_to_key(lambda i, j: m[i][j]), len(m)


def _cmpsorted(E, xs, t):
    k, n = _cmps(E, xs[1])
    s = E.seqv(xs[0])
    return tuple(s[i] for i in sorted(range(n), key=k))


def _cmpat(big):
    def f(E, xs, t):
        k, n = _cmps(E, xs[0])
        if not n:
            raise Partial("empty")
        return sorted(range(n), key=k)[-1 if big else 0]
    return f


APPS["cmp_sorted"], APPS["cmp_minat"], APPS["cmp_maxat"] = _cmpsorted, _cmpat(False), _cmpat(True)
APPS["sorted"] = lambda E, xs, t: tuple(sorted(xs[0], key=_ord))
APPS["sortk"] = lambda E, xs, t: tuple(x for _, x in sorted(zip(map(_ord, xs[1]), xs[0]), key=lambda p: p[0]))
APPS["dedupk"] = lambda E, xs, t: tuple(x for i, (x, k) in enumerate(zip(xs[0], xs[1])) if i == 0 or k != xs[1][i - 1])


# ------------------------------------------------ text
def _pystr(x):
    return x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == "str" and isinstance(x[1], str) else None


def _str(f, n=1, wrap=True):
    def h(E, xs, t):
        ss = [_pystr(x) for x in xs[:n]]
        for i in range(1, len(ss)):
            # a char pattern is a number
            if ss[i] is None and isinstance(xs[i], int) and not isinstance(xs[i], bool) and xs[i] < 0x110000:
                ss[i] = chr(xs[i])
        if any(s is None for s in ss):
            raise Opaque("text function on unknown text")
        r = f(*ss)
        return ("str", r) if wrap else r
    return h


WS = "\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def _strip(s, p, start, end):
    while p and start and s.startswith(p):
        s = s[len(p):]
    while p and end and s.endswith(p):
        s = s[:len(s) - len(p)]
    return s


_asc = lambda f: lambda s: "".join(f(c) if c.isascii() else c for c in s)
_optstr = lambda ok, v: ("agg", "core::option::Option", 1, (("str", v),)) if ok else ("agg", "core::option::Option", 0, ())
_TEXT = {
    "trim": _str(lambda s: s.strip(WS)), "trim_start": _str(lambda s: s.lstrip(WS)), "trim_end": _str(lambda s: s.rstrip(WS)),
    "trim_left": _str(lambda s: s.lstrip(WS)), "trim_right": _str(lambda s: s.rstrip(WS)),
    "to_lowercase": _str(str.lower), "to_uppercase": _str(str.upper),
    "to_ascii_lowercase": _str(_asc(str.lower)), "to_ascii_uppercase": _str(_asc(str.upper)),
    "eq_ignore_ascii_case": _str(lambda a, b: _asc(str.lower)(a) == _asc(str.lower)(b), 2, False),
    "starts_with": _str(lambda a, b: a.startswith(b), 2, False), "ends_with": _str(lambda a, b: a.endswith(b), 2, False), "contains": _str(lambda a, b: b in a, 2, False),
    "strip_prefix": _str(lambda a, b: _optstr(a.startswith(b), a[len(b):]), 2, False), "strip_suffix": _str(lambda a, b: _optstr(a.endswith(b), a[:len(a) - len(b)]), 2, False),
    "is_empty": _str(lambda s: s == "", 1, False), "is_ascii": _str(str.isascii, 1, False),
    "trim_end_matches": _str(lambda s, p: _strip(s, p, False, True), 2), "trim_right_matches": _str(lambda s, p: _strip(s, p, False, True), 2),
    "trim_start_matches": _str(lambda s, p: _strip(s, p, True, False), 2), "trim_left_matches": _str(lambda s, p: _strip(s, p, True, False), 2),
    "trim_matches": _str(lambda s, p: _strip(s, p, True, True), 2), "repeat": None,
    "replace": _str(lambda s, a, b: s.replace(a, b), 3), "trim_ascii": _str(lambda s: s.strip(" \t\n\x0c\r")),
}
del _TEXT["repeat"]
for _n, _f in _TEXT.items():
    for _p in ("core::str::<impl str>::", "alloc::str::<impl str>::", "alloc::string::String::"):
        APPS[_p + _n] = _f


# functions that rules may leave uninterpreted: error texts, the wire format, the crates' own abstracted functions
OWN = re.compile(r"^(<?(keyword_pir_lwe|xorf|pi_rs_cli_utils)::|(core|alloc|std)::fmt::|bincode::|base64::|.*::to_string$)")
UNINT = {}  # functions left uninterpreted so far
if os.environ.get("VERIF_UNINT"):
    import atexit
    atexit.register(lambda: open(os.environ["VERIF_UNINT"], "a").write("".join(f"{k}\t{w}\n" for k, w in UNINT.items())))


# ------------------------------------------------ keyed collections
def _hm(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == "hm"


def _hmnew(E, xs, t):
    return ("hm", xs[0] if xs else "", ())


def _hminsert(E, xs, t):
    if not _hm(xs[0]):
        return None
    v = xs[2] if len(xs) > 2 else ("agg", "()", 0, ())
    d = dict(xs[0][2])
    if len(xs) == 2 and xs[1] in d:
        return xs[0]
    d[xs[1]] = v
    return ("hm", xs[0][1], tuple(d.items()))


def _opt(x, d):
    return ("agg", "core::option::Option", 1, (d[x],)) if x in d else ("agg", "core::option::Option", 0, ())


def _hmcollect(E, xs, t):
    s = E.seqv(xs[1])
    if xs[0].endswith("Set"):
        return ("hm", xs[0], tuple({k: ("agg", "()", 0, ()) for k in s}.items()))
    if not all(isinstance(x, tuple) and len(x) == 4 and x[0] == "agg" and len(x[3]) == 2 for x in s):
        raise Opaque("pairs expected")
    return ("hm", xs[0], tuple(dict(x[3] for x in s).items()))


APPS["hm_collect"] = _hmcollect
APPS["hm_items"] = lambda E, xs, t: E.seqv(xs[0])
APPS["hm_new"] = _hmnew
APPS["hm_insert"] = _hminsert
APPS["hm_get"] = APPS["hm_old"] = lambda E, xs, t: _opt(xs[1], dict(xs[0][2])) if _hm(xs[0]) else None
APPS["hm_has"] = lambda E, xs, t: xs[1] in dict(xs[0][2]) if _hm(xs[0]) else None
APPS["hs_added"] = lambda E, xs, t: xs[1] not in dict(xs[0][2]) if _hm(xs[0]) else None
APPS["hm_len"] = lambda E, xs, t: len(xs[0][2]) if _hm(xs[0]) else None


def _hmindex(E, xs, t):
    if not _hm(xs[0]):
        return None
    d = dict(xs[0][2])
    if xs[1] not in d:
        raise Partial("key")
    return d[xs[1]]


APPS["hm_index"] = _hmindex


def same(a, b, envs, tries=40, pre=None):
    """('eq', n) | ('ne', witness, va, vb) | ('opaque', why)

    envs(seed) -> Env.  A partial valuation on both sides is skipped; partial on
    one side only is skipped too (outside the common domain)."""
    n = 0
    for s in range(tries):
        E = envs(s)
        try:
            if pre is not None and not E.ev(pre):
                continue
            va, vb = E.ev(a), E.ev(b)
        except (Partial, Big):
            continue
        except Opaque as e:
            return ("opaque", str(e))
        if va != vb:
            return ("ne", E, va, vb)
        n += 1
    return ("eq", n)
