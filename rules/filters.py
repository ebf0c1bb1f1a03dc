"""The filters of bff-modp: composition of construction and lookup value graphs.

The hash function (`prelude::mix`, `prelude::mix256`) is an uninterpreted leaf of
both graphs; each interpretation chooses it, including hash functions whose first
evaluations collide so that construction has to retry."""
from core import *
import ev

MIXP, MIX256P = X + "prelude::mix", X + "prelude::mix256"
M64 = (1 << 64) - 1
REL = "release"
PL = X + "bfusep32::BinaryFuseP32"

FAMS = [("xor%d" % w, "Xor%d" % w, "From", "from") for w in (8, 16, 32)] + \
       [("fuse%d" % w, "Fuse%d" % w, "TryFrom", "try_from") for w in (8, 16, 32)] + \
       [("bfuse%d" % w, "BinaryFuse%d" % w, "TryFrom", "try_from") for w in (8, 16, 32)]


def mixov():
    o = dict(abstract(MIXP))
    o.update(abstract(MIX256P))
    return o


def ckey(f, arg):
    mod, ty, tr, fn = f
    return f"<xorf::{mod}::{ty} as core::convert::{tr}<{arg}>>::{fn}"


SL, RV, VV = "&[u64]", "&alloc::vec::Vec<u64>", "alloc::vec::Vec<u64>"


def fsum(key, extra=None):
    o = mixov()
    o.update(extra or {})
    return summary(key, ovr=o, config=REL, tag="filter")


class Hash:
    """an interpretation of the hash function: injective on the keys, avoiding 0;
    the first `bad` seeds it is asked for produce a clustered (unpeelable) hash"""

    def __init__(self, seed, keys, bad, style, spread=None):
        self.seed, self.bad, self.style, self.spread = seed, bad, style, spread
        self.idx = {k: i for i, k in enumerate(keys)}
        self.seeds, self.asked = [], []
        self.base = (ev.h64(seed, "base") & M64) & ~(0x7f << 11)

    def __call__(self, E, xs, t):
        k, s = xs[0], xs[1]
        if k not in self.idx:
            return ev.h64(self.seed, "mix", k, s) & M64 | 1
        if s not in self.seeds:
            self.seeds.append(s)
            self.asked.append(0)
        a = self.seeds.index(s)
        self.asked[a] += 1
        i = self.idx[k]
        if a < self.bad:
            if self.style == "dup":
                i = i // 2
                if i % 3:
                    return ev.h64(self.seed, "d", i, s) & M64 | 1
            if self.style == "spill" and i > 65:
                return ev.h64(self.seed, "spill", k, s) & M64 | 1     # one overfull slot, the others in ordinary use
            return (self.base ^ (i << 11)) & M64 or 1
        if self.spread:
            # one key per slot of the first segment dimension
            return (ev.h64(self.seed, "mix", i, s) & M64 & ~0xffffffff) | ((i * (1 << 32) // self.spread + 7) & 0xffffffff)
        h = ev.h64(self.seed, "mix", k, s) & M64 | 1
        r = ev.h64(self.seed, "edge", k, s) % 24
        if r < 4:      # the two halves agree, differ everywhere, or by a constant of the program
            h = h & ~0xffffffff | (h >> 32) ^ (0, 0, 0xffffffff, pooled(rng(self.seed, k, s), 32))[r]
        return h or 1


def env(seed, syms, h, f2i=None):
    E = ev.Env(seed, syms)
    E.budget = [2 * 10 ** 6]
    E.maxiter = 2000
    E.hooks[MIXP] = h
    E.hooks[MIX256P] = h
    if f2i:
        E.hooks["f2i"] = f2i
    return E


def unpack(v, ty):
    """filter struct value of a constructor result, None for Err"""
    if v[1].endswith("::Result") or v[1].endswith("Result"):
        return v[3][0] if v[2] == 0 else None
    return v


def struct_syms(v, **kw):
    syms = {"a0": v}
    for n, x in zip([f["name"] for f in fields_of(v[1], REL)], v[3]):
        syms["a0." + n] = x
    syms.update(kw)
    return syms


def wseed(R):
    return R.getrandbits(64)


def scenario(R, kind, tier):
    """(n keys, bad attempts, style, f2i hook, spread)"""
    m = R.randrange(6)
    big = 70 if tier != "quick" else 66
    if kind == "Fuse":
        if m == 0:
            return 90 + R.randrange(8), 0, "", None, 100
        c = 102 * R.choice((3, 4, 6)) + R.randrange(102)
        return R.choice((1, 2, 5, 9, 14)), (0, 0, 1, 2, 3, 1)[m], "", (lambda E, xs, t: c), None
    if kind == "Bin":
        if m == 0:
            return big, 1, "", None, None
        return R.choice((0, 1, 2, 3, 5, 9, 14, 20)), (0, 0, 0, 1, 2, 3)[m], R.choice(("", "dup")), None, None
    return R.choice((0, 1, 2, 3, 5, 9, 14)), (0, 0, 0, 1, 2, 1)[m], R.choice(("", "dup")), None, None


def mkeys(R, n, pre=()):
    ks = list(pre)
    while len(ks) < n:
        k = R.choice((R.getrandbits(64), R.getrandbits(64), R.getrandbits(8), R.choice((0, M64, 1 << 63, 1 << 32)), pooled(R, 64)))
        if ks and R.randrange(3) == 0:      # differs from another key in one half, one byte or one bit
            k = R.choice(ks) ^ R.choice((R.getrandbits(32), R.getrandbits(32) << 32, R.getrandbits(8) << 8 * R.randrange(8), 1 << R.randrange(64)))
        if k not in ks:
            ks.append(k)
    R.shuffle(ks)
    return tuple(ks)


def member(c, f, key, seed, kind, forced=None):
    """construct and look up every key; None | 'skip' | witness"""
    R = rng(seed, f[1])
    s, q = fsum(key), fsum(f"<xorf::{f[0]}::{f[1]} as xorf::Filter<u64>>::contains")
    n, bad, style, f2i, spread = forced or scenario(R, kind, c.tier)
    keys = mkeys(R, n)
    h = Hash(seed, keys, bad, style, spread)
    E = env(seed, {"a0": keys}, h, f2i)
    v = E.ev(s.ret)
    v = unpack(v, f[1])
    if v is None:
        return "skip"
    if c.pid == "P20" and not bad:
        return "skip"
    for i, k in enumerate(keys):
        try:
            r = env(seed, struct_syms(v, a1=k), h).ev(q.ret)
        except ev.Partial:
            return f"lookup of key {i} of {n} leaves the table ({f[1]}, {bad} failed attempts before, {n} keys)"
        if r is not True:
            return f"key {i} of {n} ({k:#x}) is not a member of the filter built from it ({f[1]}, {bad} failed attempts before success)"
    return None


def kindof(f):
    return "Xor" if f[1].startswith("Xor") else "Fuse" if f[1].startswith("Fuse") else "Bin"


def len_ok(c, f):
    k = f"<xorf::{f[0]}::{f[1]} as xorf::Filter<u64>>::len"
    s = fsum(k)

    def one(seed):
        n = rng(seed, "len").randrange(0, 40)
        fs = fields_of(f"xorf::{f[0]}::{f[1]}", REL)
        R = rng(seed, "lenv")
        v = ("agg", f"xorf::{f[0]}::{f[1]}", 0, tuple(tuple(R.getrandbits(8) for _ in range(n)) if x["name"] == "fingerprints" else R.getrandbits(20) for x in fs))
        r = env(seed, struct_syms(v), None).ev(s.ret)
        return None if r == n else f"{f[1]}::len is {r} for {n} fingerprints"
    c.sampled("len is the number of fingerprints", k, "Filter::len counts the stored fingerprints", one)


def P15(c):
    """membership filters have no false negatives: for the nine filter types and the three source forms, the composition contains(construct(keys), k) of the two value graphs is true for every key, with the hash function an uninterpreted leaf (including hash functions that force retries, slot-counter overflow and duplicate hashes)"""
    c.parallel([lambda f=f: member_family(c, f) for f in sorted(FAMS, key=lambda f: not f[1].startswith("Xor"))])


def member_family(c, f):
    key = ckey(f, SL)
    tries = (14 if kindof(f) != "Xor" else 10) if c.tier == "quick" else 120

    def go():
        c.sampled("construction then lookup", key, "contains(construct(keys), k) holds for every k in keys",
                  lambda s: member(c, f, key, s, kindof(f)), tries)
        len_ok(c, f)
    c.guard("construction then lookup", key, go)
    for arg in (RV, VV):
        k2 = ckey(f, arg)

        def wrap():
            s = fsum(k2, abstract(key))
            a = s.ret
            want = deref0(s)
            if a.op == "app" and len(a.a) == 2 and want is not None and a.a[1] is want:
                c.rec("source forms agree", k2, "conversion from a vector is the conversion from its slice", "proved", "delegates with the same keys")
                return
            if a.op == "app" and len(a.a) == 2 and a.a[0] in {e["path"] for e in s.events if e["kind"] == "abs"}:
                sizes = sizes_of([a.a[1]])

                def passed(sd):
                    R = rng(sd, "wrap")
                    n = R.choice(sizes) if sizes and R.randrange(2) else R.choice((0, 1, 2, 3, 5, 9, 30))
                    keys = mkeys(R, n) if n < 100 else tuple(range(7, n + 7))
                    got = env(sd, {"a0": keys}, None).ev(a.a[1])
                    lost = set(keys) - set(got)
                    if lost:
                        return f"{len(lost)} of {n} keys, such as {min(lost):#x}, are not handed to the construction"
                c.sampled("source forms agree", k2, "every key of the source is handed to the construction from a slice", passed, 24)
                return
            c.sampled("source forms agree", k2, "contains(construct(keys), k) holds for every k in keys",
                      lambda sd: member(c, f, k2, sd, kindof(f)), max(4, tries // 2))
        c.guard("source forms agree", k2, wrap)


def sizes_of(terms, hi=1 << 21):
    """lengths at and around which the terms change their behaviour"""
    return sorted({n + d for n in harvest(terms, hi=hi) for d in (-1, 0, 1)})


def deref0(s):
    a = s.args[0]
    if a.op == "ref":
        try:
            return s.I.deep(s.S, a)
        except Exception:
            return None
    return a


# ------------------------------------------------------------------ BinaryFuseP32
def pkeys(R, n):
    ks = []
    while len(ks) < n:
        k = tuple(R.choice((R.getrandbits(64), R.getrandbits(2), R.choice((0, M64)), pooled(R, 64))) for _ in range(4))
        if ks and R.randrange(3) == 0:
            j = R.randrange(4)
            b = list(R.choice(ks))
            b[j] ^= 1 << R.randrange(64)
            k = tuple(b)
        if k not in ks:
            ks.append(k)
    return tuple(ks)


def pscen(seed, tier):
    R = rng(seed, "bfusep")
    n = R.choice((0, 1, 2, 3, 4, 6, 9, 14, 20)) if tier == "quick" else R.choice((0, 1, 2, 3, 4, 6, 9, 14, 20, 33, 48))
    keys = pkeys(R, n)
    p = 1 << R.choice((8, 9, 10, 10, 12, 16, 20, 24, 30, 31))
    data = tuple(R.choice((R.randrange(p), p - 1, 0, R.getrandbits(32), 0xffffffff)) for _ in keys)
    label = R.choice((0, 1, 2, 3, R.getrandbits(8), R.getrandbits(64), M64))
    fs = tuple(R.getrandbits(8) for _ in range(32))
    return R, keys, p, data, label, fs


def pbuild(c, seed, key, sc, bad=0, style=""):
    R, keys, p, data, label, fs = sc
    h = Hash(seed, keys, bad, style)
    E = env(seed, {"a0": fs, "a1": keys, "a2": data, "a3": label, "a4": p}, h)
    return unpack(E.ev(fsum(key).ret), PL), h


def fget(v, name):
    return v[3][fidx(PL, name, REL)]


def compose_p(c, key, seed):
    sc = pscen(seed, c.tier)
    R, keys, p, data, label, fs = sc
    v, h = pbuild(c, seed, key, sc)
    if v is None:
        return "skip"
    ret = fsum(PL + "::retrieve")
    for k, d in zip(keys, data):
        try:
            r = env(seed, struct_syms(v, a1=k, a2=label), h).ev(ret.ret)
        except ev.Partial:
            return f"retrieval of a stored key leaves the table (n={len(keys)}, p={p})"
        if r != d % p:
            return f"retrieve gives {r}, stored {d} mod {p} (n={len(keys)}, label={label})"
    return None


def compose_parts(c, key, seed):
    """the way the PIR client and server use the filter: reduced fingerprints,
    probe positions and key mask"""
    sc = pscen(seed, c.tier)
    R, keys, p, data, label, fs = sc
    v, h = pbuild(c, seed, key, sc)
    if v is None:
        return "skip"
    fm, he, kf = fsum(PL + "::get_fingerprints_mod"), fsum(PL + "::hash_eval"), fsum(PL + "::get_key_fingerprint")
    col = env(seed, struct_syms(v), h).ev(fm.ret)
    if len(col) != len(fget(v, "fingerprints")):
        return f"{len(col)} reduced fingerprints for {len(fget(v, 'fingerprints'))} stored"
    if any(x >= p for x in col):
        return f"reduced fingerprint {max(col)} is not below the modulus {p}"
    for k, d in zip(keys, data):
        pos = env(seed, {"a0": k, "a1": fs, "a2": fget(v, "segment_length"), "a3": fget(v, "segment_length_mask"), "a4": fget(v, "segment_count_length")}, h).ev(he.ret)
        f = env(seed, {"a0": k, "a1": fs, "a2": label}, h).ev(kf.ret)
        if any(x >= len(col) for x in pos):
            return f"probe position {max(pos)} outside the {len(col)} slots"
        r = (sum(col[x] for x in pos) + f) % p
        if r != d % p:
            return f"reduced fingerprints at the probe positions plus key mask give {r}, stored {d} mod {p} (n={len(keys)})"
    return None


def P14(c):
    """exact key-value storage: retrieve(from_slice(keys, data)) is the data modulo p, directly and through get_fingerprints_mod / hash_eval / get_key_fingerprint as the PIR protocol uses it; value graphs of construction and lookup composed, hash function an uninterpreted leaf"""
    key = PL + "::from_slice"
    jobs = 3 if c.tier == "quick" else 8
    n = 12 if c.tier == "quick" else 60

    def part(j, f, name, rule):
        def go():
            c.sampled(name, key, rule, lambda s: f(c, key, s * 31 + j), n)
        return lambda: c.guard(name, key, go)
    js = []
    for j in range(jobs):
        js.append(part(j, compose_p, "construction then retrieval", "retrieve(from_slice(seed, keys, data, label, p), key_i, label) = data_i mod p"))
        js.append(part(j, compose_parts, "construction then positional recovery", "sum of reduced fingerprints at hash_eval(key_i) + get_key_fingerprint(key_i, label) = data_i (mod p)"))

    def rest():
        vkey = PL + "::from_vec"

        def vec():
            s = fsum(vkey, abstract(key))
            if s.ret.op == "app" and s.ret.a[1:] and list(s.ret.a[1:]) == list(fsum_args(s)):
                c.rec("from_vec is from_slice", vkey, "delegates with the same arguments", "proved", "same arguments in the same order")
            elif s.ret.op == "app" and len(s.ret.a) == 6 and s.ret.a[0] in {e["path"] for e in s.events if e["kind"] == "abs"}:
                args = s.ret.a[1:]
                sizes = sizes_of(args)

                def passed(sd):
                    R, keys, p, data, label, fs = pscen(sd, "quick")
                    n = R.choice(sizes) if sizes and R.randrange(2) else None
                    if n:
                        keys = tuple((i, i * i, 7, i ^ 5) for i in range(n))
                        data = tuple(range(n))
                    E = env(sd, {"a0": fs, "a1": keys, "a2": data, "a3": label, "a4": p}, None)
                    g = [E.ev(x) for x in args]
                    if (g[0], g[3], g[4]) != (fs, label, p):
                        return f"seed, label or modulus are changed: {short((g[0], g[3], g[4]))} for {short((fs, label, p))}"
                    if len(g[1]) != len(g[2]) or dict(zip(g[1], g[2])) != dict(zip(keys, data)):
                        return f"the {len(keys)} key-value pairs are not those handed to the construction ({len(g[1])} keys, {len(g[2])} values)"
                c.sampled("from_vec is from_slice", vkey, "the pairs, seed, label and modulus are handed to from_slice unchanged", passed, 24)
            else:
                c.sampled("from_vec is from_slice", vkey, "retrieve(from_vec(..), key_i) = data_i mod p", lambda sd: compose_p(c, vkey, sd), 8)
        c.guard("from_vec is from_slice", vkey, vec)

        def mism():
            for kk in (key, vkey):
                s = fsum(kk)

                def one(sd, s=s):
                    R, keys, p, data, label, fs = pscen(sd, "quick")
                    d2 = data[:-1] if R.randrange(2) and data else data + (5,) * R.randrange(1, 3)
                    v = env(sd, {"a0": fs, "a1": keys, "a2": d2, "a3": label, "a4": p}, Hash(sd, keys, 0, "")).ev(s.ret)
                    return None if v[2] == 1 else f"{len(keys)} keys with {len(d2)} values are accepted"
                c.sampled("one value per key", kk, "a number of values different from the number of keys is an error", one, 20)
        c.guard("one value per key", key, mism)

        def keeps():
            def one(sd):
                sc = pscen(sd, "quick")
                R, keys, p, data, label, fs = sc
                v, h = pbuild(c, sd, key, sc)
                if v is None:
                    return "skip"
                if fget(v, "seed") != fs:
                    return "the filter does not keep the seed it was built with"
                if fget(v, "ptxt_mod") != p:
                    return "the filter does not keep its modulus"
                return None
            c.sampled("seed and modulus kept", key, "the filter records the caller's seed and modulus", one, 12)
            k = f"<{PL} as xorf::Filter<u64>>::len"
            s = fsum(k)

            def ln(seed):
                v, h = pbuild(c, seed, key, pscen(seed, "quick"))
                if v is None:
                    return "skip"
                r = env(seed, struct_syms(v), None).ev(s.ret)
                return None if r == len(fget(v, "fingerprints")) else f"len is {r}"
            c.sampled("len is the number of fingerprints", k, "Filter::len counts the stored fingerprints", ln, 8)
        c.guard("seed and modulus kept", key, keeps)
    c.parallel([rest] + js)


def fsum_args(s):
    return [s.I.deep(s.S, a) if a.op == "ref" else a for a in s.args]


# ------------------------------------------------------------------ probe positions
def p2geom(R):
    """a geometry the constructors produce: power-of-two segments, count >= 1"""
    sl = 1 << R.choice((2, 2, 3, 4, 5, 8, 12, 18))
    cnt = R.choice((1, 1, 2, 3, 5, 17, R.randrange(1, 400)))
    if sl * (cnt + 2) >= 1 << 31:
        cnt = 1
    return sl, sl - 1, sl * cnt


def edge64(R):
    return R.choice((R.getrandbits(64), R.getrandbits(64), 0, M64, M64 - R.getrandbits(4), R.getrandbits(18), (1 << R.randrange(64)), M64 ^ (1 << R.randrange(64))))


def P16(c):
    """probe positions: for every hash value and every geometry a constructor can produce, the three positions lie in the table, in three different segments; the constructors' geometry is consistent with the table they allocate"""
    he = PL + "::hash_eval"

    def pos():
        s = fsum(he)

        def one(seed):
            R = rng(seed, "pos")
            sl, mk_, scl = p2geom(R)
            h = edge64(R)
            E = env(seed, {"a0": (1, 2, 3, 4), "a1": (0,) * 32, "a2": sl, "a3": mk_, "a4": scl}, lambda E, xs, t: h)
            v = E.ev(s.ret)
            if len(v) != 3:
                return f"{len(v)} probe positions"
            seg = [x // sl for x in v]
            if any(x >= scl + 2 * sl for x in v):
                return f"position {max(v)} outside the table of {scl + 2 * sl} slots (hash {h:#x}, segment length {sl})"
            if len(set(seg)) != 3:
                return f"positions {v} share a segment of length {sl} (hash {h:#x})"
            return None
        c.sampled("positions in three segments of the table", he, "hash_eval yields three in-range positions in distinct segments", one, 300 if c.tier == "quick" else 4000)
    c.guard("positions in three segments of the table", he, pos)

    def bounds(f, kind):
        q = f"<xorf::{f[0]}::{f[1]} as xorf::Filter<u64>>::contains" if kind != "P" else PL + "::retrieve"
        ty = f"xorf::{f[0]}::{f[1]}" if kind != "P" else PL

        def go():
            s = fsum(q)

            def mkenv(seed):
                R = rng(seed, "b", ty)
                h = edge64(R)
                if kind in ("Bin", "P"):
                    sl, mk_, scl = p2geom(R)
                    while scl + 2 * sl > 6000:
                        sl, mk_, scl = p2geom(R)
                    g = {"segment_length": sl, "segment_length_mask": mk_, "segment_count_length": scl}
                    n = scl + 2 * sl
                elif kind == "Xor":
                    b = R.choice((10, 11, 12, 30, 100, 1000))
                    g, n = {"block_length": b}, 3 * b
                else:
                    b = R.choice((1, 2, 3, 7, 40))
                    g, n = {"segment_length": b}, 102 * b
                vals = []
                for x in fields_of(ty, REL):
                    nm = x["name"]
                    vals.append(g.get(nm, tuple(R.getrandbits(8) for _ in range(n)) if nm == "fingerprints" else 1024 if nm == "ptxt_mod" else (0,) * 32 if kind == "P" and nm == "seed" else 7))
                v = ("agg", ty, 0, tuple(vals))
                return env(seed, struct_syms(v, a1=(1, 2, 3, 4) if kind == "P" else 99, a2=1), lambda E, xs, t: h)
            c.no_traps("lookups stay in the table", q, s, mkenv, "no index of the lookup leaves a table of the constructed size, for any hash", 150 if c.tier == "quick" else 2000)
        c.guard("lookups stay in the table", q, go)

    def geom(f, kind):
        key = ckey(f, SL) if kind != "P" else PL + "::from_slice"
        ty = f"xorf::{f[0]}::{f[1]}" if kind != "P" else PL

        def go():
            s = fsum(key)
            t = s.ret
            okt = TT if kind == "Xor" else None
            st = t if kind == "Xor" else ok_struct(t, ty)
            if st is None:
                raise Undecided("constructed value not found")
            fi = {x["name"]: i for i, x in enumerate(fields_of(ty, REL))}

            def fld_(n):
                return fld(st, 0, fi[n], field_w2(ty, fi[n]))
            lenf = slen(fld_("fingerprints"))
            keyarg = "a0" if kind != "P" else "a1"

            def one(seed):
                R = rng(seed, "geom", ty)
                n = R.choice((0, 1, 2, 3, 5, R.randrange(300), R.randrange(5000), R.randrange(300000), 10 ** R.randrange(7) + R.randrange(3), 10 ** 6 + R.randrange(10 ** 7)))
                E = env(seed, {}, Hash(seed, (), 0, ""))
                E.syms[keyarg] = Huge(n)
                E.syms["a2"] = Huge(n)
                E.syms["a4"] = 1024
                if kind in ("Bin", "P"):
                    sl, mk_, scl, L = (E.ev(x) for x in (fld_("segment_length"), fld_("segment_length_mask"), fld_("segment_count_length"), lenf))
                    if sl & (sl - 1) or sl == 0:
                        return f"segment length {sl} is not a power of two (n={n})"
                    if mk_ != sl - 1:
                        return f"mask {mk_} for segment length {sl} (n={n})"
                    if scl == 0 or scl % sl:
                        return f"segment count length {scl} for segment length {sl} (n={n})"
                    if L != scl + 2 * sl:
                        return f"{L} slots for segment count length {scl}, segment length {sl} (n={n})"
                elif kind == "Xor":
                    b, L = E.ev(fld_("block_length")), E.ev(lenf)
                    if L != 3 * b or b == 0:
                        return f"{L} slots for block length {b} (n={n})"
                else:
                    b, L = E.ev(fld_("segment_length")), E.ev(lenf)
                    if b == 0:
                        return "skip"
                    if L < 102 * b:
                        return f"{L} slots for segment length {b} (n={n})"
                return None
            c.sampled("geometry fits the table", key, "segment sizes are consistent with the allocated table, for any number of keys", one, 80 if c.tier == "quick" else 1000)
        c.guard("geometry fits the table", key, go)
    jobs = []
    for f in FAMS:
        k = kindof(f)
        jobs.append(lambda f=f, k=k: (bounds(f, k), geom(f, k)))
    P = ("bfusep32", "BinaryFuseP32", "", "")
    jobs.append(lambda: (bounds(P, "P"), geom(P, "P")))
    c.parallel(jobs)


class Huge(tuple):
    """a key sequence of which only the length is interpreted"""
    def __new__(cls, n):
        o = tuple.__new__(cls, ())
        o.n = n
        return o

    def __len__(self):
        return self.n

    def __bool__(self):
        return False

    def __getitem__(self, i):
        raise ev.Opaque("element of an abstract key sequence")


def field_w2(ty, i):
    t, tys = prog(REL).adt[ty]
    return vg.width_of(tys, t["variants"][0]["fields"][i]["ty"])


def ok_struct(t, ty):
    """the struct inside the Ok alternatives of a Result term"""
    found = []
    seen = set()

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "agg" and x.a[0] == ty:
            found.append(x)
            return
        if x.op == "agg" and x.a[0].endswith("Result") and x.a[1] == 1:
            return
        if x.op in ("ite", "agg"):
            for k in TM._kids(x.a if x.op == "agg" else x.a[1:]):
                walk(k)
    walk(t)
    return found[0] if len(found) == 1 else None


# ------------------------------------------------------------------ retries
def retry_once(c, key, f, seed):
    """None | 'skip' | witness: after `bad` unusable hash functions the filter built
    with the next one is complete, and giving up takes more than one attempt"""
    R = rng(seed, "retry", f[1])
    kind = kindof(f)
    full = kind == "Bin" and R.randrange(2) == 0      # a slot counter overflows
    n = 66 + R.randrange(24) if full else R.choice((2, 3, 5, 9, 12))
    bad = R.choice((1, 1, 2, 3))
    cc = 102 * R.choice((3, 4, 6)) + R.randrange(102)
    if kind == "Fuse" and n < 5:
        n = 9
    style = R.choice(("", "spill") if full else ("", "dup")) if kind == "Bin" else ""
    keys = mkeys(R, n)
    h = Hash(seed, keys, bad, style)
    E = env(seed, {"a0": keys}, h, (lambda E, xs, t: cc) if kind == "Fuse" else None)
    try:
        v = unpack(E.ev(fsum(key).ret), f[1])
    except ev.Big:
        # no attempt needs to hash a key more than a few times
        if 0 < len(h.seeds) <= bad:
            g = Hash(seed, keys, 0, style)
            env(seed, {"a0": keys}, g, (lambda E, xs, t: cc) if kind == "Fuse" else None).ev(fsum(key).ret)
            if len(g.asked) == 1 and max(h.asked) > 20 * g.asked[0]:
                return f"{f[1]}: construction of {n} keys does not get past attempt {len(h.seeds)}, whose hash function is unusable (the work of {h.asked[-1] // g.asked[0]} attempts is spent on it)"
        raise
    if len(h.seeds) == 0:
        return "skip"
    if v is None:
        return f"{f[1]}: construction of {n} keys gives up after {len(h.seeds)} attempt(s), the last with a usable hash function" if len(h.seeds) <= bad + 1 else "skip"
    q = fsum(f"<xorf::{f[0]}::{f[1]} as xorf::Filter<u64>>::contains")
    for i, k in enumerate(keys):
        try:
            r = env(seed, struct_syms(v, a1=k), h).ev(q.ret)
        except ev.Partial:
            return f"lookup of key {i} of {n} leaves the table after {bad} failed attempts ({f[1]})"
        if r is not True:
            return f"{f[1]}: key {i} of {n} is lost when {bad} construction attempt(s) failed before"
    return None


def P20(c):
    """retry discipline: a failed construction attempt leaves no trace in the next one (value graphs of construction under hash functions whose first evaluations cannot be peeled or overflow a slot counter), the seed recorded in the filter is the one its table was built with, one failure is not final, and the keyword database draws a new seed per attempt"""
    def go(f):
        key = ckey(f, SL)

        def a():
            c.sampled("a failed attempt leaves no trace", key, "contains(construct(keys), k) holds after any number of failed attempts; a usable hash function within the attempts gives a filter",
                      lambda s: retry_once(c, key, f, s), 10 if c.tier == "quick" else 100)
        c.guard("a failed attempt leaves no trace", key, a)
    js = [lambda f=f: go(f) for f in sorted(FAMS, key=lambda f: not f[1].startswith("Xor"))]

    def pl():
        key = PL + "::from_slice"

        def b():
            def one(seed):
                R, keys, p, data, label, fs = pscen(seed, "quick")
                R = rng(seed, "plbad")
                n = R.choice((2, 3, 9, 70))
                keys = pkeys(R, n)
                data = tuple(R.randrange(p) for _ in keys)
                sc = (R, keys, p, data, label, fs)
                v, h = pbuild(c, seed, key, sc, bad=1)
                if v is None:
                    return None
                ret = fsum(PL + "::retrieve")
                for k, d in zip(keys, data):
                    if env(seed, struct_syms(v, a1=k, a2=label), h).ev(ret.ret) != d % p:
                        return f"a filter is returned for {n} keys that share their slots, and loses data"
                return None
            c.sampled("an unusable seed is an error", key, "from_slice never returns a filter that loses data", one, 10 if c.tier == "quick" else 100)
        c.guard("an unusable seed is an error", key, b)
    import kv
    c.parallel([pl, lambda: kv.own_seeds(c)] + js)
