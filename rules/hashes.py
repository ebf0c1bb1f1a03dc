"""Key hashing (P19) and the hash proxy (P24)."""
from core import *
import ev
from data import rng, okv, b64_hooks, b64
from filters import MIXP, MIX256P, PL, REL, M64
import terms as TM

SHA = K + "utils::format::sha256_into_u64_sized"
KVP = K + "db::kv::KeyValue"
MM = X + "murmur3::mix64"
FPR = K + "db::kv::FilterParams"


# ------------------------------------------------------------------ digests
def digest_hooks(E):
    """an incremental digest as a function of the concatenated input; the value
    depends on the algorithm named by the type"""
    def upd(E, xs, t):
        st, bs = xs[0], xs[-1]
        return ("dg", st[1], st[2] + tuple(bs))

    def new(E, xs, t):
        return ("dg", str(xs[0]), ())

    def fin(E, xs, t):
        h, n = ev.h64(1, "digest", xs[0][1], xs[0][2]), 32
        d = [ev.h64(2, h, i) & 0xff for i in range(n)]
        if h % 3 == 0:         # words at the ends of their range
            j = 8 * (h // 3 % 4)
            d[j:j + 8] = ([0xff] * 8, [0] * 8, [d[j] | 0xf0] + [0xff] * 7)[h // 12 % 3]
        return tuple(d)
    E.hooks["digest_new"], E.hooks["digest_update"], E.hooks["digest_final"] = new, upd, fin
    return E


def algs(t):
    out, seen, st = [], set(), [t]
    while st:
        for x in TM.subterms(st.pop()):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "app" and x.a[0] == "digest_new":
                out.append(str(x.a[1]))
            elif x.op in ("loopn", "loopval"):
                def push(v):
                    if isinstance(v, TM.T):
                        st.append(v)
                    elif isinstance(v, dict):
                        for w in v.values():
                            push(w)
                    elif isinstance(v, (tuple, list)):
                        for w in v:
                            push(w)
                push(TM.LOOPSYS.get(x.a[0]))
    return out


def text(R):
    return tuple(R.choice((R.getrandbits(8), 0, 0xff, 0x20)) for _ in range(R.choice((0, 1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 64, 65))))


# stretches of text a key may contain
BITS = ("a", "b", "c", "z", "A", "Z", "K", "0", "1", "9", " ", "\t", "\n", "\0", "~", "-", "_", "/", "+", "=", ".", "\u00e9", "\u00c9", "\u20ac", "\u4e2d", "\U0001f511", "e\u0301")


def keytext(R, n=None):
    """a key string of up to n characters (blanks, upper case, non-ASCII text, both ends)"""
    k = R.choice((0, 1, 2, 3, 8, 17, 40)) if n is None else n
    m = R.randrange(3)
    s = "".join(R.choice(BITS if m == 1 else BITS[:16] if m == 2 else BITS[:10]) for _ in range(k))
    return s if m else s.lower()


def sha_words(E, bs):
    d = E.hooks["digest_final"](E, (("dg", ALG[0], tuple(bs)),), None)
    return tuple(int.from_bytes(bytes(d[8 * i:8 * i + 8]), "little") for i in range(4))


ALG = [None]


def P19(c):
    """key hashing"""
    def sha():
        s = summary(SHA)
        al = sorted(set(algs(s.ret)))
        c.analysed.add(SHA)
        if not al:
            return c.rec("the digest is SHA-256", SHA, "the digest object's type", "undecided", "no digest in the value graph")
        bad = [a for a in al if "OidSha256" not in a and not a.endswith("Sha256")]
        c.rec("the digest is SHA-256", SHA, "the digest object's type", "VIOLATED" if bad else "proved", "; ".join(bad)[:300])
        ALG[0] = al[0]

        def one(seed, n=None):
            R = rng(seed, "sha")
            bs = text(R) if n is None else tuple(R.getrandbits(8) for _ in range(n))
            E = digest_hooks(ev.Env(seed, {"a0": bs}))
            v = E.ev(s.ret)
            if v[2] == 1:
                return f"refuses a key of {len(bs)} bytes"
            want = sha_words(E, bs)
            if v[3][0] != want:
                return f"{short(bs)} maps to {short(v[3][0])}, the digest words are {short(want)}"
        c.sized("the key is the four words of the digest of the whole input", SHA, "every input byte enters one digest, all 32 digest bytes leave it, in order", [s.ret], lambda n: one(c.seed, n), 1 << 20, True)
        c.sampled("the key is the four words of the digest of the whole input", SHA, "every input byte enters one digest, all 32 digest bytes leave it, in order", one)
    c.guard("the digest is SHA-256", SHA, sha)

    def same():
        s, t = summary(KVP + "::from_base64_strings"), summary(SHA)

        def one(seed, n=None):
            R = rng(seed, "kvsha")
            k = keytext(R, n)
            p = R.choice((8, 10, 16))
            es = R.choice((8, 16, 40))
            E = digest_hooks(b64_hooks(ev.Env(seed, {"a0": ("str", k), "a1": b64(tuple(R.getrandbits(8) for _ in range(-(-es // 8)))), "a2": es, "a3": p})))
            v = E.ev(s.ret)
            if v[2] == 1:
                return "skip"
            got = v[3][0][3][[f["name"] for f in fields_of(KVP)].index("key")]
            F = digest_hooks(ev.Env(seed, {}))
            F.syms["a0"] = ("str", k)
            w = F.ev(t.ret)
            if w[2] == 1:
                return "skip"
            if got != w[3][0]:
                return f"key {k!r} is stored as {short(got)}, hashed by the client as {short(w[3][0])}"
        c.sized("the database hashes keys as the client does", KVP + "::from_base64_strings", "key = sha256_into_u64_sized(bytes of the string)", [s.ret, t.ret], lambda n: one(c.seed, n), 1 << 17)
        c.sampled("the database hashes keys as the client does", KVP + "::from_base64_strings", "key = sha256_into_u64_sized(bytes of the string)", one)
    c.guard("the database hashes keys as the client does", KVP + "::from_base64_strings", same)

    mixing(c)


# ------------------------------------------------------------------ mixing
def ev1(s, syms, seed=0):
    E = ev.Env(seed, syms)
    E.budget = [10 ** 6]
    return E.ev(s.ret)


def flips(R, xs, bits):
    """xs with single bits flipped, one at a time"""
    for i in range(len(xs)):
        for b in bits:
            yield i, b, xs[:i] + (xs[i] ^ (1 << b),) + xs[i + 1:]


def word(R):
    return R.choice((R.getrandbits(64), R.getrandbits(64), R.getrandbits(8), 0, 1, M64, 1 << 63))


def collide(f, name):
    """f injective on the pairs tried (64-bit values): None or a witness"""
    def one(seed):
        R = rng(seed, name)
        ref, others = f(R)
        h = {}
        for what, x, v in [("", ref[0], ref[1])] + others:
            if v in h and h[v][1] != x:
                return f"collision: {what} {short(x)} and {short(h[v][1])} both give {v:#x}"
            h.setdefault(v, (what, x))
    return one


def bijective(t, v):
    """structural proof that the 64-bit term is a permutation in the symbol v for
    every value of the other symbols: v itself, odd multiples plus terms without
    v, x ^ (x >> k), x ^ terms without v"""
    if t is v:
        return True
    free = lambda x: all(y is not v for y in TM.subterms(x))
    if t.op == "poly" and t.w == 64:
        dep = [(m, k) for m, k in t.a[0] if any(not free(x) for x in m)]
        return len(dep) == 1 and len(dep[0][0]) == 1 and dep[0][1] % 2 == 1 and bijective(dep[0][0][0], v)
    if t.op == "xor" and t.w == 64:
        dep = [x for x in t.a[0] if isinstance(x, TM.T) and not free(x)]
        if len(dep) == 1:
            return bijective(dep[0], v)
        for x, y in (dep, dep[::-1]) if len(dep) == 2 else ():
            if y.op == "div" and y.a[0] is x and isinstance(y.a[1], TM.T) and y.a[1].op == "c" and y.a[1].a[0] >= 2 and y.a[1].a[0] & (y.a[1].a[0] - 1) == 0:
                return bijective(x, v)
    return False


def sym_of(t, name):
    return next((x for x in TM.subterms(t) if x.op == "sym" and x.a[0] == name), None)


def one_to_one(c, name, where, rule, s, v, fn):
    v = sym_of(s.ret, v)
    if v is not None and bijective(s.ret, v):
        return c.rec(name, where, rule, "proved", "composition of odd multiples, xor-shifts and offsets: a permutation of the 64-bit words")
    c.sampled(name, where, rule, fn)


def mixing(c):
    # one word
    def m64():
        s = summary(MM, config=REL)

        def f(R):
            x = word(R)
            g = lambda y: ev1(s, {"a0": y})
            ys = [x ^ (1 << b) for b in range(64)] + [(x + (1 << b)) & M64 for b in range(0, 64, 7)] + [x ^ ((1 << 33) | 1) ^ 0, x ^ (1 << 33) ^ (1 << 5), word(R)]
            return (x, g(x)), [("word", y, g(y)) for y in ys]
        one_to_one(c, "the finaliser is one-to-one", MM, "no two inputs share an output", s, "a0", collide(f, "m64"))
    c.guard("the finaliser is one-to-one", MM, m64)

    def mx():
        s = summary(MIXP, ovr={}, tag="mix")

        def f(R):
            x, l = word(R), word(R)
            g = lambda y, l: ev1(s, {"a0": y, "a1": l})
            return (x, g(x, l)), [("hash", x ^ (1 << b), g(x ^ (1 << b), l)) for b in range(64)] + [("hash", y, g(y, l)) for y in (word(R), word(R))]

        def fl(R):
            x, l = word(R), word(R)
            g = lambda y, l: ev1(s, {"a0": y, "a1": l})
            return (l, g(x, l)), [("label", l ^ (1 << b), g(x, l ^ (1 << b))) for b in range(64)] + [("label", y, g(x, y)) for y in range(20)]

        def sep(seed):
            R = rng(seed, "sep")
            x, y, l, k = (R.getrandbits(64) for _ in range(4))
            k = R.choice((k, (l + 1) & M64))
            if x == y or k == l:
                return "skip"
            g = lambda y, l: ev1(s, {"a0": y, "a1": l})
            a, b, d, e = g(x, l), g(x, k), g(y, l), g(y, k)
            if a ^ b == d ^ e or (a - b) & M64 == (d - e) & M64:
                return f"the change from label {l:#x} to {k:#x} is the same for the keys {x:#x} and {y:#x}"
        one_to_one(c, "the label-mixing is one-to-one in the key hash", MIXP, "no two hashes share a fingerprint source under one label", s, "a0", collide(f, "mx"))
        one_to_one(c, "different labels give different fingerprints", MIXP, "no two labels share a value for one hash", s, "a1", collide(fl, "mxl"))
        c.sampled("fingerprints of different labels are unrelated", MIXP, "the difference between two labels depends on the key", sep)
    c.guard("the label-mixing is one-to-one in the key hash", MIXP, mx)

    def m256():
        s = summary(MIX256P, ovr={}, tag="mix")

        def base(R):
            key = tuple(R.choice((word(R), R.getrandbits(64))) for _ in range(4))
            seed = tuple(R.choice((R.getrandbits(8), R.getrandbits(8), 0, 255)) for _ in range(32))
            return key, seed
        g = lambda k, sd: ev1(s, {"a0": k, "a1": sd})

        def f(R):
            key, sd = base(R)
            out = []
            for i, b, k in flips(R, key, sorted(R.sample(range(64), 6) + [0, 63])):
                out.append((f"word {i} bit {b}", k, g(k, sd)))
            a, b2, d, e = key
            x = R.getrandbits(64)
            alt = [(b2, a, d, e), (a, d, b2, e), (a, b2, e, d), (d, b2, a, e), (e, d, b2, a), (b2, d, e, a),
                   (a ^ x, b2 ^ x, d, e), (a, b2 ^ x, d ^ x, e), (a, b2, d ^ x, e ^ x), (a ^ x, b2, d, e ^ x),
                   ((a + x) & M64, (b2 - x) & M64, d, e), (a, b2, (d + x) & M64, (e - x) & M64), ((a + x) & M64, b2, (d - x) & M64, e),
                   (x, x, d, e), (a, x, x, e), (a, b2, x, x), (x, b2, d, x), (x, x, x, x), (0, 0, 0, 0), (a, a, a, a), (e, e, e, e)]
            y = R.getrandbits(64)
            alt += [(y, y, d, e), (a, y, y, e), (a, b2, y, y), (y, b2, d, y), (y, y, y, y)]
            out += [("key", k, g(k, sd)) for k in alt]
            return (key, g(key, sd)), out

        def fs(R):
            key, sd = base(R)
            out = [(f"seed byte {i} bit {b}", x, g(key, x)) for i, b, x in flips(R, sd, (R.randrange(8),))]
            w = [sd[8 * i:8 * i + 8] for i in range(4)]
            for p in ((1, 0, 2, 3), (0, 2, 1, 3), (0, 1, 3, 2), (3, 1, 2, 0)):
                x = tuple(y for j in p for y in w[j])
                out.append(("seed words permuted", x, g(key, x)))
            return (sd, g(key, sd)), out
        c.sampled("every bit of the key, in its place, reaches the hash", MIX256P, "keys differing in a bit, in word order, or by related changes of two words do not collide", collide(f, "m256"), max(20, c.tries // 2))
        c.sampled("every byte of the seed reaches the hash", MIX256P, "seeds differing in a bit or in word order give different hashes", collide(fs, "m256s"), max(20, c.tries // 2))
    c.guard("every bit of the key, in its place, reaches the hash", MIX256P, m256)

    # the public entry points pass key, seed and label through whole
    def passes(name, key, mk, parts):
        s = summary(key, config=REL if key.startswith("xorf") else "dev", ovr={}, tag="mix")

        def one(seed):
            R = rng(seed, name)
            v = mk(R)
            a = ev1(s, v())
            for p in parts:
                # some change to this part must show in one of a few draws
                if not any(ev1(s, v(p, R)) != a for _ in range(3)):
                    return f"changing {p} never changes the result"
        c.sampled(f"{name} depends on the whole key, seed and label", key, "each key word, seed byte and the label reaches the result", one)

    def fp():
        def mk(R):
            key = tuple(R.getrandbits(64) for _ in range(4))
            sd = tuple(R.getrandbits(8) for _ in range(32))
            l = R.choice((R.getrandbits(64), R.randrange(10)))

            def v(p=None, R=None):
                k2, s2, l2 = list(key), list(sd), l
                if p == "label":
                    l2 = R.choice((l + 1, l ^ (1 << R.randrange(63)))) & M64
                elif p:
                    kind, i = p.split()
                    if kind == "key":
                        k2[int(i)] ^= 1 << R.randrange(64)
                    else:
                        s2[int(i)] ^= 1 << R.randrange(8)
                return {"a0": tuple(k2), "a1": tuple(s2), "a2": l2}
            return v
        passes("the fingerprint", PL + "::get_key_fingerprint", mk, ["label"] + [f"key {i}" for i in range(4)] + [f"seed {i}" for i in range(32)])
    c.guard("the fingerprint depends on the whole key, seed and label", PL + "::get_key_fingerprint", fp)

    def he():
        names = [f["name"] for f in fields_of(FPR)]

        def mk(R):
            key = tuple(R.getrandbits(64) for _ in range(4))
            sd = tuple(R.getrandbits(8) for _ in range(32))
            sl = 1 << R.randrange(14, 18)
            sc = R.randrange(3, 50)

            def v(p=None, R=None):
                k2, s2 = list(key), list(sd)
                if p:
                    kind, i = p.split()
                    if kind == "key":
                        k2[int(i)] ^= 1 << R.randrange(64)
                    else:
                        s2[int(i)] ^= 1 << R.randrange(8)
                d = {"a1": tuple(k2), "a0.seed": tuple(s2), "a0.segment_length": sl, "a0.segment_length_mask": sl - 1, "a0.segment_count_length": sl * sc}
                d["a0"] = ("agg", FPR, 0, tuple(d.get("a0." + n, 0) for n in names))
                return d
            return v
        passes("a probe position", FPR + "::get_hash_evals", mk, [f"key {i}" for i in range(4)] + [f"seed {i}" for i in range(32)])
    c.guard("a probe position depends on the whole key, seed and label", FPR + "::get_hash_evals", he)


# ------------------------------------------------------------------ proxy
def P24(c):
    HP = X + "hash_proxy::HashProxy"
    pre = f"<{HP}<T, H, F> as "
    froms = [pre + "core::convert::From<&[T]>>::from", pre + "core::convert::From<&alloc::vec::Vec<T>>>::from"]
    con, ln = pre + "xorf::Filter<T>>::contains", pre + "xorf::Filter<T>>::len"
    names = [f["name"] for f in fields_of(HP, REL)]

    def items(R):
        return tuple(R.choice((("item", R.randrange(5)), ("item", R.getrandbits(30)))) for _ in range(R.choice((0, 1, 2, 3, 6, 9))))

    def fin(seed, x):
        """a hash function of the valuation; an eighth of the items hash to an end of the range"""
        if isinstance(x, tuple) and x[0] == "hst" and isinstance(x[2], tuple) and x[2][0] == "item" and x[2][1] % 4 == 3:
            # hashes that agree with another item's but for the low bits
            y = fin(seed, x[:2] + (("item", x[2][1] - 1),) + x[3:])
            return y ^ 1 << x[2][1] // 4 % 9
        h = ev.h64(seed, "fin", x) & M64
        return (0, M64, 1, 1 << 63)[h // 8 % 4] if h % 8 == 0 else h

    def env(seed, syms):
        E = ev.Env(seed, syms)
        E.hooks["core::hash::Hash::hash#1"] = lambda E, xs, t: ("hst", xs[1], xs[0]) if not (isinstance(xs[1], tuple) and xs[1][:1] == ("hst",)) else ("hst", xs[1], xs[0])
        E.hooks["default"] = lambda E, xs, t: ("fresh", str(xs[0]))
        E.hooks["core::hash::Hasher::finish"] = lambda E, xs, t: fin(seed, xs[0])
        E.hooks["xorf::Filter::contains"] = lambda E, xs, t: xs[1] in xs[0]
        E.hooks["xorf::Filter::len"] = lambda E, xs, t: len(xs[0])
        return E

    def hv(seed, x):
        return fin(seed, ("hst", ("fresh", "H"), x))

    for f in froms:
        def go(f=f):
            s = summary(f, config=REL, ovr={}, tag="hp")
            i = names.index("filter")

            def one(seed):
                R = rng(seed, "hp")
                its = items(R)
                v = env(seed, {"a0": its}).ev(s.ret)
                got, want = v[3][i], tuple(hv(seed, x) for x in its)
                if set(got) != set(want):
                    return f"the inner filter is built from {short(got)}, the hashes of the items are {short(want)}"
                return None
            c.sampled("the inner filter holds the hash of every item", f, "inner keys = {finish(hash(item, H::default()))}", one)

            def large(n):
                its = tuple(("item", i) for i in range(n))
                got = env(n, {"a0": its}).ev(s.ret)[3][i]
                lost = {hv(n, x) for x in its} - set(got)
                if lost:
                    return f"{len(lost)} hashes of {n} items are missing from the inner filter"
            c.sized("the inner filter holds the hash of every item", f, "the same at every size the value graph distinguishes", [s.ret], large, hi=1 << 17)

            def comp(seed):
                R = rng(seed, "hp2")
                its = items(R)
                if not its:
                    return "skip"
                v = env(seed, {"a0": its}).ev(s.ret)
                syms = {"a0": v}
                for n, x in zip(names, v[3]):
                    syms["a0." + n] = x
                for x in set(its):
                    syms["a1"] = x
                    if not env(seed, dict(syms)).ev(summary(con, config=REL, ovr={}, tag="hp").ret):
                        return f"item {x} of {its} is not contained"
                syms["a1"] = ("item", -1)
                if hv(seed, syms["a1"]) not in {hv(seed, x) for x in its} and env(seed, dict(syms)).ev(summary(con, config=REL, ovr={}, tag="hp").ret):
                    return f"an item whose hash the inner filter does not hold is contained"
            c.sampled("every item is contained", f, "contains(from(items), item), composition of the value graphs", comp)
        c.guard("the inner filter holds the hash of every item", f, go)

    def lookup():
        s, t = summary(con, config=REL, ovr={}, tag="hp"), summary(ln, config=REL, ovr={}, tag="hp")

        def one(seed):
            R = rng(seed, "hp3")
            x = ("item", R.randrange(4))
            held = tuple(hv(seed, ("item", i)) for i in R.sample(range(4), R.randrange(4)))
            fs = tuple(held if n == "filter" else ("agg", "core::marker::PhantomData", 0, ()) for n in names)
            syms = {"a0": ("agg", HP, 0, fs), "a0.filter": held, "a1": x}
            E = env(seed, syms)
            if E.ev(s.ret) != (hv(seed, x) in held):
                return f"lookup of {x} disagrees with the inner filter holding {short(held)}"

        def size(seed):
            R = rng(seed, "hp4")
            held = tuple(range(R.randrange(6)))
            fs = tuple(held if n == "filter" else ("agg", "core::marker::PhantomData", 0, ()) for n in names)
            if env(seed, {"a0": ("agg", HP, 0, fs), "a0.filter": held}).ev(t.ret) != len(held):
                return f"length of a filter over {len(held)} fingerprints differs"
        c.sampled("a lookup asks the inner filter for the item's hash", con, "contains(x) = filter.contains(hash x)", one)
        c.sampled("the length is the inner filter's", ln, "len = filter.len()", size)
    c.guard("a lookup asks the inner filter for the item's hash", con, lookup)
