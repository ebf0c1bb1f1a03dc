"""Keyword database: columns, labels, seeds; end-to-end retrieval."""
from core import *
from client import QP, QI, QK, IP, KP, FP, KINDS, NEW, params_value, fparams, expand, some, NONE
from server import SH, DB, PAR, DM, RESP, db_value, shard_value
from hashes import keytext
from data import kv_env, filter_value, geometry, elem_bytes, b64, b64_hooks, BADB64, okv, errv, qp_syms, with_resp

KVP = K + "db::kv::KeyValue"
PL = X + "bfusep32::BinaryFuseP32"
KVD = K + "db::kv::KVDatabase"


def kvval(key, row):
    fs = {"key": tuple(key), "value": tuple(row)}
    return ("agg", KVP, 0, tuple(fs[n] for n in ("key", "value"))) if [f["name"] for f in fields_of(KVP)] == ["key", "value"] else \
        ("agg", KVP, 0, tuple(fs.get(f["name"], ()) for f in fields_of(KVP)))


def get(v, path, name):
    return v[3][fidx(path, name)]


class Attempts:
    """an interpretation of filter construction: the first `bad` seeds fail (on one
    column), later ones give a filter that depends on all the arguments"""

    def __init__(self, bad, col):
        self.bad, self.col, self.seeds, self.calls = bad, col, [], []

    def __call__(self, xs):
        seed, label = xs[0], xs[3]
        if seed not in self.seeds:
            self.seeds.append(seed)
        self.calls.append(xs)
        return self.seeds.index(seed) < self.bad and (self.col is None or label == self.col)


def want_db(at, kvs, w, p, seed):
    """the columns required for the keys and values, given the seed"""
    keys = tuple(k for k, r in kvs)
    cols, filt = [], []
    for i in range(w):
        kvs, keys = in_order(at, kvs, keys, seed, i)
        f = filter_value((seed, keys, tuple(r[i] for k, r in kvs), i, (1 << p)))
        filt.append(f)
        cols.append(tuple(x % (1 << p) for x in get(f, PL, "fingerprints")))
    return tuple(cols), filt[0]


def in_order(at, kvs, keys, seed, label):
    """the entries in the order in which a filter lists them: the order of the keys
    given to a filter is not observable, the pairing of keys and values is"""
    for c in at.calls:
        if c[0] == seed and c[3] == label and c[1] != keys and len(set(keys)) == len(keys) and sorted(c[1]) == sorted(keys):
            d = dict(kvs)
            return [(k, d[k]) for k in c[1]], c[1]
    return kvs, keys


def check_db(db, at, kvs, m, es, p, what, columns=True):
    w = -(-es // p)
    fp = get(db, KVD, "filter_params")
    sg = get(fp, FP, "seed")
    if at.seeds and sg != at.seeds[-1]:
        return f"{what}: the recorded seed is not the one the filters were built with"
    if len(at.seeds) and at.seeds.index(sg) < at.bad:
        return f"{what}: filters of a failed attempt are used"
    cols, f0 = want_db(at, kvs, w, p, sg)
    got = get(db, KVD, "entries")
    if not columns:
        got = cols
    if len(got) != w:
        return f"{what}: {len(got)} columns for {w} value entries"
    for i in range(w):
        if got[i] != cols[i]:
            x = [c for c in at.calls if c[0] == sg and c[3] == i]
            y = [c for c in at.calls if c[0] == sg]
            why = ""
            if not x:
                why = f" (no filter with label {i}: labels {[c[3] for c in y]})"
            elif sorted(x[0][1]) != sorted(k for k, r in kvs):
                why = " (keys differ)"
            elif x[0][1] == tuple(k for k, r in kvs) and x[0][2] != tuple(r[i] for k, r in kvs):
                why = f" (data is {short(x[0][2])}, the values' entries {i} are {short(tuple(r[i] for k, r in kvs))})"
            elif x[0][4] != 1 << p:
                why = f" (modulus {x[0][4]} for {p} plaintext bits)"
            return f"{what}: column {i} is not the reduced filter of the values' entries {i}{why}"
    for n in ("segment_length", "segment_length_mask", "segment_count_length"):
        if get(fp, FP, n) != get(f0, PL, n):
            return f"{what}: filter parameter {n} is {get(fp, FP, n)}, the filters have {get(f0, PL, n)}"
    for n, x in (("elem_size", es), ("plaintext_bits", p), ("m", m)):
        if get(db, KVD, n) != x:
            return f"{what}: {n} is {get(db, KVD, n)}, not {x}"
    return None


def xkey(R):
    """a hashed key; every other one has a boundary word"""
    k = [R.getrandbits(64) for _ in range(4)]
    if R.randrange(2):
        k[R.randrange(4)] = R.choice(((1 << 64) - 1 - R.randrange(4), R.randrange(4), 1 << 63, 0xffffffff, 1 << 32))
    return tuple(k)


def kv_input(seed):
    R = rng(seed, "kvdb")
    p, es, w = geometry(R)
    while w > 9:
        p, es, w = geometry(R)
    n = R.randrange(1, 5)
    if R.randrange(20) == 0:
        # more columns than a byte counts
        p, n = R.choice((1, 2, 3)), 1
        w = R.choice((257, 258, 300))
        es = w * p - R.randrange(p)
    kvs = [(xkey(R), tuple(R.getrandbits(p) for _ in range(w))) for _ in range(n)]
    bad = R.choice((0, 0, 1, 2, 3))
    col = R.choice((None, 0, w - 1, R.randrange(w)))
    m = R.choice((n, n, 1, 7))
    return R, p, es, w, kvs, m, Attempts(bad, col)


def run_db(s, syms, at, seed, proj=None):
    E = kv_env(ev.Env(seed, syms), fail=at)
    v = E.ev(s.ret)
    return v[3][0] if v[2] == 0 else None


def published(c, kk, strs, cols=True):
    """a constructor of a keyword database or shard: contents (cols) and published parameters"""
    def go():
        s = summary(kk)

        def one(seed):
            R, p, es, w, kvs, m, at = kv_input(seed)
            dim = R.randrange(1, 4)
            if not strs:
                syms = {"a0": tuple(kvval(*x) for x in kvs), "a1": dim, "a2": m, "a3": es, "a4": p}
            else:
                syms, kvs = string_input(R, seed, kvs, m, es, p)
                if kvs is None:
                    return "skip"
                if kk.startswith(SH["kv"]):
                    syms = {"a0": syms["a0"], "a1": syms["a1"], "a2": dim, "a3": m, "a4": es, "a5": p}
            E = kv_env(ev.Env(seed, syms), fail=at)
            E.budget = [200000]
            E.hooks.update(pub_hooks())
            v = E.ev(s.ret)
            if v[2] == 1:
                return f"no database after {len(at.seeds)} attempts, {at.bad} of them unusable" if cols and len(at.seeds) <= at.bad + 1 else "skip"
            v = v[3][0]
            if v[1] == KVD:
                return check_db(v, at, kvs, m, es, p, kk.split("::", 2)[-1], cols)
            db, bp = get(v, SH["kv"], "db"), get(v, SH["kv"], "base_params")
            r = check_db(db, at, kvs, m, es, p, kk.split("::", 2)[-1], cols)
            if r:
                return r
            for n, x in (("elem_size", es), ("plaintext_bits", p), ("dim", dim), ("m", len(get(db, KVD, "entries")[0]))):
                if get(bp, KP, n) != x:
                    return f"published parameter {n} is {get(bp, KP, n)}, not {x}"
            if get(bp, KP, "filter_params") != get(db, KVD, "filter_params"):
                return "the published filter parameters are not those of the database"
            return None
        c.sampled("constructed and published consistently", kk, "the database is that of the keys and values in order; the published parameters are the database's" if cols else "the published parameters are the caller's and the database's", one, c.tries)
    c.guard("constructed and published consistently", kk, go)


def P13(c):
    """every stored column is the filter of exactly that entry of every value, labelled with its position, over all the keys in order, under the one seed recorded in the filter parameters; shards publish the same parameters"""
    key = KVD + "::new"

    def direct():
        s = summary(key)

        def one(seed):
            R, p, es, w, kvs, m, at = kv_input(seed)
            db = run_db(s, {"a0": tuple(kvval(*x) for x in kvs), "a1": m, "a2": es, "a3": p}, at, seed)
            if db is None:
                return f"no database after {len(at.seeds)} attempts, {at.bad} of them unusable" if len(at.seeds) <= at.bad + 1 else "skip"
            return check_db(db, at, kvs, m, es, p, "KVDatabase::new")
        c.sampled("columns, labels, seed and geometry", key, "entries[i] = reduced filter of (seed, keys, values[..][i], label i, 2^plaintext_bits)", one, c.tries)
    c.guard("columns, labels, seed and geometry", key, direct)

    published(c, KVD + "::from_base64_strings", True)
    published(c, SH["kv"] + "::new", False)
    published(c, SH["kv"] + "::from_base64_strings", True)

    def accessor():
        for kk, path, f in ((KVD + "::get_filter_params", KVD, "filter_params"), (KP + "::get_filter_params", KP, "filter_params")):
            s = summary(kk)

            def one(sd, s=s, path=path, f=f):
                R = rng(sd, "acc")
                v = db_value("kv", R)[0] if path == KVD else params_value(R, KP, 2, 3, mat(R, 2, 2), 8, 4, (0,) * 32)
                return None if ev.Env(sd, expand({"a0": v})).ev(s.ret) == get(v, path, f) else f"not the stored {f}"
            c.sampled("filter parameters accessor", kk, "returns the stored filter parameters", one, 10)
    c.guard("filter parameters accessor", KVD, accessor)


def pub_hooks():
    return {}


def string_input(R, seed, kvs, m, es, p):
    """keys and values as strings; the pairs that parsing them one by one gives"""
    n = len(kvs)
    names = []
    while len(names) < n:
        x = ("str", R.choice(("k", "key", "a", "", "K")) + str(R.randrange(50)) if R.randrange(2) else keytext(R))
        if x not in names:
            names.append(x)
    vals = [b64(elem_bytes(R, es, p)) for _ in range(n)]
    one = summary(KVP + "::from_base64_strings")
    out = []
    for k, x in zip(names, vals):
        v = b64_hooks(ev.Env(seed, {"a0": k, "a1": x, "a2": es, "a3": p})).ev(one.ret)
        if v[2] == 1:
            return None, None
        out.append((get(v[3][0], KVP, "key"), get(v[3][0], KVP, "value")))
    return {"a0": tuple(names), "a1": tuple(vals), "a2": m, "a3": es, "a4": p}, out


# ------------------------------------------------------------------ seeds of attempts
def attempt_seeds(s, seed, salt, perturbed=None):
    """(seeds tried by construction, random leaves drawn) under one valuation of the leaves"""
    R, p, es, w, kvs, m, at = kv_input(seed)
    at = Attempts(3, None)
    E = ev.Env(seed, {"a0": tuple(kvval(*x) for x in kvs), "a1": m, "a2": es, "a3": p})
    leaves = {}

    def leaf(key, width):
        v = ev.h64("attempt", salt, repr(key), key == perturbed) & ((1 << width) - 1)
        if key == perturbed and v == ev.h64("attempt", salt, repr(key), False) & ((1 << width) - 1):
            v ^= 1
        leaves[key] = v
        return v
    E.freshfn = leaf
    v = kv_env(E, fail=at).ev(s.ret)
    return at.seeds, leaves, v[2] == 0


def own_seeds(c):
    """each construction attempt's filter seed is made of OS draws of its own"""
    key = KVD + "::new"

    def go():
        s = summary(key)

        def one(seed):
            seeds, leaves, ok = attempt_seeds(s, seed, seed)
            if not seeds or not leaves:
                return "skip"
            if not ok:
                return f"construction gives up after {len(seeds)} attempt(s)" if len(seeds) <= 3 else "skip"
            R = rng(seed, "leaf")
            for k in R.sample(sorted(leaves, key=repr), min(6, len(leaves))):
                got, _, _ = attempt_seeds(s, seed, seed, k)
                diff = [i for i, (a, b) in enumerate(zip(seeds, got)) if a != b]
                if len(diff) > 1:
                    return f"one random draw enters the seeds of attempts {', '.join(str(i + 1) for i in diff)}"
        c.sampled("every attempt draws its own filter seed", key, "a random leaf influences the seed of one attempt only", one, 12 if c.tier == "quick" else 80)
    c.guard("every attempt draws its own filter seed", key, go)


# ------------------------------------------------------------------ end to end
def fits(m, p):
    """the worst-case noise m * (2^p - 1) stays below half the rounding factor"""
    return m * ((1 << p) - 1) < 1 << (31 - p)


def serial_hooks(E):
    """bincode as an abstract lossless codec"""
    E.hooks["bincode::serialize"] = lambda E, xs, t: okv(("bin", xs[0]))
    return E


def bin_hook(E):
    import models
    for nm in ("bincode::serialize", "bincode::internal::serialize", "bincode::config::Options::serialize"):
        E.hooks[nm] = lambda E, xs, t: okv(("bin", xs[-1]))
    return E


def client_params(kind, bp, seed, E0):
    """CommonParams::from(&base_params), evaluated"""
    P = prog()
    b = [x for x in P.local_bodies() if "CommonParams as core::convert::From<&T>>::from" in x["key"] and "{closure" not in x["key"]]
    if len(b) != 1:
        raise Missing("<CommonParams as From<&params>>::from")
    s = summary(b[0], tag="e2e" + kind, selfty={K + "db::BaseParams": PAR[kind]})
    return E0(expand({"a0": bp})).ev(s.ret)


class E2E:
    def __init__(self, kind, seed):
        self.kind, self.seed = kind, seed

    def env(self, syms, salt=0):
        E = kv_env(ev.Env(self.seed, syms), fail=lambda xs: False)
        bin_hook(E)
        E.budget = [10 ** 6]
        if self.kind == "kv":
            E.hooks[FROM_SLICE] = self.real_filter
        return E

    def real_filter(self, E, xs, t):
        from filters import fsum, MIXP, MIX256P
        s = fsum(PL + "::from_slice")
        F = ev.Env(self.seed, dict(zip(("a0", "a1", "a2", "a3", "a4"), xs)))
        F.budget = [10 ** 6]
        mx, m2 = summary(MIXP, ovr={}, tag="mix"), summary(MIX256P, ovr={}, tag="mix")
        F.hooks[MIXP] = lambda E, ys, t: ev.Env(0, {"a0": ys[0], "a1": ys[1]}).ev(mx.ret)
        F.hooks[MIX256P] = lambda E, ys, t: ev.Env(0, {"a0": ys[0], "a1": ys[1]}).ev(m2.ret)
        return F.ev(s.ret)

    def run(self, shard, pick, arg, parse):
        """query `pick` of `shard` and decode the answer with `parse`"""
        kind = self.kind
        bp = get(shard, SH[kind], "base_params")
        cp = client_params(kind, bp, self.seed, self.env)
        qp = self.env(expand({"a0": cp, "a1": bp})).ev(summary(NEW[kind]).ret)
        if qp[2] == 1:
            return "query parameters: error"
        qp = qp[3][0]
        q = {"index": QI, "kv": QK}[kind]
        g = summary(q + "generate_query")
        query = self.env(expand({"a0": qp, "a1": pick})).ev(g.ret)
        if query[2] == 1:
            return "query generation: error"
        r = self.env(expand({"a0": shard, "a1": query[3][0]})).ev(summary(SH[kind] + "::respond").ret)
        if r[2] == 1:
            return "answer: error"
        resp = r[3][0]
        if not (isinstance(resp, tuple) and resp[:1] == ("bin",)):
            raise ev.Opaque("serialised answer")
        resp = resp[1]
        qp2 = self.env(expand({"a0": qp, "a1": pick})).ev(g.out(0))
        s = summary(q + parse)
        d = {"a0": qp2, "a1": resp}
        if arg is not None:
            d["a2"] = arg
        return self.env(expand(d)).ev(s.ret)


def P27(c):
    """index PIR end to end: the value graphs of database construction, parameter generation, query, answer and decoding are composed; whenever the worst-case noise m(2^p - 1) is below half the rounding factor the decoded element is the stored one, for every index and all randomness"""
    from data import index_new_env, low_bits, index_shard_env
    key = SH["index"] + "::from_base64_strings"

    def go(parse):
        def one(seed):
            R = rng(seed, "e2e")
            for _ in range(200):
                p, es, w = geometry(R)
                m = R.randrange(1, 4)
                if fits(m, p) and w <= 12:
                    break
            else:
                return "skip"
            dim = R.randrange(1, 4)
            els = [low_bits(elem_bytes(R, es, p), es) for _ in range(m)]
            X_ = E2E("index", seed)
            sh = X_.env({"a0": tuple(b64(e) for e in els), "a1": dim, "a2": m, "a3": es, "a4": p}).ev(summary(key).ret)
            if sh[2] == 1:
                return "skip"
            i = R.randrange(m)
            r = X_.run(sh[3][0], i, None, parse)
            if isinstance(r, str):
                return r
            n = int.from_bytes(bytes(els[i]), "little") & ((1 << es) - 1)
            if parse == "parse_resp_as_row":
                want = tuple((n >> (k * p)) & ((1 << p) - 1) for k in range(w))
            else:
                want = low_bits(els[i], es)
                want = b64(want) if parse == "parse_resp_as_base64" else want
            if r != want:
                return f"element {i} of {m} decodes to {short(r)}, stored {short(want)} ({es} bits, p={p}, dim={dim})"
        c.sampled(f"a stored element is retrieved exactly ({parse})", QI + parse, "decode(answer(query(i))) = element i, composition of the value graphs", one, max(10, c.tries // 3))
    for parse in ("parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64"):
        c.guard(f"a stored element is retrieved exactly ({parse})", QI + parse, lambda parse=parse: go(parse))


def P28(c):
    """keyword PIR end to end: value graphs of filter construction, database, parameters, query, answer and decoding composed; whenever the worst-case noise is below half the rounding factor every stored key retrieves its own value"""
    key = SH["kv"] + "::new"

    def go(parse):
        def one(seed):
            R, p, es, w, kvs, m, at = kv_input((seed, parse))
            for _ in range(300):
                if 8 <= p and fits(12, p) and w <= 4:
                    break
                p, es, w = geometry(R)
            else:
                return "skip"
            kvs = [(k, tuple(R.getrandbits(p) for _ in range(w))) for k, r in kvs[:2]]
            # the last entry holds the remaining bits of the element
            last = es - (w - 1) * p
            kvs = [(k, r[:-1] + (r[-1] & ((1 << last) - 1),)) for k, r in kvs]
            dim = R.randrange(1, 3)
            X_ = E2E("kv", seed)
            sh = X_.env({"a0": tuple(kvval(*x) for x in kvs), "a1": dim, "a2": len(kvs), "a3": es, "a4": p}).ev(summary(key).ret)
            if sh[2] == 1:
                return "skip"
            sh = sh[3][0]
            if not fits(len(get(get(sh, SH["kv"], "db"), KVD, "entries")[0]), p):
                return "skip"
            k, row = R.choice(kvs)
            r = X_.run(sh, k, k, parse)
            if isinstance(r, str):
                return r
            if r[2] == 1:
                return "decoding: error"
            r = r[3][0]
            if parse == "parse_resp_as_row":
                want = row
            else:
                n = sum(x << (i * p) for i, x in enumerate(row))
                want = tuple(n.to_bytes(-(-es // 8), "little"))
                want = b64(want) if parse == "parse_resp_as_base64" else want
            if r != want:
                return f"a stored key decodes to {short(r)}, stored {short(want)} ({es} bits, p={p}, {len(kvs)} keys)"
        c.sampled(f"a stored key retrieves its value ({parse})", QK + parse, "decode(answer(query(k))) = value of k, composition of the value graphs", one, max(14, c.tries // 4))
    c.parallel([lambda parse=parse: c.guard(f"a stored key retrieves its value ({parse})", QK + parse, lambda: go(parse)) for parse in ("parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64")])
