"""Server-side rules: responses, hints, parameter wiring, accessors."""
from core import *
import mirq
from client import QP, QI, QK, IP, KP, FP, KINDS, NEW, params_value, fparams, expand, pbits, some, NONE

SH = {"index": K + "api::Shard", "kv": K + "api::KVShard"}
DB = {"index": K + "db::index::IndexDatabase", "kv": K + "db::kv::KVDatabase"}
PAR = {"index": IP, "kv": KP}
DM = {k: f"<{v} as keyword_pir_lwe::db::DatabaseMatrix>::" for k, v in DB.items()}
BP = {k: f"<{v} as keyword_pir_lwe::db::BaseParams>::" for k, v in PAR.items()}
RESP = K + "api::Response"


def db_value(kind, R, w=None, m=None, elem=None, p=None, entries=None):
    path = DB[kind]
    fs = fields_of(path)
    p = p or pbits(R)
    w = w or R.randrange(1, 5)
    m = m or R.randrange(1, 6)
    if elem is None:
        elem = p * w - R.randrange(p)
    v = [0] * len(fs)
    if entries is None:
        entries = tuple(u32s(R, m) for _ in range(w))
    for nm, x in (("entries", entries), ("m", m), ("elem_size", elem), ("plaintext_bits", p)):
        v[fidx(path, nm)] = x
    if kind == "kv":
        v[fidx(path, "filter_params")] = fparams(R)[0]
    return ("agg", path, 0, tuple(v)), dict(w=w, m=m, elem=elem, p=p, entries=entries)


def shard_value(kind, R, **kw):
    d, info = db_value(kind, R, **kw)
    dim = R.randrange(1, 5)
    pv = params_value(R, PAR[kind], dim, info["m"], mat(R, info["w"], dim), info["elem"], info["p"],
                      tuple(R.getrandbits(8) for _ in range(32)))
    fs = fields_of(SH[kind])
    v = [0] * len(fs)
    v[fidx(SH[kind], "db")] = d
    v[fidx(SH[kind], "base_params")] = pv
    return ("agg", SH[kind], 0, tuple(v)), info


def okv(v):
    return ("agg", RES, 0, (v,))


def qval(q):
    return ("agg", K + "api::Query", 0, (q,))


def height(kind, db):
    return G(db, "m", path=DB[kind]) if kind == "index" else slen(idx(G(db, "entries", path=DB[kind]), c64(0)))


def serialised(ret):
    """the value handed to bincode in a Result<Vec<u8>> summary"""
    found = {}
    for t in subterms(ret):
        if t.op == "app" and isinstance(t.a[0], str) and "bincode" in t.a[0] and t.a[0].split("::")[-1] in ("serialize", "serialize_into"):
            v = [x for x in t.a[1:] if isinstance(x, T)]
            if v:
                found[t] = v[-1]
    return found


# ---------------------------------------------------------------- P06
def P06(c):
    """server responses are the exact wrapping inner product with every column"""
    for kind in ("index", "kv"):
        key = SH[kind] + "::respond"

        def go(kind=kind, key=key):
            s = summary(key)
            a0, a1 = s.args
            db = G(a0, "db", path=SH[kind])
            E = G(db, "entries", path=DB[kind])
            q = G(a1, "0", path=K + "api::Query")
            n = cdiv(G(db, "elem_size", path=DB[kind]), G(db, "plaintext_bits", path=DB[kind]))
            want = tmap(n, lambda i: tsum(slen(q), lambda j: mul(idx(q, j, 32), idx(idx(E, i), j, 32))))
            ok = ok_cond(s.ret)
            right = TM.eq(slen(q), height(kind, db))
            sers = serialised(s.ret)

            def sy(seed, bad=True):
                R = rng(seed, "p06")
                sv, info = shard_value(kind, R)
                m = info["m"]
                if bad and R.randrange(3) == 0:
                    m = max(0, m + R.choice((-1, 1, 2)))
                q = u32s(R, m)
                if R.randrange(4) == 0:
                    q = (0,) * m      # inner products that vanish
                elif R.randrange(4) == 0:
                    q = tuple(x if R.randrange(2) else 0 for x in q)
                return expand({"a0": sv, "a1": qval(q)})

            def whole(seed, S_=None):
                S_ = S_ or sy(seed)
                E = ev.Env(seed, S_)
                names = {t.a[0] for t in sers}
                for nm in names:
                    # bincode writes a newtype as its content
                    E.hooks[nm] = lambda E, xs, t: okv(("bincode", xs[-1][3][0] if xs[-1][:2] == ("agg", RESP) else xs[-1]))
                got = E.ev(s.ret)
                if E.ev(right) not in (True, 1):
                    return None if got[2] == 1 else "a query of another length is answered"
                good = okv(("bincode", E.ev(want)))
                if got != good:
                    return f"the answer is {str(got)[:120]}, not {str(good)[:120]}, for {str(S_)[:900]}"
            if not sers:
                raise Undecided("no serialisation site")
            c.sampled(f"{kind}: the answer to a query is the serialised inner products", key,
                      "value graph of respond under random interpretation, serialisation kept injective", whole, c.tries * 2)

            def large(n):
                R = rng(n, "p06large")
                for w, m in ((1, n), (2, n)) if n > 5000 else ((1, n), (n, 1), (n, 2)):
                    rows = tuple(tuple(R.getrandbits(32) for _ in range(m)) for _ in range(w))
                    sv, info = shard_value(kind, R, w=w, m=m, entries=rows)
                    r = whole(n, expand({"a0": sv, "a1": qval(tuple(R.getrandbits(32) for _ in range(m)))}))
                    if isinstance(r, str):
                        return f"{w} columns of {m} rows: {r[:300]}"
            c.sized(f"{kind}: the answer to a query is the serialised inner products", key,
                    "the same at every size the value graph distinguishes", [s.ret, s.S.mem], large, hi=1 << 17)
            if len(sers) != 1:
                return
            (st, val), = sers.items()
            got = G(val, "0", path=RESP) if val.op == "agg" or TM.desc_of(val) else val
            c.eq(f"{kind}: response[i] = sum_j q[j]*entries[i][j] mod 2^32 for every column i", key, got, want,
                 "value graph: map over all columns of a full-length wrapping inner product", pre=right, syms=sy)
            c.eq(f"{kind}: the bytes returned are the serialised response", key, fld(ok_val(s.ret), 0, 0) if False else ok_val(s.ret),
                 fld(st, 0, 0), "value graph: Ok payload = bincode(Response)", pre=TM.b_and(ok, right), syms=sy)
            c.eq(f"{kind}: a query of the matrix height is answered, any other is refused", key, ok,
                 TM.b_and(right, is_ok(st)), "Ok condition = (query length == matrix height)", syms=sy)
        c.guard(f"{kind}: respond", key, go)

        def vm(kind=kind):
            key = DM[kind] + "vec_mult"
            s = summary(key)
            E = G(s.args[0], "entries", path=DB[kind])
            row, i = s.args[1], s.args[2]

            def sy(seed):
                R = rng(seed, "vm")
                v, info = db_value(kind, R)
                return expand({"a0": v, "a1": u32s(R, info["m"]), "a2": R.randrange(info["w"])})
            c.eq(f"{kind}: vec_mult is the wrapping inner product with one column", key, s.ret,
                 tsum(slen(row), lambda j: mul(idx(row, j, 32), idx(idx(E, i), j, 32))), "value graph",
                 pre=TM.eq(slen(row), slen(idx(E, i))), syms=sy)
        c.guard(f"{kind}: vec_mult", DM[kind] + "vec_mult", vm)

    def vv():
        key = K + "utils::matrices::vec_mult_u32_u32"
        s = summary(key)
        a, b = s.args

        def sy(seed):
            R = rng(seed, "vv")
            n = R.randrange(6)
            return {"a0": u32s(R, n), "a1": u32s(R, n if R.randrange(3) else R.randrange(6))}
        c.eq("vec_mult_u32_u32 succeeds exactly on equal lengths", key, ok_cond(s.ret), TM.eq(slen(a), slen(b)), "Ok condition", syms=sy)
        c.eq("vec_mult_u32_u32 is the wrapping inner product", key, ok_val(s.ret), tsum(slen(a), lambda j: mul(idx(a, j, 32), idx(b, j, 32))),
             "value graph", pre=TM.eq(slen(a), slen(b)), syms=sy)

        def large(n):
            R = rng(n, "vvl")
            x, y = (tuple(R.getrandbits(32) for _ in range(n)) for _ in range(2))
            v = ev.Env(n, {"a0": x, "a1": y}).ev(s.ret)
            if v[2] or v[3][0] != sum(i * j for i, j in zip(x, y)) & 0xffffffff:
                return f"not the inner product for vectors of length {n}"
        c.sized("vec_mult_u32_u32 is the wrapping inner product", key, "the same at every size the value graph distinguishes", [s.ret], large, hi=1 << 17)
    c.guard("vec_mult_u32_u32", K + "utils::matrices::vec_mult_u32_u32", vv)


def is_ok(t):
    return TM.b_not(ok_is_err(t))


def ok_is_err(t):
    import models
    return models.match2(t, lambda v, p: FF if v == 0 else TT)


# ---------------------------------------------------------------- P07
def elem_dep(t, q, memo):
    """does t depend on an element of sequence q (not merely on its length)?"""
    if t is q:
        return True
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "len" and t.a[0] is q:
        r = False
    elif t.op == "len" and contains(t.a[0], q):
        r = any(elem_dep(k, q, memo) for k in length_parts(t.a[0]))
    else:
        r = any(elem_dep(k, q, memo) for k in TM._kids(t.a))
    memo[t] = r
    return r


def length_parts(t):
    if t.op in ("map",):
        return [t.a[0]]
    if t.op in ("upd", "rev"):
        return [slen(t.a[0])]
    return list(TM._kids(t.a))


def P07(c):
    """the server's control flow, addressing and result size do not depend on
    query contents; answering changes nothing and draws no randomness"""
    for kind in ("index", "kv"):
        key = SH[kind] + "::respond"

        def go(kind=kind, key=key):
            for config in ("dev", "release"):
                s = summary(key, config=config)
                q = G(s.args[1], "0", path=K + "api::Query")
                memo = {}
                n = 0
                bad = []
                for e in s.events:
                    for fldn in ("value", "good", "cond", "pc"):
                        t = e.get(fldn)
                        if fldn == "value" and e["kind"] != "switch":
                            continue
                        if isinstance(t, T):
                            n += 1
                            if elem_dep(no_apps(t), q, memo):
                                bad.append((e["kind"], short(TM.show(t), 200)))
                c.rec(f"{kind}: no branch, assertion or path condition depends on query contents", key,
                      f"taint: conditions of {config} build free of query elements", "VIOLATED" if bad else "proved",
                      short(bad) if bad else f"{n} conditions")
                addr = []
                m = 0
                for t in subterms(s.ret):
                    ch = []
                    if t.op == "idx":
                        ch = [t.a[1]]
                    elif t.op in ("map", "sum", "flat", "any", "first", "xorsum"):
                        ch = [t.a[0]]
                    elif t.op in ("ite", "bite"):
                        ch = [t.a[0]]
                    elif t.op in ("div", "rem"):
                        ch = list(t.a)
                    elif t.op == "slice":
                        ch = [t.a[1], t.a[2]]
                    for x in ch:
                        m += 1
                        if elem_dep(no_apps(x), q, memo):
                            addr.append((t.op, short(TM.show(x), 160)))
                c.rec(f"{kind}: no address, trip count, selection or division depends on query contents", key,
                      f"taint: index/length/selector/divisor positions of the {config} value graph free of query elements",
                      "VIOLATED" if addr else "proved", short(addr) if addr else f"{m} positions")
            s = summary(key)
            rnd = [t for t in subterms(s.ret) if t.op in ("fresh", "draw", "freshseq")]
            c.rec(f"{kind}: the response is a function of shard and query only", key, "source: no random or external leaf in the result",
                  "VIOLATED" if rnd else "proved", short(rnd))
            muts = [e for e in s.events if e["kind"] in ("store", "lost_store") and ext_target(s, e)]
            c.rec(f"{kind}: answering leaves the shard unchanged", key, "effect: no store reaches memory that outlives the call",
                  "VIOLATED" if muts else "proved", short(muts))
            calls = sorted({e["path"] for e in s.events if e["kind"] == "call"})
            eff = [p for p in calls if effectful(p)]
            c.rec(f"{kind}: answering has no external effect", key, "effect: no file, environment, clock, thread, lock or randomness call",
                  "VIOLATED" if eff else "proved", short(eff or calls))
        c.guard(f"{kind}: respond", key, go)


EFF = ("std::fs", "std::env", "std::net", "std::process", "std::thread", "std::time", "std::sync", "std::io", "rand", "getrandom",
       "core::sync::atomic", "core::cell", "std::cell")


def effectful(p):
    q = p.lstrip("<&")
    return any(q.startswith(e) for e in EFF) and "std::io::error" not in q


def no_apps(t):
    """drop uninterpreted library applications (their outcome is the library's business)"""
    m = {}
    for x in subterms(t):
        if x.op == "app" and isinstance(x.a[0], str) and x.a[0].startswith(("bincode", "serde", "alloc::fmt", "core::fmt")):
            m[x] = mk("sym", "lib:" + x.a[0], w=x.w)
    return subst(t, m) if m else t


def ext_target(s, e):
    t = e.get("target")
    return isinstance(t, T) and t.op == "ref" and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == 0 and isinstance(t.a[0][1], str)


# ---------------------------------------------------------------- P09
def pub_matrix(seed, dim, m):
    who = "rand::rngs::std::StdRng"
    return lambda i, j: mk("draw", mk("app", "rngseed", who, seed), add(mul(dim, i), j), "next_u32", w=32)


def P09(c):
    """client and server derive the same public matrix from the seed, and the
    hint is that matrix times the database"""
    def gen():
        key = K + "utils::matrices::generate_lwe_matrix_from_seed"
        s = summary(key)
        return s

    def instA(kind):
        """matrix the client derives from a params value a1"""
        P = prog()
        b = [x for x in P.local_bodies() if "CommonParams as core::convert::From<&T>>::from" in x["key"] and "{closure" not in x["key"]]
        if len(b) != 1:
            raise Missing("<CommonParams as From<&params>>::from")
        return b[0]

    for kind in ("index", "kv"):
        def go(kind=kind):
            newk = PAR[kind] + "::new"
            s = summary(newk)
            pv = s.ret if s.ret.w is None and TM.desc_of(s.ret) is None or s.ret.op == "agg" else s.ret
            if s.ret.op != "agg" and is_result(newk):
                pv = ok_val(s.ret)
            seed, dim, m, H = (G(pv, f, path=PAR[kind]) for f in ("public_seed", "dim", "m", "rhs"))
            A = client_matrix(kind, pv)
            E = G(s.args[0], "entries", path=DB[kind])
            es, p = G(s.args[0], "elem_size", path=DB[kind]), G(s.args[0], "plaintext_bits", path=DB[kind])
            hgt = height(kind, s.args[0])
            want = tmap(cdiv(es, p), lambda i: tmap(dim, lambda j: tsum(hgt, lambda r: mul(idx(idx(A, r), j, 32), idx(idx(E, i), r, 32)))))

            def sy(sd):
                R = rng(sd, "p09")
                v, info = db_value(kind, R)
                d = {"a0": v, "a1": R.randrange(1, 5)}
                if kind == "kv":
                    f = fparams(R)[0]
                    for n_, x in enumerate(f[3]):
                        d[f"a{2 + n_}"] = x
                return expand(d)
            c.eq(f"{kind}: hint = (A^T)*DB for the matrix A the client derives from the published seed", newk, H, want,
                 "value graph: hint[i][j] = sum_r A[r][j]*entries[i][r] with A the client-side expansion", syms=sy)
            c.eq(f"{kind}: the client matrix has one row per record", newk, slen(A), hgt, "length term", syms=sy)
            c.eq(f"{kind}: the client matrix rows have the LWE dimension", newk, slen(idx(A, c64(0))), s.args[1], "length term", syms=sy)

            def large(n):
                for w, m, dim in ((1, 1, n), (1, n, 1), (n, 1, 1)):
                    R = rng(c.seed, "p09l", n)
                    v, info = db_value(kind, R, w=w, m=m, p=8, elem=8 * w)
                    d = {"a0": v, "a1": dim}
                    if kind == "kv":
                        for n_, x in enumerate(fparams(R)[0][3]):
                            d[f"a{2 + n_}"] = x
                    got, exp = (ev.Env(c.seed, expand(d)).ev(t) for t in (H, want))
                    if got != exp:
                        return f"the hint of a {w} x {m} matrix with dimension {dim} differs: {len(got)} x {len(got[0]) if got else 0} words"
                    a = ev.Env(c.seed, expand(d)).ev(A)
                    if len(a) != m or any(len(x) != dim for x in a):
                        return f"the public matrix has {len(a)} rows of {sorted({len(x) for x in a})} words, want {m} of {dim}"
            c.sized(f"{kind}: hint = (A^T)*DB for the matrix A the client derives from the published seed", newk,
                    "value graph at the sizes it distinguishes", [pv, A], large, 1 << 14)

            # entries: distinct stream positions, all 32 bits
            def one(sd):
                E_ = ev.Env(sd, sy(sd))
                a = E_.ev(A)
                tot = 0
                keys = set()
                for r in range(len(a)):
                    for j in range(len(a[r])):
                        E2 = ev.Env(sd, sy(sd))
                        E2.ev(idx(idx(A, c64(r)), c64(j), 32))
                        k = frozenset(x for x in E2.touch if x[0] in ("fresh", "draw"))
                        if not k:
                            return f"entry ({r},{j}) of the public matrix is not drawn from the seeded generator"
                        if k in keys:
                            return f"entry ({r},{j}) of the public matrix repeats another entry's draw"
                        keys.add(k)
            c.sampled(f"{kind}: every entry of the public matrix is its own generator output", newk,
                      "dependence: distinct stream positions per entry", one, tries=12)

            def bits(sd):
                o = [0, M32_]
                for v in range(24):
                    E2 = ev.Env(sd, sy(sd))
                    x = ev.h64(sd, v) & M32_
                    E2.freshfn = lambda k, w: (x if w == 32 else x | (x << 32)) if k[0] == "draw" else None
                    y = E2.ev(idx(idx(A, c64(0)), c64(0), 32))
                    o[0] |= y
                    o[1] &= y
                if o[0] != M32_ or o[1] != 0:
                    return f"bits {o[0] ^ M32_ | o[1]:#x} of the public matrix entries are constant"
            c.sampled(f"{kind}: public matrix entries use all 32 bits", newk, "bit-dependence of an entry on its draw", bits, tries=2)
        c.guard(f"{kind}: hint", PAR[kind] + "::new", go)


M32_ = 0xffffffff


def is_result(key):
    b = body(key)
    t = b["tys"][b["locals"][0]]
    return t["k"] == "adt" and t["path"] == RES


_cm = {}


def client_matrix(kind, pv):
    """CommonParams::from(&params) instantiated at a concrete parameter value"""
    P = prog()
    b = [x for x in P.local_bodies() if "CommonParams as core::convert::From<&T>>::from" in x["key"] and "{closure" not in x["key"]]
    if len(b) != 1:
        raise Missing("<CommonParams as From<&params>>::from")
    k = (kind, pv)
    if k not in _cm:
        s = summary(b[0], args=[pv], selfty={K + "db::BaseParams": PAR[kind]})
        _cm[k] = G(s.ret, "0", path=K + "db::CommonParams")
    return _cm[k]
