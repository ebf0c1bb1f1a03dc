"""Client-side rules: query parameters, queries, decoding."""
import re
import time

from core import *
import mirq

QP = K + "api::QueryParams"
QI = K + "api::QueryParams::<keyword_pir_lwe::db::index::IndexDatabase, keyword_pir_lwe::api::EmptyAuxParams>::"
QK = K + "api::QueryParams::<keyword_pir_lwe::db::kv::KVDatabase, keyword_pir_lwe::db::kv::FilterParams>::"
IP = K + "db::index::IndexParams"
KP = K + "db::kv::KVParams"
FP = K + "db::kv::FilterParams"
KINDS = (("index", QI, IP), ("kv", QK, KP))
NEW = {"index": K + "api::generate_index_query_params", "kv": K + "api::generate_kv_query_params"}
M32 = 0xffffffff


def delta(p):
    """2^32 / 2^p as u32"""
    return trunc(div(c64(1 << 32), zext(pow2(zext(trunc(p, 32), 64), 32), 64)), 32)


def psize(p):
    return pow2(zext(trunc(p, 32), 64), 32)


def qpf(name):
    return "a0." + fname_of(QP, name)


def fparams(R, some=True):
    """a well-formed filter parameter block and the filter length it implies"""
    sl = 1 << R.randrange(0, 4)
    cnt = R.randrange(1, 5)
    n = (cnt + 2) * sl
    fp = [None] * 4
    fp[fidx(FP, "seed")] = tuple(R.getrandbits(8) for _ in range(32))
    fp[fidx(FP, "segment_length")] = sl
    fp[fidx(FP, "segment_length_mask")] = sl - 1
    fp[fidx(FP, "segment_count_length")] = cnt * sl
    return ("agg", FP, 0, tuple(fp)), n


def some(v):
    return ("agg", OPT, 1, (v,))


NONE = ("agg", OPT, 0, ())


def pbits(R):
    return R.choice((1, 2, 4, 8, 9, 10, 12, 16, 24, 31, R.randrange(1, 32)))


def query_syms(kind):
    def f(seed):
        R = rng(seed, "q")
        n = R.choice((1, 2, 3, 5, 8, 11))
        fp, m = fparams(R)
        if kind == "kv":
            n = m
        d = {qpf("lhs"): u32s(R, n), qpf("plaintext_bits"): pbits(R), qpf("used"): R.randrange(4) == 0,
             qpf("elem_size"): R.randrange(1, 200), qpf("rhs"): u32s(R, R.randrange(1, 9)),
             qpf("db"): ("agg", "core::marker::PhantomData", 0, ())}
        if kind == "index":
            d["a1"] = R.randrange(n)
        else:
            d["a1"] = qkey(R)
            d[qpf("extra_params")] = some(fp) if R.randrange(8) else NONE
        return d
    return f


def qkey(R):
    """a key to query: random, or with extreme words, or the zero key"""
    m = R.randrange(6)
    if m == 0:
        return (word(R, 64),) * 4
    if m < 3:
        return tuple(word(R, 64) for _ in range(4))
    if m == 3:
        return (0,) * 4
    return tuple(R.getrandbits(64) for _ in range(4))


def params_value(R, path, dim, m, rhs, elem, p, seed):
    """a value of IndexParams / KVParams"""
    fs = fields_of(path)
    v = [0] * len(fs)
    for nm, x in (("dim", dim), ("m", m), ("public_seed", seed), ("rhs", rhs), ("elem_size", elem), ("plaintext_bits", p)):
        v[fidx(path, nm)] = x
    if path == KP:
        v[fidx(path, "filter_params")] = fparams(R)[0]
    return ("agg", path, 0, tuple(v))


def new_syms(kind, A=None, H=None, dim=None, bad=False):
    path = dict((k, x) for k, _, x in KINDS)[kind]

    def f(seed):
        R = rng(seed, "new")
        d = dim or R.randrange(1, 6)
        m, w = R.randrange(1, 5), R.randrange(1, 5)
        a = A if A is not None else mat(R, m, d)
        h = H if H is not None else mat(R, w, d)
        s = {"a0": ("agg", K + "db::CommonParams", 0, (a,))}
        pv = params_value(R, path, d, len(a), h, R.randrange(1, 99), pbits(R), tuple(R.getrandbits(8) for _ in range(32)))
        s["a1"] = pv
        return expand(s)
    return f


def expand(s):
    """also bind the field symbols (a0.f, a0.f.g) of struct values"""
    out = dict(s)

    def go(nm, v):
        if isinstance(v, tuple) and len(v) == 4 and v[0] == "agg" and v[1] in prog().adt and prog().adt[v[1]][0]["kind"] == "struct":
            fs = fields_of(v[1])
            for f, x in zip(fs, v[3]):
                out[nm + "." + f["name"]] = x
                go(nm + "." + f["name"], x)
    for k, v in list(s.items()):
        go(k, v)
    return out


# ---------------------------------------------------------------- P01
def P01(c):
    """single use"""
    for kind, q, _ in KINDS:
        key = q + "generate_query"

        def go(kind=kind, key=key):
            s = summary(key)
            cell = s.mem0(0).a[0]
            used0 = mk("sym", qpf("used"), w="b")
            after = G(s.S.mem[cell], "used", path=QP)
            okc = ok_cond(s.ret)
            qs = query_syms(kind)
            c.holds(f"{kind}: a query is produced only from unused parameters", key,
                    TM.b_not(TM.b_and(okc, used0)), "typestate: Ok(query) implies !used on entry", syms=qs)
            c.holds(f"{kind}: producing a query marks the parameters used", key,
                    TM.b_or(TM.b_not(okc), after), "typestate: Ok(query) implies used on exit", syms=qs)
            c.holds(f"{kind}: used parameters never become unused", key,
                    TM.b_or(TM.b_not(used0), after), "typestate: the used flag is monotone", syms=qs)
            pre = TM.b_not(used0)
            if kind == "kv":
                pre = TM.b_and(pre, TM.b_not(is_none(mk("sym", qpf("extra_params")))))
            c.holds(f"{kind}: unused parameters do produce a query", key, okc,
                    "typestate: !used (with filter parameters) implies Ok", pre=pre, syms=qs)
        c.guard(f"{kind}: generate_query", key, go)

        def go2(kind=kind):
            s = summary(NEW[kind])
            u = G(ok_val(s.ret), "used", path=QP)
            c.eq(f"{kind}: new parameters start unused", NEW[kind], u, FF,
                 "typestate: the constructor establishes !used", syms=new_syms(kind))
        c.guard(f"{kind}: constructor", NEW[kind], go2)

    for kind, q, _ in KINDS:
        c.guard(f"{kind}: at most one query per object", q + "generate_query", lambda kind=kind, q=q: history(c, kind, q))
    c.guard("the used flag", QP, lambda: used_flag(c))


def history(c, kind, q):
    """the state threaded through a sequence of calls, from the constructor on"""
    s, g = summary(NEW[kind]), summary(q + "generate_query")

    def one(seed):
        R = rng(seed, "hist")
        m = 16
        sy = new_syms(kind, A=mat(R, 2, m), H=mat(R, 2, 2), dim=2)(seed)
        sy = new_syms(kind)(seed) if seed % 2 else sy
        r = ev.Env(seed, sy).ev(s.ret)
        if r[2] == 1:
            return "skip"
        if not r[3][0]:
            return "skip"
        objs, spent = [r[3][0]], [False]
        n = len(get_lhs(r[3][0]))
        if n == 0:
            return "skip"
        for step in range(5):
            i = R.randrange(len(objs))
            if R.randrange(3) == 0:
                objs.append(objs[i])       # Clone: decided separately
                spent.append(spent[i])
                continue
            arg = R.randrange(n) if kind == "index" else qkey(R)
            d = expand({"a0": objs[i], "a1": arg})
            try:
                v = ev.Env(seed, dict(d)).ev(g.ret)
                objs[i] = ev.Env(seed, dict(d)).ev(g.out(0))
            except ev.Partial:
                return "skip"
            if v[2] == 0:
                if spent[i]:
                    return f"step {step}: the same parameters produce a second query"
                spent[i] = True
    c.sampled(f"{kind}: at most one query per object", q + "generate_query", "typestate: the state after each call threaded into the next, from the constructor on", one)


def get_lhs(v):
    return v[3][fidx(QP, "lhs")]


def used_flag(c):
    P = prog()
    ui = fidx(QP, "used")
    nb = 0
    for b in P.local_bodies():
        if b["crate"] != "keyword_pir_lwe" or b.get("derived") or "_::<impl" in b["key"]:
            continue
        nb += 1
        for where, val in mirq.field_writes(b, QP, ui):
            rule = "effect: no assignment to `used` other than `true`"
            if val == 1:
                c.rec("the used flag is only ever set", b["key"], rule, "proved", where)
            elif val == 0:
                c.rec("the used flag is only ever set", b["key"], rule, "VIOLATED", f"{where}: resets QueryParams.used")
            else:
                c.guard("the used flag is only ever set", b["key"], lambda b=b, where=where: computed_flag(c, b, where))
        # a &mut to the flag escaping would let a caller reset it
        for where in mirq.field_mut_borrows(b, QP, ui):
            c.rec("the used flag is not borrowed mutably", b["key"], "ownership: no &mut to `used` is created", "undecided", where)
    c.rec("the used flag: who writes it", QP, "effect scan over every body of the crate", "proved", f"{nb} bodies scanned")

    # resurrecting a used value: clone / serde keep the flag
    def clone():
        n = 0
        for b in P.local_bodies():
            if mirq.is_impl_of(b, QP, "core::clone::Clone", "clone"):
                n += 1
                if b.get("derived"):
                    c.rec("clones keep the used flag", b["key"], "ownership: derived Clone copies every field", "proved")
                else:
                    s = summary(b)
                    c.eq("clones keep the used flag", b["key"], G(s.ret, "used", path=QP), mk("sym", qpf("used"), w="b"),
                         "typestate: a clone is in the state of its source", syms=query_syms("index"))
        c.rec("clone implementations", QP, "ownership", "proved", f"{n} found")
    c.guard("clones keep the used flag", QP, clone)
    c.guard("persisted parameters keep the used flag", QP, lambda: serde_full(c, QP, "persisted parameters keep the used flag", only="used"))


def computed_flag(c, b, where):
    """a function storing a computed value: used parameters stay used through it"""
    name, rule = "the used flag is only ever set", "typestate: the used flag is monotone over the function"
    s = summary(b)
    i = [k for k, a in enumerate(s.args) if a.op == "ref"]
    for k in i:
        cell = s.args[k].a[0]
        u0, u1 = mk("sym", f"a{k}.used", w="b"), G(s.S.mem[cell], "used", path=QP)
        if u0 is u1:
            continue

        def one(seed):
            R = rng(seed, "uf")
            sy = {kk.replace("a0", f"a{k}", 1) if kk.startswith("a0") else kk: v
                  for kk, v in query_syms("kv" if R.randrange(2) else "index")(seed).items()}
            n = R.randrange(6)
            resp = ("agg", K + "api::Response", 0, (u32s(R, n),))
            for j in range(len(s.args)):
                if j != k and f"a{j}" not in sy or not b["key"].endswith("generate_query"):
                    if j != k:
                        sy[f"a{j}"] = resp
            sy[f"a{k}.used"] = True
            E = ev.Env(seed, expand(sy))
            if not E.ev(u1):
                return f"{where}: used parameters become unused"
        c.sampled(name, b["key"], rule, one)
        return
    raise Undecided(f"{where}: computed value")


def serde_full(c, path, name, only=None):
    r = mirq.serde_fields(prog(), path)
    if r is None:
        return c.rec(name, path, "derived serde covers the field", "proved", "type is not serialisable")
    ser, de, why = r
    rule = "derived (de)serialiser mentions the field"
    if ser is None:
        return c.rec(name, path, rule, "undecided", why)
    fs = [f["name"] for f in fields_of(path)]
    want = [only and fs[fidx(path, only)]] if only else fs
    for f in want:
        i = fs.index(f)
        c.rec(f"{name}: {f}", path, rule, "proved" if i in ser and (de is None or i in de) else "VIOLATED",
              f"serialised fields {sorted(ser)}, restored fields {sorted(de) if de is not None else '?'}")


# ---------------------------------------------------------------- P02 / P03 / P04
def _new_terms(kind):
    s = summary(NEW[kind])
    v = ok_val(s.ret)
    return s, ok_cond(s.ret), G(v, "lhs", path=QP), G(v, "rhs", path=QP)


def _coords(kind, dim, m, w):
    """terms of every secret / error coordinate with the valuations exposing them"""
    s, okc, lhs, rhs = _new_terms(kind)
    zero = tuple((0,) * dim for _ in range(m))
    ident = tuple(tuple(int(i == j) for j in range(dim)) for i in range(dim))
    out = []
    for i in range(m):
        out.append((f"e[{i}]", idx(lhs, c64(i), 32), new_syms(kind, A=zero, H=ident, dim=dim)))
    for j in range(dim):
        out.append((f"s[{j}]", idx(rhs, c64(j), 32), new_syms(kind, A=zero, H=ident, dim=dim)))
    return out


def _coord(kind, which, i, n):
    """one error / secret coordinate of a vector of length n"""
    s, okc, lhs, rhs = _new_terms(kind)
    if which == "e":
        sy = new_syms(kind, A=((0, 0),) * n, H=((1, 0), (0, 1)), dim=2)
        return idx(lhs, c64(i), 32), sy
    sy = new_syms(kind, A=((0,) * n,) * 2, H=(tuple(int(i == j) for j in range(n)),), dim=n)
    return idx(rhs, c64(0), 32), sy


def _coords_at(kind, which, idxs, n):
    """several coordinates of one error / secret vector of length n, under one valuation"""
    s, okc, lhs, rhs = _new_terms(kind)
    if which == "e":
        sy = new_syms(kind, A=((0, 0),) * n, H=((1, 0), (0, 1)), dim=2)
        return {f"e[{i}] of {n}": (idx(lhs, c64(i), 32), sy) for i in idxs}
    sy = new_syms(kind, A=((0,) * n,) * 2, H=tuple(tuple(int(i == j) for j in range(n)) for i in idxs), dim=n)
    return {f"s[{i}] of {n}": (idx(rhs, c64(k), 32), sy) for k, i in enumerate(idxs)}


def coord_sizes(kind):
    s, okc, lhs, rhs = _new_terms(kind)
    return harvest([lhs, rhs], hi=1 << 17)


def influence(ta, tb, leaf, seed, tries=10):
    """does the random leaf really move both terms?  (term, syms) pairs"""
    def at(t, sy, v, sd):
        E = ev.Env(sd, sy(sd))
        E.freshfn = lambda key, w: v & ((1 << w) - 1) if key == leaf else None
        try:
            return E.ev(t)
        except (ev.Big, ev.Partial):
            return None
    for k in range(tries):
        sd = seed * 977 + k
        x, y = ((k * 0x2c9277b5 + 5) & M32) * 0x100000001, ((k * 0x9e3779b9 + 0x5f000000) & M32) * 0x100000001
        if all(len({at(t, sy, v, sd) for v in (x, y)} - {None}) == 2 for t, sy in (ta, tb)):
            return True
    return False


def joint(c, seed, rows, stop):
    """{(a, b): leaf} for the coordinates of one long vector, all valued in one
    environment: the leaf that moves one of them is found by bisection over the
    draws it reads, and must move no other"""
    names = list(rows)
    sy = rows[names[0]][1]
    out = {(x, y): ("maybe",) for n, x in enumerate(names) for y in names[:n]}

    def at(sub, k):
        if time.time() > stop:
            raise ev.Big("time")
        E = ev.Env(seed * 991 + 1, sy(seed))
        E.freshfn = lambda key, w: ev.h64(seed, key, k) & ((1 << w) - 1) if key in sub else None
        return [E.ev(rows[n][0]) for n in names], E.touch
    try:
        base, touch = at((), 0)
        every = sorted({k for k in touch if k[0] in ("fresh", "draw")} | {k[1] for k in touch if k[0] == "seed" and k[1][0] == "fresh"}, key=repr)
        for i, x in enumerate(names):
            for k in range(5):
                if at(set(every), k)[0][i] == base[i]:
                    continue
                ls = every
                while len(ls) > 1:
                    h = len(ls) // 2
                    nxt = next((u for u in (ls[h:], ls[:h]) if at(set(u), k)[0][i] != base[i]), None)
                    if nxt is None:
                        break
                    ls = nxt
                if len(ls) > 1:
                    continue
                got = at(set(ls), k)[0]
                for j, y in enumerate(names):
                    if j != i:
                        p = (x, y) if (x, y) in out else (y, x)
                        if got[j] != base[j]:
                            out[p] = ls[0]
                        elif out[p] == ("maybe",):
                            out[p] = None
                break
    except (ev.Big, ev.Partial):
        pass
    return out


def independence(c, seed, rows):
    """{(a, b): leaf} of coordinates that are moved by the same random draw;
    rows: name -> (term, syms)"""
    tch, out = {}, {}
    for nm, (t, sy) in rows.items():
        E = ev.Env(seed * 7919, sy(seed * 31))
        E.ev(t)
        tch[nm] = E.touch
    names = list(rows)
    ints = {n: [int(x) for x in re.findall(r"\d+", str(n))][:1] for n in names}
    stop = time.time() + 25
    for i in reversed(range(len(names))):
        for j in reversed(range(i)):
            a, b = (({k for k in T_ if k[0] in ("fresh", "draw")} | {k[1] for k in T_ if k[0] == "seed" and k[1][0] == "fresh"})
                    for T_ in (tch[names[i]], tch[names[j]]))
            com = sorted(a & b, key=repr)
            pair = (names[i], names[j])
            if not com:
                out.setdefault(pair, None)
                continue
            # evaluating a loop reads every draw before it: the nearest iterations first
            near = ints[names[i]] + ints[names[j]]
            com.sort(key=lambda k: min(abs(x - n) for x in (k[2] or (0,)) for n in near) if isinstance(k[2], tuple) and all(isinstance(x, int) for x in k[2]) else 0)
            hit = next((k for k in com[:12] if time.time() < stop and influence(rows[names[i]], rows[names[j]], k, seed)), None)
            out[pair] = hit if hit is not None else ("maybe",)
    return tch, out


def P02(c):
    """secrets are fresh, independent, from the OS CSPRNG"""
    for kind, _, _ in KINDS:
        def go(kind=kind):
            where = NEW[kind]
            seen = {}
            groups = []
            rows = {nm: (t, sy) for nm, t, sy in _coords(kind, 3, 3, 3)}
            for r in range(6 if c.tier == "quick" else 20):
                groups.append((c.seed + 13 * r, rows))
            for n in coord_sizes(kind):
                for w in ("e", "s"):
                    groups.append((None, _coords_at(kind, w, sorted({0, n - 2, n - 1, n}), n + 1)))
            first = True
            stop = time.time() + 40
            for sd, rows_ in groups:
                try:
                    with ev.deep():
                        tch, res = independence(c, sd, rows_) if sd is not None else ({}, joint(c, c.seed, rows_, stop))
                except ev.Big:
                    continue
                for nm, T_ in tch.items() if first else ():
                    indep_source(c, f"{kind}: {nm[0]} is drawn from the OS CSPRNG", where, T_)
                first = False
                for (x, y), hit in res.items():
                    key = (x[0], y[0])
                    if hit == ("maybe",):
                        seen.setdefault(key, ("undecided", f"{x} and {y} read a common draw"))
                    elif hit is not None:
                        seen[key] = ("VIOLATED", f"{x} and {y} depend on the same random draw {short(hit)}")
                    else:
                        seen.setdefault(key, ("proved", ""))
            what = {("e", "e"): "error coordinates are pairwise independent", ("s", "s"): "secret coordinates are pairwise independent",
                    ("s", "e"): "the error is independent of the secret"}
            for k, (st, d) in seen.items():
                c.rec(f"{kind}: {what[k]}", where, "dependence: disjoint sets of random-source leaves", st, d)
        c.guard(f"{kind}: secrets", NEW[kind], go)

    def seedgo():
        key = K + "utils::random::generate_seed"
        s = summary(key)
        seed_fresh(c, "generated seeds are fresh 256-bit OS randomness", key, s.ret)
    c.guard("generate_seed", K + "utils::random::generate_seed", seedgo)
    for key in (K + "utils::matrices::random_ternary", K + "utils::matrices::random_ternary_vector"):
        def tern(key=key):
            s = summary(key)
            t = s.ret if s.ret.w == 32 else idx(s.ret, c64(1), 32)
            E = ev.Env(c.seed, {"a0": 3})
            E.ev(t)
            indep_source(c, "ternary samples come from the OS CSPRNG", key, E.touch)
            if s.ret.w != 32:
                st, d = "proved", ""
                for n in [2] + harvest([s.ret]):
                    rows = {i: (idx(s.ret, c64(i), 32), lambda sd, n=n: {"a0": n + 1}) for i in sorted({0, n - 2, n - 1, n})}
                    with ev.deep():
                        res = joint(c, c.seed, rows, time.time() + 30)
                    for (x, y), hit in res.items():
                        if hit == ("maybe",):
                            st, d = ("undecided", f"entries {x} and {y} read a common draw") if st == "proved" else (st, d)
                        elif hit is not None:
                            st, d = "VIOLATED", f"entries {x} and {y} of {n + 1} depend on the same draw {short(hit)}"
                c.rec("entries of a ternary vector are independent", key, "dependence: disjoint sets of random-source leaves", st, d)
                c.eq("a ternary vector has the requested length", key, slen(s.ret), mk("sym", "a0", w=64), "length term", syms=lambda sd: {"a0": sd % 7})
        c.guard("ternary samplers", key, tern)
    # the per-shard public seed
    for ty, ctor in (("index", K + "api::Shard::from_base64_strings"), ("kv", K + "api::KVShard::from_base64_strings")):
        def pub(ty=ty, ctor=ctor):
            s = summary(ctor)
            bp = G(ok_val(s.ret), "base_params", path=K + ("api::Shard" if ty == "index" else "api::KVShard"))
            seed = G(bp, "public_seed", path=IP if ty == "index" else KP)
            seed_fresh(c, f"{ty}: every shard draws a fresh public seed", ctor, seed)
            if ty == "kv":
                fs = G(G(bp, "filter_params", path=KP), "seed", path=FP)
                separate(c, "kv: the public seed and the filter seed are separate draws", ctor, seed, fs)
        c.guard(f"{ty}: public seed", ctor, pub)


    for key, path in ((IP + "::new", IP), (KP + "::new", KP)):
        c.guard(f"{path.split('::')[-1]}: public seed", key, lambda key=key, path=path: seed_fresh(
            c, f"{path.split('::')[-1]}::new draws a fresh public seed", key, G(summary(key).ret, "public_seed", path=path)))
    import kv
    kv.own_seeds(c)


def separate(c, name, where, ta, tb):
    """no byte of two 32-byte seeds comes from one draw"""
    rule = "dependence: disjoint sets of random-source leaves"
    sy = lambda sd: {}
    for i in (0, 7, 31):
        for j in (0, 7, 31):
            x, y = idx(ta, c64(i), 8), idx(tb, c64(j), 8)
            t = []
            for u in (x, y):
                E = ev.Env(c.seed)
                E.ev(u)
                t.append({k for k in E.touch if k[0] == "fresh"})
            for k in sorted(t[0] & t[1], key=repr)[:6]:
                if influence((x, sy), (y, sy), k, c.seed):
                    return c.rec(name, where, rule, "VIOLATED", f"byte {i} of one and byte {j} of the other come from {short(k)}")
    c.rec(name, where, rule, "proved", "")


BADRNG = ("SmallRng", "Xoshiro", "Pcg", "XorShift", "StepRng", "mock")


def indep_source(c, name, where, touch):
    rule = "source: every random leaf of the value is an OS CSPRNG read"
    fresh = [k for k in touch if k[0] == "fresh"]
    draws = [k for k in touch if k[0] == "draw"]
    seeds = [k[1] for k in touch if k[0] == "seed"]
    bad = [k for k in fresh if not (k[1].startswith("os:") or k[1].startswith("thread:"))]
    if bad:
        st = "VIOLATED" if any(b in repr(k) for k in bad for b in BADRNG) else "undecided"
        return c.rec(name, where, rule, st, short(bad))
    if draws:
        r = repr(draws)
        if "rngseed64" in r or any(b in r for b in BADRNG):
            return c.rec(name, where, rule, "VIOLATED", "non-cryptographic or 64-bit seeded generator")
        if not any(k[0] in ("fresh", "whole") and str(k[1]).startswith(("os:", "thread:")) for k in seeds):
            return c.rec(name, where, rule, "VIOLATED", "generator seeded without OS randomness: " + short(draws))
    if not fresh and not draws:
        return c.rec(name, where, rule, "VIOLATED", "the value does not depend on any random source")
    return c.rec(name, where, rule, "proved", f"{len(fresh)} OS draws, {len(draws)} seeded draws")


def seed_fresh(c, name, where, term):
    """a 32-byte seed: every byte its own OS draw"""
    rule = "source: each of the 32 bytes is a distinct OS CSPRNG byte"
    vals = []
    used = []
    for i in range(32):
        E = ev.Env(c.seed)
        v = E.ev(idx(term, c64(i), 8))
        fr = {k for k in E.touch if k[0] in ("fresh", "draw")}
        if not fr:
            return c.rec(name, where, rule, "VIOLATED", f"byte {i} is not random")
        if any(k[0] == "fresh" and not k[1].startswith(("os:", "thread:")) for k in fr):
            return c.rec(name, where, rule, "VIOLATED" if "rng<" not in repr(fr) else "undecided", f"byte {i} from {short(fr)}")
        if any(k[0] == "draw" for k in fr):
            indep_source(c, name, where, E.touch)
        # full byte range reachable
        img = {ev_with(term, i, x) for x in range(256)}
        if len(img) < 256:
            return c.rec(name, where, rule, "VIOLATED", f"byte {i} takes only {len(img)} values")
        for j, u in enumerate(used):
            if u & fr and not any(k[0] == "whole" for k in E.touch):
                return c.rec(name, where, rule, "VIOLATED", f"bytes {i} and {j} share a draw")
        used.append(fr)
    return c.rec(name, where, rule, "proved", "32 distinct OS bytes")


def ev_with(term, i, x):
    E = ev.Env(0)
    E.freshfn = lambda key, w: x if w == 8 else (x * 0x0101010101010101) & ((1 << w) - 1)
    return E.ev(idx(term, c64(i), 8))


def P03(c):
    """ternary distribution"""
    items = [(K + "utils::matrices::random_ternary", lambda: (summary(K + "utils::matrices::random_ternary").ret, lambda s: {}), "random_ternary")]
    items.append((K + "utils::matrices::random_ternary_vector",
                  lambda: (idx(summary(K + "utils::matrices::random_ternary_vector").ret, c64(1), 32), lambda s: {"a0": 4}), "random_ternary_vector"))
    for kind, _, _ in KINDS:
        def mkk(which, kind=kind):
            def f():
                for nm, t, sy in _coords(kind, 2, 2, 2):
                    if nm == which:
                        return t, sy
            return f
        items.append((NEW[kind], mkk("e[1]"), f"{kind}: LWE error"))
        items.append((NEW[kind], mkk("s[1]"), f"{kind}: LWE secret"))
        try:
            sizes = coord_sizes(kind)
        except (Undecided, ev.Opaque):
            sizes = []
        for n in sizes:
            for w, what in (("e", "error"), ("s", "secret")):
                for i in (n - 1, n):
                    items.append((NEW[kind], lambda kind=kind, w=w, i=i, n=n: _coord(kind, w, i, n + 1), f"{kind}: LWE {what} (coordinate {i} of {n + 1})"))
    try:
        t = summary(K + "utils::matrices::random_ternary_vector").ret
        for n in harvest([t]):
            for i in (n - 1, n):
                items.append((K + "utils::matrices::random_ternary_vector", lambda i=i, n=n: (idx(t, c64(i), 32), lambda s: {"a0": n + 1}), f"random_ternary_vector (entry {i} of {n + 1})"))
    except (Undecided, Missing, ev.Opaque):
        pass
    for where, get, nm in items:
        def go(where=where, get=get, nm=nm):
            t, sy = get()
            dist(c, nm, where, t, sy)
        c.guard(nm, where, go)


def piecewise(t, bps, seen):
    """is t piecewise constant in the random leaf with threshold breakpoints?
    collects the breakpoints"""
    if not has_fresh(t):
        return True
    if t in seen:
        return seen[t]
    seen[t] = True
    r = True
    if t.op in ("fresh", "draw", "freshseq", "phi"):
        r = False
    elif t.op == "loopn":
        rec = TM.EXITS.get(t.a[0])
        r = rec is not None and piecewise(rec[2], bps, seen)
    elif t.op == "loopval":
        rec = TM.LOOPSYS.get(t.a[0])
        r = rec is not None and all(x.op != "poly" and (plain(x) or piecewise(x, bps, seen)) for p, nx, x0 in rec[2].values() for x in (nx, x0))
    elif t.op in ("pos", "eq0") and linear(t.a[0], bps):
        r = all(piecewise(x, bps, seen) for x in conds(t.a[0]))
    elif t.op in ("lt", "slt") and linear(sub(t.a[0], t.a[1]), bps):
        r = all(piecewise(x, bps, seen) for x in conds(t))
    elif t.op == "lam":
        r = piecewise(t.a[2], bps, seen)
    else:
        r = all(piecewise(k, bps, seen) for k in TM._kids(t.a))
    seen[t] = r
    return r


def conds(t):
    """the selector conditions and loop indices inside a linear comparison"""
    if t.op == "ite":
        return [t.a[0]] + conds(t.a[1]) + conds(t.a[2])
    if t.op in ("fresh", "draw", "loopval"):
        return [x for x in subterms(t) if x.op == "loopn"]
    return [y for x in TM._kids(t.a) for y in conds(x)]


def linear(p, bps):
    items = dict(p.a[0]) if p.op == "poly" else {(p,): 1} if p.op != "c" else {}
    k0 = signed(items.get((), 0), p.w)
    n = 0
    out = set()
    for mono, cf in items.items():
        if not mono:
            continue
        cf = signed(cf, p.w)
        if len(mono) != 1 or not plain(mono[0]):
            return False
        n += 1
        q = -k0 // cf
        out |= {q - 1, q, q + 1, q + 2}
    if n == 1:
        bps |= out
    return n == 1


def dist(c, nm, where, t, sy):
    name = f"{nm}: values are exactly 0, 1, -1"
    name2 = f"{nm}: the three values are equally likely"
    rule = "interval analysis of the decision term over the accepted draw"
    # which leaves does one sample use?
    E = ev.Env(c.seed, sy(1))
    try:
        E.ev(t)
    except ev.Big:
        raise Undecided("sampling loop does not terminate in the model")
    leaves = {k for k in E.touch if k[0] in ("fresh", "draw")}
    ws = set()

    def run(v):
        E = ev.Env(0, sy(1))
        E.maxiter = 3

        def ff(key, w):
            ws.add(w)
            return v & ((1 << w) - 1)
        E.freshfn = ff
        try:
            return E.ev(t)
        except ev.Big:
            return None
    run(0)
    bps = set()
    simple = len(ws) == 1
    W = max(ws)
    simple = piecewise(t, bps, {}) and simple
    counts = {}
    if simple and W <= 64:
        N = 1 << W
        pts = sorted({b for b in bps if 0 <= b < N} | {0, N - 1})
        tot = {}

        def addc(v, n):
            tot[v] = tot.get(v, 0) + n
        for i, p in enumerate(pts):
            addc(run(p), 1)
            if i + 1 < len(pts) and pts[i + 1] > p + 1:
                a, b = run(p + 1), run(pts[i + 1] - 1)
                if a != b:
                    simple = False
                    break
                addc(a, pts[i + 1] - p - 1)
        counts = tot
        how = f"{len(pts)} breakpoints, whole {W}-bit range"
        tol = 0
    if not simple:
        R = rng(c.seed, "dist")
        n = 3000 if c.tier == "quick" else 12000
        counts = {}
        for s in range(n):
            E = ev.Env(R.getrandbits(60), sy(1))
            E.freshfn = lambda key, w, s=R.getrandbits(60): ev.h64(s, key) & ((1 << w) - 1)
            try:
                v = E.ev(t)
            except ev.Big:
                v = None
            counts[v] = counts.get(v, 0) + 1
        how = f"random interpretation of the decision term, {n} valuations"
        tol = 0.035 if n < 5000 else 0.02
    acc = {k: v for k, v in counts.items() if k is not None}
    extra = set(acc) - {0, 1, M32}
    c.rec(name, where, rule, "VIOLATED" if extra or len(acc) != 3 else ("proved" if simple else "agreed"),
          f"values {sorted(acc)}; {how}")
    tot = sum(acc.values()) or 1
    fr = {k: acc.get(k, 0) / tot for k in (0, 1, M32)}
    off = max(abs(x - 1 / 3) for x in fr.values())
    uneven = off > tol if tol else len({acc.get(k, 0) for k in (0, 1, M32)}) > 1
    c.rec(name2, where, rule, "VIOLATED" if uneven else ("proved" if simple else "agreed"),
          f"accepted draws 0:{acc.get(0, 0)} 1:{acc.get(1, 0)} -1:{acc.get(M32, 0)}; {how}")
    rej = counts.get(None, 0) / (sum(counts.values()) or 1)
    if simple:
        c.rec(f"{nm}: rejection is bounded away from 1", where, rule, "VIOLATED" if rej > 0.9 else "proved", f"rejection probability {rej:.3e}")


has_fresh = ev.has_fresh


def plain(t):
    """a fresh leaf, zero-extended or chosen between fresh leaves"""
    if t.op in ("fresh", "draw", "loopval", "phi"):
        return True
    if t.op == "zext":
        return plain(t.a[0])
    if t.op == "ite":
        return plain(t.a[1]) and plain(t.a[2])
    return False


def inner_product(seq_, M):
    """decompose map(len M, i -> sum(n, j -> M[i][j]*S(j)) + E(i)) syntactically:
    (n, S with the canonical index variable, E) or None"""
    if seq_.op != "map" or seq_.a[0] is not slen(M):
        return None
    i = fresh_var(64, [slen(M)])
    body = open_(seq_.a[1], i)
    items = dict(body.a[0]) if body.op == "poly" else {(body,): 1}
    sums = [m for m in items if len(m) == 1 and m[0].op == "sum" and items[m] == 1 and contains(m[0], M)]
    if len(sums) != 1:
        return None
    sm = sums[0][0]
    del items[sums[0]]
    E = TM.from_poly(items, 32)
    j = JV
    TM.VAR_UB[j.a[0]] = [sm.a[0]]
    sb = open_(sm.a[1], j)
    if sb.op != "poly" or len(sb.a[0]) != 1:
        return None
    (mono, cf), = sb.a[0]
    want = idx(idx(M, i), j, 32)
    rest = list(mono)
    if cf != 1 or want not in rest:
        return None
    rest.remove(want)
    if len(rest) != 1 or contains(rest[0], M) or contains(rest[0], i) or contains(E, M):
        return None
    return sm.a[0], rest[0], E


JV = fresh_var(64, [c64(1)])


def P04(c):
    """lhs = s.A + e ; rhs = s.H, same s"""
    for kind, _, path in KINDS:
        def go(kind=kind, path=path):
            where = NEW[kind]
            s, okc, lhs, rhs = _new_terms(kind)
            try:
                A = G(s.args[0], "0", path=K + "db::CommonParams")
                H = G(s.args[1], "rhs", path=path)
                d1, d2 = inner_product(lhs, A), inner_product(rhs, H)
                okp = d1 and d2 and d1[:2] == d2[:2] and d2[2] is const(0, 32)
            except (AttributeError, AssertionError, TypeError):
                okp = False
            if okp:
                c.rec(f"{kind}: lhs = s*A + e and rhs = s*H for one secret s", where,
                      "canonical form: both are inner products with the same secret term", "proved",
                      f"secret length {TM.show(d1[0])[:80]}; same secret subterm in lhs and rhs; E(i) and s(j) free of A and H")

            def one(seed, dims=None):
                R = rng(seed, "p04")
                d, m, w = dims or (R.randrange(1, 6), R.randrange(1, 6), R.randrange(1, 6))
                A, H = mat(R, m, d), mat(R, w, d)
                zero = tuple((0,) * d for _ in range(m))

                def at(term, A, H):
                    return ev.Env(seed, new_syms(kind, A=A, H=H, dim=d)(seed)).ev(term)
                e = at(lhs, zero, ((0,) * d,))
                # a long secret is read off at a few coordinates, the matrices vanishing elsewhere
                at_ = range(d) if d < 300 else sorted({0, 1, d - 1, d - 2, d // 2, 255, 256} | {R.randrange(d) for _ in range(4)})
                if d >= 300:
                    A, H = (tuple(tuple(x if j in at_ else 0 for j, x in enumerate(r)) for r in M) for M in (A, H))
                u = at(rhs, A, tuple(tuple(int(i == j) for j in range(d)) for i in at_))
                if len(u) != len(at_):
                    return f"{len(u)} entries of s.H for {len(at_)} rows"
                sv = [0] * d
                for i, x in zip(at_, u):
                    sv[i] = x
                L, Rr = at(lhs, A, H), at(rhs, A, H)
                if len(e) != m or len(sv) != d:
                    return f"dimensions: {len(e)} error terms for {m} rows, {len(sv)} secret entries for dimension {d}"
                wl = tuple((sum(a * b for a, b in zip(A[i], sv)) + e[i]) & M32 for i in range(m))
                wr = tuple(sum(a * b for a, b in zip(H[i], sv)) & M32 for i in range(w))
                if L != wl:
                    return f"lhs is not s.A + e: got {short(L)} want {short(wl)} (dim {d}, rows {m})"
                if Rr != wr:
                    return f"rhs is not s.H: got {short(Rr)} want {short(wr)} (dim {d}, rows {w})"
            c.sampled(f"{kind}: lhs = s*A + e and rhs = s*H for one secret s", where,
                      "affine decomposition of the value graph: s and e are read off at A=0, H=I and must reproduce every other (A,H)", one)

            def large(n):
                if n < 1:
                    return
                for d, m, w in ((1, n, 1), (1, 1, n), (n, 1, 1)) + (((n, 2, 2), (2, n, n)) if n < 5000 else ()):
                    r = one(n, (d, m, w))
                    if r:
                        return r
            c.sized(f"{kind}: lhs = s*A + e and rhs = s*H for one secret s", where,
                    "the same at every size the value graph distinguishes", [lhs, rhs], large, hi=1 << 17)

            def noisy():
                for n in [2] + coord_sizes(kind):
                    for w, what in (("e", "error"), ("s", "secret")):
                        if n > 4100 and w == "s":
                            continue      # long secrets: see the affine decomposition
                        for i in sorted({0, n - 1, n}):
                            for length in (n + 1, n + 2):
                                t, sy = _coord(kind, w, i, length)
                                img = set()
                                for r in range(40):
                                    E = ev.Env(c.seed * 101 + r, sy(r))
                                    img.add(E.ev(t))
                                    if len(img) > 2:
                                        break
                                if len(img) < 2:
                                    return f"{what} coordinate {i} of {length} is the constant {img.pop()}: no noise is added there"
                                if not img <= {0, 1, M32}:
                                    return f"{what} coordinate {i} of {length} takes the value {max(img - {0, 1, M32})}: the noise there is not ternary"
            try:
                bad = noisy()
                c.rec(f"{kind}: every error and secret coordinate is random", where, "image of the coordinate's value graph over its random leaves, at every size the graph distinguishes",
                      "VIOLATED" if bad else "proved", bad or "")
            except (ev.Big, ev.Partial, ev.Opaque) as e:
                c.rec(f"{kind}: every error and secret coordinate is random", where, "image", "undecided", str(e))

            A = G(s.args[0], "0", path=K + "db::CommonParams")
            H = G(s.args[1], "rhs", path=path)
            d = G(s.args[1], "dim", path=path)
            c.canon(f"{kind}: parameters are produced exactly when all dimensions match", where, okc,
                    TM.b_not(TM.b_or(tany(slen(A), lambda i: TM.ne(d, slen(idx(A, i)))), tany(slen(H), lambda i: TM.ne(d, slen(idx(H, i)))))),
                    "Ok condition = every row of A and of the hint has length dim")

            def oks(seed):
                R = rng(seed, "ok")
                d = R.randrange(1, 5)
                A, H = [list(r) for r in mat(R, R.randrange(1, 4), d)], [list(r) for r in mat(R, R.randrange(1, 4), d)]
                bad = R.randrange(3)
                if bad:
                    M = A if bad == 1 else H
                    r = R.choice(M)
                    r.append(1) if R.randrange(2) or len(r) == 1 else r.pop()
                v = ev.Env(seed, new_syms(kind, A=tuple(map(tuple, A)), H=tuple(map(tuple, H)), dim=d)(seed)).ev(okc)
                if v != (bad == 0):
                    return f"Ok={v} for matrix rows {[len(r) for r in A]} / hint rows {[len(r) for r in H]} and secret dimension {d}"
            c.sampled(f"{kind}: parameters are produced exactly when all dimensions match", where,
                      "Ok condition of the summary", oks)
        c.guard(f"{kind}: LWE relation", NEW[kind], go)


# ---------------------------------------------------------------- P05
def P05(c):
    def gi():
        key = QI + "generate_query"
        s = summary(key)
        used0 = mk("sym", qpf("used"), w="b")
        p = mk("sym", qpf("plaintext_bits"), w=64)
        a1 = mk("sym", "a1", w=64)
        q = G(ok_val(s.ret), "0", path=K + "api::Query")
        lhs = s_sym(s, "lhs")
        want = upd(lhs, a1, add(delta(p), idx(lhs, a1, 32)))
        c.eq("index: query = lhs + Delta at exactly the requested row", key, q, want,
             "value graph: upd(lhs, row, lhs[row] +w Delta)", pre=TM.b_not(used0), syms=query_syms("index"))
    c.guard("index query", QI, gi)

    def gk():
        key = QK + "generate_query"
        s = summary(key)
        q = G(ok_val(s.ret), "0", path=K + "api::Query")
        he = K + "db::kv::FilterParams::get_hash_evals"
        h = summary(he)

        def one(seed):
            sy = query_syms("kv")(seed)
            sy[qpf("used")] = False
            if sy[qpf("extra_params")] == NONE:
                return "skip"
            E = ev.Env(seed, sy)
            got = E.ev(q)
            f2 = {"a0": sy[qpf("extra_params")][3][0], "a1": sy["a1"]}
            hs = ev.Env(seed, expand(f2)).ev(h.ret)
            lhs = sy[qpf("lhs")]
            D = (1 << 32) // (1 << sy[qpf("plaintext_bits")])
            w = list(lhs)
            for x in hs:
                if x >= len(w):
                    return f"probe {x} outside a filter of length {len(w)}"
                w[x] = (w[x] + D) & M32
            if len(hs) != 3 or len(set(hs)) != 3:
                return f"{len(set(hs))} distinct probes"
            if got != tuple(w):
                return f"query differs from lhs + Delta at the three probes {hs}: {short([(i, a, b) for i, (a, b) in enumerate(zip(got, w)) if a != b])}, lengths {len(got)}/{len(w)}"
        c.sampled("kv: query = lhs + Delta at exactly the three filter probes of the key", key,
                  "value graph of the query against lhs + Delta * indicator(probes)", one)
    c.guard("kv query", QK, gk)
    # target-independence of everything but the marked entries, and of the length
    for kind, q, _ in KINDS:
        def gl(kind=kind, q=q):
            s = summary(q + "generate_query")
            t = G(ok_val(s.ret), "0", path=K + "api::Query")
            c.eq(f"{kind}: the query length does not depend on the target", q + "generate_query", slen(t), slen(s_sym(s, "lhs")),
                 "length term", pre=ok_cond(s.ret), syms=query_syms(kind))
            # a failed call reveals / changes nothing else
            cell = s.mem0(0).a[0]
            after = s.S.mem[cell]
            for f in ("lhs", "rhs", "elem_size", "plaintext_bits"):
                c.eq(f"{kind}: generating a query leaves {f} of the parameters unchanged", q + "generate_query",
                     G(after, f, path=QP), s_sym(s, f), "frame condition", syms=query_syms(kind))
        c.guard(f"{kind} query frame", q, gl)


def s_sym(s, f):
    """the entry value of a field of *a0 (a &mut argument)"""
    return G(s.I.mem0[s.mem0(0).a[0]], f, path=QP)


# ---------------------------------------------------------------- P11
def P11(c):
    for kind, q, _ in KINDS:
        def go(kind=kind, q=q):
            key = q + "parse_resp_as_row"
            s = summary(key)
            row = ok_val(s.ret) if kind == "kv" else s.ret
            rn = fields_of(K + "api::Response")[0]["name"]

            def one(seed):
                R = rng(seed, "p11")
                p = pbits(R)
                D, N = 1 << (32 - p), 1 << p
                es = R.randrange(1, 80)
                w = -(-es // p)
                if w > 12:
                    es = p * R.randrange(1, 9)
                    w = es // p
                rhs = u32s(R, w)
                sy = {qpf("lhs"): u32s(R, 3), qpf("rhs"): rhs, qpf("elem_size"): es, qpf("plaintext_bits"): p,
                      qpf("used"): True, qpf("extra_params"): some(fparams(R)[0]) if kind == "kv" else NONE}
                if kind == "kv":
                    sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))

                def at(resp):
                    d = dict(sy)
                    d["a1"] = ("agg", K + "api::Response", 0, (resp,))
                    d["a1." + rn] = resp
                    return ev.Env(seed, d).ev(row)
                base = at(rhs)
                lim = (D - 1) // 2
                vs = [R.randrange(N) if R.randrange(3) else R.choice((0, N - 1)) for _ in range(w)]
                es_ = [R.choice((0, lim, -lim, R.randrange(-lim, lim + 1))) for _ in range(w)]
                got = at(tuple((r + v * D + e) & M32 for r, v, e in zip(rhs, vs, es_)))
                if len(got) != w:
                    return f"{len(got)} decoded entries for {w} columns"
                if kind == "index" and base != (0,) * w:
                    return f"decoding the hint itself gives {base}, not zeros"
                for i in range(w):
                    want = (vs[i] + base[i]) % N
                    if got[i] != want:
                        return f"p={p} column {i}: plaintext {vs[i]} with noise {es_[i]} (|noise| <= {lim}) decodes to {got[i]}, want {want}"
            c.sampled(f"{kind}: decoding rounds to the nearest multiple of Delta and reduces mod 2^p", key,
                      "decode(rhs + v*Delta + e) = v (+ the column's mask) mod 2^p for every |e| < Delta/2, over the value graph", one)

        c.guard(f"{kind} decode", q, go)

    # the same Delta is used by the sender
    def dl():
        for f, want in (("get_rounding_factor", lambda p: delta(p)), ("get_plaintext_size", lambda p: psize(p)),
                        ("get_rounding_floor", lambda p: div(delta(p), const(2, 32)))):
            key = K + "utils::lwe::" + f
            try:
                s = summary(key)
            except Missing:
                continue
            c.eq(f"{f}: closed form", key, s.ret, want(mk("sym", "a0", w=64)), "value graph", syms=lambda sd: {"a0": 1 + sd % 31})
    c.guard("scaling helpers", K + "utils::lwe", dl)
