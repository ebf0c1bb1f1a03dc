"""Database construction, element codec, accessors, wiring, input validation."""
from core import *
import mirq
from client import QP, QI, QK, IP, KP, FP, KINDS, NEW, params_value, fparams, expand, pbits, some, NONE
from server import SH, DB, PAR, DM, BP, RESP, db_value, shard_value, height, is_result

B64D = "base64::decode::decode"
B64E = "base64::encode::encode"
F = K + "utils::format::"


def okv(v):
    return ("agg", RES, 0, (v,))


def errv(v=("opq", 1)):
    return ("agg", RES, 1, (v,))


def b64_hooks(E):
    """base64 as an abstract lossless codec: ('str', ('b64', bytes)) <-> bytes"""
    def dec(E, xs, t):
        x = xs[0]
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "str" and isinstance(x[1], tuple) and x[1][:1] == ("b64",):
            return okv(x[1][1])
        return errv()

    def enc(E, xs, t):
        return ("str", ("b64", tuple(xs[0])))
    E.hooks[B64D] = dec
    E.hooks[B64E] = enc
    return E


def b64(bs):
    return ("str", ("b64", tuple(bs)))


BADB64 = ("str", ("junk",))


def geometry(R):
    """(plaintext bits, element bits, row width)"""
    p = R.choice((1, 2, 3, 5, 7, 8, 9, 10, 10, 12, 13, 16, 17, 24, 31))
    es = R.choice((8, 16, 24, 40, 64, p, 2 * p, 3 * p, R.randrange(1, 70), R.randrange(65, 140)))
    if p < 3:
        es = min(es, 24)
    return p, es, -(-es // p)


def elem_bytes(R, es, p):
    L = -(-es // 8) + R.choice((0, 0, 0, 1, 3))
    return tuple(R.choice((R.getrandbits(8), 0xff, 0x80, R.getrandbits(8))) for _ in range(L))


def low_bits(bs, es):
    """the element truncated / zero padded to es bits, as bytes"""
    n = int.from_bytes(bytes(bs), "little") & ((1 << es) - 1)
    return tuple(n.to_bytes(-(-es // 8), "little"))


def index_new_env(seed, bad=False, geo=None):
    R = rng(seed, "inew")
    p, es, w = geo or geometry(R)
    m = R.randrange(1, 4) if not geo else 2
    els = [elem_bytes(R, es, p) for _ in range(m + R.choice((0, 0, 1)))]
    if geo:
        els[1] = els[1][:-(-es // 8) - 2] + (0, 0)
    strs = [b64(b) for b in els]
    mode = R.randrange(5) if bad else 0
    if mode == 1:
        strs = strs[:R.randrange(m)]
    elif mode == 2:
        strs[R.randrange(m)] = BADB64
    elif mode == 3:
        need = (w - 1) * p
        if need < 8:
            mode = 0
        else:
            i = R.randrange(m)
            k = R.randrange(-(-need // 8))
            strs[i] = b64(els[i][:k])
    E = b64_hooks(ev.Env(seed, {"a0": tuple(strs), "a1": m, "a2": es, "a3": p}))
    return E, dict(p=p, es=es, w=w, m=m, els=els, strs=strs, mode=mode)


def shapes(n):
    """element geometries in which n is the number of bytes, columns, or bits"""
    for p, es in ((8, 8 * n), (9, 8 * n), (8, 8 * n - 3), (5, 5 * n), (1, n)):
        if 0 < es <= 1 << 15:
            yield p, es, -(-es // p)


# ---------------------------------------------------------------- P12
def P12(c):
    """elements survive storage, retrieval and decoding bit for bit"""
    newk, getk = K + "db::index::IndexDatabase::new", DM["index"] + "get_db_entry"

    def rt():
        s, g = summary(newk), summary(getk)

        def one(seed, geo=None):
            E, i = index_new_env(seed, geo=geo)
            db = E.ev(ok_val(s.ret))
            for r in range(i["m"]):
                E2 = b64_hooks(ev.Env(seed, expand({"a0": db, "a1": r})))
                got = E2.ev(g.ret)
                want = b64(low_bits(i["els"][r], i["es"]))
                if got != want:
                    return f"element {r} of {i['es']} bits stored with {i['p']} plaintext bits: {bytes(i['els'][r]).hex()} reads back as {show64(got)}"
            ent = db[3][fidx(DB["index"], "entries")]
            if len(ent) != i["w"] or any(len(x) != i["m"] for x in ent):
                return f"matrix is {len(ent)} x {[len(x) for x in ent]}, want {i['w']} columns of {i['m']}"
            if any(x >> i["p"] for col in ent for x in col):
                return f"an entry does not fit into {i['p']} plaintext bits"
        c.sampled("index: get_db_entry(new(elements), i) = elements[i]", newk,
                  "composition of the two summaries is the identity on elem_size bits; entries < 2^p", one)
        c.sized("index: get_db_entry(new(elements), i) = elements[i]", newk, "composition at the sizes the value graphs distinguish",
                [s.ret, g.ret], lambda n: next(filter(None, (one(c.seed + n, g_) for g_ in shapes(n))), None), 1 << 13)
    c.guard("index round trip", newk, rt)

    # the client decodes the same layout
    for kind, q in (("index", QI), ("kv", QK)):
        def dec(kind=kind, q=q):
            for fn in ("parse_resp_as_bytes", "parse_resp_as_base64"):
                key = q + fn
                s = summary(key)
                row = summary(q + "parse_resp_as_row")
                sl = summary(newk)

                def one(seed, geo=None):
                    E, i = index_new_env(seed, geo=geo)
                    R = rng(seed, "dec")
                    db = E.ev(ok_val(sl.ret))
                    ent = db[3][fidx(DB["index"], "entries")]
                    r = R.randrange(i["m"]) if not geo else seed % 2
                    D = 1 << (32 - i["p"])
                    rhs = u32s(R, i["w"])
                    fp = fparams(R)[0]
                    sy = qp_syms(R, rhs, i["es"], i["p"], some(fp) if kind == "kv" else NONE)
                    if kind == "kv":
                        sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))
                        zero = b64_hooks(ev.Env(seed, with_resp(sy, rhs))).ev(ok_val(row.ret))
                        vals = [(ent[x][r] - zero[x]) % (1 << i["p"]) for x in range(i["w"])]
                    else:
                        vals = [ent[x][r] for x in range(i["w"])]
                    resp = tuple((h + v * D) & 0xffffffff for h, v in zip(rhs, vals))
                    E2 = b64_hooks(ev.Env(seed, with_resp(sy, resp)))
                    got = E2.ev(ok_val(s.ret) if kind == "kv" else s.ret)
                    want = low_bits(i["els"][r], i["es"])
                    if fn.endswith("64"):
                        want = b64(want)
                    if got != want:
                        return f"element of {i['es']} bits with {i['p']} plaintext bits: {bytes(i['els'][r]).hex()} decodes to {show64(got)}"
                c.sampled(f"{kind}: {fn} inverts the storage layout", key, "composition with the storage summary is the identity", one)
                c.sized(f"{kind}: {fn} inverts the storage layout", key, "composition at the sizes the value graph distinguishes",
                        [s.ret], lambda n: next(filter(None, (one(z, g_) for g_ in shapes(n) for z in (n, n + 1))), None), 1 << 13)
        c.guard(f"{kind} decode", q, dec)

    def kvrow():
        """KV values use the same chunking as the decoder"""
        key = K + "db::kv::KeyValue::from_base64_strings"
        s = summary(key)
        b = summary(F + "bytes_from_u32_slice")

        def one(seed):
            R = rng(seed, "kvrow")
            p, es, w = geometry(R)
            bs = elem_bytes(R, es, p)
            E = b64_hooks(ev.Env(seed, {"a0": ("str", "k"), "a1": b64(bs), "a2": es, "a3": p}))
            kv = E.ev(ok_val(s.ret))
            val = kv[3][fidx(K + "db::kv::KeyValue", "value")]
            if len(val) != w or any(x >> p for x in val):
                return f"value of {es} bits with {p} plaintext bits becomes {short(val)}, want {w} entries below 2^{p}"
            got = ev.Env(seed, {"a0": val, "a1": p, "a2": es}).ev(b.ret)
            if got != low_bits(bs, es):
                return f"value {bytes(bs).hex()} ({es} bits, p={p}) re-encodes to {show64(got)}"
        c.sampled("kv: the stored value entries re-encode to the value", key, "composition of KeyValue parsing and byte re-assembly is the identity", one)
    c.guard("kv value", K + "db::kv::KeyValue::from_base64_strings", kvrow)

    def single():
        """floats are modelled as exact rationals; single precision is exact only below 2^24"""
        rule = "range of the loop index / length converted to f32: within the 24-bit significand"
        keys = [newk, getk, K + "db::kv::KeyValue::from_base64_strings"] + [q + f for q in (QI, QK) for f in ("parse_resp_as_bytes", "parse_resp_as_base64")]
        for key in keys:
            try:
                s = summary(key)
            except (Undecided, Missing):
                continue
            for e in s.events:
                if e["kind"] != "f32":
                    continue
                b = top(e["term"], {l[0]: l[1] for l in e["loops"] if l[1] is not None})
                where = e["stack"][-1][0] if e["stack"] else key
                c.rec("sizes converted to single precision stay exact", where, rule,
                      "proved" if b is not None and b <= 1 << 24 else "VIOLATED" if b == float("inf") else "undecided",
                      f"{TM.show(e['term'])[:80]} can be {'any size' if b == float('inf') else b}")
    c.guard("single precision", newk, single)

    def prim():
        a0 = mk("sym", "a0")
        for key, f, sy, chk in (
            (F + "u32_to_bits_le", lambda s: s.ret, lambda R: {"a0": R.getrandbits(32), "a1": R.randrange(33)},
             lambda d: tuple(bool(d["a0"] >> i & 1) for i in range(d["a1"]))),
            (F + "bits_to_bytes_le", lambda s: s.ret, lambda R: {"a0": tuple(bool(R.getrandbits(1)) for _ in range(R.randrange(40)))},
             lambda d: tuple(sum(b << i for i, b in enumerate(d["a0"][k:k + 8])) for k in range(0, len(d["a0"]), 8))),
            (F + "bytes_to_bits_le", lambda s: s.ret, lambda R: {"a0": tuple(R.getrandbits(8) for _ in range(R.randrange(6)))},
             lambda d: tuple(bool(x >> i & 1) for x in d["a0"] for i in range(8))),
            (F + "bits_to_u32_le", lambda s: ok_val(s.ret), lambda R: {"a0": tuple(bool(R.getrandbits(1)) for _ in range(R.randrange(33)))},
             lambda d: sum(b << i for i, b in enumerate(d["a0"]))),
        ):
            try:
                s = summary(key)
            except Missing:
                continue

            def one(seed, s=s, f=f, sy=sy, chk=chk):
                d = sy(rng(seed, "prim"))
                got = ev.Env(seed, dict(d)).ev(f(s))
                if got != chk(d):
                    return f"{short(d)} -> {short(got)}, want {short(chk(d))}"
            c.sampled(f"{key.split('::')[-1]}: little-endian bit order", key, "value graph against the little-endian definition", one)
    c.guard("codec primitives", F, prim)


def top(t, bound):
    """largest value of a size term: inf when it grows with an input's length, None if unknown"""
    inf = float("inf")
    if t.op == "c":
        return t.a[0]
    if t.op == "zext":
        b = top(t.a[0], bound)
        return b
    if t.op == "var":
        n = bound.get(t)
        b = top(n, bound) if n is not None else None
        return b if b in (None, inf) else b - 1
    if t.op == "len" or (t.op == "sym" and t.w == 64):
        return inf
    if t.op == "rem" and t.a[1].op == "c":
        return t.a[1].a[0] - 1
    if t.op == "div" and t.a[1].op == "c":
        b = top(t.a[0], bound)
        return b if b in (None, inf) else b // t.a[1].a[0]
    if t.op == "poly":
        r = 0
        for mono, cf in t.a[0]:
            cf = TM.signed(cf, t.w)
            bs = [top(x, bound) for x in mono]
            if cf < 0 or None in bs:
                return None
            n = cf
            for b in bs:
                n *= b
            r += n
        return r
    if isinstance(t.w, int) and t.w <= 16:
        return (1 << t.w) - 1
    return None


def show64(v):
    if isinstance(v, tuple) and v and v[0] == "str" and isinstance(v[1], tuple):
        v = v[1][1] if len(v[1]) > 1 else v
    try:
        return bytes(v).hex()
    except (TypeError, ValueError):
        return short(v)


def qp_syms(R, rhs, es, p, extra):
    from client import qpf
    return {qpf("lhs"): u32s(R, 3), qpf("rhs"): rhs, qpf("elem_size"): es, qpf("plaintext_bits"): p,
            qpf("used"): True, qpf("extra_params"): extra}


def with_resp(sy, resp):
    d = dict(sy)
    d["a1"] = ("agg", RESP, 0, (resp,))
    d["a1." + fields_of(RESP)[0]["name"]] = resp
    return d


# ---------------------------------------------------------------- P10
def P10(c):
    """every parameter reaches the place that uses it"""
    def shard():
        key = SH["index"] + "::from_base64_strings"
        s = summary(key)
        v = ok_val(s.ret)
        dim, m, es, p = s.args[1:5]
        db, bp = G(v, "db", path=SH["index"]), G(v, "base_params", path=SH["index"])
        for nm, got, want in (
            ("database m", G(db, "m", path=DB["index"]), m), ("database elem_size", G(db, "elem_size", path=DB["index"]), es),
            ("database plaintext_bits", G(db, "plaintext_bits", path=DB["index"]), p), ("params dim", G(bp, "dim", path=IP), dim),
            ("params m", G(bp, "m", path=IP), m), ("params elem_size", G(bp, "elem_size", path=IP), es),
            ("params plaintext_bits", G(bp, "plaintext_bits", path=IP), p)):
            c.eq(f"index shard: {nm} is the caller's argument", key, got, want, "value graph: parameter identity",
                 pre=ok_cond(s.ret), envf=lambda sd: index_shard_env(sd))
    c.guard("index shard", SH["index"], shard)

    def params():
        for kind in ("index", "kv"):
            key = PAR[kind] + "::new"
            s = summary(key)
            pv = ok_val(s.ret) if is_result(key) else s.ret
            db = s.args[0]

            def sy(sd, kind=kind):
                R = rng(sd, "pn")
                v, info = db_value(kind, R)
                d = {"a0": v, "a1": R.randrange(1, 5)}
                if kind == "kv":
                    for n_, x in enumerate(fparams(R)[0][3]):
                        d[f"a{2 + n_}"] = x
                return expand(d)
            for nm, want in (("dim", s.args[1]), ("m", height(kind, db)), ("elem_size", G(db, "elem_size", path=DB[kind])),
                             ("plaintext_bits", G(db, "plaintext_bits", path=DB[kind]))):
                c.eq(f"{kind} params: {nm}", key, G(pv, nm, path=PAR[kind]), want, "value graph: parameter identity", syms=sy)
            if kind == "kv":
                fp = G(pv, "filter_params", path=KP)
                for i, nm in enumerate(ORIG_FIELDS[FP]):
                    c.eq(f"kv params: filter parameter {nm}", key, G(fp, nm, path=FP), s.args[2 + i], "value graph: parameter identity", syms=sy)
            for g, f in (("get_total_records", "m"), ("get_dim", "dim"), ("get_elem_size", "elem_size"), ("get_plaintext_bits", "plaintext_bits"),
                         ("get_public_seed", "public_seed"), ("get_rhs", "rhs")):
                gk = BP[kind] + g
                gs = summary(gk)

                def sy2(sd, kind=kind):
                    R = rng(sd, "pg")
                    return expand({"a0": params_value(R, PAR[kind], 3, 2, mat(R, 2, 3), 9, 4, tuple(R.getrandbits(8) for _ in range(32)))})
                c.eq(f"{kind} params: {g} returns {f}", gk, gs.ret, G(gs.args[0], f, path=PAR[kind]), "value graph: accessor", syms=sy2)
        gs = summary(KP + "::get_filter_params")
        for nm in ORIG_FIELDS[FP]:
            c.eq(f"kv params: get_filter_params {nm}", KP + "::get_filter_params", G(gs.ret, nm, path=FP), G(G(gs.args[0], "filter_params", path=KP), nm, path=FP),
                 "value graph: accessor", syms=lambda sd: expand({"a0": params_value(rng(sd, 1), KP, 3, 2, (), 9, 4, (1,) * 32)}))
    c.guard("params", IP, params)

    def shardacc():
        for kind in ("index", "kv"):
            def sy(sd, kind=kind):
                return expand({"a0": shard_value(kind, rng(sd, "sa"))[0]})
            for g, f in (("get_db", "db"), ("get_base_params", "base_params")):
                key = SH[kind] + "::" + g
                s = summary(key)
                path = DB[kind] if f == "db" else PAR[kind]
                for ff in fields_of(path):
                    c.eq(f"{kind} shard: {g}.{ff['name']}", key, fld(s.ret, 0, fidx(path, ff["name"]), field_w(path, fidx(path, ff["name"]))),
                         fld(G(s.args[0], f, path=SH[kind]), 0, fidx(path, ff["name"]), field_w(path, fidx(path, ff["name"]))), "value graph: accessor", syms=sy)
    c.guard("shard accessors", SH["index"], shardacc)

    def qpar():
        from client import new_syms
        for kind, q, path in KINDS:
            key = NEW[kind]
            s = summary(key)
            v = ok_val(s.ret)
            for f in ("elem_size", "plaintext_bits"):
                c.eq(f"{kind} query params: {f}", key, G(v, f, path=QP), G(s.args[1], f, path=path), "value graph: parameter identity",
                     pre=ok_cond(s.ret), syms=new_syms(kind))
            if kind == "kv":
                ep = G(v, "extra_params", path=QP)
                c.eq("kv query params: filter parameters are present", key, is_none(ep), FF, "value graph", pre=ok_cond(s.ret), syms=new_syms(kind))
                fp = fld(ep, 1, 0)
                for nm in ORIG_FIELDS[FP]:
                    c.eq(f"kv query params: filter parameter {nm}", key, G(fp, nm, path=FP),
                         G(G(s.args[1], "filter_params", path=KP), nm, path=FP), "value graph: parameter identity", pre=ok_cond(s.ret), syms=new_syms(kind))
    c.guard("query params", NEW["index"], qpar)
    from kv import published
    published(c, SH["kv"] + "::new", False, cols=False)
    published(c, SH["kv"] + "::from_base64_strings", True, cols=False)

    def widths():
        for kind in ("index", "kv"):
            def sy(sd, kind=kind):
                return expand({"a0": db_value(kind, rng(sd, "w"))[0]})
            for g, want in (("get_row_width_self", lambda a: cdiv(G(a, "elem_size", path=DB[kind]), G(a, "plaintext_bits", path=DB[kind]))),
                            ("get_matrix_height", lambda a: height(kind, a)), ("get_elem_size", lambda a: G(a, "elem_size", path=DB[kind])),
                            ("get_plaintext_bits", lambda a: G(a, "plaintext_bits", path=DB[kind]))):
                s = summary(DM[kind] + g)
                c.eq(f"{kind} database: {g}", DM[kind] + g, s.ret, want(s.args[0]), "value graph: accessor", syms=sy)
            s = summary(DM[kind] + "get_row_width")
            c.eq(f"{kind} database: get_row_width = ceil(elem_size/plaintext_bits)", DM[kind] + "get_row_width", s.ret, cdiv(s.args[0], s.args[1]),
                 "value graph", syms=lambda sd: {"a0": rng(sd, 1).randrange(300), "a1": rng(sd, 2).randrange(1, 33)})
    c.guard("database accessors", DB["index"], widths)


def index_shard_env(sd, bad=False):
    E, i = index_new_env(sd, bad)
    sy = {"a0": E.syms["a0"], "a1": 2 + sd % 3, "a2": i["m"], "a3": i["es"], "a4": i["p"]}
    return b64_hooks(ev.Env(sd, sy))


# ---------------------------------------------------------------- P29
def P29(c):
    """database accessors agree with the matrix"""
    for kind in ("index", "kv"):
        def go(kind=kind):
            def dbe(sd):
                R = rng(sd, "p29")
                p, es, w = geometry(R)
                m = R.randrange(1, 5)
                ent = tuple(tuple(x & ((1 << p) - 1) for x in u32s(R, m)) for _ in range(w))
                v, info = db_value(kind, R, w=w, m=m, elem=es, p=p, entries=ent)
                return v, info
            ge = summary(DM[kind] + "get_db_entry")
            it = summary(SH[kind] + "::into_row_iter")
            bs = summary(F + "bytes_from_u32_slice")

            def entry(sd):
                v, i = dbe(sd)
                for r in range(i["m"]):
                    got = b64_hooks(ev.Env(sd, expand({"a0": v, "a1": r}))).ev(ge.ret)
                    col = tuple(x[r] for x in i["entries"])
                    n = sum(x << (k * i["p"]) for k, x in enumerate(col)) & ((1 << i["elem"]) - 1)
                    want = b64(n.to_bytes(-(-i["elem"] // 8), "little"))
                    if got != want:
                        return f"entry {r}: {show64(got)} want {show64(want)} (p={i['p']}, {i['elem']} bits)"
            c.sampled(f"{kind}: get_db_entry(i) re-assembles entry i of every column", DM[kind] + "get_db_entry", "value graph against the column layout", entry)

            def rows(sd):
                v, i = dbe(sd)
                sv = shard_value(kind, rng(sd, "sv"))[0]
                fs = list(sv[3])
                fs[fidx(SH[kind], "db")] = v
                sv = ("agg", SH[kind], 0, tuple(fs))
                got = b64_hooks(ev.Env(sd, expand({"a0": sv}))).ev(iter_seq(it.ret))
                want = tuple(b64_hooks(ev.Env(sd, expand({"a0": v, "a1": r}))).ev(ge.ret) for r in range(i["m"]))
                if got != want:
                    return f"iteration yields {len(got)} rows {short(got)}, want {len(want)}"
            c.sampled(f"{kind}: into_row_iter yields every entry once, in order", SH[kind] + "::into_row_iter", "value graph: map over the matrix height", rows)

            def tall(sd, n, w=1):
                v, info = db_value(kind, rng(sd, "tall"), w=w, m=n, elem=8 * w, p=8, entries=tuple((k,) + (0,) * (n - 2) + (9 + k,) for k in range(w)))
                return v

            def many(n):
                v = tall(c.seed, n)
                fs = list(shard_value(kind, rng(c.seed, "sv"))[0][3])
                fs[fidx(SH[kind], "db")] = v
                sy = expand({"a0": ("agg", SH[kind], 0, tuple(fs))})
                got = b64_hooks(ev.Env(c.seed, sy)).ev(slen(iter_seq(it.ret)))
                if got != n:
                    return f"iteration yields {got} of {n} rows"
                for r in (0, n - 2, n - 1):
                    g = b64_hooks(ev.Env(c.seed, sy)).ev(idx(iter_seq(it.ret), c64(r)))
                    if g != b64_hooks(ev.Env(c.seed, expand({"a0": v, "a1": r}))).ev(ge.ret):
                        return f"row {r} of {n} differs from entry {r}"
            c.sized(f"{kind}: into_row_iter yields every entry once, in order", SH[kind] + "::into_row_iter", "value graph at the sizes it distinguishes", [it.ret], many)

            def far(n):
                v = tall(c.seed, n)
                for r in (0, n - 2, n - 1):
                    want = b64(((0, 0)[:1] if r not in (0, n - 1) else (0 if r == 0 else 9,)))
                    got = b64_hooks(ev.Env(c.seed, expand({"a0": v, "a1": r}))).ev(ge.ret)
                    if got != want:
                        return f"entry {r} of {n}: {show64(got)} want {show64(want)}"
            c.sized(f"{kind}: get_db_entry(i) re-assembles entry i of every column", DM[kind] + "get_db_entry", "value graph at the sizes it distinguishes", [ge.ret], far)

            sw = summary(DM[kind] + "switch_fmt")
            cell = sw.mem0(0).a[0]
            after = sw.S.mem[cell]

            def tr(sd):
                v, i = dbe(sd)
                ent = i["entries"]
                if sd % 2:          # the matrix is held by rows
                    ent = tuple(zip(*ent))
                    v = v[:3] + (tuple(ent if n == fidx(DB[kind], "entries") else x for n, x in enumerate(v[3])),)
                E = ev.Env(sd, expand({"a0": v}))
                got = E.ev(G(after, "entries", path=DB[kind]))
                want = tuple(zip(*ent))
                if got != want:
                    return f"{short(ent)} becomes {short(got)}"
                for f in ("elem_size", "plaintext_bits", "m"):
                    if E.ev(G(after, f, path=DB[kind])) != v[3][fidx(DB[kind], f)]:
                        return f"switch_fmt changes {f}"
            c.sampled(f"{kind}: switch_fmt transposes the matrix and nothing else", DM[kind] + "switch_fmt", "value graph: transpose", tr)

            def trn(n):
                for w, m in ((n, 1), (1, n), (2, n)):
                    ent = tuple(tuple(range(k, m + k)) for k in range(w))
                    v, info = db_value(kind, rng(c.seed, "tall"), w=w, m=m, elem=8 * w, p=8, entries=ent)
                    got = ev.Env(c.seed, expand({"a0": v})).ev(G(after, "entries", path=DB[kind]))
                    if got != tuple(zip(*ent)):
                        return f"a {w} x {m} matrix becomes {len(got)} x {len(got[0]) if got else 0}" + ("" if (len(got), len(got[0]) if got else 0) != (m, w) else " with other entries")
            c.sized(f"{kind}: switch_fmt transposes the matrix and nothing else", DM[kind] + "switch_fmt", "value graph at the sizes it distinguishes", [G(after, "entries", path=DB[kind])], trn, hi=1 << 13)
            gr = summary(DM[kind] + "get_row")

            def grow(sd):
                v, i = dbe(sd)
                k = sd % i["w"]
                got = ev.Env(sd, expand({"a0": v, "a1": k})).ev(gr.ret)
                if got != i["entries"][k]:
                    return f"get_row({k}) = {short(got)}"
            c.sampled(f"{kind}: get_row(i) is row i of the matrix", DM[kind] + "get_row", "value graph: accessor", grow)
        c.guard(f"{kind}: accessors", DB[kind], go)

    def util():
        M = K + "utils::matrices::"
        s = summary(M + "swap_matrix_fmt")
        a = s.args[0]

        def ms(sd):
            R = rng(sd, "m")
            return {"a0": mat(R, R.randrange(1, 5), R.randrange(1, 5)), "a1": 0}
        c.eq("swap_matrix_fmt is the transpose", M + "swap_matrix_fmt", s.ret,
             tmap(slen(idx(a, c64(0))), lambda i: tmap(slen(a), lambda j: idx(idx(a, j), i, 32))), "value graph", syms=ms)
        s2 = summary(M + "get_matrix_second_at")
        c.eq("get_matrix_second_at(m, i) = transpose(m)[i]", M + "get_matrix_second_at", s2.ret,
             tmap(slen(s2.args[0]), lambda j: idx(idx(s2.args[0], j), s2.args[1], 32)), "value graph", syms=ms)
    c.guard("matrix helpers", K + "utils::matrices", util)
    for nm, path in (("Query", K + "api::Query"), ("Response", RESP)):
        def sl(nm=nm, path=path):
            s = summary(path + "::as_slice")
            c.eq(f"{nm}::as_slice exposes exactly the stored vector", path + "::as_slice", s.ret, G(s.args[0], "0", path=path), "value graph: accessor",
                 syms=lambda sd: expand({"a0": ("agg", path, 0, (u32s(rng(sd, 0), sd % 5),))}))
        c.guard(nm, path, sl)


def iter_seq(t):
    """the remaining items of an iterator value"""
    import models
    if t.op == "agg" and t.a[0] == "It":
        return models.remaining(t)
    return t


# ---------------------------------------------------------------- P17
def P17(c):
    """malformed or mismatched input is rejected with an error, not with a
    panic and not by truncating"""
    def idxnew():
        for key, envf in ((K + "db::index::IndexDatabase::new", lambda sd: index_new_env(sd, True)), ):
            s = summary(key)
            okc = ok_cond(s.ret)

            def one(seed):
                E, i = envf(seed)
                v = E.ev(okc)
                if v != (i["mode"] not in (1, 2, 3)):
                    why = {1: "fewer elements than m", 2: "invalid base64", 3: "element too short"}.get(i["mode"], "well-formed input")
                    return f"{why}: {'accepted' if v else 'rejected'} (m={i['m']}, {len(i['strs'])} elements, {i['es']} bits, p={i['p']})"
            c.sampled("index: construction fails exactly on too few, undecodable or too short elements", key, "Ok condition of the summary", one)
            c.no_traps("index: construction never panics", key, s, lambda sd: index_new_env(sd, True)[0], "reachability of assertion / panic sites")
        key = SH["index"] + "::from_base64_strings"
        s = summary(key)

        def one(seed):
            E = index_shard_env(seed, True)
            i = index_new_env(seed, True)[1]
            if E.ev(ok_cond(s.ret)) != (i["mode"] not in (1, 2, 3)):
                return f"mode {i['mode']}"
        c.sampled("index: a shard is built exactly from well-formed elements", key, "Ok condition of the summary", one)
        c.no_traps("index: building a shard never panics", key, s, lambda sd: index_shard_env(sd, True), "reachability of assertion / panic sites")
    c.guard("index construction", K + "db::index::IndexDatabase::new", idxnew)

    def kvval():
        key = K + "db::kv::KeyValue::from_base64_strings"
        s = summary(key)

        def env(seed):
            R = rng(seed, "kvv")
            p, es, w = geometry(R)
            bs = elem_bytes(R, es, p)
            mode = R.randrange(3)
            x = b64(bs)
            if mode == 1:
                x = BADB64
            elif mode == 2:
                need = (w - 1) * p
                if need < 8:
                    mode = 0
                else:
                    x = b64(bs[:R.randrange(-(-need // 8))])
            return b64_hooks(ev.Env(seed, {"a0": ("str", "k"), "a1": x, "a2": es, "a3": p})), mode

        def one(seed):
            E, mode = env(seed)
            v = E.ev(ok_cond(s.ret))
            if v != (mode == 0):
                return f"{('well-formed value', 'invalid base64', 'value too short')[mode]}: {'accepted' if v else 'rejected'}"
        c.sampled("kv: a value is accepted exactly when decodable and long enough", key, "Ok condition of the summary", one)
        c.no_traps("kv: parsing a key-value pair never panics", key, s, lambda sd: env(sd)[0], "reachability of assertion / panic sites")
    c.guard("kv value", K + "db::kv::KeyValue::from_base64_strings", kvval)

    def resp():
        for kind in ("index", "kv"):
            key = SH[kind] + "::respond"
            s = summary(key)
            q = G(s.args[1], "0", path=K + "api::Query")

            def env(sd, kind=kind):
                R = rng(sd, "rsp")
                sv, info = shard_value(kind, R)
                m = max(0, info["m"] + R.choice((0, 0, -1, 1, 3)))
                return ev.Env(sd, expand({"a0": sv, "a1": ("agg", K + "api::Query", 0, (u32s(R, m),))})), m == info["m"]

            def one(sd, kind=kind):
                E, good = env(sd)
                if E.ev(ok_cond(s.ret)) and not good:
                    return "a query of the wrong length is answered"
            c.sampled(f"{kind}: a query of the wrong length is refused", key, "Ok condition of the summary", one)
            c.no_traps(f"{kind}: no query makes the server panic", key, s, lambda sd: env(sd)[0], "reachability of assertion / panic sites")
    from persist import malformed
    malformed(c)
    c.guard("respond", SH["index"], resp)

    def parse():
        for fn in ("parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64"):
            key = QK + fn
            s = summary(key)

            def env(sd):
                R = rng(sd, "prs")
                p, es, w = geometry(R)
                n = max(0, w + R.choice((0, 0, -1, 1, -2)))
                ep = some(fparams(R)[0]) if R.randrange(4) else NONE
                sy = qp_syms(R, u32s(R, w), es, p, ep)
                sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))
                return b64_hooks(ev.Env(sd, with_resp(sy, u32s(R, n)))), n == w and ep != NONE

            def one(sd):
                E, good = env(sd)
                if E.ev(ok_cond(s.ret)) != good:
                    return f"response length / filter parameters {'match' if good else 'do not match'} but the result is {'Err' if good else 'Ok'}"
            c.sampled(f"kv {fn}: decodes exactly responses of one entry per column", key, "Ok condition of the summary", one)
            c.no_traps(f"kv {fn}: never panics", key, s, lambda sd: env(sd)[0], "reachability of assertion / panic sites")
    c.guard("kv parse", QK, parse)

    def newp():
        from client import new_syms
        for kind, q, path in KINDS:
            key = NEW[kind]
            s = summary(key)

            def env(seed, kind=kind):
                R = rng(seed, "np")
                d = R.randrange(1, 5)
                A, H = [list(r) for r in mat(R, R.randrange(0, 4), d)], [list(r) for r in mat(R, R.randrange(0, 4), d)]
                for M in (A, H):
                    if M and R.randrange(4) == 0:
                        R.choice(M).pop()
                return ev.Env(seed, new_syms(kind, A=tuple(map(tuple, A)), H=tuple(map(tuple, H)), dim=d)(seed))
            c.no_traps(f"{kind}: generating query parameters never panics", key, s, env, "reachability of assertion / panic sites")
    c.guard("query params", NEW["index"], newp)

    def kvq():
        from client import query_syms
        key = QK + "generate_query"
        s = summary(key)
        c.no_traps("kv: generating a query never panics", key, s, lambda sd: ev.Env(sd, query_syms("kv")(sd)), "reachability of assertion / panic sites")
        key = QI + "generate_query"
        s2 = summary(key)
        c.no_traps("index: generating a query for an existing row never panics", key, s2, lambda sd: ev.Env(sd, query_syms("index")(sd)), "reachability of assertion / panic sites")
    c.guard("kv query", QK, kvq)

    def kvnew():
        key = K + "db::kv::KVDatabase::from_base64_strings"
        s = summary(key)

        def one(sd):
            R = rng(sd, "kvn")
            p, es, w = geometry(R)
            n = R.randrange(0, 4)
            keys = tuple(("str", f"k{i}") for i in range(n))
            vals = [b64(elem_bytes(R, es, p)) for _ in range(n)]
            mode = R.randrange(4)
            if mode == 1:
                vals = vals[:-1] if n and R.randrange(2) else vals + [b64(elem_bytes(R, es, p))]
            elif mode == 2 and n:
                vals[R.randrange(n)] = BADB64
            elif mode == 3 and n and (w - 1) * p >= 8:
                vals[R.randrange(n)] = b64(())
            else:
                mode = 0
            E = kv_env(ev.Env(sd, {"a0": keys, "a1": tuple(vals), "a2": n, "a3": es, "a4": p}))
            v = E.ev(ok_cond(s.ret))
            if v != (mode == 0 and n > 0):
                return f"{('well-formed input', 'keys and values differ in number', 'invalid base64 value', 'value too short')[mode]} ({n} keys): {'accepted' if v else 'rejected'}"
        c.sampled("kv: construction fails exactly on mismatched, undecodable, too short or no entries", key, "Ok condition of the summary", one)
    c.guard("kv construction", K + "db::kv::KVDatabase::from_base64_strings", kvnew)


def kv_env(E, fail=lambda n: False, log=None):
    """abstract filter construction: a function of its arguments, with segment
    parameters determined by the number of keys"""
    b64_hooks(E)
    path = X + "bfusep32::BinaryFuseP32"
    names = [f["name"] for f in fields_of(path)]
    cnt = [0]
    seen = {}

    def build(E, xs, t):
        keyx = repr(xs)
        if keyx in seen:
            return seen[keyx]
        cnt[0] += 1
        if log is not None:
            log.append(xs)
        if fail(xs):
            r = errv(("str", "failed"))
        else:
            r = okv(filter_value(xs))
        seen[keyx] = r
        return r
    E.hooks[FROM_SLICE] = build
    return E


def filter_value(xs):
    seed, keys, data, label, pm = xs[:5]
    path = X + "bfusep32::BinaryFuseP32"
    n = len(keys)
    sl = 4 if n < 3 else 8
    ln = 3 * sl
    fp = tuple(ev.h64("fp", repr(xs), i) & 0xffffffff for i in range(ln))
    d = {"seed": seed, "segment_length": sl, "segment_length_mask": sl - 1, "segment_count_length": sl, "fingerprints": fp, "ptxt_mod": pm}
    return ("agg", path, 0, tuple(d.get(f["name"], 0) for f in fields_of(path)))
