"""Confinement of the client's secrets (P22): dependence of every output,
effect, error and field on the random-source leaves of the secret and error."""
import re
from core import *
from client import (QP, QI, QK, KINDS, NEW, new_syms, query_syms, qpf, _new_terms, expand, fparams, some, NONE)
from server import SH, DB, PAR
from data import b64_hooks, qp_syms, with_resp, geometry
from effects import EFFECTS, Graph
import mirq

SINKS = {"fs.write", "output", "network", "process", "env.write", "state"}
SINKX = re.compile(r"^(std::io|core::fmt|alloc::fmt|core::io|alloc::io)::(Write|write)\b.*::?(write|write_all|write_fmt|flush)$|^serde_json::ser::to_writer|^bincode::.*serialize_into|^std::io::copy|^core::sync::atomic::.*::(store|swap|fetch_\w+)$|"
                   r"^std::sync::.*(Sender|SyncSender).*::send$|^std::thread::local.*::(set|with|replace)$|^std::panic::|^(core|std)::panicking::panic_display")


def sink_of(path):
    for p, e in EFFECTS:
        if p.search(path):
            return e if e in SINKS else None
    return "output" if SINKX.search(path) else None


def is_secret(t):
    return t.op in ("fresh", "freshseq", "draw") or (t.op == "app" and str(t.a[0]).startswith("fresh_"))


def mentions(t, pred):
    if isinstance(t, (tuple, list)):
        return any(mentions(x, pred) for x in t)
    return isinstance(t, TM.T) and any(pred(x) for x in TM.subterms(t))


def salted(E, salt, sd):
    E.freshfn = lambda k, w: ev.h64("secret", salt, sd, repr(k)) & ((1 << w) - 1)
    return E


def effects_free(c, name, key, s, secret, envs):
    """no effect of the operation takes the secret as input or happens depending on it"""
    rule = "dependence of the arguments and of the path condition of every reachable output, file, network, process or state effect"
    st, d, n = "proved", "", 0
    for e in s.events:
        if e["kind"] != "call" or not e.get("ext"):
            continue
        k = sink_of(e["path"])
        if not k:
            continue
        n += 1
        at = ":".join(str(x) for x in (e["at"] or ["?", "?"])[:2])
        for who, sec in secret:
            if mentions(e["args"], sec):
                return c.rec(name, key, rule, "VIOLATED", f"{who} flows into {e['path']} at {at}")
            if mentions(e["pc"], sec) or any(mentions(l, sec) for l in (e["loops"] or ()) if isinstance(l, TM.T)):
                vals = []
                for sd in range(40):
                    try:
                        a, b = envs(sd)
                        vals.append(a.ev(e["pc"]) != b.ev(e["pc"]))
                    except (ev.Opaque, ev.Partial, ev.Big, Undecided):
                        pass
                if any(vals):
                    return c.rec(name, key, rule, "VIOLATED", f"whether {e['path']} at {at} happens depends on {who}")
                st, d = "undecided", f"path condition of {e['path']} at {at}"
    c.rec(name, key, rule, st, d or f"{len(s.events)} events, {n} of them effects")


def twin(c, name, key, s, rule, pair, what):
    """pair(seed) -> two environments differing only in the secret; what(E, s) must agree"""
    def one(sd):
        r = pair(sd)
        if r is None:
            return "skip"
        a, b = r
        x, y = what(a), what(b)
        if x is None and y is None:
            return "skip"
        if x != y:
            return f"differs with the secret: {short(x)} / {short(y)}"
    c.sampled(name, key, rule, one, c.tries)


def result_err(s):
    def f(E):
        v = E.ev(s.ret)
        return v[3] if isinstance(v, tuple) and len(v) == 4 and v[1] == RES and v[2] == 1 else "ok"
    return f


def P22(c):
    """secrets only leave as the masked vector"""
    for kind, q, path in KINDS:
        def new(kind=kind, q=q, path=path):
            key = NEW[kind]
            s, okc, lhs, rhs = _new_terms(kind)

            def envs(sd):
                sy = new_syms(kind)(sd)
                return salted(ev.Env(sd, sy), 1, sd), salted(ev.Env(sd, sy), 2, sd)
            effects_free(c, f"{kind}: making parameters has no effect that sees the secret", key, s, [("the secret or error", is_secret)], envs)

            def bad(sd):
                R = rng(sd, "s22")
                d = R.randrange(1, 5)
                A, H = [list(r) for r in mat(R, R.randrange(1, 4), d)], [list(r) for r in mat(R, R.randrange(1, 4), d)]
                m = R.randrange(3)
                if m:
                    r = R.choice(A if m == 1 else H)
                    r.append(1) if R.randrange(2) else r.pop()
                sy = new_syms(kind, A=tuple(map(tuple, A)), H=tuple(map(tuple, H)), dim=d)(sd)
                return salted(ev.Env(sd, sy), 1, sd), salted(ev.Env(sd, sy), 2, sd)
            twin(c, f"{kind}: neither the outcome nor the error message depends on the secret", key, s,
                 "non-interference: two interpretations differing only in the random leaves give the same Ok/Err and the same error", bad, result_err(s))
            v = ok_val(s.ret)
            for f in fields_of(QP):
                if f["name"] in ("lhs", "rhs"):
                    continue
                t = G(v, f["name"], path=QP)

                def other(sd, t=t):
                    x, y = envs(sd)
                    a, b = x.ev(t), y.ev(t)
                    return None if a == b else f"depends on the secret or error: {short(a)} / {short(b)}"
                nm, rule = f"{kind}: only the masked vectors of the parameters are derived from the secret ({f['name']})", "dependence of each field on the random-source leaves"
                if not mentions(t, is_secret):
                    c.rec(nm, key, rule, "proved", "no random-source leaf in the value graph of the field")
                else:
                    c.sampled(nm, key, rule, other, c.tries)

            def through(sd):
                R = rng(sd, "mk0")
                d, m, w = R.randrange(1, 5), R.randrange(1, 4), R.randrange(1, 5)
                sy = new_syms(kind, A=mat(R, m, d), H=((0,) * d,) * w, dim=d)(sd)
                a, b = (salted(ev.Env(sd, sy), x, sd).ev(rhs) for x in (1, 2))
                if a != b:
                    return f"with an empty hint two secrets still give different kept vectors: {short(a)} / {short(b)}"
            c.sampled(f"{kind}: the secret is kept only as its product with the published hint", key, "dependence of rhs on the random-source leaves at hint 0", through, 20)

            def masked(sd):
                R = rng(sd, "mk")
                d, m = R.randrange(2, 5), R.randrange(2, 5)
                sy = new_syms(kind, A=mat(R, m, d), H=mat(R, 2, d), dim=d)(sd)
                tch = []
                for i in range(m):
                    E = salted(ev.Env(sd, sy), 1, sd)
                    E.ev(idx(lhs, c64(i), 32))
                    tch.append({k for k in E.touch if k[0] in ("fresh", "draw")})
                for i in range(m):
                    rest = set().union(*(tch[j] for j in range(m) if j != i))
                    if not tch[i] - rest:
                        return f"row {i} of the masked vector has no error of its own"
            c.sampled(f"{kind}: every row of the masked vector carries an error of its own", key, "a random-source leaf that no other row depends on", masked, 20)
        c.guard(f"{kind}: secret confinement", NEW[kind], new)

        def query(kind=kind, q=q):
            key = q + "generate_query"
            s = summary(key)
            sec = lambda t: t.op == "sym" and t.a[0] in (qpf("lhs"), qpf("rhs"))
            rhs = lambda t: t.op == "sym" and t.a[0] == qpf("rhs")

            def other(sd, fields):
                sy = query_syms(kind)(sd)
                E1 = ev.Env(sd, sy)
                sy2 = dict(sy)
                for f in fields:
                    R = rng(sd, "other" + f)
                    sy2[qpf(f)] = tuple(R.getrandbits(32) for _ in sy[qpf(f)])
                return E1, ev.Env(sd, sy2)
            nm, rule = f"{kind}: the query does not depend on the unmasked hint product", "dependence of the result on the rhs field"
            if not mentions(s.ret, rhs):
                c.rec(nm, key, rule, "proved", "rhs does not occur in the value graph of the result")
            else:
                twin(c, nm, key, s, rule, lambda sd: other(sd, ["rhs"]), lambda E: E.ev(s.ret))
            twin(c, f"{kind}: a refusal to make a query does not depend on the secret vectors", key, s, "non-interference on Ok/Err and the error value",
                 lambda sd: other(sd, ["lhs", "rhs"]), result_err(s))
            effects_free(c, f"{kind}: making a query has no effect that sees the secret vectors", key, s, [("a masked vector", sec)], lambda sd: other(sd, ["lhs", "rhs"]))
        c.guard(f"{kind}: query confinement", q, query)

        for fn in ("parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64"):
            def parse(kind=kind, q=q, fn=fn):
                key = q + fn
                s = summary(key)
                sec = lambda t: t.op == "sym" and t.a[0] in (qpf("lhs"), qpf("rhs"))

                def pair(sd):
                    R = rng(sd, "p22")
                    p, es, w = geometry(R)
                    n = max(0, w + R.choice((0, -1, 1)))
                    if kind == "index":
                        n = w
                    sy = qp_syms(R, u32s(R, w), es, p, NONE if R.random() < .3 or kind == "index" else some(fparams(R)[0]))
                    if kind == "kv":
                        sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))
                    sy = with_resp(sy, u32s(R, n))
                    s2 = dict(sy)
                    s2[qpf("rhs")] = u32s(R, w)
                    s2[qpf("lhs")] = u32s(R, len(sy[qpf("lhs")])) if qpf("lhs") in sy else ()
                    return b64_hooks(ev.Env(sd, sy)), b64_hooks(ev.Env(sd, s2))
                effects_free(c, f"{kind} {fn}: decoding has no effect that sees the secret vectors", key, s, [("a masked vector", sec)], pair)
                nm, rule = f"{kind} {fn}: the decoded response does not depend on the query vector", "dependence of the result on the lhs field"
                lhs = lambda t: t.op == "sym" and t.a[0] == qpf("lhs")
                if not mentions(s.ret, lhs):
                    c.rec(nm, key, rule, "proved", "lhs does not occur in the value graph of the result")
                if kind == "kv":
                    twin(c, f"{kind} {fn}: a refusal does not depend on the secret vectors", key, s, "non-interference on Ok/Err and the error value", pair, result_err(s))
            c.guard(f"{kind} {fn}: confinement", q + fn, parse)
    c.guard("types", QP, lambda: contain(c))
    c.guard("formatting", QP, lambda: formatting(c))


PUBLIC = [K + "api::Query", K + "api::Response", K + "db::CommonParams", PAR["index"], PAR["kv"], DB["index"], DB["kv"], SH["index"], SH["kv"], K + "db::kv::FilterParams", K + "api::EncodedKV", K + "db::kv::KeyValue"]


def contain(c):
    """no published or persisted type holds a client parameter object"""
    P = prog()
    for path in PUBLIC:
        if path not in P.adt:
            c.rec("published types hold no client parameters", path, "transitive type containment", "undecided", "no such type")
            continue
        seen, todo, hit = set(), [(path, path.split("::")[-1])], None
        while todo and not hit:
            x, way = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            d, tys = P.adt[x]
            for v in d.get("variants", ()):
                for f in v["fields"]:
                    names = set()
                    adts_in(tys, f["ty"], names, set())
                    if QP in names:
                        hit = f"{way}.{f['name']}"
                    todo += [(a, f"{way}.{f['name']}") for a in names if a in P.adt]
        c.rec("published types hold no client parameters", path, "transitive type containment", "VIOLATED" if hit else "proved", f"{hit} holds QueryParams" if hit else f"{len(seen)} types reachable")


def adts_in(tys, i, out, seen):
    if i in seen or not isinstance(i, int):
        return
    seen.add(i)
    t = tys[i]
    if t.get("k") == "adt":
        out.add(t["path"])

    def go(x, key=None):
        if isinstance(x, bool):
            return
        if isinstance(x, int) and key in ("args", "ty", "elem", "inner", "to", "tys", "elems", "fields", "upvars"):
            adts_in(tys, x, out, seen)
        elif isinstance(x, list):
            for y in x:
                go(y, key)
        elif isinstance(x, dict):
            for k, y in x.items():
                go(y, k)
    go(t)


def formatting(c):
    """a hand-written formatter of the parameter object may only show what it holds; a formatter or conversion of the
    query type shows only the query"""
    g = Graph()
    ks = [k for k in g.loc if re.match(r"^<" + re.escape(QP) + r"(<.*>)? as (core::fmt::\w+|core::ops::drop::Drop|core::convert::\w+(<.*>)?)>::", k)]
    for k in ks:
        bad = set(g.all[k]) & SINKS
        c.rec("formatting or dropping the parameters has no effect", k, "effect inference over the call graph", "VIOLATED" if bad else "proved", "; ".join(g.witness(k, e) for e in sorted(bad)))
    if not ks:
        c.rec("formatting or dropping the parameters has no effect", QP, "effect inference over the call graph", "proved", "no such implementation")
