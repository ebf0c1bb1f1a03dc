"""Build-profile independence of the LWE arithmetic (P08)."""
from core import *
import core
import ev
from data import *
from data import rng, okv, index_new_env, index_shard_env, qp_syms, with_resp, geometry, fparams, some, NONE
from client import new_syms, query_syms, P04, P05, P11
from server import P06, P09, shard_value, db_value
import data


HALF = 1 << 31


def aimed(R, rhs, p):
    """response words; half of the time next to a rounding boundary of the difference"""
    if R.randrange(2):
        return u32s(R, len(rhs))
    floor = HALF >> p
    def at():
        j = R.choice((0, 1, 2, 3, (2 << p) - 1, (2 << p) - 2, 1 << p, R.getrandbits(p + 1)))
        return j * floor + R.choice((-1, 0, 1))
    return tuple((x + at()) % (1 << 32) for x in rhs)


def P08(c):
    """the same results in both profiles, and no overflow trap"""
    jobs = []

    # the specification holds of the release program as well
    def rel(f, label):
        def go():
            k = len(c.obl), len(c.viol)
            old = core.CONFIG[0]
            core.CONFIG[0] = "release"
            try:
                f(c)
            finally:
                core.CONFIG[0] = old
            for o in c.obl[k[0]:] + c.viol[k[1]:]:
                if not o["obligation"].startswith("release: "):
                    o["obligation"] = "release: " + o["obligation"]
        return go
    for f in (P04, P05, P06, P09, P11, data.P12):
        jobs.append(rel(f, f.__name__))

    rule = "reachability of overflow assertions and panics in the debug profile"

    def traps(name, key, mkenv, get=summary):
        def go():
            c.no_traps(name, key, get(key), mkenv, rule)
        jobs.append(lambda: c.guard(name, key, go))

    for kind, q, path in KINDS:
        def newenv(seed, kind=kind):
            R = rng(seed, "p08n")
            d = R.choice((1, 1, 2, 3, 4))
            A = tuple(u32s(R, d) for _ in range(R.randrange(0, 4)))
            H = tuple(u32s(R, d) for _ in range(R.randrange(0, 4)))
            if R.randrange(3) == 0:
                edge = lambda: tuple(R.choice((0, 1, HALF - 2, HALF - 1, HALF, HALF + 1, 2 * HALF - 1)) for _ in range(d))
                A, H = tuple(edge() for _ in A), tuple(edge() for _ in H)
            return ev.Env(seed, new_syms(kind, A=A, H=H, dim=d)(seed))
        traps(f"{kind}: generating query parameters", NEW[kind], newenv)
        traps(f"{kind}: generating a query", q + "generate_query", lambda sd, kind=kind: ev.Env(sd, query_syms(kind)(sd)))

        def renv(sd, kind=kind):
            R = rng(sd, "p08r")
            sv, info = shard_value(kind, R)
            return ev.Env(sd, expand({"a0": sv, "a1": ("agg", K + "api::Query", 0, (u32s(R, info["m"]),))}))
        traps(f"{kind}: answering a query", SH[kind] + "::respond", renv)

        for fn in ("parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64"):
            def penv(sd, kind=kind):
                R = rng(sd, "p08p")
                p, es, w = geometry(R)
                rhs = u32s(R, w)
                sy = qp_syms(R, rhs, es, p, some(fparams(R)[0]) if kind == "kv" else NONE)
                if kind == "kv":
                    sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))
                return b64_hooks(ev.Env(sd, with_resp(sy, aimed(R, rhs, p))))
            traps(f"{kind}: decoding ({fn})", q + fn, penv)

        def henv(sd, kind=kind):
            R = rng(sd, "p08h")
            v, info = db_value(kind, R)
            d = {"a0": v, "a1": R.randrange(1, 5)}
            if kind == "kv":
                for n_, x in enumerate(fparams(R)[0][3]):
                    d[f"a{2 + n_}"] = x
            return ev.Env(sd, expand(d))
        traps(f"{kind}: computing the hint", PAR[kind] + "::new", henv)

        def venv(sd, kind=kind):
            R = rng(sd, "p08v")
            v, info = db_value(kind, R)
            return ev.Env(sd, expand({"a0": v, "a1": u32s(R, info["m"]), "a2": R.randrange(info["w"])}))
        traps(f"{kind}: multiplying a column", DM[kind] + "vec_mult", venv)
    # the mask of a key is mix(.., label), and mix is a bijection of the words: any
    # word can be a mask, so it is an uninterpreted word here
    from filters import mixov, MIXP, MIX256P
    for fn in ("parse_resp_as_row", "parse_resp_as_bytes"):
        def menv(sd):
            R = rng(sd, "p08m")
            p, es, w = geometry(R)
            rhs = u32s(R, w)
            sy = qp_syms(R, rhs, es, p, some(fparams(R)[0]))
            sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))
            E = b64_hooks(ev.Env(sd, with_resp(sy, aimed(R, rhs, p))))
            E.hooks[MIXP] = lambda E, xs, t: rng(sd, "mix", xs[0], xs[1]).getrandbits(64)
            E.hooks[MIX256P] = lambda E, xs, t: rng(sd, "m256", repr(xs)).getrandbits(64)
            return E
        traps(f"kv: unmasking ({fn})", KINDS[1][1] + fn, menv, get=lambda k: summary(k, ovr=dict(core.ABS, **mixov()), tag="mixed"))
    traps("index: storing elements", K + "db::index::IndexDatabase::new", lambda sd: index_new_env(sd)[0])
    traps("index: building a shard", SH["index"] + "::from_base64_strings", lambda sd: index_shard_env(sd))

    def venv2(sd):
        R = rng(sd, "p08vv")
        n = R.randrange(6)
        return ev.Env(sd, {"a0": u32s(R, n), "a1": u32s(R, n)})
    traps("inner products", K + "utils::matrices::vec_mult_u32_u32", venv2)
    for fn in ("get_rounding_factor", "get_rounding_floor", "get_plaintext_size"):
        traps(f"scaling factors ({fn})", K + "utils::lwe::" + fn, lambda sd: ev.Env(sd, {"a0": rng(sd, "rf").randrange(1, 32)}))
    c.parallel(jobs)
