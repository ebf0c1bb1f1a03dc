"""Obligation bookkeeping and value-graph comparison used by all the rules."""
import json
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import dump
import vg
import ev
import terms as TM
from terms import *

K = "keyword_pir_lwe::"
X = "xorf::"
RES = "core::result::Result"
OPT = "core::option::Option"


class Missing(Exception):
    """an anchor of the public interface is not there"""


ANCHORS = json.load(open(os.path.join(HERE, "anchors.json")))


def absent(kind, key):
    """a public anchor fails closed; a private one may be renamed or inlined"""
    return Missing(key) if key in ANCHORS[kind] else Undecided(f"no {key}")


class Undecided(Exception):
    pass


_progs = {}
CONFIG = ["dev"]  # the build profile analysed when a rule names none


def prog(config=None):
    config = config or CONFIG[0]
    if config not in _progs:
        _progs[config] = vg.Prog(dump.get(config))
    return _progs[config]


# ------------------------------------------------------------------ overrides
def abstract(path):
    """treat calls of `path` as an uninterpreted function of its arguments"""
    def f(I, S, ctx):
        args = tuple(I.deep(S, a) for a in ctx.args)
        v = mk("app", ctx.path, *args, w=ctx.w())
        if isinstance(ctx.destty, int):
            d = vg.seqdesc(ctx.tys, ctx.destty)
            if isinstance(d, tuple):
                TM.DESC[v] = d
        I.ev("abs", S, path=ctx.path, args=args)
        return v, S
    return {path: f}


FROM_SLICE = X + "bfusep32::BinaryFuseP32::from_slice"
ABS = abstract(FROM_SLICE)


class Summary:
    def __init__(self, I, body, ret, S, args):
        self.I, self.body, self.ret, self.S, self.args = I, body, ret, S, args
        self.events, self.notes = I.events, I.notes

    def out(self, i):
        """final value of the i'th argument (a &mut)"""
        r = self.args[i]
        return self.I.deep(self.S, r)

    def mem0(self, i):
        return self.args[i]


_sums = {}


def _keep(I, S, vals):
    I.mem0 = dict(S.mem)


def find(pred, config=None, what=""):
    P = prog(config)
    r = [b for b in P.local_bodies() if pred(b)]
    if len(r) != 1:
        raise Undecided(f"{what or pred}: {len(r)} candidates")
    return r[0]


def body(key, config=None):
    b = prog(config).bodies.get(key)
    if b is None or not b["local"]:
        raise absent("functions", key)
    return b


def summary(key, ovr=None, config=None, args=None, tag=None, selfty=None):
    config = config or CONFIG[0]
    ck = (key["key"] if isinstance(key, dict) else key, str(selfty), config, tag, tuple(sorted(ovr)) if ovr else ())
    if args is None and ck in _sums:
        return _sums[ck]
    b = key if isinstance(key, dict) else body(key, config)
    I = vg.Interp(prog(config))
    if selfty:
        I.selfty = selfty
    I.overrides.update(ovr if ovr is not None else ABS)
    try:
        ret, S, a = I.run(b, args=args, pre=_keep)
    except (vg.Undecided, RecursionError, KeyError, IndexError, AttributeError, AssertionError, TypeError) as e:
        if os.environ.get("VERIF_DEBUG") == "2":
            tb = traceback.format_exc().split("\n")
            print("\n".join(tb[:30] + ["..."] + tb[len(tb) // 2:len(tb) // 2 + 60] + ["..."] + tb[-20:]))
        raise Undecided(f"{b['key']}: {type(e).__name__} {e}")
    if S is None:
        raise Undecided(f"{b['key']}: no return")
    s = Summary(I, b, ret, S, a)
    pool(ret, S.mem, [e["pc"] for e in s.events])
    if args is None:
        _sums[ck] = s
    return s


def fname(key):
    return key


# ------------------------------------------------------------------ spec DSL
def tmap(n, f, w=64):
    k = fresh_var(64, [n])
    return mk_map(n, k, f(k))


def tsum(n, f, w=32):
    k = fresh_var(64, [n])
    return mk_sum(n, k, f(k))


def tany(n, f):
    k = fresh_var(64, [n])
    return mk_any(n, k, f(k))


def ok_cond(ret):
    """condition under which a Result-valued term is Ok"""
    import models
    return models.match2(ret, lambda v, p: TT if v == 0 else FF)


def ok_val(ret, w=None):
    return fld(ret, 0, 0, w)


def is_none(t):
    import models
    return models.match2(t, lambda v, p: TT if v == 0 else FF)


# ------------------------------------------------------------------ checks
class Check:
    def __init__(self, pid, tier="quick", seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.obl = []
        self.viol = []
        self.t0 = time.time()
        self.analysed = set()
        self.workers = set()
        self.tries = 60 if tier == "quick" else 400

    def rec(self, name, where, rule, status, detail=""):
        self.obl.append({"obligation": name, "at": where, "rule": rule, "status": status, "detail": str(detail)[:600]})
        if status == "VIOLATED":
            self.viol.append({"obligation": name, "at": where, "rule": rule, "detail": str(detail)[:4000]})
        return status

    # -- value-graph comparisons
    def eq(self, name, where, got, want, rule, pre=None, syms=None, maxlen=4, envf=None, tries=None, small=None):
        if got is want:
            return self.rec(name, where, rule, "proved", "canonical value-graph terms identical")
        return self.rint(name, where, got, want, rule, pre, syms, maxlen, envf, tries, small)

    def rint(self, name, where, got, want, rule, pre=None, syms=None, maxlen=4, envf=None, tries=None, small=None):
        seed0 = self.seed * 1000003
        pool(got, want)

        def envs(s):
            if envf:
                return envf(seed0 + s)
            return ev.Env(seed0 + s, dict(syms(seed0 + s)) if callable(syms) else dict(syms or {}), maxlen, small)
        try:
            r = ev.same(got, want, envs, tries or self.tries, pre)
        except (TypeError, KeyError, IndexError, AttributeError, ValueError, RecursionError) as e:
            return self.rec(name, where, rule, "undecided", f"{type(e).__name__} {e}")
        if r[0] == "opaque":
            return self.rec(name, where, rule, "undecided", r[1])
        if r[0] == "ne":
            E = r[1]
            wit = {k: v for k, v in list(E.syms.items())}
            return self.rec(name, where, rule, "VIOLATED", f"value graphs differ: code gives {short(r[2])}, rule requires {short(r[3])} under {short(wit, 900)}")
        if r[1] == 0:
            return self.rec(name, where, rule, "undecided", "no valuation in the common domain")
        return self.rec(name, where, rule, "agreed", f"terms not syntactically identical; agree under {r[1]} random interpretations")

    def holds(self, name, where, cond, rule, pre=None, **kw):
        """a boolean term holds (under pre)"""
        c = cond if pre is None else TM.b_or(TM.b_not(pre), cond)
        if c is TT:
            return self.rec(name, where, rule, "proved", "condition simplifies to true")
        return self.rint(name, where, cond, TT, rule, pre, **kw)

    def canon(self, name, where, got, want, rule):
        """record a proof when the canonical forms coincide (else leave it to the
        accompanying comparison)"""
        if got is want:
            self.rec(name, where, rule, "proved", "canonical value-graph terms identical")
            return True
        return False

    def sampled(self, name, where, rule, fn, tries=None):
        """fn(seed) interprets the value graph under one valuation: None (agrees),
        'skip' (outside the rule's domain) or a witness message"""
        n = 0
        big = 0
        tries = tries or self.tries
        for i in range(tries):
            try:
                r = fn(self.seed * 1000003 + i)
            except ev.Partial as e:
                r = self.partial(e)
            except ev.Big:
                big += 1
                continue
            except ev.Opaque as e:
                return self.rec(name, where, rule, "undecided", f"value not understood: {e}")
            if r == "skip":
                continue
            if r is not None:
                return self.rec(name, where, rule, "VIOLATED", r)
            n += 1
        if n == 0:
            return self.rec(name, where, rule, "undecided", "no valuation in the domain" + (" (too large)" if big else ""))
        return self.rec(name, where, rule, "agreed", f"value graphs agree under {n} random interpretations")

    def sized(self, name, where, rule, terms, fn, hi=1 << 21, prod=False):
        """fn(n) at every size around which the terms change their behaviour"""
        sizes = sorted({n + d for n in harvest(terms, hi=hi, prod=prod) for d in (-1, 0, 1)})
        for n in [n for n in sizes if n < 9000 or n + 1 not in sizes]:
            try:
                with ev.deep(hi if hi <= 1 << 20 else 0):
                    r = fn(n)
            except (ev.Partial, ev.Big, ev.Opaque, MemoryError):
                continue
            if r:
                return self.rec(name, where, rule, "VIOLATED", r)

    def partial(self, e):
        return "skip"

    def no_traps(self, name, where, s, mkenv, rule, tries=None, skip=None):
        """every assertion / panic site reached by the summary is unreachable on
        the rule's domain; mkenv(seed) -> Env"""
        evs = [e for e in s.events if e["kind"] in ("assert", "panic") and not (skip and skip(e))]
        todo = []
        proved = 0
        for e in evs:
            good = e.get("good") if e["kind"] == "assert" else FF
            if good is TT or e["pc"] is FF or TM.b_or(TM.b_not(e["pc"]), good) is TT:
                proved += 1
                continue
            todo.append((e, good))
        seen = set()
        opq = set()
        hit = set()
        groups = {}
        for n, (e, good) in enumerate(todo):
            groups.setdefault(tuple(id(l[3]) if len(l) > 3 else (l[0], l[1]) for l in e["loops"]), []).append(n)

        def bad(E, n):
            e, good = todo[n]
            try:
                if not E.ev(e["pc"]):
                    return False
                hit.add(n)
                return not E.ev(good)
            except (ev.Partial, ev.Big):
                return False
            except (ev.Opaque, TypeError, KeyError, IndexError, AttributeError, ValueError):
                opq.add(n)
                return False

        def visit(E, loops, ns):
            """yield the (event, E) that are reached and fail, following the
            evolution of the enclosing loops from their first iteration"""
            if not loops:
                for n in ns:
                    if bad(E, n):
                        yield n, E
                return
            l = loops[0]
            if not E.ev(l[2]):
                return
            meta = l[3] if len(l) > 3 else None
            if l[0].op != "var" and (meta is None or not meta.get("k")):
                yield from visit(E, loops[1:], ns)
                return
            kv = meta["k"] if meta else l[0]
            lim = E.ev(l[1]) if l[1] is not None else 10 ** 9
            stop = meta["E"] if meta else FF
            if meta and not meta["in"]:
                # the pass at the counting exit
                for i in range(min(lim, 300)):
                    if E.child({kv.a[0]: i}, {}).ev(meta["early"]):
                        return
                yield from visit(E, loops[1:], ns)
                return
            for i in range(min(lim, 300)):
                C = E.child({kv.a[0]: i}, {})
                yield from visit(C, loops[1:], ns)
                if stop is not FF and C.ev(stop):
                    return
        for i in range(tries or self.tries):
            E = mkenv(self.seed * 1000003 + i)
            if E is None:
                continue
            for ns in groups.values():
                if all(n in opq for n in ns):
                    continue
                try:
                    for n, C in visit(E, todo[ns[0]][0]["loops"], ns):
                        e = todo[n][0]
                        self.rec(name, where, rule, "VIOLATED",
                                 f"{e['kind']} {e.get('what')} in {(e.get('body') or {}).get('key', '?')} fails for {short({k: v for k, v in E.syms.items() if '.' not in k}, 900)}")
                        return
                except (ev.Partial, ev.Big):
                    pass
                except (ev.Opaque, TypeError, KeyError, IndexError, AttributeError, ValueError):
                    opq |= set(ns)
        self.rec(name, where, rule, "undecided" if opq else ("agreed" if todo else "proved"),
                 f"{len(evs)} trap sites: {proved} discharged by canonical form, {len(todo) - len(opq)} by random interpretation ({len(hit)} reached), {len(opq)} not understood")

    def require(self, name, where, good, rule, detail=""):
        return self.rec(name, where, rule, "proved" if good else "VIOLATED", detail)

    def guard(self, name, where, fn):
        """run one obligation group; a missing public anchor fails closed, an
        analysis gap leaves it undecided"""
        try:
            fn()
        except Missing as e:
            self.rec(name, where, "the public interface this property is about is present", "VIOLATED", f"missing: {e}")
        except Undecided as e:
            self.rec(name, where, "-", "undecided", str(e))
        except (vg.Undecided, ev.Opaque, ev.Partial, ev.Big) as e:
            self.rec(name, where, "-", "undecided", f"{type(e).__name__} {e}")
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            self.rec(name, where, "-", "undecided", f"analysis error {type(e).__name__}: {e}")


    def parallel(self, jobs, procs=8):
        """run the obligation groups `jobs` (callables) in forked workers and
        collect what they record, in order"""
        import pickle
        if len(jobs) < 2 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                j()
            return
        out = [None] * len(jobs)
        procs = min(procs, len(jobs))
        kids = []
        sys.stdout.flush()
        for w in range(procs):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                rc = 0
                try:
                    res = []
                    for i in range(w, len(jobs), procs):
                        self.obl, self.viol = [], []
                        t = time.time()
                        jobs[i]()
                        res.append((i, self.obl, self.viol, sorted(map(str, _sums)), time.time() - t))
                    with os.fdopen(wr, "wb") as f:
                        pickle.dump(res, f)
                except BaseException:
                    traceback.print_exc()
                    rc = 1
                os._exit(rc)
            os.close(wr)
            kids.append((pid, r, w))
        for pid, r, w in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            if data:
                for i, o, v, sm, dt in pickle.loads(data):
                    out[i] = (o, v)
                    self.workers.update(sm)
        for i, x in enumerate(out):
            if x is None:
                self.rec("analysis worker", "-", "-", "undecided", f"group {i} did not finish")
            else:
                self.obl += x[0]
                self.viol += x[1]


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def tainted(t):
    return t.op_flag


# ------------------------------------------------------------------ typed access
def fields_of(path, config=None):
    t = prog(config).adt.get(path)
    if t is None:
        raise absent("types", path)
    return t[0]["variants"][0]["fields"]


ORIG_FIELDS = {
    K + "api::QueryParams": ["lhs", "rhs", "elem_size", "plaintext_bits", "db", "extra_params", "used"],
    K + "api::Shard": ["db", "base_params"],
    K + "api::KVShard": ["db", "base_params"],
    K + "api::EncodedKV": ["key", "value"],
    K + "api::Query": ["0"],
    K + "api::Response": ["0"],
    K + "db::CommonParams": ["0"],
    K + "db::index::IndexDatabase": ["entries", "m", "elem_size", "plaintext_bits"],
    K + "db::index::IndexParams": ["dim", "m", "public_seed", "rhs", "elem_size", "plaintext_bits"],
    K + "db::kv::KVDatabase": ["entries", "m", "elem_size", "plaintext_bits", "filter_params"],
    K + "db::kv::KVParams": ["dim", "m", "public_seed", "rhs", "elem_size", "plaintext_bits", "filter_params"],
    K + "db::kv::FilterParams": ["seed", "segment_length", "segment_length_mask", "segment_count_length"],
    K + "db::kv::KeyValue": ["key", "value"],
    X + "bfusep32::BinaryFuseP32": ["seed", "segment_length", "segment_length_mask", "segment_count_length", "fingerprints", "ptxt_mod"],
}


def fidx(path, name, config="dev"):
    """index of a field: by name, else (renamed) by its original position"""
    fs = [f["name"] for f in fields_of(path, config)]
    if name in fs:
        return fs.index(name)
    o = ORIG_FIELDS.get(path)
    if o and name in o and len(o) == len(fs):
        return o.index(name)
    raise Undecided(f"field {name} of {path}")


def fname_of(path, name):
    """current name of an (originally named) field, for symbol names"""
    return fields_of(path)[fidx(path, name)]["name"]


def G(t, *names, path=None):
    """named field access on a struct value term"""
    for n in names:
        p = t.a[0] if t.op == "agg" else path
        if p is None or p not in prog().adt:
            d = TM.desc_of(t)
            p = d[1] if isinstance(d, tuple) and d[0] == "a" else p
        i = fidx(p, n)
        t = fld(t, 0, i, field_w(p, i))
        path = None
    return t


def field_w(path, i):
    t, tys = prog().adt[path]
    return vg.width_of(tys, t["variants"][0]["fields"][i]["ty"])


# ------------------------------------------------------------------ domains
class Biased(random.Random):
    """draws words; one in eight is a boundary value"""

    def getrandbits(self, k):
        g = super().getrandbits
        v = g(k)
        if k in (8, 16, 32, 64) and g(3) == 0:
            v = ((1 << k) - 1 - (v & 7), (1 << k) - 1 - (v & 0x7f), v & 1, 1 << (v % k), v & 0xff, (1 << k >> 1))[v % 6]
        return v

    def _randbelow(self, n):
        g = super().getrandbits
        k = n.bit_length()
        r = g(k)
        while r >= n:
            r = g(k)
        return r


def rng(seed, *k):
    return Biased(repr((seed,) + k))


# constants of the analysed program: values near them are worth trying
POOL = set()
_pooled = set()


def pool(*terms):
    """note the constants of value graphs"""
    seen = _pooled
    st = list(terms)
    while st:
        u = st.pop()
        if isinstance(u, TM.T):
            if u.id in seen:
                continue
            seen.add(u.id)
            if u.op == "c" and isinstance(u.a[0], int) and 64 < u.a[0] < 1 << 64:
                POOL.add(u.a[0])
            elif u.op == "poly":
                for mono, cf in u.a[0]:
                    v = abs(signed(cf, u.w))
                    if v > 64:
                        POOL.add(v)
                        if isinstance(u.w, int) and not mono:
                            POOL.add((1 << u.w) - v)
            if u.op in ("loopn", "loopval"):
                st.extend([TM.EXITS.get(u.a[0]), TM.LOOPSYS.get(u.a[0])])
            st.append(u.a)
        elif isinstance(u, dict):
            st.extend(u.values())
        elif isinstance(u, (tuple, list)):
            st.extend(u)


def pooled(R, bits):
    xs = sorted(x for x in POOL if x < 1 << bits)
    return (R.choice(xs) + R.choice((-1, 0, 0, 1))) & ((1 << bits) - 1) if xs else R.getrandbits(bits)


def word(R, bits=32):
    """a value of the given width, often an extreme one"""
    M = (1 << bits) - 1
    m = R.randrange(10)
    if m < 5:
        return R.getrandbits(bits)
    if m == 5:
        return M - R.randrange(4)
    if m == 6:
        return R.randrange(4)
    if m == 7:
        return ((1 << (bits - 1)) + R.choice((-2, -1, 0, 1))) & M
    if m == 8:
        return pooled(R, bits)
    return (1 << R.randrange(bits)) - R.randrange(2)


def u32s(R, n):
    m = R.randrange(24)
    if m == 0:
        return (0,) * n
    if m == 1:
        x = word(R)
        return (x,) * n
    if m == 2:
        return tuple(R.choice((0, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)) for _ in range(n))
    out = [word(R) for _ in range(n)]
    if m == 3 and n:
        k = R.randrange(n)
        out[k:] = [0] * (n - k)
    return tuple(out)


def mat(R, n, m):
    return tuple(u32s(R, m) for _ in range(n))


def harvest(terms, lo=6, hi=4096, cap=6, prod=False):
    """the sizes at which a value graph can change its behaviour: constants it
    compares with, divides by or masks with (and neighbours are probed by the rules)"""
    seen, out = set(), set()
    st = [t for t in terms if isinstance(t, TM.T)]

    def push(x):
        if isinstance(x, TM.T):
            st.append(x)
        elif isinstance(x, dict):
            for v in x.values():
                push(v)
        elif isinstance(x, (tuple, list)):
            for v in x:
                push(v)
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "c" and isinstance(u.a[0], int):
            out |= {u.a[0], u.a[0] + 1}
        elif u.op == "poly":
            for mono, cf in u.a[0]:
                v = signed(cf, u.w)
                out |= {abs(v), abs(v) + 1}
        elif u.op == "trunc" and isinstance(u.w, int) and isinstance(u.a[0].w, int):
            out |= {1 << u.w, (1 << u.w) + 1}     # where a count kept in few bits wraps
        if u.op in ("loopn", "loopval"):
            push(TM.EXITS.get(u.a[0]))
            push(TM.LOOPSYS.get(u.a[0]))
        push(u.a)
    if prod:      # blocks of one constant size, counted up to another
        big = sorted(v for v in out if lo <= v <= hi)[-4:]
        out |= {a * b for a in big for b in out if 2 <= b <= 64 and a != b}
    out = sorted(v for v in out if lo <= v <= hi)
    return out if len(out) <= cap else out[:cap // 2] + out[-(cap - cap // 2):]
