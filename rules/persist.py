"""Persistence (P18) and error propagation (P26): the value graphs are
interpreted over an abstract file system in which JSON is a lossless codec and
every fallible step can be made to fail."""
import re
from core import *
import mirq
from data import okv, errv, b64_hooks, b64, kv_env, geometry, elem_bytes, index_new_env, low_bits, qp_syms, with_resp, BADB64
from client import new_syms, params_value, expand, QP, KP, IP, fparams, KINDS, NEW, QI, QK, query_syms, qpf, some, NONE
from server import shard_value, db_value, SH, DB, DM, PAR
from kv import kvval, get, KVP, bin_hook, fits

IND = K + "db::index::IndexDatabase"
KVD = K + "db::kv::KVDatabase"
EKV = K + "api::EncodedKV"
OPEN, CREATE, READ = "std::fs::File::open", "std::fs::File::create", "std::fs::read_to_string"
FILEISH = re.compile(r"^(std::fs|std::io|alloc::io|core::io|serde_json|std::os|tempfile)::")


def plainjson(v):
    while isinstance(v, tuple) and len(v) == 2 and v[0] in ("json", "some-json"):
        v = v[1]
    return v


class FS:
    """files: path -> JSON document; broken: names of the steps that fail"""

    def __init__(self, files=None, broken=()):
        self.files = dict(files or {})
        self.broken = set(broken)
        self.alias = {}
        self.unknown = None

    def fails(self, kind, what=None):
        return kind in self.broken or (kind, self.alias.get(what, what)) in self.broken

    def renames(self, s, E):
        """a file that is renamed in the end stands for the file it becomes"""
        for e in s.events:
            if e["kind"] == "call" and e["path"] == "std::fs::rename":
                a, b = (E.ev(x) for x in e["vals"])
                self.alias[a] = b
        return self

    # pure parts, as hooks of the value graph
    def hooks(self, E):
        F = self

        def res(kind, f, what=lambda xs: None):
            def h(E, xs, t):
                if F.fails(kind, what(xs)):
                    return errv(("io-error", kind))
                r = f(xs)
                return errv(("io-error", kind)) if r is None else okv(r)
            return h
        unit = ("agg", "tuple", 0, ())
        target = lambda xs: xs[0][1] if isinstance(xs[0], tuple) and xs[0][0] == "file" else None
        H = E.hooks
        H[CREATE] = res("create", lambda xs: ("file", xs[0]), lambda xs: xs[0])
        H["std::fs::File::create_new"] = res("create", lambda xs: ("file", xs[0]) if xs[0] not in F.files else None, lambda xs: xs[0])
        H[OPEN] = res("open", lambda xs: ("file", xs[0]) if xs[0] in F.files else None, lambda xs: xs[0])

        # open options: a set of flags
        for n in ("std::fs::OpenOptions::new", "std::fs::File::options"):
            H[n] = lambda E, xs, t: ("oo", frozenset())
        for n in ("read", "write", "append", "truncate", "create", "create_new"):
            def flag(E, xs, t, n=n):
                if not (isinstance(xs[0], tuple) and xs[0][0] == "oo"):
                    raise ev.Opaque("open options")
                return ("oo", xs[0][1] | {n} if xs[1] else xs[0][1] - {n})
            H["std::fs::OpenOptions::" + n] = H[f"std::fs::OpenOptions::{n}#0"] = flag

        def opened(xs):
            fl, there = xs[0][1], xs[1] in F.files
            w = "write" in fl or "append" in fl
            if "create_new" in fl and (there or not w) or not there and not (fl & {"create", "create_new"} and w) or "truncate" in fl and "write" not in fl:
                return None
            return ("file", xs[1])
        H["std::fs::OpenOptions::open"] = lambda E, xs, t: res("create" if xs[0][1] & {"create", "create_new"} else "open", opened, lambda xs: xs[1])(E, xs, t)
        for n in (READ, "std::fs::read"):
            H[n] = res("read", lambda xs: ("json", F.files[xs[0]]) if xs[0] in F.files else None, lambda xs: xs[0])
        H["std::fs::metadata"] = H["std::fs::symlink_metadata"] = res("stat", lambda xs: ("metadata", xs[0]) if xs[0] in F.files else None)
        H["std::fs::exists"] = H["std::path::Path::try_exists"] = res("stat", lambda xs: xs[0] in F.files)
        H["std::path::Path::exists"] = H["std::path::Path::is_file"] = lambda E, xs, t: xs[0] in F.files
        H["std::path::Path::is_dir"] = lambda E, xs, t: False
        H["std::fs::remove_file"] = res("remove", lambda xs: unit if xs[0] in F.files else None)
        H["std::fs::rename"] = res("rename", lambda xs: unit, lambda xs: xs[1])
        ident = lambda E, xs, t: xs[0]
        for n in ("std::path::Path::new", "std::path::Path::to_path_buf", "std::path::PathBuf::as_path", "std::path::PathBuf::from"):
            H[n] = ident
        for q in ("alloc::io::buffered", "std::io::buffered", "std::io"):
            for n in ("bufreader::BufReader::<R>", "BufReader"):
                H[f"{q}::{n}::new"], H[f"{q}::{n}::with_capacity"] = ident, lambda E, xs, t: xs[1]
            for n in ("bufwriter::BufWriter::<W>", "BufWriter", "linewriter::LineWriter::<W>"):
                # a buffer takes anything; only flushing it reaches the file
                H[f"{q}::{n}::new"], H[f"{q}::{n}::with_capacity"] = (lambda E, xs, t: ("bufw", xs[0][1])), (lambda E, xs, t: ("bufw", xs[1][1]))
                H[f"{q}::{n}::into_inner"] = lambda E, xs, t: errv(("io-error", "write")) if F.fails("write", xs[0][1]) else okv(("file", xs[0][1]))
                H[f"{q}::{n}::get_ref"] = H[f"{q}::{n}::get_mut"] = lambda E, xs, t: ("file", xs[0][1])
        # serialisers
        for n in ("serde_json::value::to_value", "serde_json::ser::to_string", "serde_json::ser::to_vec", "serde_json::ser::to_string_pretty", "serde_json::ser::to_vec_pretty"):
            H[n] = res("encode", lambda xs: ("json", plainjson(xs[0])))
        for n in ("serde_json::ser::to_writer", "serde_json::ser::to_writer_pretty"):
            H[n], H[n + "#0"] = res("write", lambda xs: unit, target), ident
        for n in ("std::fs::write",):
            H[n] = lambda E, xs, t: errv(("io-error", "create")) if F.fails("create", xs[0]) or F.fails("write", xs[0]) else okv(unit)
        for q in ("std::io::Write::", "core::io::write::Write::", "std::fs::File::"):
            for n in ("flush", "write_all", "sync_all", "sync_data"):
                H[q + n] = res("write", lambda xs: unit, (lambda xs: xs[0][1] if isinstance(xs[0], tuple) and xs[0][0] in ("file", "bufw") else None) if n != "write_all" else target)
                H[q + n + "#0"] = ident

        # readers; a file may be larger than any limit (up to 4 GB) the reader sets
        def content(x):
            if not (isinstance(x, tuple) and x[0] == "file"):
                raise ev.Opaque("reading something that is not a file")
            d = F.files.get(x[1])
            return d if len(x) == 2 or d is None else ("truncated", d)
        for q in ("std::io::Read::", "alloc::io::read::Read::", "core::io::read::Read::", "std::fs::File::", "alloc::io::Read::"):
            H[q + "take"] = lambda E, xs, t: xs[0][:2] + (xs[1],) if xs[1] <= 1 << 32 else xs[0]
            H[q + "by_ref"] = ident
            for n in ("read_to_string", "read_to_end"):
                H[q + n] = res("read", lambda xs: 1 if content(xs[0]) is not None else None, target)
                H[q + n + "#0"] = ident
                H[q + n + "#1"] = lambda E, xs, t: ("json", content(xs[0]))
        for q in ("std::io::", "alloc::io::", "alloc::io::read::", "core::io::"):
            H[q + "read_to_string"] = res("read", lambda xs: ("json", content(xs[0])) if content(xs[0]) is not None else None, target)

        def undoc(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "json":
                return None if isinstance(x[1], tuple) and x[1][:1] == ("truncated",) else x[1]
            if isinstance(x, tuple) and x[0] == "file":
                return F.files.get(x[1]) if len(x) == 2 else None
            raise ev.Opaque("reading something that is not a file or document")
        for n in ("serde_json::de::from_reader", "serde_json::de::from_str", "serde_json::de::from_slice", "serde_json::value::from_value"):
            H[n] = res("parse", lambda xs: undoc(xs[0]))
        H["parse:alloc::string::String"] = lambda E, xs, t: okv(xs[0])
        return E

    def walk(self, s, E):
        """the file writes of a summary under one valuation, in order"""
        held = {}

        def put(p, doc):
            # through a handle at the start of an emptied file, or over what is there
            self.files[p] = doc if self.files.get(p) is None else ("two documents",)

        def settle(p):
            d = held.pop(p, None)
            if d is not None and not self.fails("write", p):
                for x in d:
                    put(p, x)
        for e in s.events:
            if e["kind"] != "call" or not e.get("ext"):
                continue
            p = e["path"]
            if not FILEISH.match(p):
                continue
            if e["loops"]:
                raise Undecided(f"file access in a loop: {p}")
            if not E.ev(e["pc"]):
                continue
            last = p.split("::")[-1]
            if p not in E.hooks:
                if re.search(r"::(into|from|fmt|to_string|clone|drop|kind|new|default|as_ref|as_path|map_err|is_file|len)$", p):
                    continue
                raise Undecided(f"file operation {p} is not modelled")
            xs = [E.ev(a) for a in e.get("vals") or e["args"]]
            h = xs[0] if xs and isinstance(xs[0], tuple) else None
            if last in ("create", "create_new") and "OpenOptions" not in p:
                if not self.fails("create", xs[0]):
                    self.files[xs[0]] = None
            elif p == "std::fs::OpenOptions::open":
                if E.hooks[p](E, xs, None)[2] == 0 and xs[0][1] & {"write", "append"}:
                    if "truncate" in xs[0][1] or xs[1] not in self.files:
                        self.files[xs[1]] = None
            elif last in ("to_writer", "to_writer_pretty", "write_all") and (len(xs) == 2):
                if h and h[0] == "bufw":
                    held.setdefault(h[1], []).append(plainjson(xs[1]))
                elif not (h and h[0] == "file"):
                    if last == "write_all":
                        raise Undecided("write to something that is not a modelled file")
                    raise Undecided("serialisation into something that is not a modelled file")
                elif not self.fails("write", h[1]):
                    put(h[1], plainjson(xs[1]))
            elif last in ("flush", "into_inner") and h and h[0] == "bufw":
                settle(h[1])
            elif p == "std::fs::write":
                if not self.fails("create", xs[0]) and not self.fails("write", xs[0]):
                    self.files[xs[0]] = plainjson(xs[1])
            elif p == "std::fs::remove_file":
                if not self.fails("remove"):
                    self.files.pop(xs[0], None)
            elif p == "std::fs::rename":
                settle(xs[0])
                if not self.fails("rename", xs[1]) and xs[0] in self.files:
                    self.files[xs[1]] = self.files.pop(xs[0])
        for p in list(held):
            settle(p)


def traps(s, E, skip=None):
    """message of a panic reached under the valuation, or None"""
    for e in s.events:
        if e["kind"] not in ("assert", "panic") or e["loops"] or (skip and str(e.get("what")).startswith(skip)):
            continue
        try:
            if not E.ev(e["pc"]):
                continue
            if e["kind"] == "panic" or not E.ev(e["good"]):
                return f"{e.get('what')} at {':'.join(str(x) for x in (e['at'] or ['?', '?'])[:2])}"
        except (ev.Opaque, ev.Partial, ev.Big):
            continue
    return None


PATHS = (("str", "a.json"), ("str", "b.json"), ("str", "c"))
WRITERS = [("index shard", SH["index"] + "::write_to_file", "shard", "index"), ("kv shard", SH["kv"] + "::write_to_file", "shard", "kv"),
           ("index database", DM["index"] + "write_to_file", "db", "index"), ("kv database", DM["kv"] + "write_to_file", "db", "kv"),
           ("index parameters", f"<{IP} as {K}db::BaseParams>::write_to_file", "params", "index"),
           ("kv parameters", f"<{KP} as {K}db::BaseParams>::write_to_file", "params", "kv")]


def writer_input(R, what, kind, **dims):
    sv, info = shard_value(kind, R, **dims)
    db, bp = get(sv, SH[kind], "db"), get(sv, SH[kind], "base_params")
    p1, p2 = R.sample(PATHS, 2)
    ent = get(db, DB[kind], "entries")
    if what == "shard":
        return {"a0": sv, "a1": p1, "a2": p2}, {p1: ent, p2: bp}
    return {"a0": db if what == "db" else bp, "a1": p1}, {p1: ent if what == "db" else bp}


def steps_of(want):
    out = []
    for p in want:
        out += [("create", p), ("write", p)]
    return out


# ---------------------------------------------------------------- P18
def P18(c):
    """written files hold the documented content; what is read back is what was written"""
    for name, key, what, kind in WRITERS:
        def go(name=name, key=key, what=what, kind=kind):
            s = summary(key)

            def check(sd, **dims):
                R = rng(sd, "write")
                sy, want = writer_input(R, what, kind, **dims)
                old = {PATHS[0]: ("old",)} if R.random() < .5 else {}
                F = FS(old)
                E = F.hooks(ev.Env(sd, expand(sy)))
                if E.ev(s.ret)[2] != 0:
                    return "writing fails although every step succeeds"
                F.walk(s, E)
                for p in want:
                    if F.files.get(p) != want[p]:
                        return f"file {p[1]!r} {'is not written' if p not in F.files else 'holds ' + short(F.files[p])}, expected {short(want[p])}"
                for p in F.files:
                    if p not in want and F.files[p] != old.get(p):
                        return f"an unrelated file {p} is written"

            def one(sd):
                x = rng(sd, "dims").randrange(30)
                return check(sd, **({"w": 300, "m": 2} if x == 0 else {"w": 2, "m": 300} if x == 1 else {}))

            def big(n):
                return check(c.seed, w=n, m=1, p=1) or check(c.seed, w=1, m=n, p=1)
            c.sized(f"{name}: write_to_file writes the complete content", key, "file contents at the sizes the value graph distinguishes",
                    [s.ret] + [x for e in s.events for x in (e.get("args") or ())], big, hi=1 << 17)
            c.sampled(f"{name}: write_to_file writes the complete content", key, "file contents after the call = database entries / complete base parameters", one, c.tries)
        c.guard(f"{name}: write_to_file writes the complete content", key, go)

    def load():
        key = IP + "::load"
        s = summary(key)
        w = summary(f"<{IP} as {K}db::BaseParams>::write_to_file")

        def one(sd):
            R = rng(sd, "load")
            sy, want = writer_input(R, "params", "index")
            F = FS()
            E = F.hooks(ev.Env(sd, expand(sy)))
            if E.ev(w.ret)[2] != 0:
                return "writing fails"
            F.walk(w, E)
            E2 = F.hooks(ev.Env(sd, {"a0": sy["a1"]}))
            r = E2.ev(s.ret)
            if r != okv(sy["a0"]):
                return f"parameters written and loaded: {short(r)}, expected {short(sy['a0'])}"
        c.sampled("index parameters: load(write_to_file) is the identity", key, "composition of the two summaries over the abstract file system", one, c.tries)
    c.guard("index parameters: load(write_to_file) is the identity", IP + "::load", load)

    def fromfile(key, base, nargs):
        s, b = summary(key), summary(base)

        def one(sd):
            R = rng(sd, "ff")
            E0, i = index_new_env(sd)
            rest = [i["m"], i["es"], i["p"]]
            if nargs == 5:
                rest = [R.randrange(1, 4)] + rest
            path = R.choice(PATHS)
            F = FS({path: tuple(i["strs"])})
            const = lambda k, w: 5 & ((1 << w) - 1)
            E = F.hooks(b64_hooks(ev.Env(sd, {f"a{n}": x for n, x in enumerate([path] + rest)})))
            B = b64_hooks(ev.Env(sd, {f"a{n}": x for n, x in enumerate([tuple(i["strs"])] + rest)}))
            E.freshfn = B.freshfn = const
            r, w = E.ev(s.ret), B.ev(b.ret)
            if r[2] != 0 and w[2] != 0:
                return "skip"
            if r != w:
                return f"built from a file: {short(r)}; from the same strings: {short(w)}"
        c.sampled(f"{key.split('::')[-2]}::{key.split('::')[-1]} is the database of the file's strings", key, "equals construction from the parsed list, with the same settings", one, c.tries)
    for key, base, n in ((IND + "::from_file", IND + "::new", 4), (SH["index"] + "::from_json_file", SH["index"] + "::from_base64_strings", 5)):
        c.guard(f"{key}: content", key, lambda key=key, base=base, n=n: fromfile(key, base, n))

    def kvfile():
        key, base = SH["kv"] + "::from_json_file", SH["kv"] + "::from_base64_strings"
        s, b = summary(key), summary(base)

        def one(sd):
            R = rng(sd, "kvf")
            p, es, w = geometry(R)
            n = R.randrange(1, 4)
            names = tuple(("str", x) for x in R.sample(("a", "b", "kk", "", "x y", "z9"), n))
            vals = tuple(b64(elem_bytes(R, es, p)) for _ in range(n))
            fs = [f["name"] for f in fields_of(EKV)]
            recs = tuple(("agg", EKV, 0, tuple({"key": k, "value": v}.get(f, 0) for f in fs)) for k, v in zip(names, vals))
            path = R.choice(PATHS)
            rest = [R.randrange(1, 4), n, es, p]
            F = FS({path: recs})
            E = F.hooks(kv_env(ev.Env(sd, {f"a{j}": x for j, x in enumerate([path] + rest)})))
            B = kv_env(ev.Env(sd, {f"a{j}": x for j, x in enumerate([names, vals] + rest)}))
            E.freshfn = B.freshfn = lambda k, w: 5 & ((1 << w) - 1)
            r, q = E.ev(s.ret), B.ev(b.ret)
            if r[2] != 0 and q[2] != 0:
                return "skip"
            if r != q:
                return f"built from a file: {short(r)}; from the same keys and values: {short(q)}"
        c.sampled("KVShard::from_json_file is the database of the file's pairs", key, "equals construction from the parsed keys and values, with the same settings", one, c.tries)
    c.guard("KVShard::from_json_file: content", SH["kv"] + "::from_json_file", kvfile)

    for path in (IP, KP, K + "db::kv::FilterParams", DB["index"], DB["kv"], SH["index"], SH["kv"], EKV, KVP, QP, K + "api::Query", K + "api::Response", K + "db::CommonParams",
                 X + "bfusep32::BinaryFuseP32"):
        c.guard(f"serialised form of {path.split('::')[-1]}", path, lambda path=path: serde(c, path))
    for mod, n in (("xor", "Xor"), ("fuse", "Fuse"), ("bfuse", "BinaryFuse")):
        for w in (8, 16, 32):
            path = f"{X}{mod}{w}::{n}{w}"
            c.guard(f"serialised form of {n}{w}", path, lambda path=path: serde(c, path))
    c.guard("serialised form of HashProxy", X + "hash_proxy::HashProxy", lambda: serde(c, X + "hash_proxy::HashProxy", phantom=True))


def short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + "…"


def serde(c, path, phantom=False):
    """every field is serialised under a name that the deserialiser maps to the same field"""
    nm = path.split("::")[-1]
    P = prog()
    rule = "derived (de)serialiser: field written from self.f under the name that is read back into f; same order for sequences"
    fs = [f["name"] for f in fields_of(path)]
    r = mirq.serde_fields(P, path)
    if r is None:
        return c.rec(f"{nm} is serialisable", path, rule, "VIOLATED", "no Serialize implementation")
    ser, de, why = r
    if ser is None:
        return c.rec(f"{nm}: fields", path, rule, "undecided", why)
    zst = {i for i, f in enumerate(fields_of(path)) if "PhantomData" in str(f)}
    names, order = written_names(P, path)
    back = lambda n: None
    vs = [b for k, b in P.bodies.items() if b["local"] and f" for {path}" in k and "__FieldVisitor" in k and "::visit_str" in k]
    s = summary(vs[0]) if len(vs) == 1 else None
    rank = sorted(de) if de is not None else None
    for i, f in enumerate(fs):
        st, d = "proved", "written and restored"
        if i not in ser:
            st, d = ("proved", "carries no data") if i in zst else ("VIOLATED", "the field is not written")
        elif de is None:
            st, d = "undecided", "hand-written deserialiser"
        elif i not in de:
            st, d = ("proved", "carries no data") if i in zst else ("VIOLATED", "the field is defaulted when reading")
        elif s is not None and i in names:
            v = ev.Env(0, {"a1": ("str", names[i]), "a0": ("agg", "visitor", 0, ())}).ev(s.ret)
            got = v[3][0][2] if v[2] == 0 and isinstance(v[3][0], tuple) and v[3][0][0] == "agg" else None
            if got is None:
                st, d = "undecided", "field identifier not understood"
            elif got >= len(rank) or rank[got] != i:
                st, d = "VIOLATED", f"written as {names[i]!r}, which is read back as {fs[rank[got]] if got < len(rank) else 'an unknown field'}"
            else:
                d = f"written and read back as {names[i]!r}"
        c.rec(f"{nm}.{f}: written and restored", path, rule, st, d)
    if order is not None and rank is not None and len(order) > 1 and [x for x in order if x in rank] != [x for x in rank if x in order]:
        c.rec(f"{nm}: field order", path, rule, "VIOLATED", f"written in order {order}, read back in order {rank}")


def written_names(P, path):
    b = mirq._impl_body(P, path, "Serialize", "serialize")[0]
    org = mirq._origins(b)
    names, order = {}, []
    for bi, info, args, dest, sp in mirq.calls(b):
        n = (info or {}).get("path", "")
        if n.endswith("::serialize_field"):
            f = None
            for a in args[1:]:
                f = mirq._ref_field(b, org, a, path)
                if f is not None:
                    break
            st = [a[2]["ref"]["str"] for a in args if a[0] == "const" and isinstance(a[2], dict) and isinstance(a[2].get("ref"), dict) and "str" in a[2]["ref"]]
            if f is not None:
                order.append((bi, f))
                if st:
                    names[f] = st[0]
    # blocks of a straight chain of calls: order by reachability
    succ = {}
    for bi, blk in enumerate(b["blocks"]):
        t = blk["t"]
        succ[bi] = [x for x in _targets(t)] if t else []
    def reach(a):
        seen, todo = set(), [a]
        while todo:
            x = todo.pop()
            for y in succ.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return seen
    R = {bi: reach(bi) for bi, f in order}
    order = sorted(order, key=lambda x: -sum(1 for y, _ in order if y in R[x[0]]))
    return names, [f for _, f in order]


def _targets(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [x for x in _ints(t[2:])]
    if t[0] == "call":
        return [t[4]] if isinstance(t[4], int) else []
    return list(_ints(t[1:]))


def _ints(x):
    if isinstance(x, bool):
        return
    if isinstance(x, int):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from _ints(y)


# ---------------------------------------------------------------- P26
def broken_elem(R, i):
    """one fallible step of building from base64 strings, made to fail"""
    kinds = ["decode"]
    if (i["w"] - 1) * i["p"] >= 8:
        kinds.append("short")
    return R.choice(kinds)


def spoil(R, strs, els, i, how):
    n = R.randrange(len(strs))
    strs = list(strs)
    if how == "decode":
        strs[n] = BADB64
    else:
        need = (i["w"] - 1) * i["p"]
        strs[n] = b64(els[n][:R.randrange(need // 8)])
    return tuple(strs)


def bin_fail(E, fail):
    for nm in ("bincode::serialize", "bincode::internal::serialize", "bincode::config::Options::serialize"):
        E.hooks[nm] = (lambda E, xs, t: errv(("bin-error",))) if fail else (lambda E, xs, t: okv(("bin", xs[-1])))
    return E


def outcome(c, name, key, s, one):
    """one(seed) -> (environment, None | the step that fails) or None to skip"""
    def judge(sd):
        r = one(sd)
        if r is None:
            return "skip"
        E, fault = r
        try:
            v = E.ev(s.ret)
        except ev.Partial:
            v = None
        if fault is None:
            if v is not None and v[2] != 0:
                return "every step succeeds but the operation reports an error"
            return None
        if v is not None and v[2] == 0:
            return f"{fault} fails, but the operation reports success"
        t = traps(s, E)
        if t:
            return f"{fault} fails and the operation panics: {t}"
        if v is None:
            return "skip"
    c.sampled(name, key, "a failing step makes the summary's result Err without reaching a panic site; without one it is Ok", judge, c.tries)


def pick(R, steps, kinds):
    return R.choice([x for x in steps if kinds is None or x is None or x in kinds])


def malformed(c):
    """construction from every source rejects malformed contents (P17)"""
    bad = ("elem", "count", "width", "none", "parse")
    nm = "malformed contents are rejected without a panic"
    for key, file, shard in ((IND + "::from_file", 1, 0), (SH["index"] + "::from_json_file", 1, 1)):
        c.guard(nm, key, lambda key=key, file=file, shard=shard: idx_fails(c, key, file, shard, bad, nm))
    for key, file, shard in ((KVD + "::from_base64_strings", 0, 0), (SH["kv"] + "::from_base64_strings", 0, 1), (SH["kv"] + "::from_json_file", 1, 1)):
        c.guard(nm, key, lambda key=key, file=file, shard=shard: kv_fails(c, key, file, shard, bad, nm))
    for key, shard in ((KVD + "::new", 0), (SH["kv"] + "::new", 1)):
        c.guard(nm, key, lambda key=key, shard=shard: kvrows_fails(c, key, shard, bad, nm))


def idx_fails(c, key, file, shard, kinds=None, nm=None):
    s = summary(key)

    def one(sd):
        E0, i = index_new_env(sd)
        R = rng(sd, "ierr")
        strs = tuple(i["strs"])
        step = pick(R, (None, "elem", "count") + (("open", "parse", "missing") if file else ()), kinds)
        what = step
        if step == "elem":
            what = broken_elem(R, i)
            strs = spoil(R, strs[:i["m"]], i["els"], i, what)
            what = {"decode": "decoding an element", "short": "splitting a too short element"}[what]
        elif step == "count":
            strs = strs[:R.randrange(i["m"])]
            what = "finding m elements"
        rest = [i["m"], i["es"], i["p"]]
        if shard:
            rest = [R.randrange(1, 4)] + rest
        path = R.choice(PATHS)
        F = FS({} if step == "missing" else {path: strs}, ["open", "read"] if step == "open" else ["parse"] if step == "parse" else [])
        E = F.hooks(b64_hooks(ev.Env(sd, {f"a{n}": x for n, x in enumerate([path if file else strs] + rest)})))
        E.freshfn = lambda k, w: 5 & ((1 << w) - 1)
        return E, what
    outcome(c, nm or "index construction: every failing step is reported", key, s, one)


def kv_fails(c, key, file, shard, kinds=None, nm=None):
    s = summary(key)

    def one(sd):
        R = rng(sd, "kverr")
        p, es, w = geometry(R)
        while w > 6:
            p, es, w = geometry(R)
        i = {"p": p, "w": w}
        n = R.randrange(1, 4)
        names = tuple(("str", x) for x in R.sample(("a", "b", "kk", "", "x y", "z9"), n))
        els = [elem_bytes(R, es, p) for _ in range(n)]
        vals = tuple(b64(x) for x in els)
        step = what = pick(R, (None, "elem", "filters", "filter") + (("open", "parse", "missing") if file else ("count",)), kinds)
        if step == "elem":
            what = broken_elem(R, i)
            vals = spoil(R, vals, els, i, what)
            what = {"decode": "decoding a value", "short": "splitting a too short value"}[what]
        elif step == "count":
            if R.random() < .5:
                vals = vals[:-1]
            else:
                vals = vals + vals[:1]
            what = "pairing the keys with the values"
        elif step == "filters":
            what = "building the filters, with every seed,"
        elif step == "filter":
            what = "building one of the filters, with every seed,"
        col = R.randrange(w)
        fail = (lambda xs: True) if step == "filters" else (lambda xs: xs[3] == col) if step == "filter" else (lambda xs: False)
        rest = ([R.randrange(1, 4)] if shard else []) + [n, es, p]
        path = R.choice(PATHS)
        fs = [f["name"] for f in fields_of(EKV)]
        recs = tuple(("agg", EKV, 0, tuple({"key": k, "value": v}.get(f, 0) for f in fs)) for k, v in zip(names, vals))
        F = FS({} if step == "missing" else {path: recs}, ["open", "read"] if step == "open" else ["parse"] if step == "parse" else [])
        head = [path] if file else [names, vals]
        E = F.hooks(kv_env(ev.Env(sd, {f"a{j}": x for j, x in enumerate(head + rest)}), fail=fail))
        E.budget = [10 ** 6]
        E.freshfn = lambda k, w: ev.h64("fresh", sd, repr(k)) & ((1 << w) - 1)
        return E, what
    outcome(c, nm or "kv construction: every failing step is reported", key, s, one)


def kvrows_fails(c, key, shard, kinds=None, nm=None):
    s = summary(key)

    def one(sd):
        R = rng(sd, "kvr")
        p, es, w = geometry(R)
        while w > 6:
            p, es, w = geometry(R)
        n = R.randrange(1, 4)
        kvs = [[tuple(R.getrandbits(64) for _ in range(4)), tuple(R.getrandbits(p) for _ in range(w))] for _ in range(n)]
        step = what = pick(R, (None, "filters", "filter", "width", "none"), kinds)
        if step == "width":
            x = R.choice(kvs)
            x[1] = x[1][:R.randrange(w)] if R.random() < .5 else x[1] + (0,)
            what = "checking the width of a value"
        elif step == "none":
            kvs, what = [], "finding a key"
        elif step:
            what = "building the filters"
        col = R.randrange(w)
        fail = (lambda xs: True) if step == "filters" else (lambda xs: xs[3] == col) if step == "filter" else (lambda xs: False)
        rest = ([R.randrange(1, 4)] if shard else []) + [n, es, p]
        E = kv_env(ev.Env(sd, {f"a{j}": x for j, x in enumerate([tuple(kvval(*x) for x in kvs)] + rest)}), fail=fail)
        E.budget = [10 ** 6]
        E.freshfn = lambda k, w: ev.h64("fresh", sd, repr(k)) & ((1 << w) - 1)
        return E, what
    outcome(c, nm or "kv construction from rows: every failing step is reported", key, s, one)


def P26(c):
    """a failing step makes the operation fail, without a panic"""
    nm = "an error while writing is reported"
    for what, key, sort, kind in WRITERS:
        def wr(what=what, key=key, sort=sort, kind=kind):
            s = summary(key)

            def one(sd):
                R = rng(sd, "werr")
                sy, want = writer_input(R, sort, kind)
                P = FS()
                P.renames(s, P.hooks(ev.Env(sd, expand(sy))))
                step = R.choice([None] + steps_of(want) + [("rename", x) for x in want if x in P.alias.values()])
                F = FS(broken=[step] if step else [])
                E = F.hooks(ev.Env(sd, expand(sy)))
                F.renames(s, E)
                return E, step and f"{ {'create': 'creating', 'write': 'writing', 'rename': 'renaming'}[step[0]]} file {list(want).index(step[1]) + 1} of {len(want)}"
            outcome(c, f"{what}: {nm}", key, s, one)
        c.guard(f"{what}: {nm}", key, wr)

    def load():
        key = IP + "::load"
        s = summary(key)

        def one(sd):
            R = rng(sd, "lerr")
            sy, want = writer_input(R, "params", "index")
            path = sy["a1"]
            step = R.choice((None, "open", "parse", "missing"))
            F = FS({} if step == "missing" else {path: sy["a0"]}, ["open", "read"] if step == "open" else [step] if step else [])
            return F.hooks(ev.Env(sd, {"a0": path})), step and {"open": "opening the file", "parse": "parsing the file", "missing": "opening the missing file"}[step]
        outcome(c, "parameters: an unreadable or malformed file is reported", key, s, one)
    c.guard("parameters: an unreadable or malformed file is reported", IP + "::load", load)

    for key, file, shard in ((IND + "::new", 0, 0), (IND + "::from_file", 1, 0), (SH["index"] + "::from_base64_strings", 0, 1), (SH["index"] + "::from_json_file", 1, 1)):
        c.guard("index construction: every failing step is reported", key, lambda key=key, file=file, shard=shard: idx_fails(c, key, file, shard))

    for key, file, shard in ((K + "db::kv::KVDatabase::from_base64_strings", 0, 0), (SH["kv"] + "::from_base64_strings", 0, 1), (SH["kv"] + "::from_json_file", 1, 1)):
        c.guard("kv construction: every failing step is reported", key, lambda key=key, file=file, shard=shard: kv_fails(c, key, file, shard))

    for key, shard in ((K + "db::kv::KVDatabase::new", 0), (SH["kv"] + "::new", 1)):
        c.guard("kv construction from rows: every failing step is reported", key, lambda key=key, shard=shard: kvrows_fails(c, key, shard))

    def value():
        key = KVP + "::from_base64_strings"
        s = summary(key)

        def one(sd):
            R = rng(sd, "kve")
            p, es, w = geometry(R)
            bs = elem_bytes(R, es, p)
            what, x = None, (b64(bs),)
            if R.randrange(2):
                what = broken_elem(R, {"w": w, "p": p})
                x = spoil(R, x, [bs], {"w": w, "p": p}, what)
                what = {"decode": "decoding the value", "short": "splitting the too short value"}[what]
            return b64_hooks(ev.Env(sd, {"a0": ("str", R.choice(("k", "", "longer"))), "a1": x[0], "a2": es, "a3": p})), what
        outcome(c, "key-value pair: a failing step is reported", key, s, one)
    c.guard("key-value pair: a failing step is reported", KVP + "::from_base64_strings", value)

    def respond(kind):
        key = SH[kind] + "::respond"
        s = summary(key)

        def one(sd):
            R = rng(sd, "rsp")
            sv, info = shard_value(kind, R)
            step = R.choice((None, "len", "ser"))
            m = info["m"] if step != "len" else max(0, info["m"] + R.choice((-1, 1, 5)))
            if step == "len" and m == info["m"]:
                return None
            q = ("agg", K + "api::Query", 0, (tuple(R.getrandbits(32) for _ in range(m)),))
            return bin_fail(ev.Env(sd, expand({"a0": sv, "a1": q})), step == "ser"), step and {"len": "the length check of the query", "ser": "serialising the response"}[step]
        outcome(c, f"{kind}: a failure to answer is reported", key, s, one)
    for kind in ("index", "kv"):
        c.guard(f"{kind}: a failure to answer is reported", SH[kind] + "::respond", lambda kind=kind: respond(kind))

    def params(kind, key):
        s = summary(key)

        def one(sd):
            R = rng(sd, "qpe")
            d, m, w = R.randrange(1, 5), R.randrange(1, 4), R.randrange(1, 4)
            A, H = [list(x) for x in mat(R, m, d)], [list(x) for x in mat(R, w, d)]
            step = R.choice((None, "A", "H"))
            if step:
                x = R.choice({"A": A, "H": H}[step])
                x.pop() if R.random() < .5 else x.append(R.getrandbits(32))
            sy = new_syms(kind, A=tuple(map(tuple, A)), H=tuple(map(tuple, H)), dim=d)(sd)
            return ev.Env(sd, sy), step and {"A": "the product of the secret with the public matrix", "H": "the product of the secret with the published hint"}[step]
        outcome(c, f"{kind}: mismatched dimensions are reported", key, s, one)
    for kind in ("index", "kv"):
        for key in (NEW[kind], K + f"api::generate_{kind}_query_params"):
            c.guard(f"{kind}: mismatched dimensions are reported", key, lambda kind=kind, key=key: params(kind, key))

    def query(kind, q):
        key = q + "generate_query"
        s = summary(key)

        def one(sd):
            sy = query_syms(kind)(sd)
            why = "the single-use check" if sy[qpf("used")] else "finding the filter parameters" if kind == "kv" and sy[qpf("extra_params")] == NONE else None
            return ev.Env(sd, sy), why
        outcome(c, f"{kind}: a query that cannot be made is reported", key, s, one)
    for kind, q in (("index", QI), ("kv", QK)):
        c.guard(f"{kind}: a query that cannot be made is reported", q + "generate_query", lambda kind=kind, q=q: query(kind, q))

    def parse(fn):
        key = QK + fn
        s = summary(key)

        def one(sd):
            R = rng(sd, "prs")
            p, es, w = geometry(R)
            step = R.choice((None, "len", "fp"))
            n = w if step != "len" else max(0, w + R.choice((-1, 1, -2)))
            if step == "len" and n == w:
                return None
            sy = qp_syms(R, u32s(R, w), es, p, some(fparams(R)[0]) if step != "fp" else NONE)
            sy["a2"] = tuple(R.getrandbits(64) for _ in range(4))
            return b64_hooks(ev.Env(sd, with_resp(sy, u32s(R, n)))), step and {"len": "the length check of the response", "fp": "finding the filter parameters"}[step]
        outcome(c, f"kv {fn}: a response that cannot be decoded is reported", key, s, one)
    for fn in ("parse_resp_as_row", "parse_resp_as_bytes", "parse_resp_as_base64"):
        c.guard(f"kv {fn}: a response that cannot be decoded is reported", QK + fn, lambda fn=fn: parse(fn))

    def filt():
        for key in (X + "bfusep32::BinaryFuseP32::from_vec",):
            a, b = summary(key, ovr={FROM_SLICE: ABS[FROM_SLICE]}, tag="p26"), None

            def one(sd):
                R = rng(sd, "fv")
                bad = R.random() < .5
                E = kv_env(ev.Env(sd, {"a0": tuple(R.getrandbits(8) for _ in range(32)), "a1": tuple(tuple(R.getrandbits(64) for _ in range(4)) for _ in range(3)), "a2": (1, 2, 3),
                                       "a3": 0, "a4": 1024}), fail=lambda xs: bad)
                return E, "building the filter" if bad else None
            outcome(c, "owned keys: a construction failure is reported", key, a, one)
    c.guard("owned keys: a construction failure is reported", X + "bfusep32::BinaryFuseP32::from_vec", filt)
    cover(c)


HANDLED = re.compile(r"^(std::fs::(File::|OpenOptions::open|read|write|rename|remove_file|metadata|exists)|(std|core)::io::(write::)?Write::|(std|alloc)::io::buffered|std::path::Path::|serde_json::|base64::decode|bincode::|core::convert::TryInto|core::convert::TryFrom|core::str::|core::result::|core::option::|core::ops::|core::iter::|"
                     r"alloc::vec::|core::fmt::|alloc::fmt::|rand|clap|serde::|std::env::|core::array|xorf::|keyword_pir_lwe::|alloc::string)")


def cover(c):
    """every fallible library call reached by the operations is one that the rules above make fail"""
    from effects import Graph, fnrefs
    g = Graph()
    seen, unk = set(), set()
    for k in sorted(g.loc):
        if not k.startswith(("keyword_pir_lwe::", "<keyword_pir_lwe::")) or "_serde" in k or "_::<impl" in k:
            continue
        b = g.loc[k]
        for blk in b["blocks"]:
            t = blk["t"]
            if not t or t[0] != "call" or not isinstance(t[3], list):
                continue
            info = t[1][2].get("fn") if t[1][0] == "const" and isinstance(t[1][2], dict) else None
            if not info or not isinstance(t[3], list) or len(t[3]) > 1 and t[3][1]:
                continue
            l = t[3][0] if isinstance(t[3][0], int) else None
            if l is None:
                continue
            ty = b["tys"][b["locals"][l]].get("s", "") if isinstance(b["locals"][l], int) else ""
            if ty.startswith(("std::result::Result<", "core::result::Result<")):
                seen.add(info["path"])
                if not HANDLED.match(info["path"]):
                    unk.add((info["path"], k))
    c.rec("fallible library calls covered", "keyword_pir_lwe", "every external callee returning a Result is one of the steps made to fail", "undecided" if unk else "proved",
          f"{len(seen)} fallible callees" + (f"; not covered: {sorted(unk)[:4]}" if unk else ""))
