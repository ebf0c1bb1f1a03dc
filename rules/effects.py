"""Effect confinement (P21): interprocedural effect inference over the call graph."""
import re
from core import *
import dump

# path pattern of an external function -> effect
EFFECTS = [
    (r"^std::fs::(File::(create|create_new|options|set_len)|write|OpenOptions|create_dir|remove_|rename|copy|hard_link|soft_link|set_permissions|DirBuilder)", "fs.write"),
    (r"^std::fs::", "fs.read"),
    (r"^std::os::", "fs.write"),
    (r"^std::env::(set_var|remove_var|set_current_dir)", "env.write"),
    (r"^std::env::(args|args_os)", "args"),
    (r"^std::env::", "env.read"),
    (r"^clap::app::App.*::(get_matches|get_matches_safe)", "args"),
    (r"^clap::.*::exit$", "process"),
    (r"^std::io::stdio::(_print|_eprint|stdout|stderr)|^std::io::(stdout|stderr)|^std::macros::dbg|^libc_print::", "output"),
    (r"^std::io::stdio::stdin|^std::io::stdin", "input"),
    (r"^std::net::", "network"),
    (r"^std::process::", "process"),
    (r"^std::thread::(local::|LocalKey)", "state"),
    (r"^std::thread::|^rayon", "thread"),
    (r"^std::time::(Instant|SystemTime)::now|^std::time::.*::elapsed", "clock"),
    (r"^(rand::rngs::thread::thread_rng|rand::random|rand::rngs::thread|rand_core::os::|getrandom::)", "random"),
    (r"::from_entropy$|::from_os_rng$", "random"),
    (r"^(core|std)::sync::atomic::|^std::sync::(poison::)?(mutex|rwlock|mpsc|condvar|barrier|mpmc)", "state"),
    (r"^std::alloc::|^alloc::alloc::", "memory"),
]
EFFECTS = [(re.compile(p), e) for p, e in EFFECTS]
RNG_TY = re.compile(r"rand_core::os::OsRng|rand::rngs::thread::ThreadRng|rand::rngs::adapter|getrandom::")
KNOWN = {"core", "alloc", "std", "serde", "serde_core", "serde_json", "base64", "bincode", "digest", "sha2", "hashbrown", "libm", "rand", "rand_core", "rand_chacha", "num_traits", "clap",
         "generic_array", "typenum", "block_buffer", "crypto_common", "byteorder", "hex_literal", "bitreader", "seahash", "poly1305", "libmath", "math", "ahash", "lazy_static", "getrandom", "libc_print", "rayon", "criterion"}
ITER = re.compile(r"(HashMap|HashSet)<.*as core::iter::traits::collect::IntoIterator>|hash::(map|set)::Hash(Map|Set).*::(iter|iter_mut|keys|values|values_mut|drain|into_keys|into_values|retain|extract_if)\b|hashbrown::(map|set)::Hash(Map|Set).*::(iter|iter_mut|keys|values|drain|retain|into_keys|into_values)\b")
ORDERED = re.compile(r"::sort|BTree|::len$|::count$|::sum|::any|::all|::max|::min|::product")
SYNC_TY = re.compile(r"(cell::|sync::|Mutex|RwLock|Atomic|RefCell|LocalKey|lazy_static|OnceLock|OnceCell|LazyLock|LazyCell)")


# ------------------------------------------------------------------ graph
def fnrefs(b):
    """(callee info, is call, terminator/statement span) of every function constant"""
    out = []

    def op(x, sp, call=False):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "const" and isinstance(x[2], dict) and "fn" in x[2]:
                out.append((x[2]["fn"], call, sp))
                return
            for y in x:
                op(y, sp)
    for blk in b["blocks"]:
        for st in blk["s"]:
            op(st, st[-1] if isinstance(st[-1], list) else None)
        t = blk["t"]
        if t and t[0] == "call":
            op(t[1], blk["sp"], True)
            op(t[2], blk["sp"])
        elif t:
            op(t, blk["sp"])
    return out


def closures_of(b, bykey):
    pre = b["key"] + "::{closure#"
    return [k for k in bykey if k.startswith(pre) and "}" not in k[len(pre):-1]] if bykey else []


class Graph:
    def __init__(self, config="dev"):
        P = prog(config)
        self.P = P
        self.loc = {b["key"]: b for b in P.bodies.values() if b["local"]}
        self.impls = {}
        for k, b in self.loc.items():
            m = re.match(r"^<(.+) as ([\w:]+)(<.*>)?>::(\w+)", k)
            if m:
                self.impls.setdefault((m.group(2), m.group(4)), []).append(k)
        self.clos = {}
        for k in self.loc:
            i = k.rfind("::{closure#")
            if i > 0:
                self.clos.setdefault(k[:i], []).append(k)
        # instantiated bodies of local generics have their own key; fall back to the path
        self.bypath = {}
        for k, b in self.loc.items():
            self.bypath.setdefault(b["path"], []).append(k)
        self.direct, self.edges = {}, {}
        for k, b in self.loc.items():
            self.scan(k, b)
        self.close()

    def scan(self, k, b):
        eff, out, unk = {}, set(self.clos.get(k, ())), {}
        for f, call, sp in fnrefs(b):
            tgt = None
            if f.get("key") in self.loc:
                tgt = [f["key"]]
            elif f.get("rpath") in self.bypath or f.get("path") in self.bypath:
                tgt = self.bypath.get(f.get("rpath")) or self.bypath.get(f["path"])
            elif f.get("trait"):
                tgt = self.impls.get((f["trait"], f["path"].split("::")[-1])) if f.get("key") is None or f["crate"] in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils") else None
            if tgt:
                out.update(tgt)
                if f["crate"] in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils"):
                    continue
            for q in {f["path"], f.get("rpath") or f["path"]}:
                for p, e in EFFECTS:
                    if p.search(q):
                        eff.setdefault(e, (q, sp))
                        break
            full = f.get("full") or ""
            if ITER.search(full) or ITER.search(f["path"]):
                eff.setdefault("hash-order", (full[:120], sp))
            if RNG_TY.search(full):
                eff.setdefault("random", (full[:120], sp))
            if re.search(r"(OnceLock|OnceCell|LazyLock|LazyCell|lazy_static)", f["path"]) and call:
                eff.setdefault("once", (f["path"], sp))
            if re.match(r"^core::cell::", f["path"]):
                eff.setdefault("cell", (f["path"], sp))
            if not tgt and f["crate"] not in KNOWN and f["crate"] not in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils"):
                unk[f["path"]] = sp
        tys = b["tys"]
        for t in b["locals"]:
            if t is not None and RNG_TY.search(tys[t].get("s", "")):
                eff.setdefault("random", ("a value of type " + tys[t]["s"][:80], b["span"]))
        for blk in b["blocks"]:
            for st in blk["s"]:
                s = str(st)
                if "PointerExpose" in s:
                    eff.setdefault("address", ("pointer cast to an integer", st[-1]))
                if "threadlocal" in s.lower():
                    eff.setdefault("state", ("thread-local", st[-1]))
        self.direct[k], self.edges[k] = eff, out
        self.unk = getattr(self, "unk", {})
        if unk:
            self.unk[k] = unk

    def close(self):
        """effects with a witness path"""
        self.all = {k: {e: [k] for e in v} for k, v in self.direct.items()}
        work = True
        while work:
            work = False
            for k, out in self.edges.items():
                for j in out:
                    for e, path in list(self.all.get(j, {}).items()):
                        if e not in self.all[k]:
                            self.all[k][e] = [k] + path
                            work = True

    def reach(self, k):
        seen, st = set(), [k]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.edges.get(x, ()))
        return seen

    def witness(self, k, e):
        path = self.all[k][e]
        what, sp = self.direct[path[-1]][e]
        return " -> ".join(short_key(p) for p in path) + f" calls {what}" + (f" at {sp[0]}:{sp[1]}" if sp else "")


def short_key(k):
    return k.replace("keyword_pir_lwe::", "").replace("core::convert::", "").replace("alloc::vec::", "")


# what each public operation may do; everything else must be free of effects
ALLOW = [
    (r"::write_to_file$", {"fs.write"}),
    (r"api::(Shard|KVShard)::from_json_file$", {"fs.read", "random"}),
    (r"::(from_file|load)$", {"fs.read"}),
    (r"api::(Shard|KVShard)::(from_base64_strings|new)$", {"random"}),
    (r"api::generate_(index|kv)_query_params$|db::CommonParams::mult_left$", {"random"}),
    (r"db::(index::IndexParams|kv::KVParams|kv::KVDatabase)::(new|from_base64_strings)$", {"random"}),
    (r"^xorf::.*::(from_slice|from_vec)$|^<xorf::.* as core::convert::(Try)?From<", {"random"}),
    (r"^pi_rs_cli_utils::parse_from_env$", {"env.read"}),
    (r"^pi_rs_cli_utils::parse_cli_flags$", {"args"}),
]
HARD = {"fs.read", "fs.write", "env.read", "env.write", "args", "output", "input", "network", "process", "thread", "clock", "random", "state", "memory", "address"}


def allowed(k):
    r = set()
    for p, s in ALLOW:
        if re.search(p, k):
            r |= s
    return r


def P21(c):
    g = Graph("dev")
    grel = Graph("release")
    anchors = [k for k in ANCHORS["functions"] if k in g.loc or k in grel.loc]
    for k in ANCHORS["functions"]:
        gs = [x for x in (g, grel) if k in x.loc]
        if not gs:
            continue
        rule = "effects reachable over the call graph are among those documented for the operation"
        ok = allowed(k)
        bad, soft = [], []
        n = 0
        for x in gs:
            n = max(n, len(x.reach(k)))
            for e in x.all[k]:
                if e in ok:
                    continue
                if e == "hash-order":
                    last = x.all[k][e][-1]
                    calm = any(ORDERED.search(f["path"]) for f, _, _ in fnrefs(x.loc[last]))
                    (soft if calm else bad).append(f"{e}: {x.witness(k, e)}")
                elif e in HARD:
                    bad.append(f"{e}: {x.witness(k, e)}")
                elif e == "once":
                    soft.append(f"{e}: {x.witness(k, e)}")
            for j in x.reach(k):
                for q in x.unk.get(j, {}):
                    soft.append(f"external function {q} in {short_key(j)} is not classified")
        c.analysed.add(k)
        if bad:
            c.rec("effects stay within what is documented", k, rule, "VIOLATED", "; ".join(sorted(set(bad)))[:1500])
        elif soft:
            c.rec("effects stay within what is documented", k, rule, "undecided", "; ".join(sorted(set(soft)))[:600])
        else:
            c.rec("effects stay within what is documented", k, rule, "proved", f"{n} functions reachable; effects {{{', '.join(sorted(set(g.all.get(k, {})) & ok))}}}")
    for k in sorted(g.loc):
        if " as core::ops::drop::Drop>::drop" in k:
            bad = set(g.all[k]) & HARD
            c.rec("dropping a value has no effects", k, "effect inference", "VIOLATED" if bad else "proved", "; ".join(g.witness(k, e) for e in sorted(bad)))
    state(c, g)
    # reading and writing touch one direction only, in every branch
    unsafe(c)


def state(c, g):
    rule = "no mutable global or thread-local state"
    n = 0
    for cr, v in prog("dev").dumps.items() if isinstance(prog("dev").dumps, dict) else []:
        for it in v["items"]:
            if it["kind"] == "Static":
                n += 1
                ty = v["types"][it["ty"]].get("s", "")
                at = it["path"]
                if it["mut"] or re.search(r"Mutex|RwLock|Atomic|core::cell::(Cell|RefCell|UnsafeCell)", ty):
                    c.rec("no hidden mutable state", at, rule, "VIOLATED", f"static of type {ty[:200]} at {it['span'][0]}:{it['span'][1]}")
                elif SYNC_TY.search(ty):
                    once(c, g, at, ty)
                else:
                    c.rec("no hidden mutable state", at, rule, "proved", f"immutable static of type {ty[:100]}")
            if it["kind"] == "Const" and "LocalKey" in str(it):
                c.rec("no hidden mutable state", it["path"], rule, "VIOLATED", "thread-local variable")
    c.rec("no hidden mutable state", "keyword_pir_lwe, xorf, pi_rs_cli_utils", rule, "proved", f"{n} statics")


def once(c, g, at, ty):
    """a lazily initialised static is a constant when its initialiser captures nothing and is effect free"""
    rule = "a lazily initialised static does not depend on the arguments of its first use"
    bad = []
    for k, b in g.loc.items():
        for f, call, sp in fnrefs(b):
            if call and re.search(r"(OnceLock|OnceCell).*::(get_or_init|set|get_or_try_init|get_mut_or_init)$", f["path"]):
                if f["path"].endswith("::set"):
                    bad.append(f"{short_key(k)} sets it at {sp[0]}:{sp[1]}")
                    continue
                for cl in g.clos.get(k, ()):
                    if captures(g.loc[k], cl):
                        bad.append(f"the initialiser in {short_key(k)} captures local values ({sp[0]}:{sp[1]})")
                    if set(g.all.get(cl, {})) & HARD:
                        bad.append(f"the initialiser in {short_key(k)} has effects")
    c.rec("no hidden mutable state", at, rule, "VIOLATED" if bad else "undecided", "; ".join(sorted(set(bad)))[:600] or ty[:200])


def captures(b, cl):
    for blk in b["blocks"]:
        for st in blk["s"]:
            if st[0] == "assign" and st[2][0] == "agg" and isinstance(st[2][1], list) and st[2][1][0] == "closure" and cl in str(st[2][1]):
                return bool(st[2][2])
    return False


def unsafe(c):
    rule = "no unsafe code, foreign functions or assembly"
    D = prog("dev").dumps
    for cr, v in D.items():
        bad = [s for s in v["unsafe_blocks"] if not str(s[0]).startswith("/")]
        bad += [it["span"] if "span" in it else [it["path"], 0] for it in v["items"] if it["kind"] in ("ForeignMod",)]
        fns = [b["key"] for b in v["bodies"] if b["local"] and b.get("unsafe")]
        c.rec("no memory-unsafe code", cr, rule, "VIOLATED" if bad or fns else "proved",
              "; ".join(f"{s[0]}:{s[1]}" for s in bad) + "; ".join(fns) or f"{len(v['bodies'])} bodies, {len(v['items'])} items")
