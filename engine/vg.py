"""Value-graph dataflow over MIR.

One abstract interpretation pass per function: every place is mapped to a term
(terms.py), control-flow joins become gated merges (gamma functions keyed by the
branch predicate BDD), loops are summarised by recurrence analysis (scalar and
sequence evolution: affine, accumulate, append, own-index update, scatter, ...).
No path enumeration and no solver; terms are compared by normal form.
"""
import os
import struct
from terms import *
import terms as TM

UNSUPPORTED = mk("unk", "unsupported")
MAXDEPTH = 60


class Undecided(Exception):
    pass


class Prog:
    def __init__(self, dumps):
        self.bodies = {}
        self.items = []
        self.dumps = dumps
        self.closures = {}
        for c in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils"):
            j = dumps.get(c)
            if not j:
                continue
            tys = j["types"]
            for b in j["bodies"]:
                b["tys"] = tys
                b["dump"] = c
                o = self.bodies.get(b["key"])
                if o is None or (b["local"] and not o["local"]):
                    self.bodies[b["key"]] = b
            for i in j["items"]:
                i["tys"] = tys
                i["dump"] = c
                self.items.append(i)
        self.adt = {}
        for c, j in dumps.items():
            for t in j["types"]:
                if t["k"] == "adt" and t.get("expanded"):
                    self.adt.setdefault(t["path"], (t, j["types"]))
        self._byself = None

    def local_bodies(self, crate=None):
        return [b for b in self.bodies.values() if b["local"] and (crate is None or b["dump"] == crate)]

    def find_method(self, selfpath, trait, name):
        """concrete body for <selfpath.. as trait>::name"""
        cands = []
        for k, b in self.bodies.items():
            if not b["local"]:
                continue
            if k.endswith("::" + name) or ("::" + name + "::<") in k:
                p = b["path"]
                if k.startswith("<" + selfpath + " as " + trait) or k.startswith("<" + selfpath + "<") and (" as " + trait) in k:
                    cands.append(b)
        cands.sort(key=lambda b: (b["generic"], b["key"]))
        return cands[0] if cands else None


class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem=None, pc=TT):
        self.mem = mem if mem is not None else {}
        self.pc = pc

    def copy(self):
        return State(dict(self.mem), self.pc)


# ------------------------------------------------------------------ CFG
def cfg(body):
    c = body.get("_cfg")
    if c:
        return c
    blocks = body["blocks"]
    n = len(blocks)
    succ = [[] for _ in range(n)]
    for i, b in enumerate(blocks):
        if b["cleanup"]:
            continue
        succ[i] = [s for s in term_succ(b["t"]) if not blocks[s]["cleanup"]]
    # reachable + RPO
    order, seen, st = [], set(), [(0, iter(succ[0]))]
    seen.add(0)
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for u in rpo:
        for v in succ[u]:
            pred[v].append(u)
    # dominators
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x != y:
                    while pos[x] > pos[y]:
                        x = idom[x]
                    while pos[y] > pos[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == rpo[0]:
                return False
            b = idom[b]
    loops = {}
    irreducible = False
    for u in rpo:
        for v in succ[u]:
            if pos[v] <= pos[u]:
                if not dominates(v, u):
                    irreducible = True
                    continue
                L = loops.setdefault(v, {v})
                stk = [u]
                while stk:
                    x = stk.pop()
                    if x in L:
                        continue
                    L.add(x)
                    stk.extend(pred[x])
    live = liveness(body, rpo, succ)
    c = {"succ": succ, "pred": pred, "rpo": rpo, "pos": pos, "idom": idom, "loops": loops, "irr": irreducible, "live": live, "dominates": dominates}
    body["_cfg"] = c
    return c


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return list(dict.fromkeys([x[1] for x in t[2]] + ([t[3]] if t[3] is not None else [])))
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def place_uses(p, out):
    out.add(p[0])
    for e in p[1]:
        if e[0] == "index":
            out.add(e[1])


def op_uses(o, out):
    if o[0] in ("copy", "move"):
        place_uses(o[1], out)


def rv_uses(r, out, addr):
    k = r[0]
    if k in ("use",):
        op_uses(r[1], out)
    elif k == "repeat":
        op_uses(r[1], out)
    elif k == "ref":
        place_uses(r[2], out)
        addr.add(r[2][0])
    elif k == "rawptr":
        place_uses(r[2], out)
        addr.add(r[2][0])
    elif k == "cast":
        op_uses(r[2], out)
        if r[1] == "BoxDerefTransmute" and r[2][0] in ("copy", "move"):
            addr.add(r[2][1][0])
    elif k == "bin":
        op_uses(r[2], out)
        op_uses(r[3], out)
    elif k == "un":
        op_uses(r[2], out)
    elif k == "discr":
        place_uses(r[1], out)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, out)


def _adts_in(tys, t, depth=0):
    yield t
    if depth < 4:
        for x in (t.get("elem"), t.get("to")):
            if isinstance(x, int):
                yield from _adts_in(tys, tys[x], depth + 1)
        for v in (t.get("variants") or [])[:1]:
            for f in v["fields"]:
                yield from _adts_in(tys, tys[f["ty"]], depth + 1)


def liveness(body, rpo, succ):
    blocks = body["blocks"]
    use, df, addr = {}, {}, set()
    for b in rpo:
        u, d = set(), set()

        def use_(s):
            for x in s:
                if x not in d:
                    u.add(x)
        for s in blocks[b]["s"]:
            if s[0] == "assign":
                o = set()
                rv_uses(s[2], o, addr)
                if s[2][0] == "use" and s[2][1][0] == "copy" and s[2][1][1][1]:
                    pl = s[2][1][1]
                    t = body["tys"][body["locals"][pl[0]]]
                    if any(x["k"] == "adt" and x["path"].endswith("boxed::Box") for x in _adts_in(body["tys"], t)):
                        addr.add(pl[0])
                if s[1][1]:
                    place_uses(s[1], o)
                use_(o)
                if not s[1][1]:
                    d.add(s[1][0])
            elif s[0] == "setdiscr":
                o = set()
                place_uses(s[1], o)
                use_(o)
        t = blocks[b]["t"]
        o = set()
        if t[0] == "switch":
            op_uses(t[1], o)
        elif t[0] == "call":
            op_uses(t[1], o)
            for a in t[2]:
                op_uses(a, o)
            if t[3][1]:
                place_uses(t[3], o)
        elif t[0] == "assert":
            op_uses(t[1], o)
            for x in t[3][1:]:
                if isinstance(x, list):
                    op_uses(x, o)
        elif t[0] == "drop":
            pass
        elif t[0] == "return":
            o.add(0)
        use_(o)
        if t[0] == "call" and not t[3][1]:
            d.add(t[3][0])
        use[b], df[b] = u, d
    live = {b: set() for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            o = set()
            for s in succ[b]:
                if s in live:
                    o |= live[s]
            n = use[b] | (o - df[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return {b: live[b] | addr for b in rpo}


# ------------------------------------------------------------------ types
def ty(body, i):
    return body["tys"][i]


def coerce(v, w):
    """a scalar whose width was not known where it was built"""
    if v.w is not None:
        return v
    if v.op == "ite":
        a, b = coerce(v.a[1], w), coerce(v.a[2], w)
        return ite(v.a[0], a, b) if a.w == b.w else v
    if v.op == "idx":
        return idx(v.a[0], v.a[1], w)
    if v.op in ("fld", "loopval"):
        return mk(v.op, *v.a, w=w)
    return v


def width_of(tys, i):
    if i is None:
        return None
    t = tys[i]
    k = t["k"]
    if k == "bool":
        return "b"
    if k in ("int", "uint"):
        return t["bits"]
    if k == "char":
        return 32
    if k in ("ref", "ptr"):
        return width_of(tys, t["to"])
    return None


def is_signed(tys, i):
    return tys[i]["k"] == "int"


def is_box(t):
    return t["k"] == "adt" and t["path"].endswith("boxed::Box")


PTRLIKE = ("::Unique", "::NonNull", "ManuallyDrop", "MaybeUninit", "MaybeDangling", "mem::maybe_dangling")


def is_wrapper(t):
    """single-field std wrappers represented by their content"""
    return t["k"] == "adt" and any(t["path"].endswith(x) for x in ("::Unique", "::NonNull", "::ManuallyDrop", "::MaybeUninit", "::MaybeDangling"))


def seqdesc(tys, i, depth=0):
    """('s', elem desc, len|None) for sequence types, ('a', path, fields) for
    structs, ('e', path, ((fields of variant), ...)) for enums, else width"""
    t = tys[i]
    k = t["k"]
    if depth > 6:
        return None
    if k == "ref":
        return seqdesc(tys, t["to"], depth + 1)
    if k == "array":
        return ("s", seqdesc(tys, t["elem"], depth + 1), t["len"])
    if k == "slice":
        return ("s", seqdesc(tys, t["elem"], depth + 1), None)
    if k == "str":
        return ("s", 8, None)
    if k == "adt":
        p = t["path"]
        if p.endswith("vec::Vec") and t["args"]:
            return ("s", seqdesc(tys, t["args"][0], depth + 1), None)
        if is_box(t) and t["args"]:
            return seqdesc(tys, t["args"][0], depth + 1)
        if p.endswith("string::String"):
            return ("s", 8, None)
        if p.endswith("GenericArray") and t["args"]:
            return ("s", seqdesc(tys, t["args"][0], depth + 1), None)
        if t.get("expanded") and t.get("kind") == "struct" and p.split("::")[0] in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils") and t["variants"]:
            fs = t["variants"][0]["fields"]
            return ("a", p, tuple(seqdesc(tys, f["ty"], depth + 1) for f in fs))
        if t.get("expanded") and t.get("kind") == "enum" and t["variants"]:
            return ("e", p, tuple(tuple(seqdesc(tys, f["ty"], depth + 1) for f in v["fields"]) for v in t["variants"]))
        return None
    if k == "tuple":
        return ("a", "tuple", tuple(seqdesc(tys, f, depth + 1) for f in t["fields"]))
    return width_of(tys, i)


def register_desc(t, d):
    TM.DESC[t] = d


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, prog, inline_ext=True):
        self.P = prog
        self.depth = 0
        self.events = []
        self.quiet = 0
        self.loopctx = []      # [(k, n, outer pc)]
        self.stack = []        # [(body key, file, line)]
        self.draws = 0
        self.tmpn = 0
        self.notes = []
        self.overrides = {}    # path -> callable(I,S,fn,args,ctx)
        self.exitcond = {}
        self.steps = 0
        self.cur = None
        import models
        self.models = models

    # -------------------------------------------------- bookkeeping
    def ctx_ks(self):
        return tuple(l[0] for l in self.loopctx)

    def note(self, s):
        self.notes.append(s)

    def ev(self, kind, S, **kw):
        if self.quiet:
            return
        kw["kind"] = kind
        kw["pc"] = S.pc
        kw["loops"] = tuple(self.loopctx)
        kw["stack"] = tuple(self.stack)
        kw["at"] = self.cur
        self.events.append(kw)

    def site(self):
        return "|".join(f"{k}@{c}" for k, c in self.stack) + f"|{self.cur}"

    def sid(self, site):
        """name of a loop instance: its place, the call stack, and the iterations
        of the enclosing loops that were unrolled"""
        return site + "#" + self.site() + "".join("#%d" % cval(k) for k in self.ctx_ks() if is_c(k))

    def unk(self, why, w=None):
        return mk("unk", why + "#" + self.site(), self.ctx_ks(), w=w)

    def tmp(self, S, v):
        self.tmpn += 1
        c = (self.depth, "t%d" % self.tmpn)
        S.mem[c] = v
        return mk("ref", c, ())

    # -------------------------------------------------- memory
    def load(self, S, v):
        if v.op == "ref":
            return self.read_path(S, v.a[0], v.a[1])
        if v.op == "ite" and self.has_ref(v):
            return ite(v.a[0], self.load(S, v.a[1]), self.load(S, v.a[2]))
        return v

    def has_ref(self, v):
        while v.op == "ite":
            v = v.a[1]
        return v.op == "ref"

    def deep(self, S, v, d=0):
        """load refs nested in aggregates (shared views)"""
        v = self.load(S, v)
        if d < 6 and v.op == "agg" and any(x.op in ("ref", "agg") for x in v.a[2]):
            return agg(v.a[0], v.a[1], [self.deep(S, x, d + 1) for x in v.a[2]])
        return v

    def read_path(self, S, cell, proj):
        v = S.mem.get(cell)
        if v is None:
            return self.unk("uninit")
        for p in proj:
            v = self.load(S, v)
            v = self.step_read(v, p)
        return v

    def step_read(self, v, p):
        k = p[0]
        if k == "f":
            return fld(v, p[1], p[2], p[3])
        if k == "i":
            return idx(v, p[1], p[2])
        if k == "s":
            return slice_(v, p[1], p[2])
        raise Undecided("proj " + k)

    def store(self, S, r, v):
        if r.op == "ref":
            cell, proj = r.a
            old = S.mem.get(cell)
            S.mem[cell] = self.upd_path(S, old, list(proj), v)
            return
        if r.op == "ite" and self.has_ref(r):
            a, b = State(dict(S.mem), S.pc), State(dict(S.mem), S.pc)
            self.store(a, r.a[1], v)
            self.store(b, r.a[2], v)
            for c in set(a.mem) | set(b.mem):
                x, y = a.mem.get(c), b.mem.get(c)
                S.mem[c] = x if x is y else self.ite_v(r.a[0], x, y)
            return
        self.ev("lost_store", S, ref=r, value=v)
        self.note("store through unknown reference: " + show(r)[:80])

    def upd_path(self, S, old, proj, v):
        if not proj:
            return v
        p = proj[0]
        if old is None:
            old = mk("unk", "uninit")
        if old.op == "ref" or (old.op == "ite" and self.has_ref(old)):
            # path runs through a stored &mut
            cur = old
            r = self.extend_ref(cur, proj)
            self.store(S, r, v)
            return old
        k = p[0]
        if k == "f":
            sub_ = fld(old, p[1], p[2], p[3])
            nv = self.upd_path(S, sub_, proj[1:], v)
            _, var, i, w, nf, tag, ws = p
            return set_fld(old, var, i, nv, nf, tag, lambda j: fld(old, var, j, ws[j] if j < len(ws) else None))
        if k == "i":
            if len(proj) == 1:
                return upd(old, p[1], v)
            sub_ = idx(old, p[1], p[2])
            return upd(old, p[1], self.upd_path(S, sub_, proj[1:], v))
        if k == "s":
            sub_ = slice_(old, p[1], p[2])
            if len(proj) > 1 and proj[1][0] == "i":
                return self.upd_path(S, old, [("i", add(p[1], proj[1][1]), proj[1][2])] + proj[2:], v)
            if len(proj) > 1 and proj[1][0] == "s":
                return self.upd_path(S, old, [("s", add(p[1], proj[1][1]), proj[1][2])] + proj[2:], v)
            nv = self.upd_path(S, sub_, proj[1:], v)
            n = slen(old)
            end = add(p[1], p[2])
            return cat(slice_(old, c64(0), p[1]), nv, slice_(old, end, sub(n, end)))
        raise Undecided("upd proj " + k)

    def extend_ref(self, r, proj):
        if r.op == "ref":
            return mk("ref", r.a[0], tuple(r.a[1]) + tuple(proj))
        if r.op == "ite":
            return ite(r.a[0], self.extend_ref(r.a[1], proj), self.extend_ref(r.a[2], proj))
        # shared value: apply as read
        v = r
        for p in proj:
            v = self.step_read(v, p)
        return v

    def ite_v(self, c, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        if a.w != b.w:
            return mk("unk", "mixed", self.ctx_ks())
        return ite(c, a, b)

    def merge(self, states):
        states = [s for s in states if s.pc is not FF]
        if not states:
            return None
        m = states[0]
        for s in states[1:]:
            care = b_or(m.pc, s.pc)
            c = restrict(m.pc, care)
            c2 = b_not(restrict(s.pc, care))
            if len(b_atoms(c2)) < len(b_atoms(c)):
                c = c2
            mem = {}
            for k, v in m.mem.items():
                y = s.mem.get(k)
                mem[k] = v if (y is None or y is v) else self.ite_v(c, v, y)
            for k, v in s.mem.items():
                if k not in mem:
                    mem[k] = v
            m = State(mem, care)
        return m

    # -------------------------------------------------- places
    def place_ref(self, S, body, d, p):
        """resolve a place to ('cell', cell, proj, tyidx) or ('val', value, tyidx)"""
        tys = body["tys"]
        l = p[0]
        t = body["locals"][l]
        cell, proj = (d, l), ()
        val = None
        variant = 0
        for e in p[1]:
            tt = tys[t]
            k = e[0]
            if k == "deref":
                cur = val if val is not None else self.read_path(S, cell, proj)
                if cur.op == "ref":
                    val, cell, proj = None, cur.a[0], tuple(cur.a[1])
                elif cur.op == "ite" and self.has_ref(cur):
                    val = cur
                    # keep as conditional reference value; reads load it
                    val = mk("condref", cur) if False else cur
                elif is_box(tt) and val is None:
                    pass        # box content lives in the same place
                else:
                    val = cur
                t = tt.get("to", t) if tt["k"] in ("ref", "ptr") else (tt["args"][0] if tt.get("args") else t)
                continue
            if k == "downcast":
                variant = e[1]
                continue
            if k == "cast":
                continue
            if k == "field":
                if is_box(tt):
                    # pointer inside the box: reference to the box place
                    if val is None:
                        cur = self.read_path(S, cell, proj)
                        val = cur if cur.op == "ref" or (cur.op == "ite" and self.has_ref(cur)) else mk("ref", cell, proj)
                    t = e[2]
                    variant = 0
                    continue
                if is_wrapper(tt):
                    t = e[2]
                    variant = 0
                    continue
                w = width_of(tys, e[2]) if tys[e[2]]["k"] not in ("ref", "ptr") else width_of(tys, e[2])
                if val is not None and val.op != "ref" and not (val.op == "ite" and self.has_ref(val)):
                    val = fld(val, variant, e[1], w)
                else:
                    fp = self.fproj(tys, tt, variant, e[1], w)
                    if val is not None:
                        val = self.extend_ref(val, (fp,))
                    else:
                        proj = proj + (fp,)
                t = e[2]
                variant = 0
                continue
            # sequence element access
            et = self.elem_ty(tys, t)
            if k == "index":
                i = S.mem.get((d, e[1]))
                if i is None:
                    i = self.unk("uninit", 64)
                ip = ("i", i, width_of(tys, et) if et is not None else None)
            elif k == "cindex":
                cur = self.load(S, val) if val is not None else self.read_path(S, cell, proj)
                cur = self.load(S, cur)
                i = sub(slen(cur), c64(int(e[1]))) if e[3] else c64(int(e[1]))
                ip = ("i", i, width_of(tys, et) if et is not None else None)
            elif k == "subslice":
                cur = self.load(S, val) if val is not None else self.read_path(S, cell, proj)
                cur = self.load(S, cur)
                n = slen(cur)
                if e[3]:
                    ln = sub(sub(n, c64(int(e[2]))), c64(int(e[1])))
                else:
                    ln = c64(int(e[2]) - int(e[1]))
                ip = ("s", c64(int(e[1])), ln)
                et = t
            else:
                raise Undecided("place elem " + str(e))
            if val is not None:
                val = self.extend_ref(val, (ip,)) if (val.op == "ref" or val.op == "ite" and self.has_ref(val)) else self.step_read(val, ip)
            else:
                proj = proj + (ip,)
            t = et if et is not None else t
        if val is not None:
            return ("val", val, t)
        return ("cell", cell, proj, t)

    def fproj(self, tys, tt, variant, i, w):
        if tt["k"] == "adt" and tt.get("variants") and variant < len(tt["variants"]):
            fs = tt["variants"][variant]["fields"]
            ws = tuple(width_of(tys, f["ty"]) for f in fs)
            return ("f", variant, i, w, len(fs), tt["path"], ws)
        if tt["k"] == "tuple":
            ws = tuple(width_of(tys, f) for f in tt["fields"])
            return ("f", 0, i, w, len(ws), "tuple", ws)
        if tt["k"] == "closure":
            ws = tuple(width_of(tys, f) for f in tt["upvars"])
            return ("f", 0, i, w, len(ws), "closure:" + tt["key"], ws)
        return ("f", variant, i, w, i + 1, tt.get("path", "?"), (None,) * (i + 1))

    def elem_ty(self, tys, t):
        tt = tys[t]
        if tt["k"] in ("array", "slice"):
            return tt["elem"]
        if tt["k"] in ("ref", "ptr"):
            return self.elem_ty(tys, tt["to"])
        if tt["k"] == "adt" and tt.get("args"):
            return tt["args"][0]
        return None

    def read_place(self, S, body, d, p):
        if not p[1]:
            v = S.mem.get((d, p[0]))
            if v is None:
                t = ty(body, body["locals"][p[0]])
                if t["k"] == "tuple" and not t["fields"]:
                    return UNIT
                if t["k"] == "closure":
                    return agg("closure:" + t["key"], 0, ())
                return self.unk("uninit", width_of(body["tys"], body["locals"][p[0]]))
            return v
        r = self.place_ref(S, body, d, p)
        if r[0] == "val":
            v = r[1]
            # a place ending in a deref of a reference denotes the referent
            if p[1][-1][0] == "deref" and (v.op == "ref" or v.op == "ite" and self.has_ref(v)):
                return self.load(S, v)
            if v.op == "ite" and self.has_ref(v) and p[1][-1][0] in ("field", "index", "cindex") and any(e[0] == "deref" for e in p[1]):
                return self.load(S, v)
            return v
        return self.read_path(S, r[1], r[2])

    def write_place(self, S, body, d, p, v):
        if not p[1]:
            S.mem[(d, p[0])] = v
            return
        r = self.place_ref(S, body, d, p)
        if r[0] == "cell":
            self.store(S, mk("ref", r[1], r[2]), v)
        else:
            self.store(S, r[1], v)

    # -------------------------------------------------- operands
    def const_val(self, body, tyi, c):
        tys = body["tys"]
        t = tys[tyi]
        if t["k"] in ("ref", "ptr") and "ref" in c:
            return self.const_val(body, t["to"], c["ref"])
        if "ref" in c:
            return self.const_val(body, tyi, c["ref"])
        if "int" in c:
            v = int(c["int"])
            if t["k"] == "bool":
                return TT if v else FF
            if t["k"] == "float":
                if t.get("bits") == 32:
                    v = struct.unpack("<Q", struct.pack("<d", struct.unpack("<f", struct.pack("<I", v & 0xffffffff))[0]))[0]
                return mk("fc", v)
            w = width_of(tys, tyi)
            if isinstance(w, int):
                return const(v, w)
            return mk("strc", str(v))
        if "fn" in c:
            f = c["fn"]
            return mk("fnval", self.reg_fn(f, tys))
        if "closure" in c:
            return agg("closure:" + c["closure"], 0, ())
        if "zst" in c:
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return agg("closure:" + t["key"], 0, ())
            if t["k"] == "adt":
                return agg(t["path"], 0, ())
            return mk("strc", "zst:" + t["s"])
        if "str" in c:
            return mk("strc", c["str"])
        if "seq" in c:
            et = self.elem_ty(tys, tyi)
            xs = [self.const_val(body, et, x) for x in c["seq"]]
            return seq(*xs)
        if "agg" in c:
            xs = c["agg"]
            if "variant" in c and t["k"] == "adt" and t.get("variants"):
                fs = t["variants"][c["variant"]]["fields"]
                if len(fs) == len(xs):
                    return agg(t["path"], c["variant"], [self.const_val(body, f["ty"], x) for f, x in zip(fs, xs)])
            if t["k"] == "tuple":
                return agg("tuple", 0, [self.const_val(body, f, x) for f, x in zip(t["fields"], xs)])
            if t["k"] == "adt" and t.get("variants"):
                fs = t["variants"][0]["fields"]
                if len(fs) == len(xs):
                    return agg(t["path"], 0, [self.const_val(body, f["ty"], x) for f, x in zip(fs, xs)])
            if t["k"] == "array":
                return seq(*[self.const_val(body, t["elem"], x) for x in xs])
        if "enumbits" in c and t["k"] == "adt" and t.get("variants"):
            v = int(c["enumbits"])
            for i, vv in enumerate(t["variants"]):
                if not vv["fields"] and (vv["discr"] == v):
                    return agg(t["path"], i, ())
        if "scalar" in c:
            w = width_of(tys, tyi)
            if isinstance(w, int):
                return const(int(c["scalar"]), w)
        return mk("strc", "const:" + str(sorted(c.items())), w=width_of(tys, tyi) if width_of(tys, tyi) else None)

    def reg_fn(self, f, tys):
        k = f["full"]
        FN[k] = (f, tys)
        return k

    def operand(self, S, body, d, o):
        if o[0] == "const":
            return self.const_val(body, o[1], o[2])
        v = self.read_place(S, body, d, o[1])
        if v is not None and v.w is None and v.op in ("idx", "fld", "ite", "phi", "loopval"):
            t = self.place_ty(body, o[1])
            if body["tys"][t]["k"] in ("bool", "int", "uint", "char"):
                v = coerce(v, width_of(body["tys"], t))
        return v

    def op_ty(self, body, o):
        if o[0] == "const":
            return o[1]
        return self.place_ty(body, o[1])

    def place_ty(self, body, p):
        tys = body["tys"]
        t = body["locals"][p[0]]
        for e in p[1]:
            tt = tys[t]
            if e[0] == "deref":
                t = tt.get("to", tt["args"][0] if tt.get("args") else t)
            elif e[0] == "field":
                t = e[2]
            elif e[0] in ("index", "cindex"):
                x = self.elem_ty(tys, t)
                t = x if x is not None else t
        return t

    # -------------------------------------------------- rvalues
    def rvalue(self, S, body, d, r, destty):
        k = r[0]
        tys = body["tys"]
        if k == "use":
            if r[1][0] == "copy" and r[1][1][1] and is_box(tys[self.place_ty(body, r[1][1])]):
                # Box is not Copy: a copy made to dereference it, i.e. an alias of the place
                pr = self.place_ref(S, body, d, r[1][1])
                if pr[0] == "cell":
                    cur = self.read_path(S, pr[1], pr[2])
                    return cur if cur.op == "ref" or (cur.op == "ite" and self.has_ref(cur)) else mk("ref", pr[1], pr[2])
                return pr[1]
            return self.operand(S, body, d, r[1])
        if k == "ref":
            pr = self.place_ref(S, body, d, r[2])
            if r[1]:      # mutable
                if pr[0] == "cell":
                    return mk("ref", pr[1], pr[2])
                return pr[1]
            if pr[0] == "val":
                v = pr[1]
                return self.load(S, v)
            return self.load(S, self.read_path(S, pr[1], pr[2]))
        if k == "rawptr":
            pr = self.place_ref(S, body, d, r[2])
            if pr[0] == "cell":
                return mk("ref", pr[1], pr[2])
            return pr[1]
        if k == "repeat":
            v = self.operand(S, body, d, r[1])
            n = r[2]
            if n is None:
                return self.unk("repeat")
            kv = fresh_var(64, [c64(int(n))])
            return mk_map(c64(int(n)), kv, v)
        if k == "cast":
            return self.do_cast(S, body, d, r)
        if k == "bin":
            return self.do_bin(S, body, d, r)
        if k == "un":
            v = self.operand(S, body, d, r[2])
            if r[1] == "Not":
                return b_not(v) if v.w == "b" else not_int(v)
            if r[1] == "Neg":
                return neg(v) if isinstance(v.w, int) else mk("app", "fneg", v)
            if r[1] == "PtrMetadata":
                return slen(self.load(S, v))
            return self.unk("un " + r[1])
        if k == "discr":
            v = self.load(S, self.read_place(S, body, d, r[1]))
            return self.discr_of(body, self.place_ty(body, r[1]), v, width_of(tys, destty))
        if k == "agg":
            ops = [self.operand(S, body, d, o) for o in r[2]]
            kd = r[1]
            if kd[0] == "array":
                return seq(*ops)
            if kd[0] == "tuple":
                return agg("tuple", 0, ops)
            if kd[0] == "adt":
                return agg(kd[1], kd[2], ops)
            if kd[0] == "closure":
                return agg("closure:" + kd[1], 0, ops)
            if kd[0] == "rawptr" or len(ops) >= 1:
                return ops[0]
            return self.unk("agg")
        return self.unk("rvalue " + k)

    def discr_of(self, body, tyi, v, w):
        t = ty(body, tyi)
        while t["k"] == "ref":
            t = ty(body, t["to"])
        vs = t.get("variants") or []
        nv = len(vs)

        def go(x):
            if x.op == "agg":
                vi = x.a[1]
                dv = vs[vi]["discr"] if vi < nv else vi
                return const(int(dv), w or 64)
            if x.op == "ite":
                return ite(x.a[0], go(x.a[1]), go(x.a[2]))
            if nv == 2:
                d0, d1 = int(vs[0]["discr"]), int(vs[1]["discr"])
                return ite(is_v1(x), const(d1, w or 64), const(d0, w or 64))
            if nv == 1:
                return const(int(vs[0]["discr"]), w or 64)
            return mk("discr", x, w=w or 64)
        return go(v)

    def do_cast(self, S, body, d, r):
        tys = body["tys"]
        kind, o, tt = r[1], r[2], r[3]
        v = self.operand(S, body, d, o)
        st = self.op_ty(body, o)
        if kind.startswith("IntToInt"):
            w = width_of(tys, tt)
            if v.w == "b":
                return ite(v, const(1, w), const(0, w))
            if not isinstance(v.w, int) or not isinstance(w, int):
                return mk("app", "cast", v, w=w)
            return cast(v, w, is_signed(tys, st))
        if kind.startswith("IntToFloat"):
            if v.w == "b":
                return mk("app", "i2f", v)
            if tys[tt].get("bits") == 32:
                self.ev("f32", S, term=v)
                if not is_signed(tys, st) and isinstance(v.w, int):
                    return mk("app", "f32r", mk("fi", v))
            if is_signed(tys, st) and isinstance(v.w, int) and not is_c(v):
                return ite(lt(v, const(0, v.w), True), mk("app", "fneg", mk("fi", neg(v))), mk("fi", v))
            return mk("fi", v)
        if kind.startswith("FloatToInt"):
            w = width_of(tys, tt)
            return f2i(v, w)
        if kind.startswith("FloatToFloat"):
            return v
        if kind.startswith("PointerCoercion"):
            return v
        if kind in ("BoxDerefTransmute", "PtrToPtr", "Transmute", "PointerExposeProvenance", "FnPtrToPtr") or kind.startswith("Subtype"):
            w = width_of(tys, tt)
            if tys[tt]["k"] in ("int", "uint") and (v.op == "ref" or v.w != w):
                return self.unk("addr", w)
            return v
        return self.unk("cast " + kind)

    def do_bin(self, S, body, d, r):
        tys = body["tys"]
        op = r[1]
        a = self.operand(S, body, d, r[2])
        b = self.operand(S, body, d, r[3])
        t = self.op_ty(body, r[2])
        sg = is_signed(tys, t)
        return binop(op, a, b, sg)

    # -------------------------------------------------- execution
    def call_body(self, body, args, S):
        """returns (ret, S) or (None, None) when it diverges"""
        if self.depth > MAXDEPTH or sum(1 for k, _ in self.stack if k == body["key"]) > 3:
            self.note("recursion limit at " + body["key"])
            return self.unkcall(S, body["key"], args, width_of(body["tys"], body["locals"][0])), S
        c = cfg(body)
        if c["irr"]:
            self.note("irreducible control flow in " + body["key"])
            return self.unkcall(S, body["key"], args, width_of(body["tys"], body["locals"][0])), S
        self.stack.append((body["key"], str(self.cur)))
        save_cur = self.cur
        self.depth += 1
        d = self.depth
        try:
            for i, a in enumerate(args):
                S.mem[(d, i + 1)] = a
            S.mem = {k: v for k, v in S.mem.items() if not (k[0] == d and isinstance(k[1], int) and (k[1] > len(args) or k[1] == 0))}
            exits = self.exec_region(body, d, 0, None, S, None)
            rets = [s for t, s in exits if t == "ret"]
            m = self.merge(rets)
            if m is None:
                return None, None
            v = m.mem.get((d, 0))
            if v is None:
                t0 = ty(body, body["locals"][0])
                v = UNIT if t0["k"] == "tuple" else self.unk("noret", width_of(body["tys"], body["locals"][0]))
            m.mem = {k: x for k, x in m.mem.items() if k[0] < d}
            return v, m
        finally:
            self.depth -= 1
            self.stack.pop()
            self.cur = save_cur

    def exec_region(self, body, d, entry, region, S, header):
        c = cfg(body)
        inc = {entry: [S]}
        out = []
        skip = set()
        order = c["rpo"]
        start = c["pos"][entry]
        first = True
        for b in order[start:]:
            if region is not None and b not in region:
                continue
            if b in skip or b not in inc:
                continue
            st = self.merge(inc.pop(b))
            if st is None:
                continue
            lv = c["live"].get(b)
            if lv is not None:
                st.mem = {k: v for k, v in st.mem.items() if k[0] != d or not isinstance(k[1], int) or k[1] in lv or k[1] == 0}
            if b in c["loops"] and not (b == header and first):
                L = c["loops"][b]
                res = self.run_mir_loop(body, d, b, L, st)
                skip |= L
            else:
                res = self.exec_block(body, d, b, st)
            first = False
            for t, s in res:
                if s.pc is FF:
                    continue
                if t == "ret" or (region is not None and t not in region) or t == header:
                    out.append((t, s))
                else:
                    inc.setdefault(t, []).append(s)
        return out

    def run_mir_loop(self, body, d, h, L, S):
        blk = body["blocks"][h]
        sp = blk.get("sp") or [0]

        def step(st):
            r = self.exec_region(body, d, h, L, st, h)
            return [s for t, s in r if t == h], [(t, s) for t, s in r if t != h]
        return self.solve_loop(S, step, f"{body['key']}:bb{h}", where=(body, h))

    def exec_block(self, body, d, b, S):
        blk = body["blocks"][b]
        self.steps += 1
        if self.steps > 400000:
            raise Undecided("step budget exhausted")
        for s in blk["s"]:
            k = s[0]
            if k == "assign":
                self.cur = s[3] if len(s) > 3 else self.cur
                dt = self.place_ty(body, s[1])
                v = self.rvalue(S, body, d, s[2], dt)
                if s[1][1]:
                    self.ev("store", S, body=body, place=s[1], value=v, target=self.try_ref(S, body, d, s[1]))
                self.write_place(S, body, d, s[1], v)
            elif k == "dead":
                S.mem.pop((d, s[1]), None)
            elif k == "setdiscr":
                cur = self.read_place(S, body, d, s[1])
                t = ty(body, self.place_ty(body, s[1]))
                if cur.op == "agg":
                    self.write_place(S, body, d, s[1], agg(cur.a[0], s[2], cur.a[2]))
                else:
                    self.write_place(S, body, d, s[1], agg(t.get("path", "?"), s[2], ()))
        t = blk["t"]
        self.cur = blk.get("sp") or self.cur
        k = t[0]
        if k == "goto":
            return [(t[1], S)]
        if k == "return":
            return [("ret", S)]
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "drop":
            return [(t[2], S)]
        if k == "switch":
            return self.do_switch(body, d, t, S)
        if k == "assert":
            m = t[3]
            if m[0] == "other" and ("PointerDereference" in str(m) or "MisalignedPointer" in str(m)):
                return [(t[4], S)]      # compiler-inserted pointer sanity checks
            cond = self.operand(S, body, d, t[1])
            ops = []
            for x in m[1:]:
                if isinstance(x, list):
                    ops.append(self.operand(S, body, d, x))
                else:
                    ops.append(x)
            good = cond if t[2] else b_not(cond)
            if good is FF:
                self.ev("panic", S, what="assert:" + m[0], msg=m, ops=ops, cond=TT, body=body, block=b)
                return []
            if good is not TT:
                self.ev("assert", S, what=m[0], ops=ops, good=good, body=body, block=b)
            return [(t[4], S)]
        if k == "call":
            return self.do_call(body, d, b, t, S)
        self.note("terminator " + k)
        return []

    def try_ref(self, S, body, d, p):
        try:
            r = self.place_ref(S, body, d, p)
            if r[0] == "cell":
                return mk("ref", r[1], r[2])
            return r[1]
        except Exception:
            return None

    def do_switch(self, body, d, t, S):
        v = self.operand(S, body, d, t[1])
        v = self.load(S, v)
        out = {}
        rest = TT
        for val, tgt in t[2]:
            if v.w == "b":
                c = v if int(val) else b_not(v)
            elif isinstance(v.w, int):
                c = eq(v, const(int(val), v.w))
            else:
                c = mk("eqv", v, mk("strc", str(val)), w="b")
            c = b_and(rest, c)
            out[tgt] = b_or(out.get(tgt, FF), c)
            rest = b_and(rest, b_not(c))
        if t[3] is not None:
            if not (body["blocks"][t[3]]["t"][0] == "unreachable" and not body["blocks"][t[3]]["s"]):
                out[t[3]] = b_or(out.get(t[3], FF), rest)
            elif rest is not FF and len(out) >= 1:
                # exhaustive match: the last value arm takes the remainder
                pass
        res = []
        self.ev("switch", S, value=v, body=body)
        for tgt, c in out.items():
            pc = b_and(S.pc, c)
            if pc is FF:
                continue
            s = S.copy() if len(out) > 1 else S
            s.pc = pc
            res.append((tgt, s))
        return res

    # -------------------------------------------------- calls
    def do_call(self, body, d, b, t, S):
        _, f, aops, dest, target, destty = t[:6]
        tys = body["tys"]
        args = [self.operand(S, body, d, o) for o in aops]
        argtys = [self.op_ty(body, o) for o in aops]
        if f[0] == "const" and "fn" in f[2]:
            fn = f[2]["fn"]
            r = self.call_fn(S, fn, tys, args, argtys, destty)
        else:
            fv = self.operand(S, body, d, f)
            r = self.call_value(S, fv, args, width_of(tys, destty))
        ret, S2 = r
        if S2 is None:
            return []
        if target is None:
            # diverging call: panic path
            fn = f[2]["fn"] if f[0] == "const" and "fn" in f[2] else {"path": "?"}
            self.ev("panic", S2, what="call:" + fn["path"], cond=TT, body=body, block=b, args=args)
            return []
        if ret is not None and ret.w is None and ret.op in ("app", "unkcall", "havoc") and ret not in TM.DESC:
            dd = seqdesc(tys, destty)
            if dd is not None:
                TM.DESC[ret] = dd
        self.write_place(S2, body, d, dest, ret)
        return [(target, S2)]

    def call_fn(self, S, fn, tys, args, argtys, destty):
        """returns (ret, S) ; (None, None) if it diverges"""
        ctx = Ctx(self, fn, tys, args, argtys, destty)
        ov = self.overrides.get(fn["path"]) or self.overrides.get(fn.get("key"))
        if ov:
            r = ov(self, S, ctx)
            if r is not None:
                return r
        body = None
        key = fn.get("key")
        if key and key in self.P.bodies:
            body = self.P.bodies[key]
        if body is None and fn.get("rcrate") in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils") or (body is None and fn.get("crate") in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils")):
            body = self.dispatch(S, fn, args, tys)
        if body is not None and body["local"] and not (body.get("derived") and fn["path"].endswith("::clone")):
            self.ev("call", S, path=fn["path"], key=body["key"], args=args, ext=False)
            return self.call_body(body, self.fix_args(body, args), S)
        r = self.models.call(self, S, ctx)
        if r is not None:
            return r
        if body is not None and not body["local"] and self.models.inlinable(fn, body):
            self.steps += 1
            return self.call_body(body, self.fix_args(body, args), S)
        self.ev("call", S, path=fn["path"], key=key, args=args, ext=True, vals=tuple(self.deep(S, a) for a in args))
        return self.unkcall(S, fn["path"], args, width_of(tys, destty), external=self.models.pure_ext(fn)), S

    def fix_args(self, body, args):
        if body["kind"] == "Closure" and len(args) == 2 and body["argc"] != 2 or (body["kind"] == "Closure" and len(args) == 2 and args[1].op == "agg" and args[1].a[0] == "tuple"):
            return [args[0]] + list(args[1].a[2])
        return args

    def dispatch(self, S, fn, args, tys):
        """unresolved trait method: use the runtime self type"""
        tr = fn.get("trait")
        name = fn["path"].split("::")[-1]
        if not tr:
            return None
        cands = []
        if args:
            v = self.load(S, args[0])
            if v.op == "agg":
                cands.append(v.a[0])
        if self.selfty and (tr in self.selfty):
            cands.append(self.selfty[tr])
        for p in cands:
            b = self.P.find_method(p, tr, name)
            if b:
                return b
        # default method body of the trait
        for k, b in self.P.bodies.items():
            if b["local"] and b["path"] == fn["path"] and b["generic"] and k.startswith("<Self as"):
                return b
        return None

    selfty = None

    def call_value(self, S, f, args, w=None):
        """call a closure / fn value with positional args"""
        g = self.load(S, f)
        if g.op == "agg" and g.a[0].startswith("closure:"):
            body = self.P.bodies.get(g.a[0][8:])
            if body is None:
                return self.unkcall(S, g.a[0], args, w), S
            t1 = ty(body, body["locals"][1])
            if t1["k"] == "ref" and t1["mut"]:
                envr = f if f.op == "ref" else self.tmp(S, g)
                env = envr
            else:
                env = g
            if body["argc"] == 1 + len(args):
                aa = [env] + list(args)
            elif body["argc"] == 2 and len(args) != 1:
                aa = [env, tup(*args)]
            else:
                aa = [env] + list(args)
            return self.call_body(body, aa, S)
        if g.op == "fnval":
            fn, tys = FN[g.a[0]]
            sig = fn.get("sig") or []
            if len(sig) == len(args) + 1:
                return self.call_fn(S, fn, tys, list(args), sig[:-1], sig[-1])
            return self.call_fn(S, fn, tys, list(args), [None] * len(args), None if w is None else ("w", w))
        if g.op == "ctor":
            return agg(g.a[0], g.a[1], args), S
        if g.op == "ite" and g.w is None:
            out = []
            for c, h in ((g.a[0], g.a[1]), (b_not(g.a[0]), g.a[2])):
                pc = b_and(S.pc, c)
                if pc is FF:
                    continue
                s = S.copy()
                s.pc = pc
                r, s = self.call_value(s, h, args, w)
                if s is not None:
                    out.append((r, s))
            return self.models.finish(self, out, lambda t, s: t)
        if g.op == "pyfn":
            return PYFN[g.a[0]](self, S, args)
        self.note("call of unknown function value " + show(g)[:60])
        return self.unkcall(S, "fnptr", args, w), S

    def unkcall(self, S, name, args, w, external=False):
        vals = tuple(self.deep(S, a) for a in args)
        for i, a in enumerate(args):
            if a.op == "ref" or (a.op == "ite" and self.has_ref(a)):
                old = self.load(S, a)
                nv = mk("app" if external else "havoc", name + "#%d" % i, *(vals if external else vals + self.ctx_ks()), w=old.w)
                self.store(S, a, nv)
        if external:
            return mk("app", name, *vals, w=w)
        self.note("unmodelled call " + name)
        return mk("unkcall", name, *(vals + self.ctx_ks()), w=w)

    # -------------------------------------------------- loops
    def get_at(self, v, path):
        for p in path:
            if isinstance(p, tuple):
                v = v.a[0][p[1]]
            else:
                v = v.a[2][p]
        return v

    def set_at(self, v, path, x):
        if not path:
            return x
        p = path[0]
        if isinstance(p, tuple):
            xs = list(v.a[0])
            xs[p[1]] = self.set_at(xs[p[1]], path[1:], x)
            return mk("seq", tuple(xs))
        fs = list(v.a[2])
        fs[p] = self.set_at(fs[p], path[1:], x)
        return mk("agg", v.a[0], v.a[1], tuple(fs))

    def solve_loop(self, S0, step, site, where=None):
        """step(S) -> (back states, [(tag, exit state)]).  Returns [(tag, state)]"""
        outer = S0.pc
        k = fresh_var(64, None, "k")
        TM.VAR_UB[k.a[0]] = []
        mod = {}
        nexts = {}
        lenhyp = {}
        nolen = set()

        def phi_for(leaf, v0):
            p = mk("phi", TM_next(), w=v0.w)
            if v0.w is None and is_seqlike(v0) and leaf not in nolen:
                TM.PHI_LEN[p] = slen(v0)
                lenhyp[leaf] = p
            d0 = TM.desc_of(v0)
            if d0 is not None:
                TM.DESC[p] = d0
            else:
                ew = elem_w(v0) if is_seqlike(v0) and v0.op in ("map", "seq", "cat", "upd") else None
                if ew is not None:
                    TM.DESC[p] = ("s", ew, None)
            return p

        def header():
            S = State(dict(S0.mem), TT)
            for (cell, path), p in mod.items():
                S.mem[cell] = self.set_at(S.mem[cell], path, p)
            return S

        self.loopctx.append((k, None, outer))
        self.quiet += 1
        try:
            for it in range(30):
                H = header()
                Hm = dict(H.mem)
                d0 = self.draws
                backs, exits = step(H)
                N = self.merge(backs)
                if N is None:
                    break
                nexts = {}
                new = []

                def cmp_(hv, nv, cell, path):
                    lf = (cell, path)
                    if lf in mod:
                        if hv is not nv:
                            nexts[lf] = nv
                        return
                    if hv is nv:
                        return
                    if hv.op == "agg" and nv.op == "agg" and hv.a[0] == nv.a[0] and hv.a[1] == nv.a[1] and len(hv.a[2]) == len(nv.a[2]) and hv.a[2]:
                        for i, (x, y) in enumerate(zip(hv.a[2], nv.a[2])):
                            cmp_(x, y, cell, path + (i,))
                        return
                    if hv.op == "seq" and nv.op == "seq" and 0 < len(hv.a[0]) == len(nv.a[0]) <= 8:
                        for i, (x, y) in enumerate(zip(hv.a[0], nv.a[0])):
                            cmp_(x, y, cell, path + (("e", i),))
                        return
                    new.append(lf)
                for cell, hv in Hm.items():
                    nv = N.mem.get(cell)
                    if nv is None:
                        continue
                    cmp_(hv, nv, cell, ())
                # length hypotheses
                for lf, p in list(lenhyp.items()):
                    nv = nexts.get(lf)
                    if nv is not None and slen(nv) is not slen(p):
                        nolen.add(lf)
                        del lenhyp[lf]
                        new.append(lf)
                if not new:
                    break
                for lf in new:
                    cell, path = lf
                    # drop sub-leaves
                    for o in [o for o in mod if o[0] == cell and o[1][:len(path)] == path]:
                        del mod[o]
                        lenhyp.pop(o, None)
                    mod[lf] = phi_for(lf, self.get_at(S0.mem[cell], path))
            else:
                self.note("loop discovery did not converge at " + site)
            if N is None:
                # body never loops back
                pass
        finally:
            self.quiet -= 1
            self.loopctx.pop()
        if N is None:
            S = State(dict(S0.mem), outer)
            _, ex = step(S)
            return ex
        # unmodified phis are constants
        const_sub = {}
        for lf, p in list(mod.items()):
            if lf not in nexts:
                const_sub[p] = self.get_at(S0.mem[lf[0]], lf[1])
        for lf, p in list(mod.items()):
            if p in const_sub:
                del mod[lf]
        x0 = {mod[lf]: self.get_at(S0.mem[lf[0]], lf[1]) for lf in mod}
        nx = {}
        for lf, p in mod.items():
            v = nexts[lf]
            if const_sub:
                v = subst(v, const_sub)
            nx[p] = v
        exits = self.group_exits(exits)
        closed = {}
        pending = list(nx)

        def round_(allowk):
            prog = True
            while prog:
                prog = False
                for p in list(pending):
                    v = nx[p]
                    if closed:
                        v = subst(v, closed)
                    others = [q for q in pending if q is not p and contains(v, q)]
                    if others:
                        nx[p] = v
                        continue
                    nx[p] = v
                    r = solve_rec(self, p, v, x0[p], k, allowk)
                    if r is not None:
                        closed[p] = r
                        pending.remove(p)
                        prog = True
        round_(False)
        # trip count
        n, cnt_tag, pure = None, None, True
        pcs = {}
        sub1 = dict(const_sub)
        sub1.update(closed)
        for tag, s in exits:
            pcs[tag] = subst(s.pc, sub1) if sub1 else s.pc
        best = None
        for tag, s in exits:
            tr = trip_count(pcs[tag], k)
            if tr is not None and not tr[1]:
                # the loop must not be able to go on past the counted exit
                bp = subst(N.pc, sub1) if sub1 else N.pc
                if subst(bp, {k: tr[0]}) is not FF:
                    self.note("counted exit not confirmed at " + site)
                    tr = None
            if tr is not None:
                if best is None or (tr[1] and not best[2]):
                    best = (tr[0], tag, tr[1])
        if best:
            n, cnt_tag, pure = best
            TM.VAR_UB[k.a[0]] = [n]
        round_(True)
        if n is not None and is_c(n) and cval(n) <= 16 and pending:
            return self.unroll(S0, step, cval(n), site)
        if n is None and pending is not None:
            r = self.try_concrete(S0, step, pcs, site, x0)
            if r is not None:
                return r
        # opaque leaves
        ks = self.ctx_ks()
        if pending:
            TM.LOOPSYS[self.sid(site)] = (k, ks, {str([lf for lf in mod if mod[lf] is p][0]): (p, subst(nx[p], closed) if closed else nx[p], x0[p]) for p in pending})
        for p in list(pending):
            v = subst(nx[p], closed) if closed else nx[p]
            others = [q for q in pending if q is not p and contains(v, q)]
            if not others and isinstance(v.w, int) and v.w == p.w and size_le(v, 400):
                pv = fresh_var(p.w)
                lam = mk_lam(k, mk_lam(pv, subst(v, {p: pv})))
                closed[p] = mk("fold", k, lam, x0[p], w=p.w)
            else:
                leaf = [lf for lf in mod if mod[lf] is p][0]
                closed[p] = self.opaque_leaf(site, leaf, k, ks, x0[p])
                if lenhyp.get(leaf) is p:
                    TM.LOOPLEN[(self.sid(site), str(leaf))] = (ks, slen(x0[p]))
        if n is None:
            kx = mk("loopn", self.sid(site), ks, w=64)
        # final pass
        S = State(dict(S0.mem), TT)
        for (cell, path), p in mod.items():
            S.mem[cell] = self.set_at(S.mem[cell], path, closed[p])
        meta = {"k": k, "E": FF, "early": FF, "in": True}
        self.loopctx.append((k, n, outer, meta))
        try:
            backs, exits = step(S)
        finally:
            self.loopctx.pop()
        exits = self.group_exits(exits)
        for t, s in exits:
            meta["E"] = b_or(meta["E"], s.pc)
            if t != cnt_tag:
                meta["early"] = b_or(meta["early"], s.pc)
        res = []
        if n is not None:
            # counting exit: the state at the header of iteration n
            sb = {k: n}
            SN = State({}, TT)
            for c, v in S0.mem.items():
                SN.mem[c] = v
            for (cell, path), p in mod.items():
                cv = closed[p]
                SN.mem[cell] = self.set_at(SN.mem[cell], path, subst(cv, sb) if (cv.fv and k.a[0] in cv.fv) else cv)
            self.loopctx.append((n, n, outer, {"k": k, "E": meta["E"], "early": meta["early"], "in": False, "n": n}))
            try:
                _, exn = step(SN)
            finally:
                self.loopctx.pop()
            exn = [x for x in self.group_exits(exn) if x[0] == cnt_tag]
            exits = [x for x in exits if x[0] != cnt_tag] + exn
        if not exits:
            return []
        if n is not None:
            early = [(t, s) for t, s in exits if t != cnt_tag]
            E = FF
            for t, s in early:
                E = b_or(E, s.pc)
            bound = n
            if not pure:
                bound = add(n, c64(1))
            A = mk_any(bound, k, E) if E is not FF else FF
            cs = [s for t, s in exits if t == cnt_tag]
            if cs:
                s = cs[0]
                self.finish(res, cnt_tag, s, k, n, b_and(outer, b_not(A)))  # values already at n
            if A is not FF:
                f = mk_first(bound, k, E)
                for t, s in early:
                    pcj = subst(s.pc, {k: f})
                    if len(early) == 1:
                        pcj = TT
                    else:
                        pcj = restrict(pcj, subst(E, {k: f}))
                    self.finish(res, t, s, k, f, b_and(outer, A, pcj))
        else:
            E = FF
            for t, s in exits:
                E = b_or(E, s.pc)
            self.exitcond[kx] = subst(E, {k: kx})
            TM.EXITS[kx.a[0]] = (ks, k, E)
            for t, s in exits:
                pcj = TT if len(exits) == 1 else restrict(subst(s.pc, {k: kx}), self.exitcond[kx])
                self.finish(res, t, s, k, kx, b_and(outer, pcj))
        return res

    def finish(self, res, tag, s, k, kv, pc):
        if pc is FF:
            return
        m = {}
        sb = {k: kv}
        for c, v in s.mem.items():
            m[c] = subst(v, sb) if (v.fv and k.a[0] in v.fv) else v
        res.append((tag, State(m, pc)))

    def opaque_leaf(self, site, leaf, k, ks, x0):
        v = mk("loopval", self.sid(site), str(leaf), k, ks, w=x0.w)
        d = TM.desc_of(x0)
        if d is not None:
            TM.DESC[v] = d
        return v

    def group_exits(self, exits):
        g = {}
        for t, s in exits:
            g.setdefault(t, []).append(s)
        out = []
        for t, ss in g.items():
            m = self.merge(ss)
            if m is not None:
                out.append((t, m))
        return out

    def unroll(self, S0, step, n, site):
        S = State(dict(S0.mem), S0.pc)
        out = []
        for i in range(n + 1):
            self.loopctx.append((c64(i), c64(n), S0.pc))
            try:
                backs, exits = step(S)
            finally:
                self.loopctx.pop()
            out.extend(exits)
            S = self.merge(backs)
            if S is None:
                return out
        self.note("unrolled loop did not finish at " + site)
        return out

    def try_concrete(self, S0, step, pcs, site, x0):
        """loops with constant control: run a bounded number of iterations, every
        branch must be decided by constants"""
        if any(isinstance(v.w, int) and not is_c(v) for v in x0.values()) and not any(is_c(v) for v in x0.values()):
            return None
        S = State(dict(S0.mem), S0.pc)
        out = []
        evn = len(self.events)
        for i in range(40):
            self.loopctx.append((c64(i), None, S0.pc))
            try:
                backs, exits = step(S)
            finally:
                self.loopctx.pop()
            N = self.merge(backs)
            if N is None:
                out.extend(exits)
                return out
            if exits:
                # undecided exit
                del self.events[evn:]
                return None
            S = N
        del self.events[evn:]
        return None

    # -------------------------------------------------- entry points
    def sym_value(self, S, tys, i, name, depth=0):
        t = tys[i]
        k = t["k"]
        if k == "ref":
            v = self.sym_value(S, tys, t["to"], name, depth)
            if t["mut"]:
                c = (0, name)
                S.mem[c] = v
                return mk("ref", c, ())
            return v
        if k == "adt" and is_box(t) and t["args"]:
            return self.sym_value(S, tys, t["args"][0], name, depth)
        if k == "adt" and t.get("kind") == "struct" and t.get("expanded") and t["variants"] and depth < 6 and t["path"].split("::")[0] in ("keyword_pir_lwe", "xorf", "pi_rs_cli_utils"):
            return agg(t["path"], 0, [self.sym_value(S, tys, f["ty"], name + "." + f["name"], depth + 1) for f in t["variants"][0]["fields"]])
        if k == "adt" and t["path"].endswith("PhantomData"):
            return agg(t["path"], 0, ())
        if k == "tuple":
            return agg("tuple", 0, [self.sym_value(S, tys, f, f"{name}.{j}", depth + 1) for j, f in enumerate(t["fields"])])
        w = width_of(tys, i)
        v = mk("sym", name, w=w)
        d = seqdesc(tys, i)
        if isinstance(d, tuple):
            TM.DESC[v] = d
        return v

    def run(self, body, args=None, names=None, pre=None):
        """analyse one function from symbolic arguments; returns (ret, S, argvals)"""
        S = State({}, TT)
        tys = body["tys"]
        nm = {}
        for n, p in body["names"]:
            if isinstance(p, list) and not p[1] and 1 <= p[0] <= body["argc"]:
                nm.setdefault(p[0], n)
        vals = []
        for i in range(body["argc"]):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            else:
                name = names[i] if names and i < len(names) and names[i] else f"a{i}"
                vals.append(self.sym_value(S, tys, body["locals"][i + 1], name))
        if pre:
            pre(self, S, vals)
        self.args = vals
        ret, S2 = self.call_body(body, list(vals), S)
        return ret, S2, vals


FN = {}
PYFN = {}
_tmn = [0]


def TM_next():
    _tmn[0] += 1
    return _tmn[0]


class Ctx:
    def __init__(self, I, fn, tys, args, argtys, destty):
        self.I, self.fn, self.tys, self.args, self.argtys, self.destty = I, fn, tys, args, argtys, destty
        self.path = fn["path"]
        self.name = fn["path"].split("::")[-1]

    def w(self):
        if isinstance(self.destty, tuple):
            return self.destty[1]
        if self.destty is None:
            return None
        return width_of(self.tys, self.destty)

    def dest(self):
        if self.destty is None or isinstance(self.destty, tuple):
            return None
        return self.tys[self.destty]

    def arg_ty(self, i):
        a = self.argtys[i] if i < len(self.argtys) else None
        return self.tys[a] if a is not None else None


def is_v1(x):
    return mk("isv1", x, w="b")


def is_seqlike(v):
    return v.w is None and (v.op in ("map", "seq", "flat", "cat", "slice", "rev", "upd", "freshseq", "strc") or TM.desc_is_seq(v) or (v.op == "ite" and is_seqlike(v.a[1])))


def f2i(v, w):
    """float -> int cast of a modelled float"""
    if v.op == "fi":
        return cast(v.a[0], w)
    if v.op == "ite":
        return ite(v.a[0], f2i(v.a[1], w), f2i(v.a[2], w))
    if v.op == "fq":       # rational a/c truncated
        return cast(div(v.a[0], v.a[1]), w)
    return mk("app", "f2i", v, w=w)


def binop(op, a, b, sg=False):
    if op.endswith("Unchecked"):
        op = op[:-9]
    if not isinstance(a.w, int) and a.w != "b":
        if op == "Div" and a.op == "fi" and b.op == "fc":
            import struct
            x = struct.unpack("<d", struct.pack("<Q", b.a[0]))[0]
            if x == int(x) and x > 0:
                return mk("fq", a.a[0], const(int(x), a.a[0].w))
        if op in ("Eq", "Ne") and a.w is None and b.w is None:
            r = eq_val(a, b)
            return r if op == "Eq" else b_not(r)
        if op in ("Lt", "Gt", "Le", "Ge"):
            return mk("app", "f" + op, a, b, w="b")
        return mk("app", "f" + op, a, b)
    if op.endswith("WithOverflow"):
        o = op[:-12]
        r = binop(o, a, b, sg)
        return agg("tuple", 0, (r, ovf(o, a, b, sg)))
    if a.w == "b":
        if op == "BitAnd":
            return b_and(a, b)
        if op == "BitOr":
            return b_or(a, b)
        if op in ("BitXor", "Ne"):
            return b_xor(a, b)
        if op == "Eq":
            return b_eq(a, b)
        if op == "Lt":
            return b_and(b_not(a), b)
        if op == "Gt":
            return b_and(a, b_not(b))
        if op == "Le":
            return b_or(b_not(a), b)
        if op == "Ge":
            return b_or(a, b_not(b))
        return mk("unk", "boolop" + op)
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mul":
        return mul(a, b)
    if op == "Div":
        return mk("app", "sdiv", a, b, w=a.w) if sg and not (is_c(a) and is_c(b) and max(cval(a), cval(b)) < 1 << (a.w - 1)) else div(a, b)
    if op == "Rem":
        return mk("app", "srem", a, b, w=a.w) if sg and not (is_c(a) and is_c(b) and max(cval(a), cval(b)) < 1 << (a.w - 1)) else rem(a, b)
    if op == "BitAnd":
        return and_(a, b)
    if op == "BitOr":
        return or_(a, b)
    if op == "BitXor":
        return xor_(a, b)
    if op == "Shl":
        return shl(a, b)
    if op == "Shr":
        if sg and not is_c(a):
            return mk("app", "sshr", a, b, w=a.w)
        return shr(a, b)
    if op == "Eq":
        return eq(a, b)
    if op == "Ne":
        return b_not(eq(a, b))
    if op == "Lt":
        return lt(a, b, sg)
    if op == "Gt":
        return lt(b, a, sg)
    if op == "Le":
        return b_not(lt(b, a, sg))
    if op == "Ge":
        return b_not(lt(a, b, sg))
    if op == "Cmp":
        return ite(lt(a, b, sg), agg("core::cmp::Ordering", 0, ()), ite(eq(a, b), agg("core::cmp::Ordering", 1, ()), agg("core::cmp::Ordering", 2, ())))
    return mk("unk", "binop " + op, w=a.w)


def ovf(o, a, b, sg):
    if is_c(a) and is_c(b):
        x, y = cval(a), cval(b)
        if sg:
            x, y = signed(x, a.w), signed(y, b.w)
        if o in ("Add", "Sub", "Mul"):
            r = x + y if o == "Add" else x - y if o == "Sub" else x * y
            lo, hi = (-(1 << (a.w - 1)), (1 << (a.w - 1)) - 1) if sg else (0, (1 << a.w) - 1)
            return TT if r < lo or r > hi else FF
    if o == "Add" and (is_c(a) and cval(a) == 0 or is_c(b) and cval(b) == 0):
        return FF
    if not sg:
        ua, ub_ = ub_const(a), ub_const(b)
        if o == "Add" and ua + ub_ < (1 << a.w):
            return FF
        if o == "Mul" and ua * ub_ < (1 << a.w):
            return FF
        if o == "Sub" and not is_c(a):
            try:
                if le_known(b, a):
                    return FF
            except Exception:
                pass
    if o in ("Add", "Mul") and b.id < a.id:
        a, b = b, a
    return mk("ovf", o, a, b, bool(sg), w="b")


def eq_val(a, b):
    if a is b:
        return TT
    if isinstance(a.w, int) and a.w == b.w:
        return eq(a, b)
    if a.w == "b" and b.w == "b":
        return b_eq(a, b)
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FF
        r = TT
        for x, y in zip(a.a[2], b.a[2]):
            r = b_and(r, eq_val(x, y))
        return r
    if b.id < a.id:
        a, b = b, a
    return mk("eqv", a, b, w="b")


# ------------------------------------------------------------------ recurrences
def trip_count(pc, k):
    """(n, pure) if the exit condition says 'k >= n' (possibly conjoined)"""
    if pc is TT or pc is FF:
        return None
    cont = b_not(pc)
    # conjunction of positive counting literals?
    lits = conj_lits(cont)
    if lits is not None:
        ns = []
        for a, pos_ in lits:
            n = count_lit(a, pos_, k)
            if n is None:
                ns = None
                break
            ns.append(n)
        if ns:
            r = ns[0]
            for x in ns[1:]:
                r = min_(r, x)
            return r, True
    # pc = rest & not(k<n)
    lits = conj_lits(pc)
    if lits is not None:
        for a, p in lits:
            n = count_lit(a, not p, k)
            if n is not None:
                return n, False
    # search atoms a with pc & a == FF
    for a in b_atoms(pc):
        if b_and(pc, a) is FF:
            n = count_lit(a, True, k)
            if n is not None:
                return n, False
        if b_and(pc, b_not(a)) is FF:
            n = count_lit(a, False, k)
            if n is not None:
                return n, False
    return None


def conj_lits(t):
    out = []
    while t is not TT:
        if t is FF:
            return None
        x, hi, lo = (t.a if t.op == "bite" else (t, TT, FF))
        if lo is FF:
            out.append((x, True))
            t = hi
        elif hi is FF:
            out.append((x, False))
            t = lo
        else:
            return None
    return out


def count_lit(a, positive, k):
    """literal means 'continue while k < n' -> n"""
    if not (a.fv and k.a[0] in a.fv):
        return None
    if a.op == "pos":
        p = to_poly(a.a[0])
        w = a.a[0].w
        kc, rest = 0, {}
        for m, c in p.items():
            if k in m:
                if len(m) != 1:
                    return None
                kc = signed(c, w)
            elif any(x.fv and k.a[0] in x.fv for x in m):
                return None
            else:
                rest[m] = c
        if positive and kc < 0:
            # rest - |kc| k > 0
            pos_, neg_ = {}, {}
            for m, c in rest.items():
                s = signed(c, w)
                (pos_ if s > 0 else neg_)[m] = abs(s)
            A, B = from_poly(pos_, w), from_poly(neg_, w)
            n = A if not neg_ else monus(A, B)
            if -kc != 1:
                n = cdiv(n, const(-kc, w))
            return n
        return None
    if a.op == "eq0" and not positive:
        p = to_poly(a.a[0])
        w = a.a[0].w
        kc, rest = 0, {}
        for m, c in p.items():
            if k in m:
                if len(m) != 1:
                    return None
                kc = signed(c, w)
            elif any(x.fv and k.a[0] in x.fv for x in m):
                return None
            else:
                rest[m] = c
        if kc == 1:
            return neg(from_poly(rest, w))
        if kc == -1:
            return from_poly(rest, w)
    return None


def shift_back(v, k):
    return subst(v, {k: sub(k, c64(1))})


def kcast(k, w):
    return trunc(k, w) if w < 64 else (zext(k, w) if w > 64 else k)


def diff_add(nx, p):
    """nx - p when nx = p + f (through gates), f free of p; else None"""
    if nx is p:
        return const(0, p.w)
    if nx.op == "ite":
        if contains(nx.a[0], p):
            return None
        a, b = diff_add(nx.a[1], p), diff_add(nx.a[2], p)
        if a is None or b is None:
            return None
        return ite(nx.a[0], a, b)
    pl = to_poly(nx)
    if pl.get((p,)) == 1:
        r = sub(nx, p)
        if not contains(r, p):
            return r
    # p may be inside an ite summand: sum with ite(c, p, p + f)
    return None


def diff_cat(nx, p):
    if nx is p:
        return SEQ_EMPTY
    if nx.op == "ite":
        if contains(nx.a[0], p):
            return None
        a, b = diff_cat(nx.a[1], p), diff_cat(nx.a[2], p)
        if a is None or b is None:
            return None
        return ite(nx.a[0], a, b)
    if nx.op == "cat":
        hd = nx.a[0][0]
        rest = cat(*nx.a[0][1:])
        if contains(rest, p):
            return None
        if hd is p:
            return rest
        if hd.op == "ite":
            h = diff_cat(hd, p)
            if h is not None:
                return cat(h, rest)
    return None


def diff_xor(nx, p):
    if nx is p:
        return const(0, p.w)
    if nx.op == "ite":
        if contains(nx.a[0], p):
            return None
        a, b = diff_xor(nx.a[1], p), diff_xor(nx.a[2], p)
        return None if a is None or b is None else ite(nx.a[0], a, b)
    if nx.op == "xor":
        r = xor_(nx, p)
        if not contains(r, p):
            return r
    return None


def norm_upd(nx, p):
    """[(i, v)] list of updates applied to p, or None"""
    if nx is p:
        return []
    if nx.op == "upd":
        r = norm_upd(nx.a[0], p)
        return None if r is None else r + [(nx.a[1], nx.a[2])]
    if nx.op == "ite" and not contains(nx.a[0], p) or nx.op == "ite" and only_own(nx.a[0], p):
        a, b = norm_upd(nx.a[1], p), norm_upd(nx.a[2], p)
        if a is None or b is None or len(a) > 1 or len(b) > 1:
            return None
        if not a and not b:
            return []
        i = (a or b)[0][0]
        if a and b and a[0][0] is not b[0][0]:
            return None
        w = (a or b)[0][1].w
        va = a[0][1] if a else idx(p, i, w)
        vb = b[0][1] if b else idx(p, i, w)
        return [(i, ite(nx.a[0], va, vb))]
    return None


def only_own(t, p):
    return True


def solve_rec(I, p, nx, x0, k, allowk):
    """closed form of p after k iterations, p(0)=x0, p(k+1)=nx(p(k),k); None if unknown"""
    w = p.w
    if nx is p:
        return x0
    if nx.w != w:
        return None
    kdep = bool(nx.fv) and k.a[0] in nx.fv
    if not contains(nx, p):
        if not allowk:
            return None
        if nx is x0:
            return x0
        b = shift_back(nx, k) if kdep else nx
        return ite(eq0(k), x0, b)
    if isinstance(w, int):
        f = diff_add(nx, p)
        if f is not None:
            if not (f.fv and k.a[0] in f.fv):
                return add(x0, mul(kcast(k, w), f))
            if not allowk:
                return None
            j = fresh_var(64, [k])
            return add(x0, mk_sum(k, j, subst(f, {k: j})))
        f = diff_xor(nx, p)
        if f is not None and allowk:
            j = fresh_var(64, [k])
            return xor_(x0, mk_xorsum(k, j, subst(f, {k: j})))
        pl = to_poly(nx)
        if len(pl) == 1 and (p,) in pl and not kdep:
            c = pl[(p,)]
            if c & (c - 1) == 0:
                e = c.bit_length() - 1
                return mul(x0, pow2(mul(k, c64(e)), w))
        if nx.op == "div" and nx.a[0] is p and not contains(nx.a[1], p) and not kdep:
            q = as_pow2(nx.a[1])
            if q is not None:
                return div(x0, pow2(mul(k, q), w))
        return None
    if w == "b":
        r1, r0 = subst(nx, {p: TT}), subst(nx, {p: FF})
        if not allowk:
            return None
        j = fresh_var(64, [k])
        if r1 is TT:
            return b_or(x0, mk_any(k, j, subst(r0, {k: j})))
        if r0 is FF:
            return b_and(x0, b_not(mk_any(k, j, b_not(subst(r1, {k: j})))))
        return None
    if not allowk:
        return None
    # sequences
    f = diff_cat(nx, p)
    if f is not None:
        j = fresh_var(64, [k])
        return cat(x0, mk_flat(k, j, subst(f, {k: j})))
    ups = norm_upd(nx, p)
    if ups:
        r = solve_upd(I, p, ups, x0, k)
        if r is not None:
            return r
    if nx.op == "map" and slen(nx) is slen(x0):
        v = fresh_var(64, [slen(x0)])
        b = open_(nx.a[1], v)
        ew = b.w
        own = idx(p, v, ew)
        q = mk("phi", TM_next(), w=ew)
        xe = idx(x0, v, ew)
        d = TM.desc_of(x0)
        if isinstance(d, tuple) and d[0] == "s" and isinstance(d[1], tuple):
            TM.DESC[q] = d[1]
        b2 = subst(b, {own: q})
        if contains(b2, p):
            return None
        r = solve_rec(I, q, b2, xe, k, allowk)
        if r is not None and not contains(r, q):
            return mk_map(slen(x0), v, r)
        return None
    if nx.op == "seq" and all(True for _ in nx.a[0]):
        # fixed-size literal, elementwise
        n = len(nx.a[0])
        out = []
        for i, e in enumerate(nx.a[0]):
            own = idx(p, c64(i), e.w)
            q = mk("phi", TM_next(), w=e.w)
            e2 = subst(e, {own: q})
            if contains(e2, p):
                return None
            r = solve_rec(I, q, e2, idx(x0, c64(i), e.w), k, allowk)
            if r is None:
                return None
            out.append(r)
        return seq(*out)
    return None


def lin_k(i, k):
    """i = c*k + b, returns (c, b) or None"""
    p = to_poly(i)
    c, rest = 0, {}
    for m, cc in p.items():
        if k in m:
            if len(m) != 1:
                return None
            c = signed(cc, i.w)
        elif any(x.fv and k.a[0] in x.fv for x in m):
            return None
        else:
            rest[m] = cc
    return c, from_poly(rest, i.w)


def solve_upd(I, p, ups, x0, k):
    if len(ups) != 1:
        # distinct constant-index components
        if all(not (i.fv and k.a[0] in i.fv) and not contains(i, p) for i, _ in ups) and all(is_c(i) for i, _ in ups):
            cur = x0
            seen = {}
            for i, v in ups:
                if i in seen:
                    return None
                seen[i] = v
            res = {}
            for i, v in seen.items():
                q = mk("phi", TM_next(), w=v.w)
                v2 = subst(v, {idx(p, i, v.w): q})
                if contains(v2, p):
                    return None
                r = solve_rec(I, q, v2, idx(x0, i, v.w), k, True)
                if r is None:
                    return None
                res[i] = r
            for i, r in res.items():
                cur = upd(cur, i, r)
            return cur
        return solve_block_upd(I, p, ups, x0, k)
    i, v = ups[0]
    if contains(i, p):
        return None
    own = idx(p, i, v.w)
    ik = bool(i.fv) and k.a[0] in i.fv
    if not ik:
        q = mk("phi", TM_next(), w=v.w)
        d = TM.desc_of(x0)
        if isinstance(d, tuple) and d[0] == "s" and isinstance(d[1], tuple):
            TM.DESC[q] = d[1]
        v2 = subst(v, {own: q})
        if contains(v2, p):
            return None
        r = solve_rec(I, q, v2, idx(x0, i, v.w), k, True)
        if r is None:
            return None
        return upd(x0, i, r)
    j = fresh_var(64, [k])
    lk = lin_k(i, k)
    hole = fresh_var(v.w, None, "own")
    v2 = subst(v, {own: hole})
    if contains(v2, p):
        return None
    if lk is not None and lk[0] == 1:
        c0 = lk[1]
        body = subst(subst(v2, {k: j}), {hole: idx(x0, add(c0, j), v.w)})
        n0 = slen(x0)
        end = add(c0, k)
        return cat(slice_(x0, c64(0), c0), mk_map(k, j, body), tail_slice(x0, end, sub(n0, end)))
    if lk is not None and lk[0] == -1:
        c0 = lk[1]     # i = c0 - k
        jj = sub(sub(k, c64(1)), j)
        body = subst(subst(v2, {k: jj}), {hole: idx(x0, sub(c0, jj), v.w)})
        n0 = slen(x0)
        lo = add(sub(c0, k), c64(1))
        return cat(slice_(x0, c64(0), lo), mk_map(k, j, body), slice_(x0, add(c0, c64(1)), sub(n0, add(c0, c64(1)))))
    # scatter accumulate
    if isinstance(v.w, int):
        for kind in ("add", "xor"):
            f = diff_add(v2, hole) if kind == "add" else diff_xor(v2, hole)
            if f is None and kind == "add":
                pl = to_poly(v2)
            if f is None or contains(f, hole):
                continue
            m = fresh_var(64, [slen(x0)], "m")
            base = idx(x0, m, v.w)
            if i.op == "div" and i.a[0] is k and not dep(i.a[1], k):
                c = i.a[1]
                t = fresh_var(64, None, "t")
                cnt = min_(c, monus(k, mul(m, c)))
                TM.VAR_UB[t.a[0]] = [cnt, c]
                tt = subst(f, {k: add(mul(m, c), t)})
                s = mk_sum(cnt, t, tt) if kind == "add" else mk_xorsum(cnt, t, tt)
            else:
                ff = subst(f, {k: j})
                ii = subst(i, {k: j})
                s = (mk_sum if kind == "add" else mk_xorsum)(k, j, ite(eq(ii, m), ff, const(0, v.w)))
            return mk_map(slen(x0), m, add(base, s) if kind == "add" else xor_(base, s))
    return None


def tail_slice(x, lo, n):
    return slice_(x, lo, n)


def solve_block_upd(I, p, ups, x0, k):
    """several updates i = c*k + d, d = 0..c-1 covering a block per iteration"""
    c = len(ups)
    vals = {}
    for i, v in ups:
        lk = lin_k(i, k)
        if lk is None or lk[0] != c or not is_c(lk[1]):
            return None
        dlt = cval(lk[1])
        if dlt >= c or dlt in vals:
            return None
        if contains(v, p):
            return None
        vals[dlt] = v
    j = fresh_var(64, [mul(c64(c), k)])
    q = div(j, c64(c))
    r = rem(j, c64(c))
    body = subst(vals[c - 1], {k: q})
    for dlt in range(c - 2, -1, -1):
        body = ite(eq(r, c64(dlt)), subst(vals[dlt], {k: q}), body)
    n = mul(c64(c), k)
    return cat(mk_map(n, j, body), slice_(x0, n, sub(slen(x0), n)))
