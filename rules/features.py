"""Feature combinations of the filter crate (P25): every combination is type-checked
(a combination that does not compile is the violation), and the bodies the
combinations give to the same function are compared - first structurally, then as
value graphs with the random fill of unused slots set to zero."""
import hashlib
import itertools
import json
import re
import subprocess
from core import *
import dump
import ev
import filters as F

ROOT_TYPES = ["xorf::%s::%s" % (m, t) for m, t in
              [("xor8", "Xor8"), ("xor16", "Xor16"), ("xor32", "Xor32"), ("fuse8", "Fuse8"), ("fuse16", "Fuse16"), ("fuse32", "Fuse32"), ("hash_proxy", "HashProxy")]]
BF = ["xorf::%s::%s" % (m, t) for m, t in [("bfuse8", "BinaryFuse8"), ("bfuse16", "BinaryFuse16"), ("bfuse32", "BinaryFuse32")]]
BP = ["xorf::bfusep32::BinaryFuseP32"]
ENV_ERR = re.compile(r"failed to (download|get|load source|select a version)|no matching package|attempting to make an HTTP|offline|can't find crate for `(alloc|core)`")


def manifest():
    r = subprocess.run(["cargo", "+nightly", "metadata", "--offline", "--no-deps", "--format-version", "1"], cwd=os.path.join(dump.REPO, "bff-modp"), capture_output=True, text=True)
    if r.returncode:
        raise Undecided("cargo metadata: " + r.stderr[-300:])
    for p in json.loads(r.stdout)["packages"]:
        if p["name"] == "xorf":
            return p["features"]
    raise Missing("package xorf")


def sets(fe, tier):
    """every subset of the named features, the implied (dependency) features one by
    one, and everything together"""
    implied = sorted(k for k, v in fe.items() if v == ["dep:" + k])
    named = sorted(k for k in fe if k != "default" and (k not in implied or k in fe.get("default", [])))
    out = []
    for r in range(len(named) + 1):
        out += [frozenset(x) for x in itertools.combinations(named, r)]
    full = frozenset(named)
    for k in implied:
        for base in (frozenset(), full):
            if base | {k} not in out:
                out.append(base | {k})
    if tier != "quick":
        for r in range(len(implied) + 1):
            for x in itertools.combinations(implied, r):
                if frozenset(x) not in out:
                    out.append(frozenset(x))
                if full | frozenset(x) not in out:
                    out.append(full | frozenset(x))
    return named, out, full


def name(s):
    return ",".join(sorted(s)) or "none"


def cfg(s):
    return "feat:" + ",".join(sorted(s))


# ------------------------------------------------------------------ structural identity
def canon(x, ty):
    if isinstance(x, dict):
        return {k: ([ty(t) for t in v] if k in ("targs", "sig") else canon(v, ty)) for k, v in x.items() if k not in ("span", "spans", "sp")}
    if isinstance(x, list):
        if len(x) == 3 and x[0] == "const" and isinstance(x[1], int):
            return ["const", ty(x[1]), canon(x[2], ty)]
        if len(x) == 3 and x[0] == "field" and isinstance(x[2], int):
            return ["field", x[1], ty(x[2])]
        if len(x) == 4 and x[0] == "cast" and isinstance(x[3], int):
            return ["cast", x[1], canon(x[2], ty), ty(x[3])]
        if len(x) == 2 and x[0] == "array" and isinstance(x[1], int):
            return ["array", ty(x[1])]
        if x and x[0] in ("switch", "call", "drop") and isinstance(x[-1], int):
            return [canon(y, ty) for y in x[:-1]] + [ty(x[-1])]
        return [canon(y, ty) for y in x]
    return x


class Set:
    """the dump of the crate under one feature set"""

    def __init__(self, s):
        self.s = s
        d = dump.get(cfg(s))["xorf"]
        self.items = d["items"]
        self.types = d["types"]
        self.bodies = {b["key"]: b for b in d["bodies"]}
        self.h, self.own = {}, {}

    def own_hash(self, k):
        if k not in self.own:
            b = self.bodies[k]
            ty = lambda i: self.types[i].get("s") or json.dumps(self.types[i])
            blocks = [{"s": [canon(st[:-1] if isinstance(st[-1], list) and len(st[-1]) == 4 and isinstance(st[-1][0], str) else st, ty) for st in blk["s"]],
                       "t": canon(blk["t"], ty)} for blk in b["blocks"]]
            text = json.dumps([b["argc"], [ty(t) for t in b["locals"]], blocks])
            self.own[k] = (hashlib.sha256(text.encode()).hexdigest(), [m for m in re.findall(r'"key": "((?:[^"\\]|\\.)*)"|\["closure", "((?:[^"\\]|\\.)*)"\]', text)])
        return self.own[k]

    def closure(self, k):
        """hash of the body and of everything it calls in this crate"""
        seen, todo = {}, [k]
        while todo:
            x = todo.pop()
            if x in seen or x not in self.bodies:
                continue
            h, refs = self.own_hash(x)
            seen[x] = h
            todo += [a or b for a, b in refs]
        return hashlib.sha256(json.dumps(sorted(seen.items())).encode()).hexdigest(), seen


def P25(c):
    """all feature combinations of the filter crate: type checking of each combination, no link to std, additivity of the public items, and agreement of construction and lookup between combinations (structural identity of the bodies, else value graphs compared with the random fill of unused slots set to 0)"""
    fe = manifest()
    named, combos, full = sets(fe, c.tier)
    got = {}
    for s in combos:
        where = f"xorf with features {name(s)}"
        try:
            got[s] = Set(s)
            c.rec("the combination compiles", where, "the crate type-checks with exactly these features", "proved", f"{len(got[s].bodies)} bodies")
        except dump.BuildError as e:
            m = str(e)
            if ENV_ERR.search(m):
                c.rec("the combination compiles", where, "the crate type-checks with exactly these features", "undecided", m[-200:])
            else:
                errs = re.findall(r"error(?:\[\w+\])?: .*(?:\n +--> .*)?", m)
                c.rec("the combination compiles", where, "the crate type-checks with exactly these features", "VIOLATED", "; ".join(x.replace("\n", " ") for x in errs[:2])[:400] or m[-300:])
    for s, d in got.items():
        std = [i["path"] for i in d.items if i["kind"] == "ExternCrate" and i.get("crate") == "std"]
        c.rec("no link to the standard library", f"xorf with features {name(s)}", "the crate links core and alloc only", "VIOLATED" if std else "proved", ", ".join(std) or "no extern crate std")
    if full not in got:
        return
    ref = got[full]
    # ---- what a feature names
    for s, d in got.items():
        adts = {i["path"] for i in d.items if i["kind"] == "Adt" and i.get("reachable")}
        want = ROOT_TYPES + (BF if "binary-fuse" in s else []) + (BP if "binary-fuse-modp" in s else [])
        lost = [w for w in want if not any(a.rsplit("::", 1)[1] == w.rsplit("::", 1)[1] for a in adts)]
        c.rec("a feature provides what it names", f"xorf with features {name(s)}", "the filter types of the enabled features are public", "VIOLATED" if lost else "proved", "missing " + ", ".join(lost) if lost else f"{len(want)} types")
        gone = [k for k in ref.bodies if k not in d.bodies and any(f"{w}::" in k or re.match(re.escape(f"<{w}") + r"(<[\w, ]*>)? as (xorf::Filter|core::convert::)", k) for w in want)
                and ref.bodies[k]["local"] and ref.bodies[k].get("reachable") and not ref.bodies[k].get("derived") and "closure#" not in k and "::_::" not in k]
        c.rec("same operations", f"xorf with features {name(s)}", "every operation of an available filter type is available in every combination", "VIOLATED" if gone else "proved", ", ".join(sorted(gone)[:3]) or "all operations present")
        if "serde" in s:
            no = []
            for w in want:
                t = w.rsplit("::", 1)[1]
                for tr in ("Serialize", "Deserialize"):
                    if not any(i["kind"] == "Impl" and re.search(r"\b%s\b" % tr, i.get("trait") or "") and re.search(r"\b%s\b" % t, (i.get("trait") or "") + i["self"]) for i in d.items):
                        no.append(f"{tr} for {t}")
            c.rec("serde covers every filter type", f"xorf with features {name(s)}", "with the serde feature every filter type can be serialised and deserialised", "VIOLATED" if no else "proved", ", ".join(no) or f"{len(want)} types")

    def pub(d):
        return {k for k, b in d.bodies.items() if b["local"] and b.get("reachable") and not b.get("derived") and "closure#" not in k and "_::" not in k}
    for s, d in got.items():
        for s2 in combos:
            if s2 in got and s < s2 and len(s2) == len(s) + 1:
                gone = sorted(k for k in pub(d) - pub(got[s2]) if not any(k2.split("::")[-1] == k.split("::")[-1] and k2.split("<")[0] == k.split("<")[0] for k2 in pub(got[s2])))
                c.rec("features are additive", f"{name(s)} + {name(s2 - s)}", "enabling a feature removes no public function", "VIOLATED" if gone else "proved", ", ".join(gone[:3]) if gone else f"{len(pub(d))} functions kept")
    # ---- same functions
    jobs = []
    groups = [(f, [F.ckey(f, a) for a in (F.SL, F.RV, F.VV)] + [f"<xorf::{f[0]}::{f[1]} as xorf::Filter<u64>>::{m}" for m in ("contains", "len")]) for f in F.FAMS]
    PF = [F.PL + "::" + m for m in ("from_slice", "from_vec", "retrieve", "hash_eval", "get_key_fingerprint", "get_fingerprints_mod")]
    groups.append((None, PF))
    covered = set()
    for f, keys in groups:
        covered |= set(keys)
        variants = {}
        for s, d in got.items():
            if keys[0] not in d.bodies:
                continue
            v = tuple(d.closure(k)[0] if k in d.bodies else None for k in keys)
            variants.setdefault(v, []).append(s)
        base = tuple(ref.closure(k)[0] if k in ref.bodies else None for k in keys)
        what = f[1] if f else "BinaryFuseP32"
        for v, ss in variants.items():
            if v == base:
                c.rec("same construction and lookup", what, "the bodies, and all they call, are structurally identical to those of the full feature set", "proved", f"{len(ss)} combinations, {sum(len(ref.closure(k)[1]) for k in keys if k in ref.bodies)} bodies")
                continue
            s = min(ss, key=lambda x: (len(x), sorted(x)))
            jobs.append(lambda f=f, keys=keys, s=s, what=what, n=len(ss): compare(c, f, keys, full, s, what, n))
    c.parallel(jobs)
    for k in (F.MIXP, F.MIX256P):
        vs = {}
        for s, d in got.items():
            if k in d.bodies:
                vs.setdefault(d.closure(k)[0], []).append(s)
        if len(vs) == 1:
            c.rec("same hash function", k, "the body, and all it calls, is structurally identical in every combination", "proved", f"{sum(map(len, vs.values()))} combinations")
        for h, ss in vs.items():
            if k in ref.bodies and h != ref.closure(k)[0]:
                mixes(c, k, full, min(ss, key=lambda x: (len(x), sorted(x))))
    # everything else that is public
    rest = sorted(pub(ref) - covered)
    for k in rest:
        vs = {}
        for s, d in got.items():
            if k in d.bodies:
                vs.setdefault(d.closure(k)[0], []).append(s)
        c.rec("same function", k, "the body, and all it calls, is structurally identical in every combination", "proved" if len(vs) <= 1 else "undecided", f"{sum(map(len, vs.values()))} combinations" if len(vs) <= 1 else f"{len(vs)} variants")


def fs(key, config, extra=None):
    o = F.mixov()
    o.update(extra or {})
    return summary(key, ovr=o, config=config, tag="feat")


def compare(c, f, keys, A, B, what, n):
    rule = "the value graphs of construction and lookup agree when the random fill of unused slots is 0"
    where = keys[0]

    def one(sd, key=keys[0]):
        R = rng(sd, what)
        out = []
        if f:
            k = F.kindof(f)
            nk, bad, style, f2i, spread = F.scenario(R, k, "quick")
            ks = F.mkeys(R, nk)
            syms = {"a0": ks}
            probe = list(ks) + [R.getrandbits(64) for _ in range(3)] + [0, 1, F.M64, 1 << 63]
        else:
            R, ks, p, data, label, seed32 = F.pscen(sd, "quick")
            bad, style, f2i, spread = 0, "", None, None
            syms = {"a0": seed32, "a1": ks, "a2": data, "a3": label, "a4": p}
            probe = list(ks)
        for S in (A, B):
            h = F.Hash(sd, ks, bad, style, spread)
            E = F.env(sd, syms, h, f2i)
            E.freshfn = lambda k, w: 0
            v = F.unpack(E.ev(fs(key, cfg(S)).ret), what)
            if v is None:
                out.append(("no filter",))
                continue
            look = []
            for k in probe:
                try:
                    if f:
                        look.append(F.env(sd, F.struct_syms(v, a1=k), h).ev(fs(keys[3], cfg(S)).ret))
                    else:
                        look.append(F.env(sd, F.struct_syms(v, a1=k, a2=label), h).ev(fs(keys[2], cfg(S)).ret))
                except ev.Partial:
                    look.append("outside the table")
            out.append((v[3], tuple(look)))
        if out[0] != out[1]:
            a, b = out
            d = "one of them yields no filter" if len(a) != len(b) else "the lookups differ" if a[1] != b[1] else "the filters differ"
            return f"{what} built with features {name(A)} and with features {name(B)} from the same {len(ks)} keys: {d}"
        return None

    def go():
        c.sampled(f"same construction and lookup ({name(B)})", where, rule, one, 12 if c.tier == "quick" else 80)
        if f:
            for k2 in keys[1:3]:
                sums = [fs(k2, cfg(S), abstract(keys[0])) for S in (A, B)]
                if all(s.ret.op == "app" and len(s.ret.a) == 2 and F.deref0(s) is not None and s.ret.a[1] is F.deref0(s) for s in sums):
                    c.rec(f"source forms ({name(B)})", k2, "conversion from a vector is the conversion from its slice in both combinations", "proved", "delegates")
                else:
                    c.sampled(f"source forms ({name(B)})", k2, rule, lambda sd: one(sd, k2), 6)
    c.guard(f"same construction and lookup ({name(B)})", where, go)


def mixes(c, k, A, B):
    def one(sd):
        R = rng(sd, "mix")
        if k == F.MIXP:
            syms = {"a0": R.getrandbits(64), "a1": R.getrandbits(64)}
        else:
            syms = {"a0": tuple(R.getrandbits(64) for _ in range(4)), "a1": tuple(R.getrandbits(8) for _ in range(32))}
        a, b = [ev.Env(sd, syms).ev(summary(k, ovr={}, config=cfg(S), tag="featmix").ret) for S in (A, B)]
        return None if a == b else f"the hash of a key differs between features {name(A)} and {name(B)}"
    c.guard("same hash function", k, lambda: c.sampled(f"same hash function ({name(B)})", k, "the value graphs of the hash function agree", one, 20))
