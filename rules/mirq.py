"""Syntactic queries over the typed MIR dump."""
import re


def _walk_place(b, place):
    """yield (position, projection, type-before) along a place"""
    tys = b["tys"]
    t = b["locals"][place[0]]
    for n, pr in enumerate(place[1]):
        tt = tys[t] if t is not None else None
        yield n, pr, tt
        if pr[0] == "deref":
            t = tt.get("to") if tt and tt["k"] in ("ref", "ptr") else None
        elif pr[0] == "field":
            t = pr[2] if len(pr) > 2 else None
        elif pr[0] == "downcast":
            pass
        else:
            t = None


def places_field(b, place, path, i, last=True):
    n_last = len(place[1]) - 1
    for n, pr, tt in _walk_place(b, place):
        if pr[0] == "field" and tt and tt["k"] == "adt" and tt["path"] == path and pr[1] == i and (not last or n == n_last):
            return True
    return False


def stmts(b):
    for bi, blk in enumerate(b["blocks"]):
        if blk.get("cleanup"):
            continue
        for st in blk["s"]:
            yield bi, st


def calls(b):
    """(block, callee info, args, dest, span)"""
    for bi, blk in enumerate(b["blocks"]):
        if blk.get("cleanup"):
            continue
        t = blk["t"]
        if t and t[0] == "call":
            f = t[1]
            info = f[2].get("fn") if f[0] == "const" and isinstance(f[2], dict) else None
            yield bi, info, t[2], t[3], blk["sp"]


def const_of(op):
    if op[0] == "const" and isinstance(op[2], dict):
        v = op[2].get("int")
        return int(v) if v is not None else None
    return None


def field_writes(b, path, i):
    """MIR assignments to field i of adt `path`: (where, const|None)"""
    for bi, st in stmts(b):
        if st[0] == "assign" and st[1][1] and places_field(b, st[1], path, i):
            rv = st[2]
            v = const_of(rv[1]) if rv[0] == "use" else None
            yield f"{st[3][0]}", v
    for bi, info, args, dest, sp in calls(b):
        if dest[1] and places_field(b, dest, path, i):
            yield f"{sp[0]}", None


def field_mut_borrows(b, path, i):
    for bi, st in stmts(b):
        if st[0] == "assign" and st[2][0] == "ref" and st[2][1] and places_field(b, st[2][2], path, i):
            yield f"{st[3][0]}"


def is_impl_of(b, path, trait, meth):
    k = b["key"]
    return b.get("trait") == trait and k.endswith("::" + meth) and k.startswith("<" + path) or \
        (k.startswith("<" + path) and f" as {trait}>::{meth}" in k)


def _impl_body(P, path, trait_end, meth):
    out = []
    for k, b in P.bodies.items():
        if not b["local"] or "{closure" in k:
            continue
        m = re.search(r"impl (?:<[^>]*> )?(\S+) for ([^>]*(?:<.*?>)?)>::" + meth + r"(?:::<|$)", k)
        if m and trait_end in m.group(1) and m.group(2).split("<")[0] == path:
            out.append(b)
    return out


def _origins(b):
    """local -> rvalue when it is assigned exactly once"""
    d, n = {}, {}
    for _, st in stmts(b):
        if st[0] == "assign" and not st[1][1]:
            n[st[1][0]] = n.get(st[1][0], 0) + 1
            d[st[1][0]] = st[2]
    return {k: v for k, v in d.items() if n[k] == 1}


def _ref_field(b, org, op, path, depth=0):
    """the field of (*self) an operand refers to"""
    if depth > 6 or op[0] not in ("copy", "move"):
        return None
    place = op[1]
    for n, pr, tt in _walk_place(b, place):
        if pr[0] == "field" and tt and tt["k"] == "adt" and tt["path"] == path:
            return pr[1]
    rv = org.get(place[0])
    if rv is None:
        return None
    if rv[0] == "ref":
        for n, pr, tt in _walk_place(b, rv[2]):
            if pr[0] == "field" and tt and tt["k"] == "adt" and tt["path"] == path:
                return pr[1]
        return _ref_field(b, org, ["copy", [rv[2][0], []]], path, depth + 1)
    if rv[0] in ("use",):
        return _ref_field(b, org, rv[1], path, depth + 1)
    if rv[0] == "cast":
        return _ref_field(b, org, rv[2], path, depth + 1)
    return None


def serde_fields(P, path):
    """(serialised field indices, restored field indices | None, why) for a
    derived impl; None when the type is not serialisable"""
    se = _impl_body(P, path, "Serialize", "serialize")
    if not se:
        return None
    if len(se) != 1:
        return None, None, f"{len(se)} serialize impls"
    b = se[0]
    org = _origins(b)
    ser = set()
    seen = False
    for bi, info, args, dest, sp in calls(b):
        nm = (info or {}).get("path", "")
        if nm.endswith("::serialize_field") or nm.endswith("::serialize_element"):
            seen = True
            for a in args[1:]:
                f = _ref_field(b, org, a, path)
                if f is not None:
                    ser.add(f)
        if nm.endswith("::serialize_newtype_struct"):
            seen = True
            f = _ref_field(b, org, args[-1], path)
            if f is not None:
                ser.add(f)
        if nm.endswith("::skip_field"):
            return None, None, "conditional serialisation"
    if not seen:
        return None, None, "hand-written or empty serialiser"
    # deserialiser: aggregate of the type built from next_element results
    de = None
    for k, v in P.bodies.items():
        if v["local"] and f" for {path}" in k and "__Visitor" in k and "::visit_seq" in k:
            org2 = _origins(v)
            n = sum(1 for _, info, *_r in calls(v) if (info or {}).get("path", "").endswith("::next_element"))
            aggs = [st[2] for _, st in stmts(v) if st[0] == "assign" and st[2][0] == "agg" and st[2][1][0] == "adt" and st[2][1][1] == path]
            if len(aggs) == 1:
                nf = len(aggs[0][2])
                # fields given by Default::default are not restored
                dflt = set()
                defd = set()
                for _, info, args, dest, sp in calls(v):
                    if (info or {}).get("path", "").endswith("default::Default::default") and not dest[1]:
                        defd.add(dest[0])
                for i, op in enumerate(aggs[0][2]):
                    if op[0] in ("copy", "move") and not op[1][1]:
                        l = op[1][0]
                        for _ in range(6):
                            if l in defd:
                                dflt.add(i)
                                break
                            rv = org2.get(l)
                            if rv and rv[0] == "use" and rv[1][0] in ("copy", "move") and not rv[1][1][1]:
                                l = rv[1][1][0]
                            else:
                                break
                de = set(range(nf)) - dflt
                if n < nf - len(dflt):
                    de = None
    return ser, de, ""
