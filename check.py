#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough]"""
import argparse
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.path.insert(0, os.path.join(ROOT, "rules"))
sys.setrecursionlimit(200000)
MODULES = ("client", "server", "data", "filters", "kv", "hashes", "profile", "effects", "persist", "secret", "cli", "features")


def rule_for(pid):
    for m in MODULES:
        mod = importlib.import_module(m)
        f = getattr(mod, pid, None)
        if f is not None:
            return f
    raise SystemExit(f"unknown property {pid}")


def known():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import core
    import dump
    fn = rule_for(a.id)
    try:
        dump.get("dev")
    except Exception as e:  # nothing to analyse: no answer, rather than a quiet one
        print(f"{a.id}: the source could not be compiled for analysis: {e}"[:4000])
        return 2
    c = core.Check(a.id, a.tier, seed)
    c.guard("the rule as a whole", a.id, lambda: fn(c))
    return finish(c, a, t0, fn)


def finish(c, a, t0, fn):
    import core
    st = {}
    for o in c.obl:
        st[o["status"]] = st.get(o["status"], 0) + 1
    kf = {(k["obligation"], k["at"]): k for k in known() if k["property"] == c.pid}
    new, listed = [], []
    for v in c.viol:
        (listed if (v["obligation"], v["at"]) in kf else new).append(v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(ROOT, "evidence", f"{c.pid}.violation.json")
    if a.v:
        for o in c.obl:
            print(f"  [{o['status']:9}] {o['obligation']} @ {o['at'].split('::')[-1]} -- {o['detail'][:200]}")
    seen = set()
    for v in listed:
        k = (v["obligation"], v["at"])
        if k not in seen:
            seen.add(k)
            print(f"KNOWN-FINDING: property={c.pid} {v['obligation']} in {v['at']}")
    progs = core._progs
    n_ob = len(c.obl)
    cov = {
        "explanation": (fn.__doc__ or "").strip() + " | value-graph dataflow over the MIR of /repo's current tree; an obligation is "
        "'proved' when the canonical terms are identical, 'agreed' when they are equal under random interpretation of the value graph, "
        "'undecided' when the analysis does not understand the code (never reported as a violation).",
        "obligations": n_ob,
        "discharged": st.get("proved", 0) + st.get("agreed", 0),
        "proved_by_canonical_form": st.get("proved", 0),
        "agreed_by_random_interpretation": st.get("agreed", 0),
        "undecided": st.get("undecided", 0),
        "violated": st.get("VIOLATED", 0),
        "functions": sorted({o["at"] for o in c.obl}),
        "function_summaries_computed": len(set(map(str, core._sums)) | c.workers),
        "bodies_in_scope": {k: len([b for b in p.bodies.values() if b["local"]]) for k, p in progs.items()},
        "configurations": sorted(progs),
        "rules": sorted({o["rule"] for o in c.obl}),
        "details": c.obl[:400],
    }
    json.dump({"property": c.pid, "tier": a.tier, "seed": c.seed, "level": "other", "coverage": cov,
               "wall_s": round(time.time() - t0, 2)},
              open(os.path.join(ROOT, "evidence", f"{c.pid}.json"), "w"), indent=1)
    if new:
        json.dump(new, open(replay, "w"), indent=1)
        for v in new[:20]:
            print(f"  {v['obligation']}\n    at   {v['at']}\n    rule {v['rule']}\n    {v['detail'][:1500]}")
        print(f"VIOLATION property={c.pid} replay={replay}")
        return 1
    print(f"{c.pid}: {n_ob} obligations, {st} in {time.time()-t0:.1f}s")
    return 0


def threaded():
    import threading
    threading.stack_size(1 << 30)
    rc = [1]

    def run():
        try:
            rc[0] = main()
        except SystemExit as e:
            rc[0] = e.code if isinstance(e.code, int) else 1
            if not isinstance(e.code, int) and e.code:
                print(e.code, file=sys.stderr)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    return rc[0]


if __name__ == "__main__":
    sys.exit(threaded())
