#!/usr/bin/env python3
"""Conformance of the engine's library models: fns.rs holds one small function per
library feature; the value graph the engine gives each of them is interpreted and
compared with what the compiled function returns.  A development aid; no check uses it."""
import json, os, random, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
W = os.environ.get("CONFORM_W", "/tmp/conform")
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.run(f"git -C /repo archive HEAD | tar x -C {W}; for d in . bff-modp pi-rs-cli-utils; do cp /repo/$d/Cargo.lock {W}/$d/ 2>/dev/null; done", shell=True, check=False)
src = open(os.path.join(HERE, "fns.rs")).read()
ONLY = [x for x in os.environ.get("ONLY", "").split(",") if x]
names = [l.split("pub fn ")[1].split("(")[0] for l in src.splitlines() if l.startswith("pub fn") and (not ONLY or l.split("pub fn ")[1].split("(")[0] in ONLY)]
open(f"{W}/src/zz.rs", "w").write(src.replace("#![allow(unused)]", ""))
p = f"{W}/src/lib.rs"
t = open(p).read()
open(p, "w").write(t + "\n#[allow(unused)]\npub mod zz;\n")
R = random.Random(5)
ins = [([], 0), ([7], 1), ([3, 7, 7, 1, 200, 4000000000], 2), ([1, 2, 3], 5)]
ins += [([R.choice((R.getrandbits(32), R.randrange(60), R.randrange(400))) for _ in range(R.randrange(9))], R.randrange(9)) for _ in range(14)]
ins += [([R.randrange(1000) for _ in range(9)], 4), ([5, 5, 6, 50, 7], 3)]
m = "mod fns; fn main() { std::panic::set_hook(Box::new(|_| ()));\n"
for nm in names:
    for v, n in ins:
        m += f"match std::panic::catch_unwind(|| fns::{nm}(&[{','.join(map(str, v))}], {n})) {{ Ok(r) => println!(\"{{:?}}\", r), Err(_) => println!(\"null\") }}\n"
open(f"{W}/main.rs", "w").write(m + "}")
shutil.copy(os.path.join(HERE, "fns.rs"), f"{W}/fns.rs")
s = open(f"{W}/fns.rs").read().replace("#![allow(unused)]", "")
open(f"{W}/fns.rs", "w").write(s)
r = subprocess.run(["rustc", "--edition", "2021", "-A", "warnings", "-C", "debug-assertions=on", "-o", f"{W}/main", f"{W}/main.rs"], capture_output=True, text=True)
if r.returncode:
    sys.exit(r.stderr[:3000])
out = [json.loads(x) for x in subprocess.run([f"{W}/main"], capture_output=True, text=True).stdout.splitlines()]
os.environ["VERIF_REPO"], os.environ["VERIF_CACHE"] = W, W + "/cache"
sys.path[:0] = [ROOT + "/engine", ROOT + "/rules"]
sys.setrecursionlimit(200000)
import core, ev
from persist import traps
it = iter(out)
lines = {l.split("pub fn ")[1].split("(")[0]: l for l in src.splitlines() if l.startswith("pub fn")}
bad = {"opaque": [], "wrong": [], "error": []}
for nm in names:
    want = [next(it) for _ in ins]
    try:
        s = core.summary("keyword_pir_lwe::zz::" + nm)
    except Exception as e:
        bad["error"].append((nm, f"{type(e).__name__}: {e}"[:120]))
        continue
    for (v, n), w in zip(ins, want):
        E = ev.Env(1, {"a0": tuple(v), "a1": n})
        try:
            trap = traps(s, E)
            if w is None:
                if trap is None:
                    try:
                        E.ev(s.ret)
                    except ev.Partial:
                        continue
                    bad["wrong"].append((nm, f"{v} {n}: panics, no trap found"))
                    break
                continue
            if trap:
                bad["wrong"].append((nm, f"{v} {n}: spurious trap {trap}"))
                break
            got = E.ev(s.ret)
            if list(got) != w:
                bad["wrong"].append((nm, f"{v} {n}: {str(got)[:80]} want {str(w)[:80]}"))
                break
        except (ev.Opaque, ev.Partial, ev.Big) as e:
            bad["opaque"].append((nm, f"{type(e).__name__} {e}"[:110]))
            break
        except Exception as e:
            bad["error"].append((nm, f"{type(e).__name__}: {e}"[:120]))
            break
for k in ("wrong", "error", "opaque"):
    for nm, why in bad[k]:
        print(f"{k:7} {nm:5} {why}\n        {lines[nm][lines[nm].index('{') + 2:-2][:150]}")
print(len(names), "functions:", ", ".join(f"{len(v)} {k}" for k, v in bad.items()))
