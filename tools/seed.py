#!/usr/bin/env python3
"""Plant bugs and confirm them.

  seed.py make SPEC.py        write seeded/<id>/ for every seed(...) of the spec file
  seed.py verify ID...        in a scratch copy of /repo: builds, stable tests pass,
                              demo 0 without and nonzero with the patch
  seed.py check ID [PID...]   apply to /repo, run the checks (default: all), undo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# Builds a small program against the crates in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here"/*.rs "$w/src/" && cp "$repo/Cargo.lock" "$w/" 2>/dev/null
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
keyword-pir-lwe = { path = "$repo" }
xorf = { path = "$repo/bff-modp" }
pi-rs-cli-utils = { path = "$repo/pi-rs-cli-utils" }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0.59"
bincode = "1.3.3"
base64 = "0.13"
%(extra)s[profile.dev]
opt-level = %(opt)d
EOF
cd "$w" && export CARGO_TARGET_DIR="$w/target"
cargo build --offline --quiet %(flags)s2>"$w/log" || { cat "$w/log"; exit 98; }
timeout %(timeout)d cargo run --offline --quiet %(flags)s2>"$w/log"
rc=$?
[ $rc -eq 0 ] || tail -n 5 "$w/log"
exit $rc
"""


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def seed(id, prop, needs, breaks, edits, demo, opt=0, flags="", extra="", timeout=200, files={}, script=None):
    d = os.path.join(S, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="mk")
    sh(f"git -C /repo archive HEAD | tar x -C {t} && git -C {t} init -q && git -C {t} add -A && git -C {t} -c user.name=a -c user.email=a@b commit -qm x")
    for f, a, b in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(a) == 1, (id, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    _, diff = sh(f"git -C {t} diff")
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    shutil.rmtree(t)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(script or DEMO % dict(opt=opt, flags=flags + " " if flags else "", extra=extra, timeout=timeout))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if demo:
        open(os.path.join(d, "main.rs"), "w").write(demo.lstrip("\n"))
    for k, v in files.items():
        open(os.path.join(d, k), "w").write(v)
    print("made", id)


def scratch(n):
    t = f"/tmp/scr{n}"
    if not os.path.isdir(t):
        sh(f"cp -a /repo {t}")
    sh(f"git -C {t} checkout -q -- . && git -C {t} fetch -q /repo && git -C {t} reset -q --hard {sh('git -C /repo rev-parse HEAD')[1].strip()}")
    return t


def original_lines(id, t):
    """does the patch change lines that the base commit has?"""
    f = None
    n = 0
    base = sh("git -C /repo rev-list --max-parents=0 HEAD")[1].strip()
    for l in open(os.path.join(S, id, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            have = set(x.strip() for x in sh(f"git -C /repo show {base}:{f}")[1].split("\n"))
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            n += l[1:].strip() in have
    return n


def verify(id, n=0):
    t = scratch(n)
    env = ". /opt/vp/env.sh; "
    d = os.path.join(S, id)
    if not original_lines(id, t):
        return f"{id}: changes no original line"
    iso = tempfile.mkdtemp(prefix="iso")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), iso)
    demo = f"bash {iso}/demo.sh"
    rc, o = sh(env + demo, t, 400)
    if rc:
        return f"{id}: demo fails unpatched rc={rc}\n{o[-1500:]}"
    rc, o = sh(f"git apply {d}/patch.diff", t)
    if rc:
        return f"{id}: patch does not apply {o}"
    try:
        for c in (".", "bff-modp", "bff-modp/analysis", "pi-rs-cli-utils"):
            rc, o = sh(f"bash -c '. /opt/vp/env.sh; cargo test --offline --all-targets --no-run'", os.path.join(t, c))
            if rc:
                return f"{id}: build fails in {c}\n{o[-1500:]}"
        ok = set()
        for c, skip in ((".", ""), ("bff-modp", "--skip bfusep32:: --skip fuse8:: --skip fuse16:: --skip xor8:: --skip xor16::")):
            rc, o = sh(f"bash -c '. /opt/vp/env.sh; timeout 300 cargo test --offline --no-fail-fast -- --test-threads 8 {skip}'", os.path.join(t, c))
            if rc:
                return f"{id}: tests fail in {c}\n" + "\n".join(l for l in o.split("\n") if "FAILED" in l or "panicked" in l)[-1500:]
        rc, o = sh(env + demo, t, 400)
        if rc == 0:
            return f"{id}: demo passes patched\n{o[-500:]}"
        if rc in (98, 99):
            return f"{id}: demo does not build patched\n{o[-1500:]}"
        return f"{id}: OK (demo rc={rc}: {o.strip().splitlines()[-1][:160] if o.strip() else ''})"
    finally:
        sh("git checkout -q -- .", t)
        shutil.rmtree(iso)


def check(id, pids):
    d = os.path.join(S, id)
    rc, o = sh(f"git -C /repo apply {d}/patch.diff")
    if rc:
        return print(id, "does not apply", o)
    try:
        if not pids:
            pids = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]] if False else sorted(
                c.get("property_id") or c.get("property") or c["id"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"])
        own = json.load(open(os.path.join(d, "meta.json")))["property"]
        hit, err = {}, {}
        for p in pids:
            rc, o = sh(f"python3-vt check.py {p}", V)
            if rc == 1:
                hit[p] = [l for l in o.split("\n") if "VIOLATION" in l or "VIOLATED" in l][:2]
            elif rc:
                err[p] = o[-300:]
        print(f"{id} [{own}]: caught by {' '.join(hit) or '-'}{'' if own in hit or own not in pids else '   *** MISSED by own ***'} {err or ''}")
        for p in hit:
            if p == own:
                print("    ", *[h[:260] for h in hit[p]], sep="\n      ")
    finally:
        sh("git -C /repo checkout -q -- .")


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for a in args:
            exec(compile(open(a).read(), a, "exec"), dict(seed=seed))
    elif cmd == "verify":
        from concurrent.futures import ThreadPoolExecutor
        import queue
        q = queue.Queue()
        N = 3
        for i in range(N):
            q.put(i)

        def go(i):
            n = q.get()
            try:
                return verify(i, n)
            finally:
                q.put(n)
        with ThreadPoolExecutor(N) as ex:
            for r in ex.map(go, args or sorted(os.listdir(S))):
                print(r, flush=True)
    elif cmd == "check":
        check(args[0], args[1:])
