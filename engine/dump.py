"""Obtain MIR dumps of /repo's current working tree (content-addressed cache)."""
import glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))

CRATES = "keyword_pir_lwe,xorf,pi_rs_cli_utils"


def _sources(repo):
    out = []
    for root, dirs, files in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "config.toml", "build.rs") or f.startswith("rust-toolchain") or f == "config":
                out.append(os.path.join(root, f))
    return out


def source_hash(repo=None):
    repo = repo or REPO
    h = hashlib.sha256()
    for f in _sources(repo):
        h.update(os.path.relpath(f, repo).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def driver_path():
    src = os.path.join(VERIF, "driver", "src", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    d = os.path.join(CACHE, "bin-" + h)
    exe = os.path.join(d, "mirdump")
    if not os.path.exists(exe):
        import fcntl
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(CACHE, "lock-bin"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(exe):
                r = subprocess.run(["bash", os.path.join(VERIF, "driver", "build.sh"), d], capture_output=True, text=True)
                if r.returncode != 0 or not os.path.exists(exe):
                    raise RuntimeError("driver build failed:\n" + r.stderr[-4000:])
    return exe, h


def _env(outdir, target):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_INCREMENTAL"):
            env.pop(k)
    exe, _ = driver_path()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True, check=True).stdout.strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib" + (":" + env["LD_LIBRARY_PATH"] if env.get("LD_LIBRARY_PATH") else "")
    env["RUSTC_WRAPPER"] = exe
    env["MIRDUMP_OUT"] = outdir
    env["MIRDUMP_CRATES"] = CRATES
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_INCREMENTAL"] = "0"
    env["CARGO_NET_OFFLINE"] = "true"
    return env


class BuildError(Exception):
    pass


def get(config="dev", repo=None):
    """config: dev | release | feat:F1,F2 (the filter crate alone, release, with
    exactly these features).  Returns {crate: dict}."""
    repo = repo or REPO
    _, dh = driver_path()
    feats = config[5:] if config.startswith("feat:") else None
    key = f"{source_hash(repo)}-{dh}-{config}"
    d = os.path.join(CACHE, "dumps", key)
    want = ["keyword_pir_lwe", "xorf", "pi_rs_cli_utils"] if feats is None else ["xorf"]
    prof = "release" if feats is not None else config
    config = prof if feats is None else "feat"
    if not all(os.path.exists(os.path.join(d, c + ".json")) for c in want):
        tmp = d + f".tmp{os.getpid()}"
        os.makedirs(tmp, exist_ok=True)
        target = os.path.join(CACHE, "target-" + config)
        os.makedirs(target, exist_ok=True)
        import fcntl
        with open(os.path.join(CACHE, f"lock-{config}"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            done = all(os.path.exists(os.path.join(d, c + ".json")) for c in want)
            for pat in () if done else ("xorf-*", "keyword-pir-lwe-*", "pi-rs-cli-utils-*"):
                for sub in ("debug", "release"):
                    for p in glob.glob(os.path.join(target, sub, ".fingerprint", pat)) + glob.glob(os.path.join(target, sub, "build", pat[:-2])) + glob.glob(os.path.join(target, sub, "build", pat)):
                        shutil.rmtree(p, ignore_errors=True)
            env = _env(tmp, target)
            for sub in () if done else (".", "pi-rs-cli-utils") if feats is None else ("bff-modp",):
                cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "-q"]
                if prof == "release":
                    cmd.append("--release")
                if feats is not None:
                    cmd += ["--no-default-features", "--features", feats]
                r = subprocess.run(cmd, cwd=os.path.join(repo, sub), env=env, capture_output=True, text=True)
                if r.returncode != 0:
                    raise BuildError(f"cargo check failed in {sub} ({config}):\n" + r.stderr[-6000:])
        for c in () if done else want:
            if not os.path.exists(os.path.join(tmp, c + ".json")):
                raise BuildError(f"no dump produced for crate {c}")
        if os.path.isdir(d):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            os.makedirs(os.path.dirname(d), exist_ok=True)
            try:
                os.rename(tmp, d)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
    out = {}
    for c in want:
        with open(os.path.join(d, c + ".json")) as f:
            out[c] = json.load(f)
    _prune()
    return out


def _prune(keep=60):
    ds = glob.glob(os.path.join(CACHE, "dumps", "*"))
    if len(ds) > keep:
        ds.sort(key=lambda p: os.path.getmtime(p))
        for p in ds[:-keep]:
            shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    for cfg in sys.argv[1:] or ["dev"]:
        o = get(cfg)
        for c, v in o.items():
            print(cfg, c, "types", len(v["types"]), "items", len(v["items"]), "bodies", len(v["bodies"]), "ext", sum(not b["local"] for b in v["bodies"]))
