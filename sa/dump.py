"""Dump of the crate's MIR: builds the driver when needed, caches by source hash."""
import fcntl, gzip, hashlib, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("UPON_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def sources(repo):
    out = [os.path.join(repo, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(repo, "src")):
        out += [os.path.join(d, f) for f in fs]
    for n in ("build.rs", "Cargo.lock"):
        if os.path.exists(os.path.join(repo, n)):
            out.append(os.path.join(repo, n))
    return out


def driver():
    d = os.path.join(VERIF, "driver")
    srcs = [os.path.join(d, "Cargo.toml")] + [os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src"))]
    h = tree_hash(srcs)
    out = os.path.join(CACHE, "mirdump-" + h)
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tgt = tempfile.mkdtemp(prefix="mirdump-")
        try:
            e = env()
            e["CARGO_TARGET_DIR"] = tgt
            r = run(["cargo", "build", "--release", "--offline"], cwd=d, env=e)
            b = os.path.join(tgt, "release", "mirdump")
            if r.returncode != 0 or not os.path.exists(b):
                raise RuntimeError("driver build failed\n" + r.stdout[-3000:])
            shutil.copy(b, out + ".tmp%d" % os.getpid())
            os.replace(out + ".tmp%d" % os.getpid(), out)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
    return out, h


class BuildFailed(Exception):
    pass


WITNESS = os.path.join(VERIF, "witness")


def dump(repo=None, features=None, release=False, witness=False):
    """path of the JSON dump of the crate in `repo`; `release`: what is only there with debug assertions is gone;
    `witness`: of the witness crate, built against the crate in `repo`"""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv, dh = driver()
        srcs = sources(repo)
        if witness:
            srcs += [os.path.join(WITNESS, "Cargo.toml"), os.path.join(WITNESS, "src", "lib.rs")]
        h = tree_hash(srcs)
        rel = hashlib.sha256((h + dh + repo + str(features) + ("release" if release else "") + ("witness" if witness else "")).encode()).hexdigest()[:20]
        out = os.path.join(CACHE, f"mir-{rel}.json")
        if os.path.exists(out):
            os.utime(out)
            return out
        old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith("mir-")), key=os.path.getmtime)
        for f in old[:-12]:
            os.unlink(f)
        e = env()
        sysroot = run(["rustc", "--print", "sysroot"], env=e).stdout.strip()
        tgt = tempfile.mkdtemp(prefix="upon-mir-")
        try:
            e["CARGO_TARGET_DIR"] = tgt
            e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
            e["MIRDUMP_OUT"] = out + ".tmp"
            e["RUSTC_WORKSPACE_WRAPPER"] = drv
            if release:
                e["MIRDUMP_RELEASE"] = "1"
            cmd = ["cargo", "check", "-p", "upon", "--lib", "--offline"]
            if features is not None:
                cmd += ["--no-default-features"] + (["--features", features] if features else [])
            cwd = repo
            if witness:
                cwd = os.path.join(tgt, "witness")
                shutil.copytree(WITNESS, cwd, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
                m = os.path.join(cwd, "Cargo.toml")
                t = open(m).read().replace('path = "/repo"', "path = " + json.dumps(os.path.abspath(repo)))
                open(m, "w").write(t)
                e["MIRDUMP_CRATE"] = "witness"
                cmd = ["cargo", "check", "--lib", "--offline"]
            had_lock = os.path.exists(os.path.join(repo, "Cargo.lock"))
            r = run(cmd, cwd=cwd, env=e)
            if not had_lock and os.path.exists(os.path.join(repo, "Cargo.lock")):
                os.unlink(os.path.join(repo, "Cargo.lock"))
            if r.returncode != 0 or not os.path.exists(out + ".tmp"):
                raise BuildFailed(r.stdout[-3000:])
            os.replace(out + ".tmp", out)
        finally:
            shutil.rmtree(tgt, ignore_errors=True)
        return out
    finally:
        lock.close()


if __name__ == "__main__":
    print(dump(*(sys.argv[1:2])))
