"""Extract the type-checked, callee-resolved MIR of /repo's current working tree.

Nothing of /repo is executed: the crate is type-checked by the real compiler (`cargo +nightly
check`) with driver/mirdump.rs as RUSTC_WORKSPACE_WRAPPER, which writes MIR as JSON.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BAA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
ALL = "bigint,serde1,fraction1"
CONFIGS = {
    "debug": (ALL, True),      # debug_assert! and overflow checks are in the MIR
    "release": (ALL, False),
}
MAXCACHE = 12


class ExtractError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def env_base():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTC", "RUSTUP_TOOLCHAIN", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def build_driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirdump-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    r = subprocess.run(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp],
                       env=env_base(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError("driver build failed:\n" + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def source_files(repo):
    fs = [os.path.join(repo, "Cargo.toml")]
    for d, ds, names in os.walk(os.path.join(repo, "src")):
        ds.sort()
        for n in sorted(names):
            fs.append(os.path.join(d, n))
    for n in ("build.rs",):
        p = os.path.join(repo, n)
        if os.path.exists(p):
            fs.append(p)
    return fs


def tree_hash(repo):
    h = hashlib.sha256()
    for f in source_files(repo):
        h.update(os.path.relpath(f, repo).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def stage(repo, th):
    """A copy of the sources, so that nothing is ever written under /repo."""
    st = os.path.join(BUILD, "stage", th)
    if not os.path.exists(st):
        tmp = st + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in source_files(repo):
            d = os.path.join(tmp, os.path.relpath(f, repo))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(f, d)
        for lock in (os.path.join(repo, "Cargo.lock"), "/opt/vp/Cargo.lock"):
            if os.path.exists(lock):
                shutil.copyfile(lock, os.path.join(tmp, "Cargo.lock"))
                break
        with open(os.path.join(tmp, "Cargo.toml"), "a") as fh:
            fh.write("\n[workspace]\n")
        try:
            os.rename(tmp, st)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return st


def extract(config, repo=None, features=None, debug=None):
    """-> path of the JSON dump for this configuration of the current tree."""
    repo = repo or REPO
    if features is None:
        features, debug = CONFIGS[config]
    drv = build_driver()
    th = tree_hash(repo)
    dh = os.path.basename(drv)
    tag = "%s-%s-%s" % (config, th, dh[-6:])
    out = os.path.join(BUILD, "mir", tag + ".json")
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    lockp = os.path.join(BUILD, "lock-" + config)
    with open(lockp, "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        st = stage(repo, th)
        tgt = os.path.join(BUILD, "target-" + config)
        e = env_base()
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.unlink(tmp)
        onoff = "on" if debug else "off"
        e.update(MIRDUMP_OUT=tmp, MIRDUMP_CRATE="baa", RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=tgt,
                 RUSTFLAGS="-Zmir-opt-level=0 -Zinline-mir=no -C debug-assertions=%s -C overflow-checks=%s" % (onoff, onoff))
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--features", features]
        for attempt in range(2):
            # cargo's freshness cache would skip the wrapper: drop this crate's own artefacts
            for p in glob.glob(os.path.join(tgt, "*", ".fingerprint", "baa-*")) + \
                    glob.glob(os.path.join(tgt, "*", "deps", "*baa-*")) + glob.glob(os.path.join(tgt, "*", "build", "baa")) + \
                    glob.glob(os.path.join(tgt, "*", "build", "baa-*")):
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)
            r = subprocess.run(cmd, cwd=st, env=e, capture_output=True, text=True)
            if r.returncode != 0 or os.path.exists(tmp):
                break
        if r.returncode != 0 or not os.path.exists(tmp):
            raise ExtractError("cargo check failed (%s):\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        os.rename(tmp, out)
        olds = sorted(glob.glob(os.path.join(BUILD, "mir", "*.json")), key=os.path.getmtime)
        for o in olds[:-MAXCACHE]:
            os.unlink(o)
        for s in sorted(glob.glob(os.path.join(BUILD, "stage", "*")), key=os.path.getmtime)[:-4]:
            shutil.rmtree(s, ignore_errors=True)
    return out


def load(config, repo=None, **kw):
    p = extract(config, repo, **kw)
    return json.load(open(p))


def load_shim():
    """the reference loop forms of core's consuming iterator methods, as MIR"""
    drv = build_driver()
    src = os.path.join(VERIF, "shim", "shim.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "shim-%s-%s.json" % (h, os.path.basename(drv)[-6:]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        td = os.path.join(BUILD, "shimtmp%d" % os.getpid())
        os.makedirs(td, exist_ok=True)
        e = env_base()
        e.update(MIRDUMP_OUT=tmp, MIRDUMP_CRATE="shim")
        r = subprocess.run([drv, "--crate-name", "shim", "--crate-type", "lib", "--edition", "2021", "-Zmir-opt-level=0",
                            "-Zinline-mir=no", "-C", "debug-assertions=off", "--emit=metadata", "--out-dir", td, src],
                           env=e, capture_output=True, text=True)
        shutil.rmtree(td, ignore_errors=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise ExtractError("shim failed:\n" + r.stderr[-3000:])
        os.rename(tmp, out)
    return json.load(open(out))


if __name__ == "__main__":
    for c in sys.argv[1:] or list(CONFIGS):
        p = extract(c)
        print(c, p, os.path.getsize(p))
