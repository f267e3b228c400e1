"""Builds everything a check needs: the engine, the std bitcode, the harness bitcode of /repo's
current working tree, and the native replay binaries."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NOBJ_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TC = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_BOOTSTRAP"):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def run(cmd, cwd=None, env=None, timeout=800, quiet=True):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd[:6]), p.returncode, p.stdout.decode(errors="replace")[-6000:]))
    return p.stdout.decode(errors="replace")


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = run(["rustc", "--print", "sysroot"]).strip()
    return _sys


def tool(n):
    return os.path.join(sysroot(), "lib/rustlib", TRIPLE, "bin", n)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def engine():
    run(["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")], cwd=os.path.join(VERIF, "engine"))
    return os.path.join(BUILD, "engine/release/engine")


def std_bc():
    """Bitcode embedded in the toolchain's std rlibs, as one list of .bc files."""
    d = os.path.join(BUILD, "std")
    done = os.path.join(d, "done")
    if os.path.exists(done):
        return sorted(glob.glob(d + "/*.bc"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lib = os.path.join(sysroot(), "lib/rustlib", TRIPLE, "lib")
    for c in ("core", "alloc", "std", "hashbrown", "memchr"):
        for rl in sorted(glob.glob("%s/lib%s-*.rlib" % (lib, c))):
            x = os.path.join(d, "x_" + c)
            os.makedirs(x, exist_ok=True)
            run([tool("llvm-ar"), "x", rl], cwd=x)
            for o in sorted(glob.glob(x + "/*.o")):
                bc = os.path.join(d, "%s_%s.bc" % (c, hashlib.sha1(os.path.basename(o).encode()).hexdigest()[:8]))
                run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, o, "/dev/null"])
            shutil.rmtree(x)
    open(done, "w").close()
    return sorted(glob.glob(d + "/*.bc"))


def harness_names():
    names = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness/src/*.rs"))):
        names += re.findall(r"pub fn (h_[a-z0-9_]+)\(", open(f).read())
    return sorted(set(names))


def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness/src"), os.path.join(VERIF, "tools")):
        for r, ds, fs in os.walk(base):
            ds.sort()
            if "__pycache__" in r:
                continue
            files += [os.path.join(r, f) for f in sorted(fs)]
    files += [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(VERIF, "harness/Cargo.toml")]
    for f in files:
        h.update(f.encode() + b"\0")
        if os.path.exists(f):
            h.update(open(f, "rb").read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def lockfile():
    # the dependency versions the repository itself resolves to
    return None


def harness_ir():
    """IR module of harness + /repo + dependencies + std, regenerated from the current tree."""
    out = os.path.join(BUILD, "ir")
    key = tree_hash()
    ll = os.path.join(out, "module-%s.ll" % key)
    if os.path.exists(ll):
        return ll, 0.0
    t = time.time()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(ENV, RUSTC_BOOTSTRAP="1",
               RUSTFLAGS="--emit=llvm-bc,link -C codegen-units=1 -C no-prepopulate-passes -C overflow-checks=on -C panic=abort -C debuginfo=0 -C debug-assertions=off --cap-lints=warn")
    tdir = os.path.join(BUILD, "irtarget")
    deps = os.path.join(tdir, TRIPLE, "release/deps")
    for f in glob.glob(deps + "/*.bc"):
        if os.path.basename(f).startswith(("harness-", "nobject_rs-")):
            os.unlink(f)
    for f in glob.glob(deps + "/libharness-*") + glob.glob(deps + "/libnobject_rs-*"):
        os.unlink(f)
    run(["cargo", "build", "--offline", "--release", "--lib", "--target-dir", tdir, "--target", TRIPLE], cwd=os.path.join(VERIF, "harness"), env=env)
    bcs = sorted(glob.glob(deps + "/*.bc"))
    if not any(os.path.basename(b).startswith("nobject_rs-") for b in bcs):
        raise BuildError("no bitcode for nobject_rs")
    u = os.path.join(out, "u.bc")
    run([tool("llvm-link")] + bcs + ["-o", u])
    # keep the hasher a call so that the engine can intercept it
    uls = run([tool("llvm-dis"), u, "-o", os.path.join(out, "u.ll")])
    txt = open(os.path.join(out, "u.ll")).read()
    txt = re.sub(r"(?m)^(define [^\n]*BuildHasher8hash_one[^\n]*?) (#\d+)", r"\1 noinline \2", txt)
    open(os.path.join(out, "u.ll"), "w").write(txt)
    keep = ",".join(harness_names() + ["h_f32_from_str"])
    o = os.path.join(out, "o.bc")
    run([tool("opt"), "--strip-debug", "-passes=internalize,globaldce,default<O1>", "--internalize-public-api-list=" + keep, os.path.join(out, "u.ll"), "-o", o])
    a = os.path.join(out, "a.bc")
    run([tool("llvm-link"), o] + std_bc() + ["-o", a])
    b = os.path.join(out, "b.bc")
    run([tool("opt"), "--strip-debug", "-passes=internalize,globaldce", "--internalize-public-api-list=" + keep, a, "-o", b])
    tmp = ll + ".tmp"
    run([tool("llvm-dis"), b, "-o", tmp])
    os.rename(tmp, ll)
    for f in ("u.bc", "u.ll", "o.bc", "a.bc", "b.bc"):
        p = os.path.join(out, f)
        if os.path.exists(p):
            os.unlink(p)
    return ll, time.time() - t


def native():
    """Replay binaries (dev, release) of the current tree."""
    res = []
    for prof in ("dev", "release"):
        cmd = ["cargo", "build", "--offline", "--features", "native", "--bin", "replay", "--target-dir", os.path.join(BUILD, "native")]
        if prof == "release":
            cmd.append("--release")
        run(cmd, cwd=os.path.join(VERIF, "harness"))
        res.append(os.path.join(BUILD, "native", "debug" if prof == "dev" else "release", "replay"))
    return res


if __name__ == "__main__":
    with Lock():
        t = time.time()
        print("engine", engine(), time.time() - t); t = time.time()
        print("std", len(std_bc()), time.time() - t); t = time.time()
        print("ir", harness_ir(), time.time() - t); t = time.time()
        print("native", native(), time.time() - t)
