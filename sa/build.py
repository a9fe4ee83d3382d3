"""Mirror of /repo as a cargo package, the MIR driver, and the harness dump (nothing of factrs is run)."""
import os, re, subprocess, sys, hashlib, shutil, json, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FACTRS_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
FLAGS = "-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings -Cdebug-assertions=off -Coverflow-checks=off"
SKIP = {".git", "target", "Cargo.toml", "Cargo.lock", "factrs-typetag"}


class BuildError(Exception):
    pass


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path, encoding="utf-8").read() == text:
        return
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def link(pkg):
    """copy of /repo's sources; a file is rewritten when its content differs, so that cargo's time stamps follow the content"""
    if os.path.isdir(pkg) and any(os.path.islink(os.path.join(pkg, x)) for x in os.listdir(pkg)):
        shutil.rmtree(pkg)
    keep = {"Cargo.toml", "Cargo.lock"}
    for root, ds, fs in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        ds[:] = [x for x in ds if x not in SKIP and not (rel == "." and x in ("examples", "tests"))]
        for f in fs:
            r = os.path.normpath(os.path.join(rel, f))
            if r in SKIP:
                continue
            keep.add(r)
            data = open(os.path.join(root, f), "rb").read()
            dst = os.path.join(pkg, r)
            if os.path.exists(dst) and open(dst, "rb").read() == data:
                continue
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            with open(dst, "wb") as o:
                o.write(data)
    for root, ds, fs in os.walk(pkg):
        ds[:] = [x for x in ds if x != "target"]
        for f in fs:
            if os.path.normpath(os.path.relpath(os.path.join(root, f), pkg)) not in keep:
                os.unlink(os.path.join(root, f))


def strip(text, rerun=False, serde=False):
    """/repo's Cargo.toml without dev-dependencies, targets and profiles, and without the optional dependencies not asked for"""
    if not serde:
        text = re.sub(r"(?m)^typetag\s*=.*\n", "", text)
        text = re.sub(r"(?m)^serde\s*=\s*\{.*\n", "", text)
        text = re.sub(r"(?m)^serde\s*=\s*\[[^\]]*\]\n", "", text)
        text = re.sub(r"(?ms)^serde_json\s*=\s*\{.*?\}\n", "", text)
        text = re.sub(r"(?m)^serde_json\s*=\s*\[[^\]]*\]\n", "", text)
    if not rerun:
        text = re.sub(r"(?ms)^rerun\s*=\s*\{.*?\}\n", "", text)
        text = re.sub(r"(?m)^rerun\s*=\s*\[[^\]]*\]\n", "", text)
    text = re.sub(r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", "", text)
    text = re.sub(r"(?ms)^\[\[(example|test|bench)\]\].*?(?=^\[|\Z)", "", text)
    return re.sub(r"(?ms)^\[profile[^\n]*\].*?(?=^\[|\Z)", "", text)


def mirror(name="mirror", rerun=False):
    """symlink farm of /repo without the optional serde/typetag/rerun dependencies."""
    pkg = os.path.join(WORK, name)
    link(pkg)
    write(os.path.join(pkg, "Cargo.toml"), strip(open(f"{REPO}/Cargo.toml", encoding="utf-8").read(), rerun=rerun))
    return pkg


def ethnum():
    """a dependency of rerun that today's nightly rejects (a transmute of () to a std error type): same crate without it"""
    dst = os.path.join(WORK, "ethnum")
    if os.path.exists(os.path.join(dst, "Cargo.toml")):
        return
    import glob
    src = glob.glob(os.path.join(os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")), "registry", "src", "*", "ethnum-1.5.0"))
    if not src:
        raise BuildError("driver build failed: ethnum-1.5.0 is not in the cargo cache")
    shutil.copytree(src[0], dst)
    p = os.path.join(dst, "src", "error.rs")
    t = open(p).read().replace("unsafe { mem::transmute(()) }", "panic!()")
    open(p, "w").write(t)


def expanded():
    """source of factrs with feature serde after macro expansion (stand-in for the missing typetag fork)"""
    mirror()
    pkg = os.path.join(WORK, "mirror_serde")
    link(pkg)
    text = open(f"{REPO}/Cargo.toml", encoding="utf-8").read()
    text = re.sub(r"(?m)^typetag\s*=.*$", 'typetag = { path = "%s", optional = true }' % os.path.join(VERIF, "stubs", "typetag"), text)
    text = strip(text, serde=True)
    if "[workspace]" not in text:
        text += "\n[workspace]\n"
    write(os.path.join(pkg, "Cargo.toml"), text)
    lock = os.path.join(VERIF, "stubs", "serde.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(pkg, "Cargo.lock")):
        shutil.copy(lock, os.path.join(pkg, "Cargo.lock"))
    rc, out, err = unpretty(pkg, ["--features", "serde"])
    fix = os.path.join(WORK, "fixture")
    stubs = os.path.join(VERIF, "stubs")
    write(os.path.join(fix, "Cargo.toml"), open(os.path.join(stubs, "fixture", "Cargo.toml.in")).read().replace("@MIRROR@", pkg).replace("@STUBS@", stubs))
    write(os.path.join(fix, "src", "lib.rs"), open(os.path.join(stubs, "fixture", "src", "lib.rs")).read())
    if not os.path.exists(os.path.join(fix, "Cargo.lock")):
        shutil.copy(os.path.join(pkg, "Cargo.lock"), os.path.join(fix, "Cargo.lock"))
    rc2, out2, err2 = unpretty(fix, [])
    return out, out2, err, err2


def unpretty(cwd, extra):
    e = env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "t")
    e["RUSTFLAGS"] = FLAGS
    os.utime(os.path.join(cwd, "Cargo.toml"))
    r = subprocess.run(["cargo", "rustc", "--offline", "--quiet", "--lib", "--profile", "check"] + extra + ["--", "-Zunpretty=expanded"],
                       env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode, r.stdout, r.stderr


def env_base():
    e = dict(os.environ)
    e.pop("RUSTC_WRAPPER", None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], env=env_base(), text=True).strip()
    return _sysroot


def run(cmd, env, cwd, log):
    with open(log, "w") as f:
        p = subprocess.run(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT)
    return p.returncode


def driver():
    e = env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "driver")
    os.makedirs(WORK, exist_ok=True)
    log = os.path.join(WORK, "driver.log")
    if run(["cargo", "build", "--offline", "--quiet"], e, os.path.join(VERIF, "driver"), log):
        raise BuildError("driver build failed:\n" + open(log).read()[-3000:])
    return os.path.join(WORK, "driver", "debug", "mirdump")


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
            continue
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "examples", "tests", "__pycache__"))
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, d).encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:20]


def dump(config="default", crate="fh_main", hdir="harness", deep=None):
    """type-check harness + factrs with `config` features; returns path of the MIR dump (json)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    feats = [] if config == "default" else config.split("+")
    rr = "rr" in feats
    if rr:
        hdir = "harness_rr"
        feats.remove("rr")
    src = os.path.join(VERIF, hdir)
    deepf = os.path.join(VERIF, "sa", "deep.txt")
    deep = "\n".join(l.strip() for l in open(deepf) if l.strip() and not l.startswith("#")) if os.path.exists(deepf) else ""
    key = tree_hash(os.path.join(REPO, "src"), os.path.join(REPO, "factrs-proc"), os.path.join(REPO, "Cargo.toml"),
                    os.path.join(src, "src"), os.path.join(src, "Cargo.toml"), os.path.join(VERIF, "driver", "src")) + \
        hashlib.sha256((deep + config).encode()).hexdigest()[:8]
    out = os.path.join(WORK, f"dump-{crate}-{config}-{key}.json")
    if os.path.exists(out) and os.path.getsize(out) > 0:
        return out
    drv = driver()
    if rr:
        mirror("mirror_rr", rerun=True)
        ethnum()
    else:
        mirror()
    e = env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "t")
    e["RUSTFLAGS"] = FLAGS
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot(), "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["MIRDUMP_CRATE"] = crate
    e["MIRDUMP_OUT"] = out + ".tmp"
    e["MIRDUMP_DEEP"] = deep
    cmd = ["cargo", "check", "--offline", "--quiet", "--lib"]
    if feats:
        cmd += ["--features", ",".join(feats)]
    # cargo's freshness cache must not skip the wrapper: touch the harness root
    os.utime(os.path.join(src, "src", "lib.rs"))
    log = os.path.join(WORK, f"check-{crate}-{config}.log")
    rc = run(cmd, e, src, log)
    if rc or not os.path.exists(out + ".tmp"):
        raise BuildError("harness does not type-check against /repo:\n" + open(log).read()[-6000:])
    for f in os.listdir(WORK):
        if f.startswith(f"dump-{crate}-{config}-"):
            if f != os.path.basename(out) + ".tmp":
                os.unlink(os.path.join(WORK, f))
    os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    t = time.time()
    for c in (sys.argv[1:] or ["default"]):
        print(dump(c), time.time() - t)
