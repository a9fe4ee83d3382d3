"""Type-level witnesses: programs against the public API that must be rejected, each with a twin that must be accepted
and differs only in the bound or argument under test. Nothing is run; rustc's type checker is the analysis."""
import json, os, shutil, subprocess
from . import build


def judge(config, progs):
    """progs: name -> source of a library-like program (fn bodies, no main). returns name -> list of (code, message)"""
    build.driver()
    build.mirror()
    d = os.path.join(build.WORK, "typed")
    b = os.path.join(d, "src", "bin")
    os.makedirs(b, exist_ok=True)
    for f in os.listdir(b):
        if f[:-3] not in progs:
            os.unlink(os.path.join(b, f))
    build.write(os.path.join(d, "Cargo.toml"), '''[package]
name = "typed"
version = "0.1.0"
edition = "2021"
[dependencies]
factrs = { path = "../mirror" }
paste = "1"
nalgebra = "0.33.2"
[features]
left = ["factrs/left"]
[workspace]
''')
    lock = os.path.join(build.VERIF, "harness", "Cargo.lock")
    if os.path.exists(lock) and not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    for n, s in progs.items():
        p = os.path.join(b, n + ".rs")
        build.write(p, "#![allow(warnings)]\n" + s + "\nfn main() {}\n")
        os.utime(p)
    e = build.env_base()
    e["CARGO_TARGET_DIR"] = os.path.join(build.WORK, "t")
    e["RUSTFLAGS"] = build.FLAGS
    r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], env=e, cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out, done = {}, set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        t = m.get("target", {})
        if t.get("kind") != ["bin"]:
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                raise build.BuildError("harness does not type-check against /repo:\n" + m["message"].get("rendered", "")[:3000])
            continue
        if m["reason"] == "compiler-artifact":
            done.add(t["name"])
        elif m["reason"] == "compiler-message" and m["message"]["level"] == "error":
            c = (m["message"].get("code") or {}).get("code")
            if c or "aborting" not in m["message"]["message"]:
                out.setdefault(t["name"], []).append((c, m["message"]["message"]))
    for n in progs:
        if n not in done and n not in out:
            raise build.BuildError("driver build failed: no answer for " + n + "\n" + r.stderr[-2000:])
        out.setdefault(n, [])
    return out
