"""Builds the MIR extractor and lowers /repo's current source to facts (type-check only, nothing is run)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")
REPO = os.environ.get("RULER_REPO", "/repo")


class ExtractError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise ExtractError("%s\n%s" % (" ".join(cmd), "\n".join(r.stdout.splitlines()[-40:])))
    return r.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def driver():
    src = os.path.join(HERE, "driver", "main.rs")
    out = os.path.join(BUILD, "mirfacts-" + digest([src]))
    if not os.path.exists(out):
        root = sh(["rustc", "+nightly", "--print", "sysroot"]).strip()
        tmp = out + ".tmp%d" % os.getpid()
        sh(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp, "-C", "link-arg=-Wl,-rpath,%s/lib" % root])
        os.rename(tmp, out)
    return out


def sources():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        ds.sort()
        r += [os.path.join(d, f) for f in sorted(fs)]
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            r.append(p)
    for f in ("Cargo.toml", "Cargo.lock", "src/lib.rs"):
        r.append(os.path.join(HERE, "witness", f))
    return r


def crate_dir(name):
    """the crate to lower; its path dependency is /repo (a scratch tree while developing)"""
    d = os.path.join(HERE, name)
    if REPO == "/repo":
        return d
    c = os.path.join(BUILD, "dev-%s-%s" % (name, hashlib.sha256(REPO.encode()).hexdigest()[:8]))
    shutil.rmtree(c, ignore_errors=True)
    shutil.copytree(d, c)
    p = os.path.join(c, "Cargo.toml")
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(p, "w").write(s)
    return c


def facts(out=None, spec=False):
    """directory holding <crate>.json for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        key = digest(sources()) + "-" + os.path.basename(drv)[-8:]
        dst = out or os.path.join(BUILD, "facts-" + key)
        need = ["ruler.json", "bvwit.json"] + (["spec.json"] if spec else [])
        if out is None and all(os.path.exists(os.path.join(dst, n)) for n in need):
            return dst
        tmp = dst + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.environ.get("RULER_TARGET") or os.path.join(BUILD, "target")
        env = dict(os.environ)
        env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="1.70",
                   RUSTFLAGS="-C target-cpu=x86-64 -Zalways-encode-mir", RFACTS_CRATES="ruler,bvwit,spec", RFACTS_DIR=tmp,
                   RUSTC=sh(["rustup", "which", "rustc", "--toolchain", "nightly"]).strip(), RUSTC_WRAPPER=drv)
        env.pop("CARGO_TARGET_DIR", None)
        fp = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.split("-")[0] in ("ruler", "bvwit", "spec"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        for c in ("spec" if spec else "witness",) if not spec else ("witness", "spec"):
            sh(["cargo", "check", "--offline", "--target-dir", target, "--config",
                'target.x86_64-unknown-linux-gnu.z3.rustc-link-lib=["z3"]'], cwd=crate_dir(c), env=env)
        for n in need:
            if not os.path.exists(os.path.join(tmp, n)):
                raise ExtractError("no facts were extracted for " + n)
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
        if out is None:
            old = sorted((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD) if d.startswith("facts-"))
            for _, d in old[:-6]:
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        return dst
