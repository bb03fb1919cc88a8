"""Builds the harness and the unpatched CLI from /repo's current working tree."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
CLI_SRC = os.path.join(BUILD, "cli-src")
CLI_TARGET = os.path.join(BUILD, "cli-target")


class BuildError(Exception):
    pass


def _env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
            if k != "CARGO_HOME":
                del e[k]
    e.update(
        RUSTUP_TOOLCHAIN="stable",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        CARGO_INCREMENTAL="0",
    )
    e["PATH"] = os.path.expanduser("~/.cargo/bin") + ":" + e.get("PATH", "")
    e.update(kw)
    return e


def _forget(target):
    # cargo goes by mtime and misses a file put back with an old one
    for d in glob.glob(os.path.join(target, "*", ".fingerprint", "cambrian-*")):
        shutil.rmtree(d, ignore_errors=True)


def _cargo(args, cwd, env, what):
    p = subprocess.run(
        ["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True
    )
    if p.returncode != 0:
        raise BuildError("building %s failed:\n%s" % (what, p.stdout[-6000:]))


def _sync_tree(src, dst):
    """Makes dst/ a copy of the package in src/ (sources and manifest only)."""
    os.makedirs(dst, exist_ok=True)
    keep = set()
    for name in ("Cargo.toml", "README.md", "build.rs"):
        p = os.path.join(src, name)
        if os.path.exists(p):
            keep.add(name)
            _copy(p, os.path.join(dst, name))
    for root, dirs, files in os.walk(os.path.join(src, "src")):
        for f in files:
            p = os.path.join(root, f)
            rel = os.path.relpath(p, src)
            keep.add(rel)
            _copy(p, os.path.join(dst, rel))
    for root, dirs, files in os.walk(dst):
        for f in files:
            rel = os.path.relpath(os.path.join(root, f), dst)
            if rel not in keep and rel != "Cargo.lock":
                os.unlink(os.path.join(dst, rel))


def _copy(a, b):
    os.makedirs(os.path.dirname(b), exist_ok=True)
    with open(a, "rb") as f:
        data = f.read()
    try:
        with open(b, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    with open(b, "wb") as f:
        f.write(data)


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def harness(bins):
    """Builds the given harness programs; returns {name: path}."""
    with Lock():
        _forget(TARGET)
        args = ["build", "--offline", "--locked"]
        for b in bins:
            args += ["--bin", b]
        _cargo(
            args,
            os.path.join(VERIF, "harness"),
            _env(RUSTFLAGS="--cfg cambrian_verif", CARGO_TARGET_DIR=TARGET),
            "the harness",
        )
    return {b: os.path.join(TARGET, "debug", b) for b in bins}


def harness_available(bins):
    """Builds what can be built; returns ({name: path}, {name: why not}).

    A program that uses crate-private items may not compile against a refactored crate although others do."""
    try:
        return harness(bins), {}
    except BuildError as e:
        if len(bins) == 1:
            return {}, {bins[0]: str(e)}
    good, bad = {}, {}
    for b in bins:
        try:
            good.update(harness([b]))
        except BuildError as e:
            bad[b] = str(e)
    return good, bad


def cli():
    """Builds the command line tool, unpatched, without any cfg; returns its path."""
    with Lock():
        _sync_tree(REPO, CLI_SRC)
        lock = os.path.join(VERIF, "vlib", "cli.Cargo.lock")
        _copy(lock, os.path.join(CLI_SRC, "Cargo.lock"))
        _forget(CLI_TARGET)
        _cargo(
            ["build", "--offline", "--locked", "--bin", "cambrian"],
            CLI_SRC,
            _env(CARGO_TARGET_DIR=CLI_TARGET, CARGO_PROFILE_DEV_DEBUG="line-tables-only"),
            "the command line tool",
        )
    return os.path.join(CLI_TARGET, "debug", "cambrian")


def child(name="vchild"):
    """Builds an objective function program."""
    out = os.path.join(BUILD, name)
    with Lock():
        p = subprocess.run(
            ["gcc", "-O1", "-Wall", "-o", out + ".tmp", os.path.join(VERIF, "vlib", name + ".c")],
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
        )
        if p.returncode != 0:
            raise BuildError("building %s failed:\n" % name + p.stdout)
        os.replace(out + ".tmp", out)
    return out
