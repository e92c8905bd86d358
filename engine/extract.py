"""Builds the MIR fact extractor and runs it over /repo's current working tree.

Nothing of the program under analysis is executed: the extractor is a rustc driver that
type-checks the workspace (as `cargo check` does) and dumps drop-elaborated MIR.

Facts are keyed by a content hash of the whole source tree and of the extractor, so a stale cache
can never be consulted.
"""

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")

SKIP_DIRS = {".git", "target", "node_modules", "dist", "pkg"}


def cache_dir():
    d = os.environ.get("VP_CACHE") or os.path.join(VERIF, ".cache")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        with open(t, "w") as f:
            f.write("x")
        os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "vp-static-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def tree_hash(root, extra=()):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(root):
        dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
            except OSError:
                h.update(b"unreadable")
    for e in extra:
        h.update(e.encode())
    return h.hexdigest()[:24]


def env_for(cargo_target):
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=cargo_target,
        RUSTC_WRAPPER="",
        RUSTFLAGS="",
    )
    for k in ("RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = p.stdout.decode("utf-8", "replace")
    if p.returncode != 0:
        sys.stderr.write(out[-6000:])
        raise SystemExit("engine error: %r failed with %d" % (cmd, p.returncode))
    return out


def sysroot(env):
    return subprocess.run(
        ["rustc", "+nightly", "--print", "sysroot"], env=env, stdout=subprocess.PIPE, check=True
    ).stdout.decode().strip()


def build_driver(cache):
    src = os.path.join(VERIF, "engine", "driver")
    h = tree_hash(src)
    target = os.path.join(cache, "driver")
    exe = os.path.join(target, "release", "mirfacts")
    stamp = os.path.join(target, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe, h
    run(["cargo", "+nightly", "build", "--release", "--offline"], src, env_for(target))
    with open(stamp, "w") as f:
        f.write(h)
    return exe, h


EXPECTED = [
    "endbasic", "endbasic_client", "endbasic_core", "endbasic_repl", "endbasic_rpi",
    "endbasic_sdl", "endbasic_st7735s", "endbasic_std", "endbasic_terminal", "endbasic_web",
]


def facts(repo=None):
    """Returns the directory holding the facts of the current tree, extracting them if needed."""
    repo = repo or REPO
    cache = cache_dir()
    with open(os.path.join(cache, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        exe, dh = build_driver(cache)
        h = tree_hash(repo, (dh,))
        base = os.path.join(cache, "facts")
        out = os.path.join(base, h)
        if os.path.exists(os.path.join(out, "complete")):
            os.utime(out)
            return out, h
        os.makedirs(base, exist_ok=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = os.path.join(cache, "target")
        # Never rely on cargo's mtime-based freshness for the crates under analysis.
        for d in ("debug/build", "debug/.fingerprint"):
            d = os.path.join(target, d)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith("endbasic"):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        env = env_for(target)
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot(env), "lib")
        env["MIRFACTS_OUT"] = tmp
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        run(
            ["cargo", "+nightly", "check", "--offline", "--locked", "--workspace",
             "--features", "endbasic/sdl,endbasic/rpi"],
            repo, env,
        )
        missing = [c for c in EXPECTED if not os.path.exists(os.path.join(tmp, c + ".jsonl"))]
        if missing:
            raise SystemExit("engine error: no facts for crates %s" % missing)
        with open(os.path.join(tmp, "complete"), "w") as f:
            f.write(h)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        # Keep the cache small.
        olds = sorted(
            (os.path.getmtime(os.path.join(base, n)), n) for n in os.listdir(base) if n != h
        )
        for _, n in olds[:-3]:
            shutil.rmtree(os.path.join(base, n), ignore_errors=True)
        return out, h


if __name__ == "__main__":
    print(*facts())
