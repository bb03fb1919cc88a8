"""Scratch directories, the unprivileged account, running programs."""
import json
import os
import pwd
import resource
import shutil
import signal
import subprocess
import tempfile

UID = 12345
_can = None


def can_drop():
    """Whether this process may become another (unprivileged) user."""
    global _can
    if _can is None:
        try:
            _can = os.geteuid() == 0 and subprocess.run(
                ["/bin/true"], user=UID, group=UID, extra_groups=[], cwd="/"
            ).returncode == 0
        except (OSError, PermissionError, subprocess.SubprocessError, ValueError):
            _can = False
    return _can


def drop():
    return dict(user=UID, group=UID, extra_groups=[]) if can_drop() else {}


class Scratch:
    """A directory of the unprivileged account, removed at the end."""

    def __init__(self):
        self.path = tempfile.mkdtemp(prefix="verif-scratch-")
        os.chmod(self.path, 0o755)
        self.own(self.path)

    def own(self, p):
        if can_drop():
            os.chown(p, UID, UID)

    def dir(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        os.chmod(p, 0o755)
        self.own(p)
        return p

    def file(self, name, content):
        p = os.path.join(self.path, name)
        with open(p, "wb") as f:
            f.write(content if isinstance(content, bytes) else content.encode())
        os.chmod(p, 0o644)
        self.own(p)
        return p

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def clean_env(**kw):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8"}
    e.update(kw)
    return e


def kill_group(pgid):
    try:
        os.killpg(pgid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def limit_memory(gb):
    def f():
        n = int(gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (n, n))

    return f


def parse(text):
    """A JSON text that the tool has written; something equal to nothing it should be if it is none."""
    try:
        return json.loads(text)
    except ValueError:
        return ["not JSON", repr(text), "not JSON"]


def num(text):
    try:
        return float(text)
    except ValueError:
        return float("nan")
