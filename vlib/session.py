"""One run of the command line tool whose objective function processes do what a script says.

The processes are vchild instances: each connects to a socket of the session and then obeys. As long as one
lives its connection is open, so the death of a process is seen as an end of file, whoever its parent is.
"""
import json
import os
import select
import shutil
import signal
import socket
import struct
import subprocess
import threading
import time

from . import build, util

PATIENCE = 40.0  # how long something that is bound to happen may take


class Hang(Exception):
    pass


class Kid:
    def __init__(self, sock, role, pid, pgid, argv, t):
        self.sock, self.role, self.pid, self.pgid, self.argv = sock, role, pid, pgid, argv
        self.t = t
        self.dead = None
        self.result = None  # what the script made it answer
        self.finished = False  # the script made it end

    @property
    def json_text(self):
        return self.argv[-2].decode(errors="replace")

    @property
    def params(self):
        return util.parse(self.argv[-2])

    @property
    def seed(self):
        try:
            return int(self.argv[-1])
        except ValueError:
            return -1


class Explored:
    """Choices of one execution: a given prefix, then always the first option."""

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.made = []
        self.arity = []
        self.names = []
        self.steps = 0

    def n(self, k):
        i = len(self.made)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= k:
            raise AssertionError("choice %d of %d: the execution is not a function of its choices" % (c, k))
        self.made.append(c)
        self.arity.append(k)
        return c

    def of(self, options):
        o = options[self.n(len(options))]
        self.names.append(o)
        return o


_count = [0]
_lock = threading.Lock()


class Session:
    def __init__(self, ctx, spec, args=(), user_args=(), prog=None, out_dir=False, env=None, limits=None, cwd=None):
        with _lock:
            _count[0] += 1
            k = _count[0]
        self.ctx = ctx
        self.dir = ctx.scratch.dir("s%d" % k)
        self.sock_path = os.path.join(self.dir, "k")
        self.listen = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.listen.bind(self.sock_path)
        os.chmod(self.sock_path, 0o777)
        self.listen.listen(64)
        self.listen.setblocking(False)
        self.spec = spec
        if spec is not None:
            with open(os.path.join(self.dir, "spec.yaml"), "wb") as f:
                f.write(spec if isinstance(spec, bytes) else spec.encode())
        self.out = os.path.join(self.dir, "out") if out_dir else None
        self.cmd = [ctx.cli]
        if spec is not None:
            self.cmd += ["-s", os.path.join(self.dir, "spec.yaml")]
        if out_dir:
            self.cmd += ["-o", self.out]
        self.cmd += list(args) + ["--", prog if prog is not None else ctx.child] + list(user_args)
        self.env = env or {}
        self.limits = limits
        self.cwd = cwd or self.dir
        self.kids = []
        self.rc = None
        self.t_exit = None
        self.proc = None
        self.log = []
        self.bads = []
        self.steps = 0

    # -- what happened

    def note(self, msg):
        self.log.append("%7.3f %s" % (time.monotonic() - self.t0 if self.proc else 0, msg))

    def bad(self, props, msg):
        for p in props.split():
            self.bads.append((p, msg))

    def evals(self):
        return [k for k in self.kids if k.role == 0]

    def live(self, role=0):
        return [k for k in self.kids if k.role == role and k.dead is None]

    def group(self, kid):
        return [k for k in self.kids if k.pgid == kid.pgid]

    # -- running

    def start(self):
        # as the process writes them, so that nothing ever blocks on a pipe
        self.fo = open(os.path.join(self.dir, "stdout"), "wb")
        self.fe = open(os.path.join(self.dir, "stderr"), "wb")
        self.t0 = time.monotonic()
        self.proc = subprocess.Popen(
            self.cmd,
            cwd=self.cwd,
            env=util.clean_env(VCHILD_SOCK=self.sock_path, **self.env),
            stdin=subprocess.DEVNULL,
            stdout=self.fo,
            stderr=self.fe,
            start_new_session=True,
            preexec_fn=self.limits,
            **util.drop(),
        )
        self.pidfd = os.pidfd_open(self.proc.pid)
        self.note("started %s" % " ".join(map(repr, self.cmd[1:])))
        return self

    def _accept(self):
        while True:
            try:
                s, _ = self.listen.accept()
            except BlockingIOError:
                return
            s.settimeout(PATIENCE)
            try:
                role, pid, pgid, argc = struct.unpack("<IIII", self._get(s, 16))
                argv = []
                for _ in range(argc):
                    (n,) = struct.unpack("<I", self._get(s, 4))
                    argv.append(self._get(s, n))
            except (EOFError, ConnectionError):
                s.close()
                self.note("a process ended while starting")
                self.stillborn = getattr(self, "stillborn", 0) + 1
                continue
            k = Kid(s, role, pid, pgid, argv, time.monotonic())
            self.kids.append(k)
            self.note("%s %d (pid %d, group %d) %s" % ("evaluation" if role == 0 else "grandchild", len(self.kids) - 1, pid, pgid, argv[1:] if role == 0 else ""))

    @staticmethod
    def _get(s, n):
        b = b""
        while len(b) < n:
            r = s.recv(n - len(b))
            if not r:
                raise EOFError
            b += r
        return b

    def pump(self, until, timeout=PATIENCE):
        """Handles events until the predicate holds; False when the time is up."""
        end = time.monotonic() + timeout
        while True:
            self._poll(0)
            if until():
                return True
            left = end - time.monotonic()
            if left <= 0:
                return False
            self._poll(left)

    def _poll(self, timeout):
        p = select.poll()
        p.register(self.listen, select.POLLIN)
        fds = {}
        for k in self.kids:
            if k.dead is None:
                p.register(k.sock, select.POLLIN)
                fds[k.sock.fileno()] = k
        if self.rc is None:
            p.register(self.pidfd, select.POLLIN)
        for fd, _ in p.poll(timeout * 1000):
            if fd in fds:
                self._died(fds[fd])
            elif fd == self.listen.fileno():
                self._accept()
            elif self.rc is None and fd == self.pidfd:
                self.rc = self.proc.wait()
                self.t_exit = time.monotonic()
                self.note("cambrian ended with %d" % self.rc)

    def _died(self, k):
        try:
            b = k.sock.recv(1)
        except ConnectionError:
            b = b""
        if not b:
            k.dead = time.monotonic()
            k.sock.close()
            self.note("process %d (pid %d) gone" % (self.kids.index(k), k.pid))

    def cmd_kid(self, k, op, data=b"", ack=True):
        """Makes a process do something; False if it is dead."""
        if k.dead is not None:
            return False
        self.steps += 1
        try:
            k.sock.sendall(op.encode() + struct.pack("<I", len(data)) + data)
            if not ack:
                return True
            if k.sock.recv(1) == b"k":
                return True
        except ConnectionError:
            pass
        except socket.timeout:
            raise Hang("an objective function process is stuck writing")
        if k.dead is None:
            k.dead = time.monotonic()
            k.sock.close()
            self.note("process %d (pid %d) gone" % (self.kids.index(k), k.pid))
        return False

    def fork(self, k, flags):
        n = len(self.kids)
        if self.cmd_kid(k, "f", bytes([flags])):
            if not self.pump(lambda: len(self.kids) > n and any(x.role == 1 and x.pgid == k.pgid for x in self.kids[n:])):
                raise Hang("a grandchild did not start")

    def finish(self, k, out=b"", code=0, err=b"", sig=None, wait=True):
        """Makes an evaluation's process write and end."""
        k.result = (out, code, sig)
        k.finished = True
        self.note("process %d is to write %r and end with %s" % (self.kids.index(k), out[:200], sig or code))
        if err:
            self.cmd_kid(k, "e", err)
        if out:
            self.cmd_kid(k, "o", out)
        if sig:
            self.cmd_kid(k, "s", bytes([sig]), ack=False)
        else:
            self.cmd_kid(k, "x", bytes([code]), ack=False)
        if wait and not self.pump(lambda: k.dead is not None):
            raise Hang("an objective function process did not end")

    def accept_val(self, k, val, **kw):
        self.finish(k, b'{"objFuncVal": %s}\n' % str(val).encode(), **kw)

    def wait_evals(self, n, what="", props="C05"):
        """Waits until n evaluations have been started in all; False (and a violation) if not."""
        if self.pump(lambda: len(self.evals()) >= n or self.rc is not None) and len(self.evals()) >= n:
            return True
        self.bad(props, "only %d of %d evaluations were started %s%s" % (
            len(self.evals()), n, what, "" if self.rc is None else " and cambrian ended with %s: %s" % (self.rc, self.stderr()[-300:])))
        return False

    def interrupt(self):
        self.note("SIGINT")
        self.steps += 1
        self.proc.send_signal(signal.SIGINT)

    def wait_exit(self, props, what, timeout=PATIENCE):
        if self.rc is None and not self.pump(lambda: self.rc is not None, timeout):
            self.bad(props, "cambrian does not end %s" % what)
            return False
        return True

    def settle(self):
        """After the end: processes still alive a moment later."""
        self.pump(lambda: not self.live(0) and not self.live(1), 3.0 if self.ctx.prop == "C07" else 0.5)
        return [k for k in self.kids if k.dead is None]

    def judge_survivors(self, why):
        s = self.settle()
        if s:
            self.bad("C07", "cambrian ended (%s) and left %d of its processes alive: %s" % (
                why, len(s), ", ".join(("evaluation" if k.role == 0 else "grandchild") + " %d" % self.kids.index(k) for k in s)))

    def stdout(self):
        with open(os.path.join(self.dir, "stdout"), "rb") as f:
            return f.read()

    def stderr(self):
        with open(os.path.join(self.dir, "stderr"), "rb") as f:
            return f.read().decode(errors="replace")

    def read(self, name):
        try:
            with open(os.path.join(self.out, name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def close(self):
        if self.proc is not None:
            if self.rc is None:
                util.kill_group(self.proc.pid)
                self.rc = self.proc.wait()
            os.close(self.pidfd)
            self.fo.close()
            self.fe.close()
        try:
            self._poll(0)
        except Exception:
            pass
        for k in self.kids:
            if k.dead is None:
                k.sock.close()  # which ends it
        self.listen.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # -- judging

    def check_success(self, props, accepted):
        """Exit 0, exactly one line, the parameters of an evaluation with the least value."""
        out = self.stdout()
        if self.rc != 0:
            self.bad(props, "cambrian ended with %s instead of a result (%d accepted): %s" % (self.rc, len(accepted), self.stderr()[-400:]))
            return None
        if out.count(b"\n") != 1 or not out.endswith(b"\n"):
            self.bad(props, "standard output is not one line: %r" % out[:300])
            return None
        try:
            got = json.loads(out)
        except ValueError:
            self.bad(props, "standard output is not JSON: %r" % out[:300])
            return None
        if accepted:
            best = min(v for _, v in accepted)
            if not any(k.params == got for k, v in accepted if v == best):
                self.bad(props, "the result is %s, but the best evaluations were of %s" % (
                    out.decode(errors="replace").strip(), [k.json_text for k, v in accepted if v == best]))
        return got

    def check_failure(self, props):
        if self.rc == 0:
            self.bad(props, "cambrian ended with 0 and %r instead of an error" % self.stdout()[:200])
        elif self.rc < 0:
            self.bad(props, "cambrian was ended by signal %d: %s" % (-self.rc, self.stderr()[-300:]))
        elif not self.stderr().strip():
            self.bad(props, "cambrian ended with %d without an error message" % self.rc)
        if self.stdout():
            self.bad(props, "a failed run wrote to standard output: %r" % self.stdout()[:200])

    def check_no_panic(self, props="C15"):
        e = self.stderr()
        if "panicked at" in e or self.rc == 101 or (self.rc is not None and self.rc < 0):
            self.bad(props, "cambrian crashed (%s): %s" % (self.rc, e[-500:]))
