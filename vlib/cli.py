"""Engine S: scripted runs of the real command line tool, enumerated exhaustively within bounds.

An execution is a session (session.py) in which a scenario function makes the choices: which process answers
next, what it answers, how it behaves, which options are given. explore() runs every sequence of choices.
"""
import collections
import concurrent.futures
import csv
import hashlib
import io
import itertools
import json
import os
import re
import resource
import signal
import stat
import subprocess
import threading
import time
import traceback

from . import build, util
from .session import PATIENCE, Explored, Hang, Session

SPEC = "x: {type: real, init: 1.0, scale: 0.5, min: -8.0, max: 8.0}\ny: {type: int, init: 3, scale: 2}\nz: {type: enum, values: [a, 'b;c', d], init: a}\n"
THREADS = 16
DIVERGED = ("not started", "late", "early", "too slow to tell", "stuck")


class Context:
    def __init__(self, prop, tier, scratch, wall):
        self.prop, self.tier, self.scratch, self.wall = prop, tier, scratch, wall
        self.thorough = tier == "thorough"
        self.listed = lambda part, message: False  # whether it is a known finding

    def prepare(self):
        self.cli = build.cli()
        self.child = build.child()
        self.auto = build.child("vauto")


# ------------------------------------------------------------------------------------------ exploration


def execute(ctx, fn, prefix):
    ch = Explored(prefix)
    try:
        r = fn(ctx, ch)
    except Hang as e:
        r = dict(bads=[("*", str(e))], log=[], outcome="stuck", steps=0)
    except (ValueError, TypeError, KeyError, IndexError, AttributeError):
        # what the tool did or wrote is nothing that can be made sense of
        r = dict(bads=[("*", "not to be interpreted: " + traceback.format_exc())], log=[], outcome="not interpreted", steps=0)
    r["bads"] = [m for p, m in r["bads"] if p in ("*", ctx.prop)]
    r["choices"] = ch.made
    r["arity"] = ch.arity
    r["names"] = [str(n) for n in ch.names]
    return r


def explore(ctx, name, fn, wall, threads=THREADS):
    t0 = time.monotonic()
    todo = collections.deque([()])
    done = 0
    steps = 0
    states = set()
    outcomes = set()
    suspects = []
    listed = []
    samples = []
    truncated = False
    diverged = 0
    running = set()
    with concurrent.futures.ThreadPoolExecutor(threads) as ex:
        while todo or running:
            late = time.monotonic() - t0 > wall
            if late or len(suspects) >= 3:
                truncated = truncated or bool(todo)
                todo.clear()
            while todo and len(running) < threads * 2:
                p = todo.pop()
                running.add(ex.submit(lambda p=p: (p, execute(ctx, fn, p))))
            if not running:
                break
            ready, running = concurrent.futures.wait(running, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in ready:
                p, r = f.result()
                done += 1
                steps += r["steps"] + len(r["choices"])
                states.add(hashlib.md5(repr((r["choices"], r["outcome"])).encode()).digest())
                outcomes.add(r["outcome"])
                diverged += r["outcome"] in DIVERGED
                if len(samples) < 2 or (done % 97 == 0 and len(samples) < 4):
                    samples.append("choices %s %s: %s" % (r["choices"], r["names"], r["outcome"][:300]))
                if r["bads"] and ctx.listed(name, "; ".join(r["bads"][:3])):
                    listed.append(r)
                elif r["bads"]:
                    suspects.append(r)
                for i in range(len(p), len(r["arity"])):
                    for k in range(1, r["arity"][i]):
                        todo.append(tuple(r["choices"][:i]) + (k,))
    viols = []
    unconfirmed = 0
    for r in suspects[:4] + listed:
        if r in suspects and len(viols) >= 2:
            break
        # once more, on an otherwise idle machine
        for _ in range(3):
            q = execute(ctx, fn, r["choices"])
            if q["bads"]:
                viols.append(
                    dict(property=ctx.prop, part=name, message="; ".join(q["bads"][:3]), choices=q["choices"], detail=q["names"] + q["log"][-60:])
                )
                break
        else:
            unconfirmed += 1
    return dict(
        part=name,
        executions=done,
        states=len(states),
        transitions=steps,
        outcomes=len(outcomes),
        truncated=truncated or unconfirmed > 0,
        samples=samples,
        unconfirmed=unconfirmed,
        diverged=diverged,
    ), viols


def result(s, outcome):
    return dict(bads=s.bads, log=s.log, outcome=outcome, steps=s.steps)


def summary(s):
    """(best, completed, rejected) of the summary file."""
    b = s.read("summary_report.txt")
    if b is None:
        return None
    t = b.decode(errors="replace")

    def num(pat):
        m = re.search(pat + r"[^\n]*?:\s*(\S+)", t, re.I)
        return float(m.group(1)) if m else None

    return num("best"), num("completed"), num("rejected")


def rows(s):
    """Records of the detailed report."""
    b = s.read("detailed_report.csv")
    if b is None:
        return None
    lines = b.decode(errors="replace").split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    else:
        return [dict(torn=lines[-1])]
    out = []
    for l in lines[1:]:
        head = l.split(";", 7)
        if len(head) < 8:
            return [dict(torn=l)]
        tail = head[7].rsplit(";", 2)
        if len(tail) < 3:
            return [dict(torn=l)]
        out.append(dict(id=head[0], time=head[1], source=head[2], probs=head[3:6], scale=head[6], val=tail[0], seed=tail[1], res=tail[2]))
    return out


# ------------------------------------------------------------------------------------------ whole runs


def flight(s):
    return [k for k in s.evals() if not k.finished and k.dead is None]


def run_to_end(s, expected, props):
    """Answers what is in flight until the run ends."""
    return s.wait_exit(props, "after its last evaluation")


def starts(ctx, ch):
    """C03, C05: which evaluations run at the same time, and how many in all."""
    c = 1 + ch.n(3)
    n = ch.n(5 if not ctx.thorough else 6)
    ss = ch.of([1, 2] if c == 2 else [1])
    args = ["--num-concurrent", str(c), "-n", str(n)] + (["--sample-size", str(ss)] if ss > 1 else [])
    with Session(ctx, SPEC, args).start() as s:
        done, acc = 0, []
        while done < n:
            want = min(n, done + c)
            if not s.wait_evals(want, "with %d of %d done and %d at a time" % (done, n, c), "C05 C03"):
                break
            fl = flight(s)
            if len(fl) > c:
                s.bad("C05", "%d evaluations in progress, allowed are %d" % (len(fl), c))
            if len({(k.argv[-2], k.argv[-1]) for k in fl}) < len(fl):
                s.bad("C05", "the same evaluation runs twice at the same time")
            if any(k.dead for k in s.evals() if not k.finished):
                s.bad("C07 C05", "an evaluation in progress was killed")
                break
            k = fl[ch.n(len(fl))]
            if ch.n(2) == 0:
                acc.append((k, 5.0 - done))
                s.accept_val(k, 5.0 - done)
            else:
                s.finish(k, b"{}")
            done += 1
        if not s.bads and s.wait_exit("C03 C05 C15", "after %d evaluations" % n):
            s.settle()
            if len(s.evals()) != n:
                s.bad("C03 C05", "%d evaluations were started, asked for were %d" % (len(s.evals()), n))
            if acc and ss == 1:
                s.check_success("C16", acc)
        return result(s, "c=%d n=%d: %d started, exit %s" % (c, n, len(s.evals()), s.rc))


def history(s, ch, c, h, acc, best=10.0, what=(0, 1)):
    """h evaluations end, in any order."""
    for i in range(h):
        if not s.wait_evals(i + c):
            return False
        fl = flight(s)
        k = fl[ch.n(len(fl))]
        if ch.of(what) == 0:
            v = best - i
            acc.append((k, v))
            s.accept_val(k, v)
        else:
            s.finish(k, b"{}")
    return s.wait_evals(h + c)


def check_stop(s, why, started):
    """After a stop: everything aborted, nothing started."""
    for k in s.evals()[started:]:
        s.bad("C04 C06", "an evaluation was started after %s" % why)
        break
    s.judge_survivors(why)


def stops(ctx, ch):
    """C04: a stop request at every point of a run."""
    c = 1 + ch.n(3)
    cause = ch.of(["interrupt", "target", "two interrupts", "time limit"])
    h = ch.n(3) if cause != "time limit" else ch.n(2)
    out = ch.n(2) == 1
    args = ["--num-concurrent", str(c)]
    # other criteria, which are never met, must not matter
    far = ch.of(["target", "time limit", "budget", "all"] if c == 2 or ctx.thorough else ["target", "all"])
    if cause == "target" or far in ("target", "all"):
        args += ["-t=-5"]
    if cause == "time limit":
        args += ["--terminate-after", "1.2 s"]
    elif far in ("time limit", "all"):
        args += ["--terminate-after", "1 h"]
    if far in ("budget", "all"):
        args += ["-n", "1000"]
    with Session(ctx, SPEC, args, out_dir=out).start() as s:
        acc = []
        if history(s, ch, c, h, acc):
            if cause == "time limit" and s.rc is not None:
                return result(s, "late")
            started = len(s.evals())
            if cause == "target":
                fl = flight(s)
                k = fl[ch.n(len(fl))]
                v = ch.of(["-5", "-5.5", "-1e300"])
                acc.append((k, float(v)))
                s.accept_val(k, v)
            elif cause == "time limit":
                pass
            else:
                s.interrupt()
                if cause == "two interrupts":
                    s.interrupt()
            if s.wait_exit("C04 C15", "after %s with %d evaluations in flight" % (cause, c)):
                check_stop(s, cause, started)
                if acc:
                    s.check_success("C04", acc)
                else:
                    s.check_failure("C04")
                s.check_no_panic("C15 C04")
                if cause == "time limit" and s.t_exit - s.t0 < 1.1:
                    s.bad("C04", "the run ended %.2f s after its start, before its time limit" % (s.t_exit - s.t0))
        else:
            return result(s, "not started")
        return result(s, "%s c=%d: %d started, exit %s" % (cause, c, len(s.evals()), s.rc))


FAILS = {
    "exit 1": (b'{"objFuncVal": 1}', 1, None),
    "garbage": (b"oops", 0, None),
    "nothing": (b"", 0, None),
    "killed": (b'{"objFuncVal": 1}', 0, int(signal.SIGKILL)),
    "terminated": (b"", 0, int(signal.SIGTERM)),
    "unknown field": (b'{"objFuncVal": 1, "x": 1}', 0, None),
    "exit 255": (b"{}", 255, None),
}


def failures(ctx, ch):
    """C06: a failure at any evaluation, with anything in flight."""
    c = 1 + ch.n(3)
    h = ch.n(3)
    kind = ch.of(sorted(FAILS) if c == 2 or ctx.thorough else ["exit 1", "garbage", "killed"])
    second = ch.of(["none", "failure", "target"]) if c > 1 else "none"
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-t=-5"], out_dir=True).start() as s:
        acc = []
        if history(s, ch, c, h, acc, what=(0,) if c == 3 and not ctx.thorough else (0, 1)):
            started = len(s.evals())
            fl = flight(s)
            k = fl[ch.n(len(fl))]
            out, code, sig = FAILS[kind]
            s.finish(k, out, code, sig=sig, err=b"E%d" % k.seed)
            # that one is reaped and judged before the next thing happens
            failed = [k]
            if second != "none":
                o = next(x for x in fl if x is not k)
                s.pump(lambda: o.dead is not None or s.rc is not None, 0.02)
                if o.dead is None:
                    failed.append(o)
                    if second == "failure":
                        s.finish(o, b"second", 3, wait=False)
                    else:
                        s.accept_val(o, -7, wait=False)
                        failed.pop()
            if s.wait_exit("C06 C15", "after a failure with %d evaluations in flight" % c):
                check_stop(s, "a failure", started)
                s.check_failure("C06")
                s.check_no_panic("C15 C06")
                arg = s.read("failed_obj_func_arg")
                if arg is None:
                    s.bad("C16", "no file holds the arguments of the failed evaluation")
                elif not any(arg.decode(errors="replace").rstrip().endswith(" %d" % f.seed) for f in failed):
                    s.bad("C06 C16", "the failed evaluation is that with seed %s, reported is %r" % ([f.seed for f in failed], arg[-60:]))
                if s.read("failed_obj_func_stdout") not in [f.result[0] for f in failed]:
                    s.bad("C16", "the output of the failed evaluation is not in the output directory: %r" % s.read("failed_obj_func_stdout"))
        else:
            return result(s, "not started")
        return result(s, "%s c=%d second %s: %d started, exit %s" % (kind, c, second, len(s.evals()), s.rc))


def many(ctx, ch):
    """C05: as many processes at once as are allowed, however many that is."""
    c = ch.of([33, 65, 101, 130, 260] + ([520, 1030] if ctx.thorough else []))
    n = c + 4
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-n", str(n)]).start() as s:
        acc = []
        for done in range(3):
            if not s.wait_evals(c + done, "with %d done and %d at a time" % (done, c), "C05"):
                return result(s, "not started")
            fl = flight(s)
            if len(fl) > c:
                s.bad("C05", "%d evaluations in progress, allowed are %d" % (len(fl), c))
            k = fl[[0, -1, c // 2][done]]
            acc.append((k, float(done)))
            s.accept_val(k, done)
        if s.wait_evals(c + 3, "with 3 done and %d at a time" % c, "C05"):
            for k in flight(s):
                if k.dead is not None:
                    s.bad("C05", "an evaluation in progress was killed")
                    break
                acc.append((k, 5.0))
                s.accept_val(k, 5, wait=False)
            if s.wait_evals(n, "with all others done", "C05"):
                k = flight(s)[-1]
                acc.append((k, 5.0))
                s.accept_val(k, 5, wait=False)
                if s.wait_exit("C05", "after %d evaluations" % n):
                    s.check_success("C05", acc)
        return result(s, "c=%d: %d started, exit %s" % (c, len(s.evals()), s.rc))


OBSTACLES = ["removed", "not executable", "busy", "a directory", "another format", "a loop", "parent removed"]


def obstacles(ctx, ch):
    """C06, C16: from some point on the program can no longer be started."""
    kind = ch.of(OBSTACLES + ["no more files", "grown"])
    if kind == "grown":
        ss = ch.of([1, 3])
        c = ch.of([1, 4])
        spec = "x: {type: real, init: 1.0, scale: 1.0}\n'y': {type: enum, init: b, values: [b, %s, c]}\n" % ("a" * 140000)
        with Session(ctx, spec, ["-n", "300", "--num-concurrent", str(c), "--sample-size", str(ss)], prog=ctx.auto, out_dir=True) as s:
            path = os.path.join(s.dir, "log")
            s.cmd += [path]
            s.start()
            if not s.wait_exit("C06 C16", "when parameters become too long", 120):
                return result(s, "stuck")
            with open(path, "rb") as f:
                n = f.read().count(b"\n")
            if s.rc == 0 and n != 300:
                s.bad("C06 C16", "of 300 evaluations %d were started, the others cannot be; the run ends with success" % n)
            elif s.rc != 0:
                s.check_failure("C06 C16")
            return result(s, "grown: %d started, exit %s" % (n, s.rc))
    if kind == "no more files":
        c = ch.of([30, 70])

        def few():
            resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40))

        with Session(ctx, SPEC, ["--num-concurrent", str(c)], limits=few).start() as s:
            if s.wait_exit("C06 C16", "when there are no more file descriptors"):
                s.check_failure("C06 C16")
                s.judge_survivors("a failure")
            return result(s, "no more files c=%d: %d started, exit %s" % (c, len(s.evals()), s.rc))
    c = 1 + ch.n(3)
    h = ch.n(3) if ctx.thorough or c == 2 else ch.of([0, 2])
    kill = ch.of(["-k", None])
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-t=-5"] + (["-k", "1 h"] if kill else [])) as s:
        top = os.path.join(s.dir, "bin")
        os.mkdir(top)
        prog = os.path.join(top, "prog")
        new = os.path.join(top, "new")
        # by processes of their own, as a file that any process holds open for writing cannot be started
        subprocess.run(["cp", ctx.child, prog], check=True)
        subprocess.run(["cp", ctx.child, new], check=True)
        os.chmod(top, 0o755)
        os.chmod(prog, 0o755)
        os.chmod(new, 0o755)
        s.cmd[s.cmd.index(ctx.child)] = prog
        s.start()
        acc = []
        if not history(s, ch, c, h, acc):
            return result(s, "not started")
        started = len(s.evals())
        fd = None
        if kind == "busy":
            fd = os.open(new, os.O_RDWR)
            os.rename(new, prog)
        elif kind == "not executable":
            os.chmod(prog, 0o644)
        elif kind == "parent removed":
            os.rename(top, top + "x")
        else:
            os.unlink(prog)
            if kind == "a directory":
                os.mkdir(prog)
            elif kind == "a loop":
                os.symlink(prog, prog)
            elif kind == "another format":
                subprocess.run(["cp", os.path.join(s.dir, "spec.yaml"), prog], check=True)
                os.chmod(prog, 0o755)
        fl = flight(s)
        k = fl[ch.n(len(fl))]
        if ch.n(2) == 0:
            s.accept_val(k, -3)
        else:
            s.finish(k, b"{}")
        if s.wait_exit("C06 C16", "when the next evaluation cannot be started"):
            check_stop(s, "an evaluation could not be started", started)
            s.check_failure("C06 C16")
            s.check_no_panic("C15 C06")
        if fd is not None:
            os.close(fd)
        return result(s, "%s c=%d h=%d: %d started, exit %s" % (kind, c, h, len(s.evals()), s.rc))


# ------------------------------------------------------------------------------------------ C07

SHAPES = [
    "plain",
    "ignores signals",
    "grandchild with its output",
    "silent grandchild",
    "two deaf grandchildren",
    "leader gone, grandchild holds the output",
    "closed its output",
    "half an answer",
    "whole answer",
]


def shape(s, k, sh):
    if sh == "ignores signals":
        s.cmd_kid(k, "i")
    elif sh == "grandchild with its output":
        s.fork(k, 0)
    elif sh == "silent grandchild":
        s.fork(k, 1)
    elif sh == "two deaf grandchildren":
        s.fork(k, 2)
        s.fork(k, 3)
    elif sh == "leader gone, grandchild holds the output":
        s.fork(k, 2)
        s.finish(k, b'{"objFuncVal": 3}')
        k.finished = False  # the evaluation has not ended
    elif sh == "closed its output":
        s.cmd_kid(k, "c", b"\x01")
        s.cmd_kid(k, "c", b"\x02")
    elif sh == "half an answer":
        s.cmd_kid(k, "o", b'{"objFunc')
    elif sh == "whole answer":
        s.cmd_kid(k, "o", b'{"objFuncVal": 2}')


def in_flight(s):
    """Evaluations that have not ended: the process or something holding its output lives."""
    return [k for k in s.evals() if not k.finished]


def groups(ctx, ch):
    """C07: every cause of an end with every kind of process group in flight."""
    c = 1 + ch.n(3)
    cause = ch.of(["target", "failure", "interrupt", "budget", "garbage", "time limit"])
    h = ch.n(2)
    args = ["--num-concurrent", str(c), "-t=-5"]
    if cause == "budget":
        args += ["-n", str(h + c)]
    if cause == "time limit":
        args += ["--terminate-after", "1.5 s"]
    with Session(ctx, SPEC, args).start() as s:
        acc = []
        for i in range(h):
            if not s.wait_evals(i + c):
                return result(s, "not started")
            k = flight(s)[0]
            # one that leaves something behind when it ends well
            s.fork(k, 1 | (2 * (i % 2)))
            acc.append((k, 9.0))
            s.accept_val(k, 9.0)
        if s.wait_evals(h + c):
            fl = flight(s)
            n_sib = c - 1 if cause in ("target", "failure", "garbage") else c
            shapes = SHAPES if c < 3 or ctx.thorough else SHAPES[:6]
            if cause == "budget":
                shapes = ["plain", "silent grandchild", "ignores signals"]
            if cause == "time limit" and not ctx.thorough:
                shapes = shapes[:6:2] if c > 1 else shapes
            sib = fl[c - n_sib:]
            last = 0
            for k in sib:
                # siblings are alike up to order
                last = last + ch.n(len(shapes) - last)
                shape(s, k, shapes[last])
            if cause != "budget" and s.rc is not None:
                if cause != "time limit":
                    s.bad("C07", "cambrian ended early: %s" % s.stderr()[-200:])
                return result(s, "early")
            if cause == "target":
                acc.append((fl[0], -5.0))
                s.fork(fl[0], 1)
                s.accept_val(fl[0], "-5.0")
            elif cause == "failure":
                s.fork(fl[0], 1)
                s.finish(fl[0], b"", 1)
            elif cause == "garbage":
                s.fork(fl[0], 3)
                s.finish(fl[0], b"garbage")
            elif cause == "interrupt":
                s.interrupt()
            elif cause == "budget":
                for k in sib:
                    acc.append((k, 3.0))
                    s.accept_val(k, "3.0")
            if s.wait_exit("C07 C04 C06", "after %s" % cause):
                s.judge_survivors(cause)
                if cause == "budget":
                    s.check_success("C07", acc)
        return result(s, "%s c=%d: %d processes, exit %s" % (cause, c, len(s.kids), s.rc))


def limits(ctx, ch):
    """C07: the time limit of an evaluation."""
    c = 1 + ch.n(2 if not ctx.thorough else 3)
    n = 3
    late = ch.n(n)  # which evaluation does not end
    sh = ch.of(SHAPES)
    then = ch.of(["reject", "accept"])
    K = 1.5
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-n", str(n), "-k", "1500 ms"], out_dir=True).start() as s:
        before = s.t0
        done, acc, rej = 0, [], 0
        hung = None
        pending = []
        ok = True
        while ok and done < n:
            t_prev = time.monotonic() if s.evals() else s.t0
            if not s.wait_evals(min(n, done + c), "while another hangs" if hung else "", "C07"):
                ok = False
                break
            for k in s.evals():
                if not hasattr(k, "since"):
                    k.since = before
            if hung is None and len(s.evals()) > late:
                hung = s.evals()[late]
                shape(s, hung, sh)
            ready = [k for k in flight(s) if k is not hung]
            if ready:
                k = ready[0]
                before = time.monotonic()
                if before - k.since > 0.7 * K:
                    return result(s, "too slow to tell")
                if then == "accept":
                    acc.append((k, 4.0 - done))
                    s.accept_val(k, 4.0 - done)
                else:
                    rej += 1
                    s.finish(k, b"{}")
                if k.dead and time.monotonic() - before > 0.2 * K:
                    return result(s, "too slow to tell")
                done += 1
            else:
                # only the hanging one is left
                grp = s.group(hung)
                others = [k for k in s.evals() if k is not hung]
                if not s.pump(lambda: all(k.dead is not None for k in grp) or s.rc is not None, K + PATIENCE):
                    s.bad("C07", "an evaluation over its time limit is not killed with its process group (%s): %d of %d processes live" % (
                        sh, sum(k.dead is None for k in grp), len(grp)))
                    ok = False
                    break
                gone = max((k.dead for k in grp if k.dead is not None), default=None)
                if gone is not None and gone - hung.since < K and sh != "leader gone, grandchild holds the output":
                    s.bad("C07", "an evaluation was killed %.2f s after its start, the limit is %s s" % (gone - hung.since, K))
                hung.finished = True
                before = gone or time.monotonic()
                before = min(before, hung.since + K) if hung.since + K < before else before
                rej += 1
                done += 1
        if ok and s.wait_exit("C07", "after an evaluation was killed"):
            s.judge_survivors("budget")
            if len(s.evals()) != n:
                s.bad("C07", "%d evaluations were started instead of %d" % (len(s.evals()), n))
            if acc:
                s.check_success("C07", acc)
                sm = summary(s)
                if sm is None or sm[1:] != (float(len(acc)), float(rej)):
                    s.bad("C07 C14", "accepted were %d, rejected (killed ones included) %d, reported is %s" % (len(acc), rej, sm))
            else:
                s.check_failure("C07")
            rs = rows(s)
            if rs is not None and len(rs) == n and hung is not None:
                r = [x for x in rs if x.get("seed") == str(hung.seed)]
                if len(r) != 1 or r[0]["res"] != "":
                    s.bad("C07 C14", "the record of the killed evaluation is %s" % r)
            elif rs is not None:
                s.bad("C07 C14", "%d records of %d evaluations" % (len(rs), n))
        return result(s, "%s c=%d: exit %s" % (sh, c, s.rc))


def in_time(ctx, ch):
    """C07: evaluations that take up to two thirds of the limit are left alone."""
    c = 1 + ch.n(2)
    frac = ch.of([0.1, 0.35, 0.6])
    sh = ch.of(["plain", "closed its output", "whole answer", "silent grandchild"])
    K = 2.0
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-n", str(2 * c), "-k", "2 s"], out_dir=True).start() as s:
        acc = []
        since = s.t0
        for rnd in range(2):
            if not s.wait_evals((rnd + 1) * c):
                return result(s, "not started")
            fl = flight(s)
            for k in fl:
                shape(s, k, sh)
            s.pump(lambda: s.rc is not None, max(0.0, since + K * frac - time.monotonic()))
            for k in fl:
                if k.dead is not None and time.monotonic() - since < K * 0.95:
                    s.bad("C07", "an evaluation was killed within %.2f s, the limit is %s s" % (k.dead - since, K))
                    return result(s, "killed early")
            t = time.monotonic()
            for k in fl:
                if sh == "whole answer":
                    acc.append((k, 2.0))
                    s.finish(k, b"")
                elif sh == "closed its output":
                    s.finish(k, b"", 0)
                else:
                    acc.append((k, 2.0))
                    s.accept_val(k, "2.0")
            if time.monotonic() - since > K * 0.8:
                return result(s, "too slow to tell")
            since = t
            if sh == "closed its output":
                break
        if s.wait_exit("C07", "after evaluations that ended in time"):
            s.judge_survivors("budget")
            if sh == "closed its output":
                s.check_failure("C07")
            else:
                s.check_success("C07", acc)
                sm = summary(s)
                if sm is None or sm[1:] != (float(2 * c), 0.0):
                    s.bad("C07", "evaluations that ended in time are counted as %s" % (sm,))
        return result(s, "%s %s: exit %s" % (sh, frac, s.rc))


def series(ctx, ch):
    """C07: several evaluations over the limit, in any pattern."""
    c = 1 + ch.n(2)
    pat = [ch.n(2) for _ in range(3 if not ctx.thorough else 4)]
    n = len(pat)
    K = 1.2
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-n", str(n), "-k", "1.2 s"], out_dir=True).start() as s:
        acc, seen, hung = [], 0, []

        def answer():
            nonlocal seen
            while seen < len(s.evals()):
                k = s.evals()[seen]
                i = seen
                seen += 1
                if pat[i]:
                    hung.append(k)
                    s.fork(k, 2)
                else:
                    acc.append((k, 3.0))
                    s.accept_val(k, "3.0")
            return s.rc is not None

        if not s.pump(answer, n * K + PATIENCE):
            s.bad("C07", "cambrian does not end though every evaluation ended or is over its time limit")
        else:
            s.judge_survivors("budget")
            if any(k.dead is None for k in hung):
                s.bad("C07", "an evaluation over its time limit is still alive")
            if len(s.evals()) != n:
                s.bad("C07", "%d evaluations were started instead of %d" % (len(s.evals()), n))
            if acc:
                s.check_success("C07", acc)
                sm = summary(s)
                if sm is None or sm[1:] != (float(len(acc)), float(len(hung))):
                    s.bad("C07", "accepted were %d, killed %d, reported is %s" % (len(acc), len(hung), sm))
            else:
                s.check_failure("C07")
        return result(s, "%s: exit %s" % (pat, s.rc))


def waves(ctx, ch):
    """C07: many evaluations, answered two thirds into the limit or not at all."""
    c, n = ch.of([(3, 9), (12, 36)] + ([(24, 96), (1, 12)] if ctx.thorough else []))
    every = ch.of([0, 2, 5])  # which of them hang: none, every second, every fifth
    deaf = ch.n(2) == 1
    K = 2.5
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-n", str(n), "-k", "2500 ms"], out_dir=True).start() as s:
        acc, hung, known = [], [], 0
        late = []
        answered = set()

        def step():
            nonlocal known
            t = time.monotonic()
            while known < len(s.evals()):
                k = s.evals()[known]
                k.low = t  # not started later than this
                if every and known % every == every - 1:
                    hung.append(k)
                    if deaf:
                        s.fork(k, 2)
                known += 1
            for k in s.evals():
                if k not in hung and k.pid not in answered and (k.dead is not None or t - k.low > 0.6 * K):
                    if k.dead is None and t - k.low > 0.75 * K:
                        late.append(k)
                    answered.add(k.pid)
                    if k.dead is not None:
                        early.append(k)
                        continue
                    acc.append((k, 3.0 + known))
                    s.accept_val(k, 3.0 + known, wait=False)
            return s.rc is not None

        early = []
        end = time.monotonic() + (n / c + 2) * K + PATIENCE
        while not step() and not early and not late and time.monotonic() < end:
            s.pump(lambda: s.rc is not None, 0.02)
        if late:
            return result(s, "too slow to tell")
        for k in early:
            s.bad("C07", "an evaluation that was to end in time was killed %.2f s after its start, the limit is %s s" % (k.dead - k.low, K))
        for k in hung:
            # its time ran when it was seen, at the latest 0.2 s after its start unless the machine is busy
            if k.dead is not None and k.dead - k.low < K - 0.8:
                s.bad("C07", "an evaluation was killed %.2f s after it was seen, the limit is %s s" % (k.dead - k.low, K))
        if not s.bads and s.rc is None:
            s.bad("C07", "cambrian does not end though every evaluation ended or is over its time limit: %d of %d started" % (len(s.evals()), n))
        elif not s.bads:
            s.judge_survivors("budget")
            if len(s.evals()) != n:
                s.bad("C07", "%d evaluations were started instead of %d" % (len(s.evals()), n))
            s.check_success("C07", acc)
            sm = summary(s)
            if sm is None or sm[1:] != (float(len(acc)), float(len(hung))):
                s.bad("C07", "accepted were %d, killed %d, reported is %s" % (len(acc), len(hung), sm))
        return result(s, "%s of %s: exit %s" % (c, n, s.rc))


def crowd(ctx, ch):
    """C07: a dozen evaluations in flight after a history of some, each with descendants; no limit or one far off."""
    cause = ch.of(["target", "failure", "interrupt", "garbage", "time limit"])
    c, h = ch.of(
        [(12, 0), (9, 11), (16, 5)]
        + ([(130, 3)] if cause in ("interrupt", "target") or ctx.thorough else [])
        + ([(32, 40), (5, 64)] if ctx.thorough else [])
    )
    far = ch.of([[], ["-k", "1 h"]])
    rot = 0 if c > 100 else ch.n(len(SHAPES) if ctx.thorough else 2) * (1 if ctx.thorough else 4)
    args = ["--num-concurrent", str(c), "-t=-5"] + far
    if cause == "time limit":
        args += ["--terminate-after", "6 s"]
    with Session(ctx, SPEC, args).start() as s:
        for i in range(h):
            if not s.wait_evals(i + c):
                return result(s, "not started")
            k = flight(s)[i % c]
            if i % 3 == 0:
                s.fork(k, 1 | (2 * (i % 2)))
            s.accept_val(k, 9.0 + i)
        if not s.wait_evals(h + c):
            return result(s, "not started")
        if s.rc is not None:
            return result(s, "early")
        fl = flight(s)
        lead = fl[-1 if rot else 0]
        for i, k in enumerate(fl):
            if k is not lead and s.rc is None:
                shape(s, k, SHAPES[(i + rot) % len(SHAPES)])
        if s.rc is None:
            if cause == "target":
                s.accept_val(lead, "-5.0")
            elif cause == "failure":
                s.fork(lead, 1)
                s.finish(lead, b"", 1)
            elif cause == "garbage":
                s.finish(lead, b"garbage")
            elif cause == "interrupt":
                s.interrupt()
        if s.wait_exit("C07 C04 C06", "after %s" % cause):
            s.judge_survivors(cause)
        return result(s, "%s c=%d: %d processes, exit %s" % (cause, c, len(s.kids), s.rc))


# ------------------------------------------------------------------------------------------ C14


def files(ctx, ch):
    """C14: the files against what was answered."""
    c = 1 + ch.n(2)
    end = ch.of(["budget", "interrupt", "failure", "target"])
    h = ch.n(4) if end == "budget" else ch.n(3)
    ss = 1
    args = ["--num-concurrent", str(c), "-t=-50"]
    if end == "budget":
        args += ["-n", str(h)]
    with Session(ctx, SPEC, args, out_dir=True).start() as s:
        acc, rej, order = [], 0, []
        VALS = ["2.5", "null", "-1", "2.5e0", "-0.0", "1e300"]
        alphabet = VALS[:3] if not ctx.thorough else VALS[:5]
        for i in range(h):
            if not s.wait_evals(min(h, i + c) if end == "budget" else i + c, props="C14"):
                return result(s, "not started")
            fl = flight(s)
            k = fl[ch.n(len(fl))]
            v = ch.of(alphabet)
            order.append((k, v))
            if v == "null":
                rej += 1
            else:
                acc.append((k, float(v)))
            s.accept_val(k, v)
        if end == "budget" and h == 0:
            pass
        elif end != "budget":
            s.wait_evals(h + c, props="C14")
            fl = flight(s)
            k = fl[ch.n(len(fl))] if end != "interrupt" else None
            if end == "interrupt":
                s.interrupt()
            elif end == "failure":
                s.finish(k, b"bad", 1)
            else:
                acc.append((k, -50.0))
                order.append((k, "-50"))
                s.accept_val(k, "-50")
        if s.wait_exit("C14 C15", "after %s" % end):
            judge_files(s, end, acc, rej, order)
        return result(s, "%s c=%d %s: exit %s" % (end, c, [v for _, v in order], s.rc))


def judge_files(s, end, acc, rej, order, ids=True):
    rs = rows(s)
    if rs is None:
        if order:
            s.bad("C14", "no detailed report")
        return
    if any("torn" in r for r in rs):
        s.bad("C14", "the detailed report is torn: %s" % [r for r in rs if "torn" in r])
        return
    by_seed = {str(k.seed): (k, v) for k, v in order}
    aborted = {str(k.seed): k for k in s.evals() if str(k.seed) not in by_seed}
    seen = []
    for r in rs:
        if r["seed"] in by_seed:
            k, v = by_seed[r["seed"]]
            seen.append(r["seed"])
            if util.parse(r["val"]) != k.params:
                s.bad("C14", "the record with seed %s has the parameters %s, evaluated were %s" % (r["seed"], r["val"], k.json_text))
            if (r["res"] == "") != (v == "null") or (r["res"] != "" and util.num(r["res"]) != float(v)):
                s.bad("C14", "the record with seed %s has the result %r, answered was %s" % (r["seed"], r["res"], v))
        elif r["seed"] in aborted and end != "budget":
            # an evaluation that was aborted counts as rejected
            if r["res"] != "":
                s.bad("C14", "the record of the aborted evaluation with seed %s has a result %s" % (r["seed"], r["res"]))
            if util.parse(r["val"]) != aborted[r["seed"]].params:
                s.bad("C14", "the record with seed %s has the parameters %s" % (r["seed"], r["val"]))
        else:
            s.bad("C14", "a record with seed %s of no evaluation" % r["seed"])
        for p in r["probs"]:
            if p != "" and not 0 <= util.num(p) <= 1:
                s.bad("C14", "the record with seed %s has a probability %s" % (r["seed"], p))
        if r["scale"] != "" and not 0 < util.num(r["scale"]) < float("inf"):
            s.bad("C14", "the record with seed %s has the mutation scale %s" % (r["seed"], r["scale"]))
    if len({r["seed"] for r in rs}) != len(rs):
        s.bad("C14", "two records of the same evaluation")
    if len({r["id"] for r in rs}) != len(rs) and ids:
        s.bad("C14", "two records with the same id at a sample size of 1: %s" % [r["id"] for r in rs])
    if seen != [str(k.seed) for k, _ in order]:
        missing = [str(k.seed) for k, _ in order if str(k.seed) not in seen]
        if missing:
            s.bad("C14", "no record of the evaluations with seeds %s" % missing)
    bs = s.read("best_seen.json")
    if acc:
        best = min(v for _, v in acc)
        try:
            got = util.parse(bs) if bs is not None else None
        except ValueError:
            got = bs
        if not any(k.params == got for k, v in acc if v == best):
            s.bad("C14", "the best-seen file holds %r, the best evaluations were of %s" % (bs, [k.json_text for k, v in acc if v == best]))
    elif bs is not None:
        s.bad("C14", "a best-seen file without an accepted evaluation: %r" % bs)
    if end == "failure":
        s.check_failure("C14")
    elif acc:
        s.check_success("C14 C16", acc)
        sm = summary(s)
        if sm is None:
            s.bad("C14 C16", "no summary file")
        else:
            recs_rej = sum(1 for r in rs if r["res"] == "")
            if sm[0] != min(v for _, v in acc) or sm[1] != len(acc) or sm[2] != recs_rej or recs_rej < rej:
                s.bad("C14", "the summary has best, accepted, rejected %s; answered were %s, %d, %d" % (sm, min(v for _, v in acc), len(acc), recs_rej))


def auto_value(seed):
    """What vauto answers."""
    if seed % 7 == 6:
        return None
    h = ((seed * 0x9E3779B97F4A7C15) % (1 << 64)) >> 44
    return (h + 0.25) * (-1 if seed % 2 else 1)


def masses(ctx, ch):
    """C03, C08, C14, C16: thousands of evaluations by processes."""
    c, n, ss = ch.of([(1, 300, 1), (8, 2500, 1), (3, 1200, 3), (12, 1100, 2)] + ([(16, 70000, 1), (7, 20000, 5)] if ctx.thorough else []))
    out = ch.of([True, False])
    with Session(ctx, SPEC, ["--num-concurrent", str(c), "-n", str(n), "--sample-size", str(ss)], prog=ctx.auto, out_dir=out) as s:
        path = os.path.join(s.dir, "log")
        s.cmd += [path, "user arg"]
        s.start()
        if not s.pump(lambda: s.rc is not None, 300):
            s.bad("C03", "cambrian does not end after %d evaluations" % n)
            return result(s, "stuck")
        with open(path, "rb") as f:
            log = [l.split(b"\t") for l in f.read().split(b"\n")[:-1]]
        s.steps += len(log)
        if len(log) != n:
            s.bad("C03 C08 C14 C16", "%d evaluations were started, the budget is %d (exit %s: %s)" % (len(log), n, s.rc, s.stderr()[-300:]))
        if any(l[0] != b"5" for l in log):
            s.bad("C16", "an evaluation was started with %s arguments" % [l[0] for l in log if l[0] != b"5"][0])
        seeds = [l[1].decode(errors="replace") for l in log]
        if len(set(seeds)) != len(seeds):
            twice = [x for x, k in collections.Counter(seeds).items() if k > 1]
            s.bad("C08", "%d evaluations, %d seeds: %s" % (len(seeds), len(set(seeds)), twice[:5]))
        if any(not x.isdigit() or str(int(x)) != x or int(x) >= 1 << 64 for x in seeds):
            s.bad("C16", "a seed is %r" % [x for x in seeds if not x.isdigit() or str(int(x)) != x][:1])
        vals = {int(x): auto_value(int(x)) for x in seeds if x.isdigit()}
        acc = {x: v for x, v in vals.items() if v is not None}
        by_seed = {int(l[1]): l[2] for l in log if l[1].isdigit()}
        got = s.check_success("C03 C08 C14 C16", [])
        if ss == 1 and got is not None and acc:
            best = min(acc.values())
            if not any(util.parse(by_seed[x]) == got for x, v in acc.items() if v == best):
                s.bad("C14 C16", "the result is %s, the best evaluations were of %s" % (got, [by_seed[x] for x, v in acc.items() if v == best]))
        if out:
            rs = rows(s) or []
            if len(rs) != n:
                s.bad("C14", "%d records of %d evaluations" % (len(rs), n))
            ids = {}
            for r in rs:
                if "torn" in r or not r["seed"].isdigit() or int(r["seed"]) not in by_seed:
                    s.bad("C14 C16", "a record of no evaluation: %s" % r)
                    break
                x = int(r["seed"])
                if r["val"].encode() != by_seed[x] and util.parse(r["val"]) != util.parse(by_seed[x]):
                    s.bad("C14 C16", "the record with seed %d has the parameters %s, evaluated were %s" % (x, r["val"], by_seed[x]))
                    break
                if (util.num(r["res"]) if r["res"] else None) != vals[x]:
                    s.bad("C14 C16", "the record with seed %d has the result %r, answered was %s" % (x, r["res"], vals[x]))
                    break
                for p in r["probs"]:
                    if p != "" and not 0 <= util.num(p) <= 1:
                        s.bad("C14", "the record with seed %s has a probability %s" % (r["seed"], p))
                if r["scale"] != "" and not 0 < util.num(r["scale"]) < float("inf"):
                    s.bad("C14", "the record with seed %s has the mutation scale %s" % (r["seed"], r["scale"]))
                ids.setdefault(r["id"], []).append(json.dumps(util.parse(r["val"]), sort_keys=True))
            if any(len(v) > ss for v in ids.values()):
                s.bad("C08", "an individual was evaluated %d times, the sample size is %d" % (max(map(len, ids.values())), ss))
            if any(len(set(v)) > 1 for v in ids.values()):
                s.bad("C08", "an id stands for two parameter sets: %s" % [sorted(set(v)) for v in ids.values() if len(set(v)) > 1][0][:2])
            if len({r.get("seed") for r in rs}) != len(rs):
                s.bad("C14", "two records with the same seed")
            sm = summary(s)
            if sm is None or sm[1:] != (float(len(acc)), float(len(vals) - len(acc))):
                s.bad("C14 C03", "accepted were %d, rejected %d, reported is %s" % (len(acc), len(vals) - len(acc), sm))
            elif ss == 1 and sm[0] != min(acc.values()):
                s.bad("C14", "the best value was %s, reported is %s" % (min(acc.values()), sm[0]))
            bs = s.read("best_seen.json")
            if ss == 1 and (bs is None or util.parse(bs) != got):
                s.bad("C14", "the best-seen file holds %s, the result is %s" % (bs, got))
        return result(s, "c=%d n=%d s=%d: exit %s" % (c, n, ss, s.rc))


def sizes(ctx, ch):
    """C16: parameters of any length, up to and beyond what an argument may have (128 KiB)."""
    n = ch.of([60, 130, 520, 1030, 2060, 4100, 8200, 16500, 32800, 65200, 65600, 140000])
    kind = ch.of(["numbers", "a name", "a text"])
    end = ch.of(["success", "failure"])
    opts = ch.of([[], ["-v"]])
    out = ch.n(2) == 1
    letter = ch.of(["a", "\u00e9"]) if kind != "numbers" else ""
    if kind == "numbers":
        spec = "type: array\nsize: %d\nvalueType: {type: int, init: 3, scale: 1}\n" % n
        least = 2 * n + 1
    elif kind == "a name":
        # a key of a mapping on one line has at most 1024 characters in YAML
        spec = "? %s\n: {type: real, init: 1.0, scale: 1.0}\n" % (letter * n)
        least = n
    else:
        spec = "x: {type: real, init: 1.0, scale: 1.0}\n'y': {type: enum, init: %s, values: [b, %s]}\n" % (letter * n, letter * n)
        least = n
    with Session(ctx, spec, ["-n", "2"] + opts, out_dir=out).start() as s:
        s.pump(lambda: s.rc is not None or s.evals(), PATIENCE)
        if not s.evals():
            if s.rc is None:
                s.bad("C16", "neither an evaluation nor an end")
            else:
                if least * (2 if letter == "\u00e9" else 1) < 120000:
                    s.bad("C16", "no evaluation was started with parameters of about %d bytes: %s" % (least, s.stderr()[-300:]))
                s.check_failure("C16")
            return result(s, "%s %d: not started, exit %s" % (kind, n, s.rc))
        a = s.evals()[0]
        if end == "failure":
            s.finish(a, b"garbage", 0, err=b"an error")
            if s.wait_exit("C16", "after a failure"):
                s.check_failure("C16")
                if out:
                    judge_dump(s, a, b"garbage", b"an error")
            return result(s, "%s %d failed: exit %s" % (kind, n, s.rc))
        s.accept_val(a, 1)
        acc = [(a, 1.0)]
        # the second one may have grown beyond what an argument can be
        if s.pump(lambda: len(s.evals()) > 1 or s.rc is not None, PATIENCE) and len(s.evals()) > 1:
            s.accept_val(s.evals()[1], 2)
            acc.append((s.evals()[1], 2.0))
        elif least * 12 < 120000:
            s.bad("C16", "the second evaluation was not started: %s" % s.stderr()[-300:])
        if s.wait_exit("C16", "after two evaluations"):
            if len(acc) == 2:
                s.check_success("C16", acc)
                if out:
                    judge_files(s, "budget", acc, 0, [(k, "%d" % v) for k, v in acc])
            else:
                s.check_failure("C16")
        return result(s, "%s %d: exit %s" % (kind, n, s.rc))


# ------------------------------------------------------------------------------------------ C15

NOISE = {
    "nothing": b"",
    "a line": b"hello\n",
    "not UTF-8": b"\xff\xfe\x80abc\xc3",
    "half a character": b"caf\xc3",
    "NUL": b"\x00\x00",
    "huge": (300000, b"x"),
    "huge not UTF-8": (200000, b"\xff"),
    "many letters": b"x" + "\u00e9".encode() * 40000,
    "format": b"{} {0} %s %n {:?}\n",
    "control": b"\x1b[31m\r\n\x07\x08",
    "long line breaks": b"\n" * 5000,
    "emoji": "\U0001f600\u202e\ufeff".encode(),
}
ANSWERS = {
    "good": b'{"objFuncVal": 2.0}',
    "partial": b'{"objFuncVal": ',
    "empty": b"",
    "not UTF-8": b'{"objFuncVal": \xff}',
    "not UTF-8 key": b'{"\xff": 1}',
    "huge": b'{"objFuncVal": 2.0' + b" " * 300000 + b"}",
    "deep": b"[" * 100000,
    "deep object": b'{"objFuncVal":' * 20000,
    "big number": b'{"objFuncVal": ' + b"9" * 5000 + b"}",
    "tiny number": b'{"objFuncVal": 0.' + b"0" * 5000 + b"1}",
    "exponent": b'{"objFuncVal": 1e99999999999999999999}',
    "minus zero": b'{"objFuncVal": -0.0}',
    "1e300": b'{"objFuncVal": 1e300}',
    "-1e300": b'{"objFuncVal": -1e300}',
    "NUL": b"\x00",
    "reject": b"{}",
    "huge letters": b"x" + "\u00e9".encode() * 200000,
    "huge letters in a string": b'{"objFuncVal": "' + "\u20ac".encode() * 100000 + b'"}',
    "huge not UTF-8": b"ab" + b"\xff\xc3" * 100000,
    "long string": b'{"objFuncVal": "' + b"a" * 200000 + b'"}',
}
GOOD = {"good", "minus zero", "1e300", "-1e300", "huge"}


def noise(ctx, ch):
    """C15: bytes on standard output and error, with and without logging."""
    at = ch.n(2)
    ans = ch.of(sorted(ANSWERS))
    full = ans in ("good", "partial", "reject") or ctx.thorough
    err = ch.of(sorted(NOISE)) if full else ch.of(["nothing", "not UTF-8"])
    code = ch.of([0, 3])
    early = ch.of(["no", "closes stderr first"]) if full and code == 0 else "no"
    res = []
    bads, log = [], []
    steps = 0
    for args in (["-n", "2"], ["-n", "2", "-v"]):
        with Session(ctx, SPEC, args).start() as s:
            for i in range(2):
                if s.wait_evals(i + 1, props="C15") is False:
                    break
                k = s.evals()[i]
                if i != at:
                    s.accept_val(k, 3)
                    continue
                e = NOISE[err]
                if isinstance(e, tuple):
                    s.cmd_kid(k, "b", bytes([2]) + e[0].to_bytes(4, "little") + e[1])
                elif e:
                    for j in range(0, len(e), 3000):
                        s.cmd_kid(k, "e", e[j:j + 3000])
                if early != "no":
                    s.cmd_kid(k, "c", b"\x02")
                s.finish(k, ANSWERS[ans], code)
                if code or ans not in GOOD | {"reject", "tiny number"}:
                    break
            if s.wait_exit("C15", "after the output %s / %s" % (ans, err)):
                s.check_no_panic()
                if s.rc not in (0, 1):
                    s.bad("C15", "exit status %s" % s.rc)
                if s.rc == 1 and not s.stderr().strip():
                    s.bad("C15", "ended with 1 without a described error")
                if s.rc == 0 and (code or ans not in GOOD | {"reject", "tiny number"}):
                    s.bad("C16", "%s with exit %d was taken as a result" % (ans, code))
                res.append((s.rc, s.stdout()))
            bads += s.bads
            log += s.log
            steps += s.steps
    if len(res) == 2 and res[0] != res[1]:
        bads.append(("C15", "with logging the run ends with %s instead of %s" % (res[1], res[0])))
    return dict(bads=bads, log=log, outcome=repr(res)[:300], steps=steps)


def megabytes(ctx, ch):
    """C15: megabytes of output, with characters of every width at every offset, with and without logging."""
    pat = ch.of([b"x", "\u00e9".encode(), "\u20ac".encode(), "\U0001f600".encode(), b"\xff", b"\xc3x", b"line\n", b" ", b"\0"])
    off = ch.n(min(len(pat), 4))
    size = ch.of([70001, 3 << 20] + ([(1 << 20) + 1, 40 << 20] if ctx.thorough else []))
    fd = ch.of([2, 1])
    where = ch.of(["before", "after"]) if fd == 1 else "before"
    code = ch.of([0, 3]) if ctx.thorough or fd == 2 else 0
    answer = b'{"objFuncVal": 2.0}'
    res, bads, log, steps = [], [], [], 0
    for args in (["-n", "2"], ["-n", "2", "-v"]):
        with Session(ctx, SPEC, args).start() as s:
            s.wait_evals(1, props="C15")
            if s.evals():
                k = s.evals()[0]
                if where == "after":
                    s.cmd_kid(k, "o", answer)
                if off:
                    s.cmd_kid(k, "b", bytes([fd]) + off.to_bytes(4, "little") + b"y")
                s.cmd_kid(k, "b", bytes([fd]) + size.to_bytes(4, "little") + pat)
                s.finish(k, b"" if where == "after" else answer, code)
                fine = code == 0 and (fd == 2 or pat in (b" ",) and not off)
                if fine and s.wait_evals(2, props="C15"):
                    s.accept_val(s.evals()[1], 3)
                if s.wait_exit("C15", "after megabytes of output"):
                    s.check_no_panic()
                    if (s.rc == 0) != fine:
                        s.bad("C15 C16", "ended with %s, the output was %s" % (s.rc, "valid" if fine else "not"))
                    if s.rc and not s.stderr().strip():
                        s.bad("C15", "ended with %s without a described error" % s.rc)
                    res.append((s.rc, s.stdout()))
            bads += s.bads
            log += s.log
            steps += s.steps
    if len(res) == 2 and res[0] != res[1]:
        bads.append(("C15", "with logging the run ends with %s instead of %s" % (res[1], res[0])))
    return dict(bads=bads, log=log, outcome=repr(res)[:300], steps=steps)


LIMITS = ["1 s", "0 s", "1e-9 s", "1 ns", "2562047788015215 h", "999999999999 years", "18446744073709551615 s", "18446744073709551616 s", "1e300 s", "-1 s", "", "0.5", "1e30"]


def durations(ctx, ch):
    """C15, C16: durations of any size."""
    opt = ch.of(["--terminate-after", "-k"])
    d = ch.of(LIMITS)
    v = ch.of([[], ["-v"]])
    with Session(ctx, SPEC, [opt + "=" + d if opt.startswith("--") else opt + d, "-n", "3"] + v).start() as s:
        def answer():
            for k in s.evals():
                if not k.finished and k.dead is None:
                    s.accept_val(k, 1, wait=False)
            return s.rc is not None
        if not s.pump(answer, PATIENCE):
            s.bad("C15", "cambrian does not end with %s %r" % (opt, d))
        else:
            s.check_no_panic("C15")
            if s.rc != 0 and s.rc > 0 and not s.stderr().strip():
                s.bad("C15", "ended with %s without a described error" % s.rc)
        return result(s, "%s %s: exit %s" % (opt, d, s.rc))


# ------------------------------------------------------------------------------------------ C16

HOSTILE = [
    "plain", "", "a b", "'", '"', "\\", "$HOME", "`id`", "$(id)", "*", "-", "--", "-n", "--force", "--help", ";", "|", "a\nb", "\t", "ü", "\U0001f600", "{}", "%s", "~", "#", "=",
    "\u2028", "{\"objFuncVal\": 1}",
]


def arguments(ctx, ch):
    """C16: the argument vector of the objective function program."""
    short = HOSTILE if not ctx.thorough else HOSTILE
    n = ch.n(3)
    ua = [ch.of(short) for _ in range(n)]
    with Session(ctx, SPEC, ["-n", "2"], user_args=ua).start() as s:
        for i in range(2):
            if not s.wait_evals(i + 1, props="C16"):
                break
            k = s.evals()[i]
            want = [ctx.child.encode()] + [a.encode() for a in ua]
            if k.argv[:-2] != want or len(k.argv) != len(want) + 2:
                s.bad("C16", "the program was started with %s, expected are %s, parameters and seed" % (k.argv, want))
                break
            judge_argv(s, k, i)
            s.accept_val(k, 2 - i)
        if not s.bads and s.wait_exit("C16", "after two evaluations"):
            s.check_success("C16", [(k, 2.0 - i) for i, k in enumerate(s.evals())])
        return result(s, "%d arguments: exit %s" % (n, s.rc))


PROGRAMS = {
    "./prog": "prog",
    "bin/prog": "bin/prog",
    "../W/prog": "prog",
    "prog": "path/prog",
    "PATH": "path/PATH",
    "a b/c d": "a b/c d",
    "./-v": "-v",
    b"./pr\xffog\xc3": b"pr\xffog\xc3",
    "/abs": "prog",
    "/abs/../W/./prog": "prog",
    "./link": "link",
    "linked": "path/linked",
    "./script": "script",
    "script": "path/script",
}
USER_ARGS = [
    [],
    ["a", b"\xff\xfe", "b"],
    [b"\xc3", "", "\u00e9"],
    ["x%d" % i for i in range(400)],
    ["y" * 100000, "z"],
    ["./prog", "../x", "~", "$PATH"],
    ["1", "1"],
]


def programs(ctx, ch):
    """C16: ways to name the program, and what is done with arguments of any bytes, size and number."""
    name = ch.of(list(PROGRAMS))
    ua = ch.of(USER_ARGS)
    sep = ch.n(2) == 0
    opts = ch.of([[], ["-k", "1 h"]])
    out = ch.n(2) == 1
    with Session(ctx, SPEC, ["-n", "2"] + opts, out_dir=out) as s:
        base = os.path.basename(s.dir)
        given = name.replace("/W/", "/%s/" % base) if isinstance(name, str) else name
        rel = PROGRAMS[name]
        if name == "/abs":
            given = os.path.join(s.dir, "prog")
        elif name == "/abs/../W/./prog":
            given = "%s/../%s/./prog" % (s.dir, base)
        path = os.path.join(os.fsencode(s.dir), os.fsencode(rel))
        if not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        real = path
        if "link" in str(name):
            real = path + b"-target"
            os.symlink(os.path.basename(real), path)
        if "script" in str(name):
            # through a shell, as this file would otherwise be held open by whatever another thread starts
            subprocess.run(["sh", "-c", 'printf "#!%s\\n" "$1" > "$2"', "sh", ctx.child, real], check=True)
        else:
            subprocess.run(["cp", ctx.child, real], check=True)
        os.chmod(real, 0o755)
        s.env["PATH"] = os.path.join(s.dir, "path") + ":/usr/bin:/bin"
        s.cmd = s.cmd[:s.cmd.index("--")] + (["--"] if sep else []) + [given] + ua
        want = [os.fsencode(x) for x in [given] + ua]
        if "script" in str(name):
            want = [os.fsencode(ctx.child), path if name == "script" else os.fsencode(given)] + want[1:]
        s.start()
        acc = []
        for i in range(2):
            if not s.wait_evals(i + 1, "of %r" % given, "C16"):
                break
            k = s.evals()[i]
            if k.argv[:-2] != want or len(k.argv) != len(want) + 2:
                s.bad("C16", "the program was started with %s, expected are %s, parameters and seed" % ([a[:80] for a in k.argv], [a[:80] for a in want]))
                break
            judge_argv(s, k, i)
            acc.append((k, 2.0 - i))
            if i and len(want) < 5:
                s.finish(k, b"no", 2, err=b"why")
            else:
                s.accept_val(k, 2 - i)
        if not s.bads and s.wait_exit("C16", "after two evaluations"):
            if len(want) < 5:
                s.check_failure("C16")
                if out:
                    judge_dump(s, k, b"no", b"why")
            else:
                s.check_success("C16", acc)
        return result(s, "%r %d arguments: exit %s" % (name, len(ua), s.rc))


def judge_argv(s, k, i):
    try:
        p = k.params
        if not isinstance(p, dict) or sorted(p) != ["x", "y", "z"]:
            raise ValueError("keys")
        if not isinstance(p["x"], float) or not -8 <= p["x"] <= 8 or type(p["y"]) is not int or p["z"] not in ("a", "b;c", "d"):
            raise ValueError("values")
        if i == 0 and p != {"x": 1.0, "y": 3, "z": "a"}:
            raise ValueError("not the initial value")
    except ValueError as e:
        s.bad("C16", "the parameters are %r (%s)" % (k.argv[-2], e))
    if not re.fullmatch(rb"[0-9]+", k.argv[-1]) or int(k.argv[-1]) >= 1 << 64:
        s.bad("C16", "the seed is %r" % k.argv[-1])


def strings(ctx, ch):
    """C16: strings that need quoting as names and as values."""
    q = lambda t: json.dumps(t, ensure_ascii=max(t, default="a") < "\U00010000")
    pool = [h for h in HOSTILE if h not in ("type", "init")] + ["\u0000", "\u007f", "a" * 900, "type:", "null", "1", "true", "\ud7ff\ue000", "\r", "]", "&a", "!t"]
    a = ch.of(pool)
    b = ch.of(["enum", "key", "variant"])
    if b == "enum":
        spec = "e:\n  type: enum\n  values: [%s, other]\n  init: %s\n" % (q(a), q(a))
        want = {"e": a}
    elif b == "key":
        spec = "%s: {type: bool, init: true}\nother: {type: int, init: 1, scale: 1}\n" % q(a)
        want = {a: True, "other": 1}
    else:
        spec = "v:\n  type: variant\n  init: %s\n  %s: {type: bool, init: true}\n  other: {type: const}\n" % (q(a), q(a))
        want = {"v": {a: True}}
    with Session(ctx, spec, ["-n", "1"], out_dir=True).start() as s:
        if s.wait_evals(1, "of a spec with the string %r" % a, "C16"):
            k = s.evals()[0]
            try:
                if k.params != want:
                    s.bad("C16", "the parameters are %r, expected %r" % (k.argv[-2], want))
            except ValueError:
                s.bad("C16", "the parameters are not JSON: %r" % k.argv[-2])
            s.accept_val(k, 1)
            if s.wait_exit("C16", "after one evaluation"):
                s.check_success("C16", [(k, 1.0)] if not s.bads else [])
                bs = s.read("best_seen.json")
                if bs is None or util.parse(bs) != want:
                    s.bad("C16 C14", "the best-seen file holds %r" % bs)
                judge_files(s, "budget", [(k, 1.0)], 0, [(k, "1")])
        return result(s, "%s %s: exit %s" % (b, a[:20], s.rc))


ENC = {
    # accepted, with the value
    b'{"objFuncVal": 1}': 1.0,
    b'{"objFuncVal":1.5}\n': 1.5,
    b' \n\t{ "objFuncVal" : -2.5e-3 } \r\n\n': -0.0025,
    b'{"objFunc\\u0056al": 1}': 1.0,
    b'{"objFuncVal": 1E300}': 1e300,
    b'{"objFuncVal": -0.0}': 0.0,
    b'{"objFuncVal": 0}': 0.0,
    b'{"objFuncVal": -7}': -7.0,
    b'{"objFuncVal": 12345678901234567890}': 12345678901234567890.0,
    b'{"objFuncVal": 5e-324}': 5e-324,
    b'{"objFuncVal": 1e-400}': 0.0,
    # rejected
    b'{"objFuncVal": null}': None,
    b"{}": None,
    b" { }\n": None,
    b'{\n "objFuncVal":\n null\n}\n': None,
}
for _e in (
    b"", b"\n", b"1.5", b"[1.5]", b"[]", b"[null]", b'"x"', b"true", b'{"objFuncVal": "1"}', b'{"objFuncVal": true}', b'{"objFuncVal": [1]}', b'{"objFuncVal": {}}',
    b'{"objFuncVal": 1, "x": 2}', b'{"x": 2, "objFuncVal": 1}', b'{"x": 2}', b'{"objfuncval": 1}', b'{"objFuncVal ": 1}', b'{"": 1}', b'{"objFuncVal": 1}{"objFuncVal": 1}', b'{"objFuncVal": 1} x',
    b'x {"objFuncVal": 1}', b'{"objFuncVal": NaN}', b'{"objFuncVal": Infinity}', b'{"objFuncVal": 1e999}', b'{"objFuncVal": -1e999}', b'{"objFuncVal": 1', b"{'objFuncVal': 1}", b'{"objFuncVal": 1,}',
    b'{"objFuncVal": 01}', b'{"objFuncVal": +1}', b'{"objFuncVal": .5}', b'{"objFuncVal": 0x1}', b'{"objFuncVal": 1.}', b'{"objFuncVal": }', b'{"objFuncVal" 1}', b'{objFuncVal: 1}', b'{"objFuncVal": 1} // c',
    b"\xef\xbb\xbf{\"objFuncVal\": 1}", b'{"objFuncVal": 1}\x00', b'{"objFuncVal": \xff}', b"\xff", b'\x00{"objFuncVal": 1}', b'[{"objFuncVal": 1}]', b'"{\\"objFuncVal\\": 1}"', b'{"objFuncVal": 1}\n{"objFuncVal": 2}\n',
    b"objFuncVal: 1", b"warning\n{\"objFuncVal\": 1}\n", b'{"objFuncVal": "NaN"}', b'{"objFuncVal": null, "error": "x"}', b'{"error": "x"}', b"1", b"{", b"}", b"[[1]]", b'{"objFuncVal": nul}', b'{"objFuncVal": 1 2}',
):
    ENC[_e] = "error"


def encodings(ctx, ch):
    """C16: what an objective function program may print, and how it may end."""
    at = ch.n(2)
    out = ch.n(2) == 1
    enc = ch.of(list(ENC))
    end = ch.of(["exit 0"] if ENC[enc] == "error" and not ctx.thorough else ["exit 0", "exit 1", "exit 127", "SIGTERM", "SIGKILL", "SIGSEGV", "noisy exit 0"])
    want = ENC[enc]
    err = b"some diagnostics\n" if end != "exit 0" else b""
    if end not in ("exit 0", "noisy exit 0"):
        want = "error"
    with Session(ctx, SPEC, ["-n", "2"], out_dir=out).start() as s:
        acc, order = [], []
        rej = 0
        for i in range(2):
            if not s.wait_evals(i + 1, "after %r" % (enc if i > at else b"",), "C16"):
                break
            k = s.evals()[i]
            if i != at:
                acc.append((k, 1e299))
                order.append((k, "1e299"))
                s.accept_val(k, 1e299)
                continue
            if end.startswith("SIG"):
                s.finish(k, enc, err=err, sig=int(getattr(signal, end)))
            else:
                s.finish(k, enc, int(end.split()[-1]), err=err)
            if want == "error":
                break
            if want is None:
                rej += 1
                order.append((k, "null"))
            else:
                acc.append((k, want))
                order.append((k, repr(want)))
        if not s.bads and s.wait_exit("C16", "after an answer %r" % enc):
            if want == "error":
                s.settle()
                s.check_failure("C16")
                if len(s.evals()) != at + 1:
                    s.bad("C16", "evaluations were started after the answer %r with %s" % (enc, end))
                if out:
                    judge_dump(s, k, enc, err)
            else:
                s.check_success("C16", acc)
                if out:
                    judge_files(s, "budget", acc, rej, order)
                    for f in ("summary_report.txt", "detailed_report.csv", "best_seen.json"):
                        if s.read(f) is None:
                            s.bad("C16", "no file %s" % f)
            if s.bads:
                s.bads = [(p, "%s (the answer %r, %s, of evaluation %d)" % (m, enc, end, at)) for p, m in s.bads]
        return result(s, "%r %s: exit %s" % (want, end, s.rc))


def endings(ctx, ch):
    """C06, C16: every way a process can end, after output that would do."""
    out = ch.of([b'{"objFuncVal": 1.0}\n', b'{"objFuncVal": 1.0}', b"", b"{}\n", b'{"objFuncVal": null}'])
    if ch.n(2):
        code, sig = 0, ch.of([x for x in range(1, 65) if x not in (17, 18, 19, 20, 21, 22, 23, 28, 32, 33)])
    else:
        code, sig = 1 + ch.n(255), None
    err = ch.of([b"", b"diagnostics\n"])
    with Session(ctx, SPEC, ["-n", "3"], out_dir=True).start() as s:
        if not s.wait_evals(1, "", "C16"):
            return result(s, "not started")
        s.accept_val(s.evals()[0], 5.0)
        if not s.wait_evals(2, "", "C16"):
            return result(s, "not started")
        k = s.evals()[1]
        s.finish(k, out, code, err=err, sig=sig)
        if s.pump(lambda: s.rc is not None or len(s.evals()) > 2) and len(s.evals()) > 2:
            s.bad("C06 C16", "the run goes on after an objective function process ended with %s" % ("signal %d" % sig if sig else "exit status %d" % code))
        elif s.wait_exit("C06 C16", "after a failed evaluation"):
            s.check_failure("C06 C16")
            s.check_no_panic("C06 C15 C16")
            judge_dump(s, k, out, err)
        if s.bads:
            s.bads = [(p, "%s (the output was %r, the end %s)" % (m, out, "signal %d" % sig if sig else "exit status %d" % code)) for p, m in s.bads]
        return result(s, "%s %s: exit %s" % (code, sig, s.rc))


ANSWER_BASES = [b'{"objFuncVal": 1.5}', b'{"objFuncVal":null}', b"{}"]
ANSWER_CHARS = [b'"', b"{", b"}", b"[", b"]", b":", b",", b" ", b"0", b"7", b"-", b".", b"e", b"E", b"+", b"n", b"\\", b"/", b"\n", b"\x00", b"\xc3", b"'", b"#", b"_"]
OTHER_KEYS = [
    "objFuncval", "objfuncVal", "ObjFuncVal", "OBJFUNCVAL", "obj_func_val", "obj-func-val", "objFunc", "objFuncValue", "objFuncVals", "objFuncVa", "bjFuncVal", "func", "val", "value", "result",
    "objective", "cost", "obj", "f", "objFuncVal\\u0000", "objFuncVal\\n", " objFuncVal", "0", "null", "status", "error", "rejected", "seed", "objectiveFunctionValue", "obj func val", "objFuncVal.0",
]


def by_the_book(b):
    """What an answer means: a number, None for a rejection, or "error"."""

    def const(x):
        raise ValueError(x)

    def pairs(p):
        if len({k for k, _ in p}) != len(p):
            raise ValueError("twice")
        return dict(p)

    try:
        t = json.loads(b.decode("utf-8"), parse_constant=const, object_pairs_hook=pairs)
    except (ValueError, RecursionError):
        return "error"
    if not isinstance(t, dict) or set(t) - {"objFuncVal"}:
        return "error"
    v = t.get("objFuncVal")
    if v is None:
        return None
    if isinstance(v, bool) or not isinstance(v, (int, float)) or float(v) in (float("inf"), float("-inf")):
        return "error"
    return float(v)


def edits():
    out = {}
    for base in ANSWER_BASES:
        for i in range(len(base) + 1):
            for c in ANSWER_CHARS:
                out[base[:i] + c + base[i:]] = 1
                if i < len(base):
                    out[base[:i] + c + base[i + 1:]] = 1
            if i < len(base):
                out[base[:i] + base[i + 1:]] = 1
                out[base[:i] + base[i:i + 1] + base[i:]] = 1
                out[base[:i + 1]] = 1
                out[base[i:]] = 1
                out[base[:i] + base[i + 1:i + 2] + base[i:i + 1] + base[i + 2:]] = 1
                out[base[:i] + base[i:i + 1].swapcase() + base[i + 1:]] = 1
    for k in OTHER_KEYS:
        for t in ('{"%s": 1}', '{"%s": null}', '{"objFuncVal": 2, "%s": 1}', '{"%s": 1, "objFuncVal": null}'):
            out[(t % k).encode()] = 1
    return [e for e in out if b'"objFuncVal"' not in e.replace(b'"objFuncVal"', b"", 1)]


EDITS = edits()


def damaged(ctx, ch):
    """C16: every edit of one character of an answer, judged by an independent reading of JSON."""
    ans = EDITS[ch.n(len(EDITS))]
    want = by_the_book(ans)
    with Session(ctx, SPEC, ["-n", "2"], out_dir=True).start() as s:
        if not s.wait_evals(1, props="C16"):
            return result(s, "not started")
        k = s.evals()[0]
        s.finish(k, ans)
        if want != "error":
            if not s.wait_evals(2, "after the answer %r" % ans, "C16"):
                return result(s, "no second")
            s.accept_val(s.evals()[1], "1e299")
        if s.wait_exit("C16", "after the answer %r" % ans):
            if want == "error":
                s.settle()
                s.check_failure("C16")
                if len(s.evals()) != 1:
                    s.bad("C16", "another evaluation was started")
                judge_dump(s, k, ans, b"")
            else:
                acc = [(s.evals()[1], 1e299)] + ([] if want is None else [(k, want)])
                s.check_success("C16", acc)
                order = [(k, "null" if want is None else repr(want)), (s.evals()[1], "1e299")]
                judge_files(s, "budget", acc, int(want is None), order)
        s.bads = [(p, "%s (the answer %r)" % (m, ans)) for p, m in s.bads]
        return result(s, "%r: exit %s" % (want if want in (None, "error") else "a number", s.rc))


def undebug(b):
    """The text of a quoted string as Rust's Debug writes it."""
    t = b.decode(errors="replace")
    m = re.match(r'"((?:[^"\\]|\\.)*)"', t, re.S)
    if not m:
        return t
    return re.sub(
        r"\\(u\{([0-9a-fA-F]+)\}|.)",
        lambda x: chr(int(x.group(2), 16)) if x.group(2) else {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x.group(1), x.group(1)),
        m.group(1),
        flags=re.S,
    )


def judge_dump(s, k, out, err):
    """Files with the failing arguments and output."""
    all_files = {f: s.read(f) for f in os.listdir(s.out)} if os.path.isdir(s.out) else {}
    rest = {f: b for f, b in all_files.items() if f not in ("detailed_report.csv", "best_seen.json", "summary_report.txt")}
    if not any((k.json_text in b.decode(errors="replace") or undebug(b) == k.json_text) and b.decode(errors="replace").split()[-1:] == [str(k.seed)] for b in rest.values()):
        s.bad("C16", "no file holds the failing arguments %s %d: %s" % (k.json_text, k.seed, rest))
    if out not in rest.values():
        s.bad("C16", "no file holds the failing output: %s" % rest)
    if err and err not in rest.values():
        s.bad("C16", "no file holds the failing error output: %s" % rest)


VALID = "x: {type: real, init: 1.0, scale: 0.5}\n"
INVALID = [
    ["--num-concurrent", "0"], ["--num-concurrent=-1"], ["--num-concurrent", "abc"], ["--num-concurrent="], ["--num-concurrent", "1.5"], ["--num-concurrent", "18446744073709551616"],
    ["--sample-size", "0"], ["--sample-size=-1"], ["--sample-size", "abc"], ["--sample-size", "1.5"],
    ["-n", "abc"], ["-n=-1"], ["-n", "1.5"], ["-n", ""],
    ["-t", "abc"], ["-t", "NaN"], ["-t", "inf"], ["-t=-inf"], ["-t", "1e999"], ["-t", ""],
    ["--terminate-after", "abc"], ["--terminate-after", "5 parsecs"], ["--terminate-after", ""],
    ["-k", "abc"], ["-k", "5 parsecs"], ["-k", ""],
    ["--initial-guess", "{"], ["--initial-guess", ""], ["--initial-guess", "[]"], ["--initial-guess", "1.0"], ["--initial-guess", "null"], ["--initial-guess", '{"x": 1.0, "y": 2}'], ["--initial-guess", "{}"],
    ["--initial-guess", '{"x": "1"}'], ["--initial-guess", '{"x": 1.0} x'], ["--initial-guess", "abc"], ["--initial-guess", '{"x": null}'], ["--initial-guess", '{"x": 1e999}'],
    ["--foo"], ["--foo=1"], ["-z"], ["--max-obj-func-eval", "x"], ["--num-concurrent", "0", "--sample-size", "0"], ["--no-signal-result=1"], ["--force=1"],
]
BAD_SPECS = [
    None, "", "x", "- x", "x: {type: foo}", "x: {type: real, init: 1.0, scale: 0.0}", "x: {type: real, init: 9.0, scale: 1.0, max: 1.0}", "{", b"\xff\xfe", b"caf\xe9: {type: const}\n", "x: {type: bool}", "x: 1", "\t", "x: {type: real, init: 1.0, scale: 1.0, foo: 1}",
    "x: {type: enum, values: [a, a], init: a}", "a: &x [*x]", "x: {type: array, size: 1, valueType: {type: bool, init: true}}", "typeDefx: {type: foo}", "%", "x: {type: anon map, initSize: 3, maxSize: 2, valueType: {type: const}}", "null", "\0",
]
DIRS = ["none", "fresh", "existing", "existing with force"]


def fill(path):
    os.makedirs(os.path.join(path, "sub"))
    for n in ("best_seen.json", "mine.txt", os.path.join("sub", "deep.txt")):
        with open(os.path.join(path, n), "w") as f:
            f.write("kept " + n)
    own(path)


def own(path):
    if util.can_drop():
        os.lchown(path, util.UID, util.UID)
        for r, ds, fs in os.walk(path):
            for x in ds + fs:
                os.lchown(os.path.join(r, x), util.UID, util.UID)


def snapshot(path):
    if os.path.islink(path):
        return ("link", os.readlink(path), snapshot(os.path.realpath(path)) if os.path.exists(path) else None)
    if os.path.isfile(path):
        with open(path, "rb") as f:
            return ("file", f.read(), os.stat(path).st_mtime_ns, os.stat(path).st_mode)
    if os.path.isdir(path):
        return ("dir", os.stat(path).st_mode, {n: snapshot(os.path.join(path, n)) for n in sorted(os.listdir(path))})
    return None


def refused(ctx, ch):
    """C16: invalid options and spec files start nothing."""
    kind = ch.of(["option", "spec", "program", "usage"])
    d = ch.of(DIRS)
    args, spec, prog, ua = ["-n", "2"], VALID, None, []
    if kind == "option":
        o = ch.of(INVALID)
        args = (args if o[0] != "-n" else []) + o
    elif kind == "spec":
        spec = ch.of(BAD_SPECS)
    elif kind == "usage":
        spec = ch.of(["no spec option", "spec option without a value"])
    else:
        prog = ch.of(["/nonexistent/program", "not-executable", "directory", "", "no-such-command-in-path", "bad-format"])
    with Session(ctx, None, [], prog=prog) as s:
        path = os.path.join(s.dir, "spec.yaml")
        if kind != "usage":
            if spec is None:
                path = ch.of([path, s.dir, os.path.join(s.dir, "x", "y")])
            else:
                with open(path, "wb") as f:
                    f.write(spec if isinstance(spec, bytes) else spec.encode())
            args = ["-s", path] + args
        elif spec != "no spec option":
            args = args + ["-s"]
        if prog == "not-executable":
            prog = ctx.scratch.file("not-executable", "#!/bin/sh\necho hi\n")
        elif prog == "directory":
            prog = s.dir
        elif prog == "bad-format":
            prog = os.path.join(s.dir, "bad-format")
            with open(prog, "w") as f:
                f.write("\x7fELF nonsense")
            os.chmod(prog, 0o755)
        out = os.path.join(s.dir, "out")
        if d != "none":
            args += ["-o", out]
        if d.startswith("existing"):
            fill(out)
        if d == "existing with force":
            args += ["-f"]
        if spec == "spec option without a value":
            args.remove("-s")
            args.append("-s")
        s.cmd = [ctx.cli] + args + ([] if spec == "spec option without a value" else ["--", prog if prog is not None else ctx.child] + ua)
        before = snapshot(out)
        s.start()
        s.pump(lambda: s.rc is not None or s.evals(), PATIENCE)
        what = " ".join(map(repr, s.cmd[1:]))
        if s.evals():
            s.bad("C16", "an evaluation was started by %s" % what)
        elif s.wait_exit("C16", "with %s" % what):
            s.check_failure("C16")
            s.check_no_panic("C16")
            s.settle()
            if s.evals():
                s.bad("C16", "an evaluation was started by %s" % what)
            if d == "existing" and snapshot(out) != before:
                s.bad("C16", "the existing output directory was changed by %s" % what)
            s.bads = [(p, m + " (%s)" % what) for p, m in s.bads]
        return result(s, "%s %s: exit %s" % (kind, d, s.rc))


STATES = ["absent", "absent below an absent one", "empty", "filled", "file", "link to a filled one", "dangling link", "read-only filled"]


def directories(ctx, ch):
    """C16: states of the output directory."""
    st = ch.of(STATES)
    force = ch.n(2) == 1
    end = ch.of(["success", "failure"])
    slash = ch.of(["", "/"]) if st != "file" else ""
    with Session(ctx, SPEC, []) as s:
        out = os.path.join(s.dir, "out")
        real = out
        if st == "absent below an absent one":
            out = os.path.join(s.dir, "a", "b", "out")
        elif st == "empty":
            os.mkdir(out)
            own(out)
        elif st in ("filled", "read-only filled"):
            fill(out)
            if st.startswith("read-only"):
                os.chmod(out, 0o555)
        elif st == "file":
            with open(out, "w") as f:
                f.write("kept")
            own(out)
        elif st == "link to a filled one":
            real = os.path.join(s.dir, "target")
            fill(real)
            os.symlink(real, out)
        elif st == "dangling link":
            os.symlink(os.path.join(s.dir, "nowhere"), out)
        before = snapshot(out)
        s.out = out
        s.cmd = [ctx.cli, "-s", os.path.join(s.dir, "spec.yaml"), "-n", "1", "-o", out + slash] + (["--force"] if force else []) + ["--", ctx.child]
        s.start()
        s.pump(lambda: s.rc is not None or s.evals(), PATIENCE)
        exists = st in ("empty", "filled", "file", "link to a filled one", "read-only filled")
        if exists and not force:
            if s.evals():
                s.bad("C16", "an evaluation was started though the output directory exists (%s)" % st)
            elif s.wait_exit("C16", "with an existing output directory"):
                s.check_failure("C16")
                if snapshot(out) != before:
                    s.bad("C16", "the existing output directory (%s) was changed" % st)
        elif s.evals():
            k = s.evals()[0]
            if end == "success":
                s.accept_val(k, 1)
                acc = [(k, 1.0)]
            else:
                s.finish(k, b"bad output", 1, err=b"bad error")
                acc = []
            if s.wait_exit("C16", "after one evaluation"):
                if acc:
                    s.check_success("C16", acc)
                    for f in ("summary_report.txt", "detailed_report.csv", "best_seen.json"):
                        if s.read(f) is None:
                            s.bad("C16", "no file %s" % f)
                    judge_files(s, "budget", acc, 0, [(k, "1")])
                else:
                    s.check_failure("C16")
                    judge_dump(s, k, b"bad output", b"bad error")
        elif s.wait_exit("C16", "with the output directory %s" % st):
            s.check_failure("C16")
            s.check_no_panic("C16")
            if st in ("absent", "absent below an absent one", "empty") or (st == "filled" and force):
                s.bad("C16", "no evaluation with the output directory %s: %s" % (st, s.stderr()[-300:]))
        if st.startswith("read-only") and os.path.isdir(out):
            os.chmod(out, 0o755)
        return result(s, "%s force %s %s: exit %s" % (st, force, end, s.rc))


def options(ctx, ch):
    """C16: every combination of valid options."""
    pick = [ch.n(2) for _ in range(8)]
    short = pick[0]
    n, c = 4, 1 + pick[2]
    args = ["-n" if short else "--max-obj-func-eval", str(n)]
    if pick[1]:
        args += ["--target-obj-func-val" if not short else "-t", "0.5"]
    if pick[2]:
        args += ["--num-concurrent", "2"]
    if pick[3]:
        args += ["--terminate-after", "2 h"]
    if pick[4]:
        args += ["-k" if short else "--kill-obj-func-after", "1 h"]
    if pick[5]:
        args += ["--sample-size", "2"]
    if pick[6]:
        args += ["--initial-guess", '{"x": -3.25, "y": 7, "z": "d"}']
    if pick[7]:
        args += ["-v" if short else "--verbose", "--no-signal-result"]
    with Session(ctx, SPEC, args, out_dir=True).start() as s:
        acc, order = [], []
        done = 0
        vals = ["3", "null", "2", "0.25"] if not pick[5] else ["3", "2.5", "2", "1"]
        stop = False
        while done < n and not stop:
            if not s.wait_evals(min(n, done + c), "with %s" % args, "C16"):
                break
            k = flight(s)[0]
            if done == 0 and pick[6] and s.evals()[0].params != {"x": -3.25, "y": 7, "z": "d"} and c == 1:
                s.bad("C16 C11", "the first evaluation is of %s, not of the initial guess" % s.evals()[0].json_text)
            v = vals[done]
            order.append((k, v))
            if v != "null":
                acc.append((k, float(v)))
            s.accept_val(k, v)
            done += 1
        if not s.bads and s.wait_exit("C16", "after %d evaluations" % done):
            s.settle()
            if len(s.evals()) != n:
                s.bad("C16", "%d evaluations instead of %d with %s" % (len(s.evals()), n, args))
            if not pick[5]:
                judge_files(s, "budget", acc, vals.count("null"), order)
            elif s.rc == 0:
                s.check_success("C16", [])
                got = util.parse(s.stdout())
                if not any(k.params == got for k, _ in acc):
                    s.bad("C16", "the result %s was never evaluated" % got)
                for f in ("summary_report.txt", "detailed_report.csv", "best_seen.json"):
                    if s.read(f) is None:
                        s.bad("C16", "no file %s" % f)
        return result(s, "%s: exit %s" % (" ".join(args), s.rc))


# ------------------------------------------------------------------------------------------ C09

DET_SPECS = [
    SPEC,
    "type: anon map\ninitSize: 3\nminSize: 1\nmaxSize: 9\nvalueType:\n  a: {type: real, init: 0.0, scale: 1.0}\n  b: {type: optional, initPresent: true, valueType: {type: bool, init: false}}\n",
    "v:\n  type: variant\n  init: p\n  p: {type: array, size: 3, valueType: {type: int, init: 0, scale: 5}}\n  q: {u: {type: bool, init: true}, w: {type: enum, values: [r, s, t], init: s}}\nk0: {type: bool, init: true}\nk1: {type: real, init: 1.0, scale: 2.0}\nk2: {type: int, init: 1, scale: 2}\nk3: {type: bool, init: true}\nk4: {type: bool, init: true}\n",
]


def fval(params, seed, what):
    h = hashlib.md5(("%s %s %s" % (json.dumps(params, sort_keys=True), seed if what else 0, what)).encode()).digest()
    return "null" if h[0] % 7 == 0 else repr(int.from_bytes(h[1:5], "little") / 2**31 - 1)


def repeat(ctx, ch):
    """C09: the same answers in the same order give the same run, in every process."""
    spec = ch.of(DET_SPECS)
    c = ch.of([1, 2, 4])
    ss = ch.of([1, 2])
    order = ch.of(["oldest", "newest"]) if c > 1 else "oldest"
    guess = ch.n(2) if spec is SPEC else 0
    n = 40 if ctx.thorough else 24
    runs = []
    bads, log, steps = [], [], 0
    for rep in range(2):
        args = ["-n", str(n), "--num-concurrent", str(c), "--sample-size", str(ss)]
        if guess:
            args += ["--initial-guess", '{"x": 2.5, "y": -4, "z": "b;c"}']
        # another environment and (through the scratch directory) other paths must not matter
        with Session(ctx, spec, args, out_dir=True, env={"NOISE": "x" * (100 * rep)}).start() as s:
            done = 0
            while done < n:
                if not s.wait_evals(min(n, done + c), props="C09"):
                    break
                fl = sorted(flight(s), key=lambda k: k.seed)
                k = fl[0 if order == "oldest" else -1]
                if rep and done in (3, 11):
                    time.sleep(1.2)  # nor how long evaluations take
                s.accept_val(k, fval(k.params, k.seed, done % 2))
                done += 1
            if s.wait_exit("C09", "after its evaluations"):
                ev = sorted((k.seed, k.json_text) for k in s.evals())
                rs = [(r.get("id"), r.get("seed"), r.get("val"), r.get("res"), r.get("source"), tuple(r.get("probs", ())), r.get("scale")) for r in rows(s) or []]
                # the last ones have no successor to wait for: which of them is processed first is not known
                rs = rs[:n - c] + sorted(rs[n - c:], key=repr)
                runs.append((s.rc, s.stdout(), ev, rs, summary(s)))
            bads += s.bads
            log += s.log
            steps += s.steps
    if len(runs) == 2 and runs[0] != runs[1]:
        a, b = runs
        for what, x, y in zip(("exit status", "result", "evaluations", "records", "summary"), a, b):
            if x != y:
                if isinstance(x, list):
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    x, y = x[i:i + 1], y[i:i + 1]
                bads.append(("C09", "two runs with the same answers (c=%d, sample size %d) differ in their %s: %s and %s" % (c, ss, what, x, y)))
                break
    return dict(bads=bads, log=log, outcome=repr(runs[0][1] if runs else None), steps=steps)


WORLDS = ["another directory", "another environment", "one processor", "another mask", "another order of options", "another place of the files", "later", "a low priority", "a terminal's size", "the top directory"]


def alike(ctx, ch):
    """C09: hundreds of evaluations, one at a time, again in a process whose surroundings differ; C15: with the log."""
    spec = ch.of(DET_SPECS)
    ss = ch.of([1, 3])
    out = ch.n(2) == 1
    guess = ch.n(2) if spec is SPEC else 0
    worlds = WORLDS if ctx.prop == "C09" else ["with the log"]
    n = 4000 if ctx.thorough else 500
    runs = []
    bads, log, steps = [], [], 0
    for world in [None] + worlds:
        opts = [["-n", str(n)], ["--num-concurrent", "1"], ["--sample-size", str(ss)]]
        if guess:
            opts.append(["--initial-guess", '{"x": 2.5, "y": -4, "z": "b;c"}'])
        kw = {}
        limits = None
        if world == "another order of options":
            opts.reverse()
        elif world == "with the log":
            opts.insert(1, ["-v"])
        elif world == "another directory":
            kw["cwd"] = "/usr/bin"
        elif world == "the top directory":
            kw["cwd"] = "/"
        elif world == "another environment":
            kw["env"] = {"RUST_LOG": "trace", "LANG": "de_DE.UTF-8", "TZ": "Asia/Kolkata", "RUST_BACKTRACE": "full", "SEED": "7", "TOKIO_WORKER_THREADS": "3", "TMPDIR": "/", "USER": "u" * 5000}
        elif world == "a terminal's size":
            kw["env"] = {"COLUMNS": "20", "LINES": "3", "TERM": "xterm", "NO_COLOR": "1"}
        elif world == "one processor":
            def limits():
                os.sched_setaffinity(0, {min(os.sched_getaffinity(0))})
        elif world == "another mask":
            def limits():
                os.umask(0o27)
        elif world == "a low priority":
            def limits():
                os.nice(5)
        elif world == "later":
            time.sleep(1.1)
        with Session(ctx, spec, sum(opts, []), prog=ctx.auto, out_dir=out, limits=limits, **kw) as s:
            path = os.path.join(s.dir, "log")
            if world == "another place of the files":
                top = os.path.join(s.dir, "a b", "long" * 20)
                os.makedirs(top)
                os.rename(os.path.join(s.dir, "spec.yaml"), os.path.join(top, "other.yml"))
                s.cmd[s.cmd.index("-s") + 1] = os.path.join(top, "other.yml")
            s.cmd += [path]
            s.start()
            if not s.pump(lambda: s.rc is not None, 200):
                s.bad("C09 C15", "cambrian does not end after %d evaluations (%s)" % (n, world))
            else:
                try:
                    with open(path, "rb") as f:
                        ev = f.read().split(b"\n")
                except OSError:
                    ev = []
                s.steps += len(ev)
                rs = [(r.get("id"), r.get("seed"), r.get("val"), r.get("res"), r.get("source"), tuple(r.get("probs", ())), r.get("scale")) for r in rows(s) or []] if out else []
                runs.append((world, s.rc, s.stdout(), ev, rs, summary(s) if out else None))
            bads += s.bads
            log += s.log
            steps += s.steps
    for b in runs[1:]:
        for what, x, y in zip(("exit status", "result", "evaluations", "records", "summary"), runs[0][1:], b[1:]):
            if x != y:
                if isinstance(x, list):
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    x, y = x[i:i + 1], y[i:i + 1]
                bads.append(("C09 C15".split()[ctx.prop == "C15"], "two runs of %d evaluations, the second with '%s', differ in their %s: %s and %s" % (n, b[0], what, x, y)))
                break
    return dict(bads=bads, log=log, outcome=repr(runs[0][2] if runs else None), steps=steps)


# ------------------------------------------------------------------------------------------ C10

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (600 << 20, 600 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def chain(n):
    s = "typeDef t0: {type: const}\n"
    for i in range(1, n + 1):
        s += "typeDef t%d: {type: optional, initPresent: true, valueType: {type: t%d}}\n" % (i, i - 1)
    return s + "x: {type: t%d}\n" % n


def doubling(n):
    s = "typeDef t0: {type: const}\n"
    for i in range(1, n + 1):
        s += "typeDef t%d: {a: {type: t%d}, b: {type: t%d}}\n" % (i, i - 1, i - 1)
    return s + "x: {type: t%d}\n" % n


SIZES = {
    "chain of 10 definitions": lambda: chain(10),
    "chain of 300 definitions": lambda: chain(300),
    "chain of 1000 definitions": lambda: chain(1000),
    "definition doubled 3 times": lambda: doubling(3),
    "definition doubled 10 times": lambda: doubling(10),
    "definition doubled 30 times": lambda: doubling(30),
    "chain of 8000 definitions": lambda: chain(8000),
    "wide sub of 20000": lambda: "".join("p%d: {type: const}\n" % i for i in range(20000)),
    "enum of 20000": lambda: "x: {type: enum, init: e1, values: [%s]}\n" % ", ".join("e%d" % i for i in range(20000)),
    "aliases": lambda: "a: &a {type: const}\n" + "".join("b%d: *a\n" % i for i in range(200)),
    "exponential aliases": lambda: "a0: &a0 {x: {type: const}}\n" + "".join("a%d: &a%d {p: *a%d, q: *a%d}\n" % (i, i, i - 1, i - 1) for i in range(1, 25)),
    "deep flow": lambda: "{x: " * 4000,
    "deep block": lambda: "".join(" " * i + "x:\n" for i in range(2000)),
    "long key": lambda: "k" * 500000 + ": {type: const}\n",
    "a megabyte of text": lambda: "x" * (1 << 20),
}


def documents(ctx, ch):
    """C10: large documents, in a process of its own with little memory."""
    name = ch.of(list(SIZES))
    with Session(ctx, SIZES[name](), ["-n", "1"], prog="/bin/false", limits=limit_memory).start() as s:
        if not s.pump(lambda: s.rc is not None, 100):
            s.bad("C10", "%s: parsing does not end" % name)
        elif s.rc < 0 or s.rc == 101:
            e = s.stderr()
            why = "stack overflow" if "overflowed its stack" in e else "out of memory" if "memory allocation" in e else e[-200:].strip()
            s.bad("C10", "%s: parsing crashes (%s)" % (name, why))
        return result(s, "%s: exit %s %s" % (name, s.rc, s.stderr()[:80]))


def verdicts(ctx, ch):
    """C10: the tool's exit status for good and bad documents."""
    ok = ch.n(2)
    spec = ch.of(DET_SPECS + [VALID]) if ok else ch.of([x for x in BAD_SPECS if x is not None])
    with Session(ctx, spec, ["-n", "1"]).start() as s:
        s.pump(lambda: s.rc is not None or s.evals(), PATIENCE)
        if ok:
            if not s.evals():
                s.bad("C10", "no evaluation of the well-formed document %r" % spec)
        elif s.evals():
            s.bad("C10", "an evaluation of the malformed document %r" % spec)
        elif s.wait_exit("C10", "with a malformed document"):
            s.check_failure("C10")
        return result(s, "exit %s" % s.rc)


# ------------------------------------------------------------------------------------------ C11


def as_read(text):
    """The double that serde_json's default number parser makes of a number: the digits as one
    integer, then one multiplication or division (see the known finding of C11)."""
    m = re.fullmatch(r"(-?)(\d+)(?:\.(\d+))?(?:[eE]([+-]?\d+))?", text)
    sign, whole, frac, exp = m.group(1), m.group(2), m.group(3) or "", int(m.group(4) or 0)
    sig, cut = 0, False
    for i, d in enumerate(whole + frac):
        if cut or sig * 10 + int(d) >= 1 << 64:
            cut = True
            exp += i < len(whole)
            continue
        sig = sig * 10 + int(d)
        exp -= i >= len(whole)
    f = float(sig)
    while exp < -308:
        f, exp = f / 1e308, exp + 308
    f = f * float("1e%d" % exp) if exp >= 0 else f / float("1e%d" % -exp)
    return -f if sign else f


def reseed(ctx, ch):
    """C11: the reported best seeds the next run."""
    spec = ch.of(DET_SPECS)
    rounds = 3
    guess = None
    bads, log, steps = [], [], 0
    for r in range(rounds):
        args = ["-n", "6"] + (["--initial-guess", guess] if guess else [])
        with Session(ctx, spec, args).start() as s:
            acc = []
            for i in range(6):
                if not s.wait_evals(i + 1, props="C11"):
                    break
                k = s.evals()[i]
                same = lambda read: json.dumps(k.params, sort_keys=True) == json.dumps(read, sort_keys=True)
                if i == 0 and guess and not same(json.loads(guess)):
                    inexact = same(json.loads(guess, parse_float=as_read))
                    s.bad("C11", "%sthe first evaluation is of %s, the guess was %s" % ("inexact number parser: " if inexact else "", k.json_text, guess))
                v = 10 - (i * (r + 3)) % 7
                acc.append((k, float(v)))
                s.accept_val(k, v)
            if s.wait_exit("C11", "after six evaluations"):
                if s.check_success("C11", acc) is not None:
                    guess = s.stdout().decode().strip()
            bads += s.bads
            log += s.log
            steps += s.steps
        if bads:
            break
    return dict(bads=bads, log=log, outcome=str(guess)[:200], steps=steps)


PARTS = {
    "C03": [("budgets", starts, 1), ("masses", masses, 1)],
    "C04": [("stop requests", stops, 1)],
    "C05": [("processes in flight", starts, 2), ("many processes", many, 1)],
    "C06": [("failing processes", failures, 1), ("ways to end", endings, 1), ("obstacles", obstacles, 1)],
    "C07": [("ends", groups, 3), ("time limits", limits, 2), ("in time", in_time, 1), ("patterns of time limits", series, 1), ("waves", waves, 1), ("crowds", crowd, 1)],
    "C08": [("masses", masses, 1)],
    "C09": [("two processes", repeat, 1), ("surroundings", alike, 1)],
    "C10": [("verdicts", verdicts, 1), ("large documents", documents, 1)],
    "C11": [("reported best as the next guess", reseed, 1)],
    "C14": [("files", files, 1), ("masses", masses, 1)],
    "C15": [("outputs", noise, 2), ("megabytes", megabytes, 1), ("durations", durations, 1), ("with the log", alike, 1)],
    "C16": [
        ("argument vectors", arguments, 2), ("programs", programs, 1), ("strings", strings, 1), ("answers", encodings, 2), ("ways to end", endings, 2), ("refused", refused, 2), ("output directories", directories, 1),
        ("option combinations", options, 2), ("damaged answers", damaged, 2), ("masses", masses, 1), ("long parameters", sizes, 1), ("obstacles", obstacles, 1),
    ],
}
SLOW = {"many processes": 3, "time limits": 64, "in time": 48, "patterns of time limits": 48, "waves": 12, "crowds": 24}


def run(ctx):
    frag = dict(parts=[], violations=[], known=[], notes={})
    t0 = time.monotonic()
    parts = PARTS[ctx.prop]
    left_w = sum(w for _, _, w in parts)
    for name, fn, w in parts:
        left = ctx.wall - (time.monotonic() - t0)
        p, v = explore(ctx, name, fn, max(2.0, left * min(1.0, 2.0 * w / left_w)), SLOW.get(name, THREADS))
        left_w -= w
        frag["parts"].append(p)
        frag["violations"] += v
        import sys
        sys.stderr.write("%s: %d executions, %d outcomes, %d diverged, %.1f s%s%s\n" % (
            name, p["executions"], p["outcomes"], p["diverged"], time.monotonic() - t0, ", TRUNCATED" if p["truncated"] else "", ", %d VIOLATIONS" % len(v) if v else ""))
        if p["unconfirmed"]:
            frag["notes"]["unconfirmed " + name] = p["unconfirmed"]
        if any(not ctx.listed(name, x["message"]) for x in v):
            # decided
            frag["notes"]["parts not run"] = [n for n, _, _ in parts[len(frag["parts"]):]]
            break
    return frag


def replay(ctx, v):
    fn = next(f for n, f, _ in PARTS[ctx.prop] if n == v["part"])
    r = execute(ctx, fn, v["choices"])
    for l in r["names"] + r["log"]:
        print(l)
    for b in r["bads"]:
        print("VIOLATED", b)
    return 1 if r["bads"] else 0
