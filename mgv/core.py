"""Case execution: every generated case runs in a forked child with its own scratch
directory, module table and limits, and reports back through a pipe."""
import errno
import hashlib
import json
import os
import resource
import select
import shutil
import signal
import sys
import time
import traceback

REPO = os.environ.get("MGV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPU_LIMIT = 20          # seconds of CPU before a case is re-run with step counting
STEP_BUDGET = 20_000_000  # function entries + jumps inside the code under test
COUNTING = 6            # the limit is so much higher when counting steps


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(f"[{sig}] {msg}")
        self.sig = sig
        self.msg = msg


class _CpuLimit(BaseException):
    pass


class _StepLimit(BaseException):
    pass


class _Died(BaseException):
    """A child of a case ended without an answer."""


TIMER = [0]    # the limit for the current case


class Ctx:
    """What a check's run(case, ctx) gets: scratch dir, labels and the verdict calls."""

    def __init__(self, directory):
        self.dir = directory
        self.labels = {}
        self._nontrivial = False
        self.info = None

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def nontrivial(self, cond=True):
        if cond:
            self._nontrivial = True

    def fail(self, sig, msg):
        raise Violation(sig, msg)

    def check(self, cond, sig, msg):
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg)

    def sut(self, what, func, *args, allowed=(), **kwds):
        """Call code under test; an exception that is not in *allowed* breaks the property."""
        try:
            return func(*args, **kwds)
        except allowed:
            raise
        except Violation:
            raise
        except (Exception, SystemExit) as exc:
            tb = "".join(traceback.format_exception(exc)[-6:])
            raise Violation(
                f"exception:{type(exc).__name__}",
                f"{what} raised {type(exc).__name__}: {exc}\n{tb}",
            ) from None


def _install_step_counter():
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "mgv")
    prefix = os.path.join(REPO, "modulegraph2") + os.sep
    state = [0]

    def start(code, offset):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        state[0] += 1
        if state[0] > STEP_BUDGET:
            raise _StepLimit()

    def jump(code, src, dst):
        if not code.co_filename.startswith(prefix):
            return mon.DISABLE
        state[0] += 1
        if state[0] > STEP_BUDGET:
            raise _StepLimit()

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.register_callback(tool, mon.events.JUMP, jump)
    mon.set_events(tool, mon.events.PY_START | mon.events.JUMP)


def _raised_in_sut(exc):
    """Whether the code under test raised *exc*, and not the check or one of its hooks."""
    sut = os.path.join(REPO, "modulegraph2") + os.sep
    last = None
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        name = frame.f_code.co_filename
        if name.startswith(sut):
            last = "sut"
        elif name.startswith(VERIF + os.sep):
            last = "check"
    return last == "sut"


def _child(check, case, scratch, wfd, counting, verbose):
    def on_prof(signum, frame):
        raise _CpuLimit()

    if not verbose:
        devnull = os.open(os.devnull, os.O_RDWR)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    limit = getattr(check, "CPU_LIMIT", CPU_LIMIT)
    ctx = Ctx(scratch)
    result = {}
    try:
        os.setpgrp()
        TIMER[0] = limit * (COUNTING if counting else 1)
        signal.signal(signal.SIGPROF, on_prof)
        signal.setitimer(signal.ITIMER_PROF, limit * (COUNTING if counting else 1))
        # a single call into C code is not interrupted by the timer
        hard = limit * (COUNTING if counting else 1) + 20
        resource.setrlimit(resource.RLIMIT_CPU, (hard, hard))
        mem = getattr(check, "MEM_LIMIT", 3 << 30)
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.chdir(scratch)
        if counting:
            _install_step_counter()
        check.run(case, ctx)
        result["status"] = "ok"
    except Violation as exc:
        result.update(status="violation", sig=exc.sig, msg=exc.msg)
    except _CpuLimit:
        result["status"] = "timeout"
    except _StepLimit:
        result.update(
            status="violation",
            sig="no-termination",
            msg=f"more than {STEP_BUDGET} steps inside modulegraph2: does not terminate",
        )
    except _Died as exc:
        result.update(status="died", msg=str(exc))
    except MemoryError as exc:
        # (keep little: there is no memory to spare)
        exc.__traceback__ = None
        result["status"] = "timeout"
    except BaseException as exc:
        text = "".join(traceback.format_exception(exc))
        if isinstance(exc, (Exception, SystemExit)) and _raised_in_sut(exc):
            result.update(status="violation", sig=f"exception:{type(exc).__name__}", msg=f"unexpected exception:\n{text[-3000:]}")
        else:
            result.update(status="error", msg=text)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    if counting and result["status"] == "timeout":
        # (the cases take less than a second)
        result.update(status="violation", sig="no-termination", msg=f"not done after {limit * COUNTING} seconds of CPU time, or out of memory")
    result["labels"] = ctx.labels
    result["nontrivial"] = ctx._nontrivial
    result["info"] = ctx.info
    data = json.dumps(result).encode()
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def _cleanup(path):
    def onerror(func, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            os.chmod(p, 0o700)
            func(p)
        except OSError:
            pass
    shutil.rmtree(path, onerror=onerror)


_case_no = [0]


def run_case(check, case, base, counting=False, verbose=False, wall=None, recount=True, again=False):
    """*wall*: seconds after which the case is given up, whatever it is doing."""
    _case_no[0] += 1
    scratch = os.path.join(base, "c%d" % (_case_no[0] % 4))
    if os.path.lexists(scratch):
        _cleanup(scratch)
    os.mkdir(scratch)
    if os.environ.get("MGV_TRACE"):
        with open(os.path.join(base, "current.json"), "w") as fp:
            json.dump(case, fp)
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            _child(check, case, scratch, wfd, counting, verbose)
        finally:
            os._exit(77)
    os.close(wfd)
    chunks = []
    end = None if wall is None else time.monotonic() + wall
    late = False
    while True:
        if end is not None and not select.select([rfd], [], [], max(0, end - time.monotonic()))[0]:
            late = True
            for kill in (os.killpg, os.kill):
                try:
                    kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            break
        b = os.read(rfd, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    _cleanup(scratch)
    raw = b"".join(chunks)
    if late:
        return {"status": "timeout", "msg": "given up", "labels": {}, "nontrivial": False}
    if not raw:
        out = {
            "status": "died",
            "msg": f"case process ended with wait status {status}",
            "labels": {},
            "nontrivial": False,
        }
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            if again:
                out.update(status="violation", sig="crash", msg=f"the interpreter crashes with signal {os.WTERMSIG(status)}")
            else:
                return run_case(check, case, base, counting, verbose, wall, recount, again=True)
        return out
    result = json.loads(raw)
    if result["status"] == "timeout" and not counting and recount:
        wall = None if end is None else max(1, end - time.monotonic())
        return run_case(check, case, base, counting=True, verbose=verbose, wall=wall)
    return result


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def scratch_base():
    root = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return root
