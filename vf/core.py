"""Shared machinery: containment, case accounting, violations, the runner."""
import builtins
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPOTHESIS_PATHS = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The machinery itself failed."""


class Hang(BaseException):
    """A single case did not finish in HANG_SECONDS (they take well below
    one second; the limit only has to catch loops that never end)."""


HANG_SECONDS = 150
SHRINK_SECONDS = 90     # how long a failing case is made smaller

# what a comparison raises when it is handed something of the wrong kind, for
# instance None in place of an array
UNUSABLE = (TypeError, ValueError, AttributeError, LookupError,
            ArithmeticError)


def _alarm(signum, frame):
    raise Hang()


# --------------------------------------------------------------------------
# containment: nothing outside the scratch folder may be written or removed
# --------------------------------------------------------------------------
class Guard:
    """Audit hook that keeps file effects inside a scratch folder, counts the
    file operations made there, and can stop at a chosen one."""

    WRITE_FLAGS = (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC
                   | os.O_APPEND)
    PATH_EVENTS = {"os.remove": 1, "os.rmdir": 1, "os.mkdir": 1,
                   "os.rename": 2, "os.link": 2, "os.symlink": 2,
                   "os.truncate": 1, "os.chmod": 1, "os.chown": 1,
                   "shutil.rmtree": 1, "shutil.move": 2, "os.utime": 1,
                   "shutil.copyfile": 2, "shutil.copytree": 2,
                   "os.mkfifo": 1, "os.mknod": 1, "os.setxattr": 1}
    FORBIDDEN = {"os.system", "subprocess.Popen", "os.exec", "os.posix_spawn",
                 "os.spawn", "socket.connect", "socket.bind", "os.kill",
                 "os.killpg", "os.putenv_"}

    def __init__(self):
        self.active = False
        self.root = None
        self.count = 0          # file operations inside the root
        self.hook = None        # callable(event, path) per file operation
        self.installed = False

    def install(self, root):
        self.root = os.path.realpath(root)
        self.active = True
        if not self.installed:
            self.installed = True
            sys.addaudithook(self._audit)

    def _resolve(self, path, dir_fd=-1):
        if isinstance(path, int):
            try:
                return os.readlink(f"/proc/self/fd/{path}")
            except OSError:
                return None
        path = os.fsdecode(path)
        if not os.path.isabs(path) and isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                path = os.path.join(os.readlink(f"/proc/self/fd/{dir_fd}"),
                                    path)
            except OSError:
                pass
        head, tail = os.path.split(os.path.abspath(path))
        return os.path.join(os.path.realpath(head), tail)

    def _check(self, event, path, dir_fd=-1):
        full = self._resolve(path, dir_fd)
        if full is None:
            return
        if full == "/dev/null" or full.startswith("/dev/null"):
            return
        if not (full == self.root or full.startswith(self.root + os.sep)):
            raise PermissionError(f"{event} outside the scratch folder: {full}")
        self.count += 1
        if self.hook is not None:
            self.hook(event, full)

    def _audit(self, event, args):
        if not self.active:
            return
        if event == "open":
            path, mode, flags = args
            if isinstance(path, int) or path is None:
                return
            writing = ((isinstance(mode, str)
                        and any(c in mode for c in "wax+"))
                       or (isinstance(flags, int)
                           and flags & self.WRITE_FLAGS))
            if writing:
                self._check(event, path)
        elif event in self.PATH_EVENTS:
            fds = [a for a in args[self.PATH_EVENTS[event]:]
                   if isinstance(a, int)]
            dir_fd = -1
            if event in ("os.remove", "os.rmdir"):
                dir_fd = args[1]
            elif event == "os.mkdir":
                dir_fd = args[2]
            elif event == "shutil.rmtree" and len(args) > 1:
                dir_fd = args[1] if args[1] is not None else -1
            if event == "shutil.copyfile" or event == "shutil.copytree":
                self._check(event, args[1])
            else:
                for k in range(self.PATH_EVENTS[event]):
                    self._check(event, args[k], dir_fd)
        elif event in self.FORBIDDEN:
            raise PermissionError(f"{event} is not allowed in a check")

    class _Off:
        def __init__(self, guard):
            self.guard = guard

        def __enter__(self):
            self.was = self.guard.active
            self.guard.active = False

        def __exit__(self, *a):
            self.guard.active = self.was

    def off(self):
        return Guard._Off(self)


GUARD = Guard()


# --------------------------------------------------------------------------
# cases
# --------------------------------------------------------------------------
class Ctx:
    """What one case reports about itself."""

    def __init__(self):
        self.labels = Counter()
        self.is_nontrivial = False
        self.known_findings = Counter()

    def label(self, name, times=1):
        self.labels[str(name)] += int(times)

    def nontrivial(self, condition=True):
        if condition:
            self.is_nontrivial = True

    def known(self, name):
        self.known_findings[name] += 1


class Sub:
    """One generated check of a property: a strategy and an executable oracle."""

    def __init__(self, name, strategy, check, quick, thorough, shards=1,
                 thorough_shards=None, enumerate_cases=None):
        self.name = name
        self.strategy = strategy            # () -> hypothesis strategy
        self.check = check                  # (case, ctx) -> None
        self.quick = quick                  # examples per shard
        self.thorough = thorough
        self.shards = shards
        self.thorough_shards = thorough_shards or shards
        self.enumerate_cases = enumerate_cases  # optional () -> iterable


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def in_repo(tb):
    """Does a traceback pass through the code under test?"""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def evaluate(sub, case):
    """Run the oracle on one case; raise Violation or HarnessError."""
    ctx = Ctx()
    try:
        sub.check(case, ctx)
    except Violation:
        raise
    except AssertionError as ex:
        if in_repo(ex.__traceback__):
            raise Violation(f"unexpected AssertionError: {ex}") from ex
        raise HarnessError(f"assertion in the harness: {ex!r}\n"
                           + traceback.format_exc()) from ex
    except Exception as ex:
        if in_repo(ex.__traceback__):
            where = traceback.extract_tb(ex.__traceback__)
            last = [f for f in where if f.filename.startswith(REPO)][-1]
            raise Violation(
                f"unexpected {type(ex).__name__}: {ex} "
                f"(in {os.path.basename(last.filename)}:{last.name})") from ex
        if isinstance(ex, UNUSABLE) and not isinstance(ex, HarnessError):
            # the oracle met a result that is not of the documented kind
            raise Violation("a result can not be compared: "
                            f"{type(ex).__name__}: {ex}") from ex
        raise HarnessError(traceback.format_exc()) from ex
    return ctx


def require(condition, message):
    if not condition:
        raise Violation(message() if callable(message) else message)


def expect_error(kinds, fn, *args, **kwargs):
    """The call must be rejected with one of the given kinds of error."""
    try:
        fn(*args, **kwargs)
    except kinds as ex:
        return ex
    except Exception as ex:
        if not in_repo(ex.__traceback__):
            raise
        raise Violation(f"{getattr(fn, '__name__', fn)} raised "
                        f"{type(ex).__name__} ({ex}) instead of one of "
                        f"{kinds}") from ex
    raise Violation(f"{getattr(fn, '__name__', fn)} accepted invalid input")


class Silence:
    """Swallow what the code under test prints (loggers, tqdm, scroll)."""

    def __enter__(self):
        self.null = open(os.devnull, "w")
        self.saved = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = self.null

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        self.null.close()


# --------------------------------------------------------------------------
# one shard
# --------------------------------------------------------------------------
def run_shard(pid, sub, examples, seed, deadline, scratch):
    import warnings
    warnings.simplefilter("ignore")
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = scratch + "/.hypothesis"
    result = dict(sub=sub.name, evaluations=0, shrink_runs=0, nontrivial=[],
                  labels={}, known={}, samples=[], failure=None, error=None,
                  timed_out=False)
    signal.signal(signal.SIGALRM, _alarm)
    labels, known, distinct = Counter(), Counter(), set()
    state = dict(failing=None, message=None)
    MAX_SAMPLE = 1500

    def account(case, ctx):
        result["evaluations"] += 1
        labels.update(ctx.labels)
        known.update(ctx.known_findings)
        if ctx.is_nontrivial:
            text = canonical(case)
            digest = hashlib.sha256(text.encode()).hexdigest()[:16]
            if digest not in distinct:
                distinct.add(digest)
                if len(distinct) in (1, 5, 20) and len(text) < MAX_SAMPLE:
                    result["samples"].append(dict(sub=sub.name, case=case,
                        labels=dict(ctx.labels)))

    def one(case):
        if state["failing"] is not None and (
                time.monotonic() > state["until"]):
            return
        if time.monotonic() > deadline:
            result["timed_out"] = True
            return
        signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
        try:
            ctx = evaluate(sub, case)
        except Violation as ex:
            result["evaluations"] += 1
            if state["failing"] is None:
                state["until"] = time.monotonic() + SHRINK_SECONDS
            state["failing"], state["message"] = case, str(ex)
            raise
        except Hang:
            result["evaluations"] += 1
            if state["failing"] is None:
                state["until"] = time.monotonic() + SHRINK_SECONDS
                state["failing"] = case
                state["message"] = f"no answer within {HANG_SECONDS} s"
            raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        if state["failing"] is None:
            account(case, ctx)
        else:
            result["shrink_runs"] += 1

    devnull = open(os.devnull, "w")
    stdout, stderr = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        if sub.enumerate_cases is not None:
            GUARD.install(scratch)
            for case in sub.enumerate_cases():
                one(case)
        if examples:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings

            @hypothesis.seed(seed)
            @settings(max_examples=examples, database=None, deadline=None,
                      print_blob=False, report_multiple_bugs=False,
                      phases=(Phase.generate, Phase.shrink),
                      suppress_health_check=[HealthCheck.too_slow,
                                             HealthCheck.data_too_large,
                                             HealthCheck.large_base_example])
            @given(sub.strategy())
            def test(case):
                one(case)

            GUARD.install(scratch)
            test()
    except Violation:
        pass
    except HarnessError as ex:
        result["error"] = str(ex)
    except BaseException:
        if state["failing"] is None:
            result["error"] = traceback.format_exc()
    finally:
        GUARD.active = False
        sys.stdout, sys.stderr = stdout, stderr
        devnull.close()
    if state["failing"] is not None:
        result["failure"] = dict(case=state["failing"],
                                 message=state["message"])
    result["nontrivial"] = sorted(distinct)
    result["labels"] = dict(labels)
    result["known"] = dict(known)
    return result
