"""Run a call in a forked child that can be killed before a file operation."""
import json
import os
import signal

from core import GUARD, UNUSABLE, HarnessError, Violation, in_repo

KILLED, FAILED = 77, 70
LIMIT = 120


def run(fn, kill_at=None):
    """Run fn() in a child; the child dies just before file operation number
    kill_at. Returns (killed, log), where the log lists [event, path] of all
    file operations made in the scratch folder."""
    reading, writing = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = FAILED
        log = []
        try:
            os.close(reading)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(LIMIT)

            def end(code, message=None):
                GUARD.active = False
                with os.fdopen(writing, "w") as pipe:
                    json.dump([message, log], pipe)
                os._exit(code)

            def hook(event, path):
                if kill_at is not None and len(log) >= kill_at:
                    end(KILLED)
                log.append([event, path])

            GUARD.hook = hook
            try:
                fn()
            except BaseException as ex:
                seen = (in_repo(ex.__traceback__) or isinstance(ex, UNUSABLE)
                        or isinstance(ex, Violation))
                place = "repo" if seen else "harness"
                end(FAILED, [place, f"{type(ex).__name__}: {ex}"])
            end(0)
        finally:
            os._exit(status)
    os.close(writing)
    done = False
    try:
        with os.fdopen(reading) as pipe:
            text = pipe.read()
        _, status = os.waitpid(pid, 0)
        done = True
    finally:
        if not done:
            with GUARD.off():
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGALRM:
            raise Violation(f"no answer within {LIMIT} s")
        raise HarnessError(f"the child was ended by signal "
                           f"{os.WTERMSIG(status)}")
    code = os.WEXITSTATUS(status)
    if not text:
        raise HarnessError(f"the child ended with {code} and no answer")
    message, log = json.loads(text)
    if code == FAILED:
        if message[0] == "repo":
            raise Violation(f"unexpected {message[1]}")
        raise HarnessError(message[1])
    return code == KILLED, log
