"""Runs a function in a forked child and returns its result; the child never returns to the caller."""
import os
import pickle
import select
import signal
import sys
import time
import traceback

_monotonic = time.monotonic


class ChildFailed(Exception):
    pass


class ChildStuck(Exception):
    pass


def call(fn, *args, timeout=120.0):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn(*args)))
            except BaseException:  # noqa: BLE001 - reported to the parent
                data = pickle.dumps((False, traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = _monotonic() + timeout
    try:
        while True:
            left = end - _monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildStuck(f"no result within {timeout} s")
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        status = os.waitpid(pid, 0)[1]
    if not chunks:
        raise ChildFailed(f"child died without a result (wait status {status})")
    ok, val = pickle.loads(b"".join(chunks))
    if not ok:
        raise ChildFailed(val)
    return val
