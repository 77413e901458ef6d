"""Pristine evaluations: a helper process that has imported simcats but never used it forks a child per request.

`start()` has to be called before the first use of simcats in a process (the workers of a check are forked from a parent that
has only imported it). The result of `call(f, *args)` is what a new process would have computed.
"""
import os
import pickle
import struct
import warnings

from .core import HarnessError

_PIPES = {}


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _recv(fd):
    def take(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    return pickle.loads(take(struct.unpack("<q", take(8))[0]))


def _serve(rd, wr):
    while True:
        try:
            job = _recv(rd)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                f, args = job
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    res = (True, f(*args))
            except BaseException as e:  # noqa
                res = (False, f"{type(e).__name__}: {e}")
            _send(wr, res)
            os._exit(0)
        os.waitpid(pid, 0)


def start():
    """Starts the helper of this process (once)."""
    me = os.getpid()
    if me in _PIPES:
        return
    a_r, a_w = os.pipe()
    b_r, b_w = os.pipe()
    if os.fork() == 0:
        os.close(a_w)
        os.close(b_r)
        for r, w in _PIPES.values():
            for fd in (r, w):
                try:
                    os.close(fd)
                except OSError:
                    pass
        import signal
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        try:
            _serve(a_r, b_w)
        finally:
            os._exit(0)
    os.close(a_r)
    os.close(b_w)
    _PIPES.clear()
    _PIPES[me] = (b_r, a_w)


def call(f, *args):
    """(ok, result of f(*args) or error text), evaluated in a fresh child of the helper."""
    if os.getpid() not in _PIPES:
        raise HarnessError("zygote was not started")
    r, w = _PIPES[os.getpid()]
    _send(w, (f, args))
    try:
        return _recv(r)
    except EOFError:
        raise HarnessError("the helper process ended")
