"""A process in which nothing has been called yet, as oracle for the influence of the history.

The process is forked after the imports and before the first call.  For each
request it forks once more, so that no request sees another one.
"""
import importlib
import os
import pickle
import signal
import struct


def _send(fd, data):
    data = memoryview(struct.pack("<Q", len(data)) + data)
    while data:
        data = data[os.write(fd, data):]


def _recv(fd, n):
    out = bytearray()
    while len(out) < n:
        b = os.read(fd, min(n - len(out), 1 << 20))
        if not b:
            raise EOFError
        out += b
    return bytes(out)


def _receive(fd):
    return _recv(fd, struct.unpack("<Q", _recv(fd, 8))[0])


def answer(fn, args, kw, mat):
    try:
        ret = fn(*args, **kw)
        if mat is not None:
            ret = mat(ret)
        return ("value", ret)
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


class Fresh:
    def __init__(self, modules=()):
        for m in sorted(modules):       # imports are no history, and take long
            try:
                importlib.import_module(m)
            except Exception:
                pass
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.pid = os.fork()
        if self.pid:
            os.close(a)
            os.close(b)
            return
        try:
            os.close(self.w)
            os.close(self.r)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            while True:
                _send(b, self._one(_receive(a)))
        except BaseException:
            pass
        os._exit(0)

    @staticmethod
    def _one(req):
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                os.close(r)
                signal.alarm(5)
                _send(w, pickle.dumps(answer(*pickle.loads(req))))
            except BaseException:
                pass
            os._exit(0)
        os.close(w)
        try:
            out = _receive(r)
        except EOFError:
            out = pickle.dumps(("no answer",))
        os.close(r)
        os.waitpid(pid, 0)
        return out

    def ask(self, fn, args, kw, mat=None):
        """What the call gives in a fresh process, or None where that is not known."""
        if self.pid is None:
            return None
        try:
            req = pickle.dumps((fn, args, kw, mat))
        except Exception:
            return None
        try:
            _send(self.w, req)
            out = pickle.loads(_receive(self.r))
        except (EOFError, OSError):
            self.close()
            return None
        except BaseException:
            self.close()
            raise
        return None if out[0] == "no answer" else out

    def close(self):
        if self.pid is None:
            return
        pid, self.pid = self.pid, None
        os.close(self.w)
        os.close(self.r)
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
