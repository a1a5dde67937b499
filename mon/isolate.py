"""Evaluate a function in a forked child: a value untouched by this process's history."""
import os
import pickle


def isolated(fn):
    """('ok', value) or ('err', class name) of fn() run in a child process."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                res = ("ok", fn())
            except Exception as e:
                res = ("err", type(e).__name__)
            with os.fdopen(wr, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        return ("crash", st)
    return pickle.loads(data)


class Packed:
    """An array with its memory layout, which pickling alone does not keep."""

    def __init__(self, a):
        import numpy as np
        root = a
        while isinstance(root.base, np.ndarray):
            root = root.base
        self.data = root.tobytes("A")
        self.offset = a.__array_interface__["data"][0] - root.__array_interface__["data"][0]
        self.shape, self.strides, self.dtype = a.shape, a.strides, a.dtype.str

    def array(self):
        import numpy as np
        buf = np.frombuffer(self.data, np.uint8).copy()
        return np.ndarray(self.shape, self.dtype, buf, self.offset, self.strides)


class Pristine:
    """A process forked before anything was scored; each call runs in a fork of that process,
    so that neither objects nor module-level state of earlier calls can reach it."""
    _one = None

    @classmethod
    def get(cls):
        if cls._one is None or cls._one.owner != os.getpid():
            cls._one = cls()
        return cls._one

    def __init__(self):
        self.owner = os.getpid()
        jr, jw = os.pipe()
        rr, rw = os.pipe()
        if os.fork() == 0:
            try:
                os.close(jw)
                os.close(rr)
                self.serve(os.fdopen(jr, "rb"), os.fdopen(rw, "wb"))
            finally:
                os._exit(0)
        os.close(jr)
        os.close(rw)
        self.jobs, self.results = os.fdopen(jw, "wb"), os.fdopen(rr, "rb")

    @staticmethod
    def serve(jobs, results):
        while True:
            try:
                fn, args = pickle.load(jobs)
            except EOFError:
                return
            pickle.dump(isolated(lambda: fn(*args)), results)  # noqa: B023
            results.flush()

    def __call__(self, fn, *args):
        pickle.dump((fn, args), self.jobs)
        self.jobs.flush()
        return pickle.load(self.results)
