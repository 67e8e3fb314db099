"""A deterministic scheduler: runs Python code and switches to other code at chosen lines of the package under test."""
import os
import sys
import threading


def package_dir():
    import maxlike
    return os.path.dirname(os.path.abspath(maxlike.__file__)) + os.sep


def tracer(on_line, prefix):
    """a trace function that calls on_line at every line event of files that start with one of the prefixes"""
    mine = {}

    def local(frame, event, arg):
        if event == "line":
            on_line(frame)
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in mine:
            mine[f] = os.path.abspath(f).startswith(prefix)
        return local if mine[f] else None
    return glob


def traced(fn, on_line, prefix):
    old = sys.gettrace()
    sys.settrace(tracer(on_line, prefix))
    try:
        return fn()
    finally:
        sys.settrace(old)


def count(fn, prefix):
    """number of switching points of fn()"""
    n = [0]

    def on(frame):
        n[0] += 1
    traced(fn, on, prefix)
    return n[0]


def lines(fn, prefix):
    """the (file, line) of every switching point of fn()"""
    out = []
    traced(fn, lambda frame: out.append((frame.f_code.co_filename, frame.f_lineno)), prefix)
    return out


def interrupt(fn, k, other, prefix):
    """fn() is suspended before its k-th line (from 0), other() runs to its end, fn() goes on. Returns the results of
    both (other's is None if fn has fewer lines)"""
    n, res = [0], [None]

    def on(frame):
        if n[0] == k:
            res[0] = other()
        n[0] += 1
    return traced(fn, on, prefix), res[0]


class Task(threading.Thread):
    """runs fn, stops before line k, waits for go"""
    def __init__(self, fn, k, prefix):
        threading.Thread.__init__(self, daemon=True)
        self.fn, self.k, self.prefix = fn, k, prefix
        self.paused, self.go = threading.Event(), threading.Event()
        self.result = self.error = None

    def run(self):
        n = [0]

        def on(frame):
            if n[0] == self.k:
                self.paused.set()
                self.go.wait()
            n[0] += 1
        try:
            self.result = traced(self.fn, on, self.prefix)
        except BaseException as e:      # reported by the caller
            self.error = e
        self.paused.set()


def cross(f, i, g, j, prefix):
    """f to line i, g to line j, f to its end, g to its end; in two threads"""
    a, b = Task(f, i, prefix), Task(g, j, prefix)
    a.start()
    a.paused.wait()
    b.start()
    b.paused.wait()
    a.go.set()
    a.join()
    b.go.set()
    b.join()
    for t in (a, b):
        if t.error is not None:
            raise t.error
    return a.result, b.result
