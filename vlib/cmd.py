"""Runs entry points of the command line in this process, in a scratch directory."""
import builtins
import io
import os
import sys
import weakref


class Out(io.StringIO):
    """Standard output that survives being closed."""

    def close(self):
        pass

    def text(self):
        return self.getvalue()


class Result:
    def __init__(self, status, out, error, err=''):
        self.status, self.out, self.error, self.err = status, out, error, err

    @property
    def ok(self):
        return self.error is None and self.status == 0


class Files:
    """Closes what is still open at the end, as the end of a process does."""

    def __enter__(self):
        self.files, self.old = [], (builtins.open, io.open)
        real = builtins.open

        def tracked(*a, **k):
            f = real(*a, **k)
            self.files.append(weakref.ref(f))
            return f
        builtins.open = io.open = tracked
        return self

    def __exit__(self, *a):
        builtins.open, io.open = self.old
        for r in self.files:
            f = r()
            if f is not None and not f.closed:
                try:
                    f.close()
                except Exception:
                    pass


def inprocess(fn, argv, stdin=''):
    """-> Result; status is what the process would exit with."""
    with Files():
        return _inprocess(fn, argv, stdin)


def _inprocess(fn, argv, stdin):
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out, err = Out(), Out()
    sys.argv, sys.stdin, sys.stdout, sys.stderr = list(argv), io.StringIO(stdin), out, err
    status, error = 0, None
    try:
        r = fn()
        status = exit_status(r)
    except SystemExit as e:
        status = exit_status(e.code)
    except Exception as e:
        status, error = 1, e
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
    return Result(status, out.text(), error, err.text())


def exit_status(r):
    if r is None:
        return 0
    if isinstance(r, int):
        return int(r) & 0xff
    return 1


def write(path, text):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    return path


def readtext(path):
    if not os.path.exists(path):
        return None
    with open(path, encoding='utf-8') as f:
        return f.read()
