"""Runs an operation in a forked child and kills it at a chosen point.

Kill points: the n-th executed line of the code under test (any thread), or the
moment a file grows past a given size (the kernel's file size limit, so that a
truncated file of exactly that size is left on disk).
"""
import builtins
import io
import os
import pickle
import resource
import signal
import sys
import threading
import traceback

TOOL = 4
# Where the interpreter handles signals: calls, and the start of functions and of their resumption
# (elsewhere, an exception may escape handlers that cover it)
EVENTS = (sys.monitoring.events.CALL, sys.monitoring.events.PY_START, sys.monitoring.events.PY_RESUME)
BOUNDARIES = EVENTS[0] | EVENTS[1] | EVENTS[2]
KILLED, LATE = 93, 94


real_open = io.open


def failing_files(limit, errno):
    """Files opened for writing fail with a system error when they grow past `limit`
    If it is negative: the n-th one fails to open"""
    opened = 0
    class Failing(io.FileIO):
        def write(self, b):
            n = len(memoryview(b).cast('B'))
            if n and (n > limit or self.seekable() and self.tell() + n > limit):
                raise OSError(errno, os.strerror(errno))
            return super().write(b)

    def fake(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        if not set(mode) & set('wax+') or buffering not in (-1, 1) and buffering < 2:
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        nonlocal opened
        opened += 1
        if limit < 0:
            if opened == -limit:
                raise OSError(errno, os.strerror(errno), file)
            return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw = Failing(file, mode.replace('b', '').replace('t', ''), closefd, opener)
        f = (io.BufferedRandom if '+' in mode else io.BufferedWriter)(raw)
        return f if 'b' in mode else io.TextIOWrapper(f, encoding, errors, newline)
    builtins.open = io.open = fake


def failing_links(n, errno, res):
    real, count = os.symlink, 0

    def symlink(src, dst, *args, **kwargs):
        nonlocal count
        count += 1
        if count == n:
            res['at'] = f"link {n}"
            raise OSError(errno, os.strerror(errno), src, None, dst)
        return real(src, dst, *args, **kwargs)
    os.symlink = symlink


def child(fn, out, record=False, kill=None, fsize=None, interrupt=None, full=None, errno=None, links=None):
    """`interrupt`: raise KeyboardInterrupt at the first call after the n-th line instead of killing the process;
    `full`: files cannot grow past this size (an error for the process, as a full disk),
    with the system error `errno` if given;
    `links`: the n-th link cannot be created, with the system error `errno`.
    Returns {'status': 'ok'|'error'|'killed', 'events': [...], 'error': str}"""
    if os.path.exists(out):
        os.remove(out)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            res = {'status': 'ok', 'events': None, 'error': ''}
            mon = sys.monitoring
            if mon.get_tool(3):
                mon.set_events(3, 0)
            events, mutations = [], []
            if record:
                from .fsguard import WRITE_FLAGS

                def audit(ev, args):
                    if ev in ('os.rename', 'os.mkdir', 'os.symlink', 'os.remove', 'os.rmdir', 'os.link', 'os.truncate') or ev == 'open' and isinstance(args[2], int) and args[2] & WRITE_FLAGS:
                        mutations.append(len(events))
                sys.addaudithook(audit)
            if record or kill is not None or interrupt is not None:
                from .core import REPO
                base = os.path.realpath(os.path.join(REPO, 'cdtb')) + os.sep
                known = {}
                n = 0

                def line(c, lineno):
                    nonlocal n
                    f = c.co_filename
                    if f not in known:
                        r = os.path.realpath(f)
                        known[f] = r[len(base):] if r.startswith(base) else None
                    if not known[f]:
                        return mon.DISABLE
                    n += 1
                    if kill is not None:
                        if n == kill:
                            os.write(fd, f"{known[f]}:{lineno}".encode())
                            os._exit(KILLED)
                    elif interrupt is not None:
                        if n == interrupt:
                            mon.set_events(TOOL, BOUNDARIES)
                    else:
                        events.append((known[f], lineno))

                def boundary(c, *args):
                    f = os.path.realpath(c.co_filename)
                    # only the main thread gets interrupted, and not while it handles a first failure
                    # (the interpreter does not handle signals right before it calls __exit__)
                    if sys.exception() is None and getattr(args[-2] if len(args) == 3 else None, '__name__', '') != '__exit__' and f.startswith(base) and 'at' not in res and threading.current_thread() is threading.main_thread():
                        mon.set_events(TOOL, 0)
                        res['at'] = f"{f[len(base):]}:{sys._getframe(1).f_lineno}"
                        raise KeyboardInterrupt
                for ev in EVENTS:
                    mon.register_callback(TOOL, ev, boundary)
                if kill is not None:
                    fd = os.open(out, os.O_WRONLY | os.O_CREAT, 0o600)
                mon.use_tool_id(TOOL, 'vfcrash')
                mon.register_callback(TOOL, mon.events.LINE, line)
                mon.set_events(TOOL, mon.events.LINE)
            if fsize is not None:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            if links is not None:
                failing_links(links, errno, res)
            elif full is not None and errno is not None:
                failing_files(full, errno)
            elif full is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (full, resource.RLIM_INFINITY))
            try:
                res['value'] = fn()
            except BaseException as e:
                res['status'] = 'error'
                res['error'] = f"{type(e).__name__}: {e}"
                res['trace'] = traceback.format_exc(limit=-6)
            if record or kill is not None or interrupt is not None:
                mon.set_events(TOOL, 0)
            if full is not None and errno is not None:
                builtins.open = io.open = real_open
            if fsize is not None or full is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
            res['events'], res['mutations'] = events, [m for m in mutations if 0 < m < len(events)]
            with open(out, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == KILLED:
        with open(out) as f:
            return {'status': 'killed', 'at': f.read()}
    if os.WIFSIGNALED(st):
        if os.WTERMSIG(st) == signal.SIGXFSZ:
            return {'status': 'killed', 'at': 'file size'}
        if os.WTERMSIG(st) == signal.SIGALRM:
            return {'status': 'hang', 'error': 'no end after 60 s'}
        return {'status': 'crash', 'error': f"signal {os.WTERMSIG(st)}"}
    if os.WEXITSTATUS(st) != 0:
        return {'status': 'harness', 'error': f"child exit {st}"}
    with open(out, 'rb') as f:
        return pickle.load(f)


def pick_line(rng, events, mutations=()):
    """A kill point: close to a change of the file system, or uniform over distinct
    lines, then over their occurrences"""
    if mutations and rng.random() < .5:
        return min(len(events), rng.choice(mutations) + rng.choice([0, 1, 1, 2, 3, 4]))
    where = {}
    for i, e in enumerate(events):
        where.setdefault(e, []).append(i + 1)
    return rng.choice(where[rng.choice(sorted(where))])
