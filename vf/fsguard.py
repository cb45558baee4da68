"""File-system monitor built on the interpreter's audit events.

Always on in every check process: any attempt to create, change or delete
something outside the allowed roots is refused *before* it takes effect and
recorded, so that the code under test cannot damage the sandbox. Monitors can
also ask for the list of mutations that were made (`recording()`).
"""
import os
import sys
import threading
from contextlib import contextmanager

_allowed = []
_installed = False
escapes = []            # [(event, path)] refused mutations
_rec = None
_lock = threading.Lock()
_in_guard = threading.local()

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class EscapeRefused(PermissionError):
    pass


def _full(path, dir_fd=None):
    if isinstance(path, int):
        try:
            return os.readlink(f"/proc/self/fd/{path}")
        except OSError:
            return None
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                base = os.readlink(f"/proc/self/fd/{dir_fd}")
            except OSError:
                base = os.getcwd()
        else:
            base = os.getcwd()
        path = os.path.join(base, path)
    return path


def real_location(path, follow_last=False):
    """Where an operation on `path` takes effect (parent directory resolved)"""
    if follow_last:
        return os.path.realpath(path)
    path = path.rstrip('/') or '/'
    head, tail = os.path.split(path)
    if tail in ('', '.', '..'):
        return os.path.realpath(path)
    return os.path.join(os.path.realpath(head), tail)


def inside(path, root):
    return path == root or path.startswith(root.rstrip('/') + '/')


def _check(event, path, dir_fd=None, follow_last=False):
    full = _full(path, dir_fd)
    if full is None:
        return
    loc = real_location(full, follow_last)
    if _rec is not None:
        with _lock:
            if _rec is not None:
                _rec.append((event, loc))
    for root in _allowed:
        if inside(loc, root):
            return
    if loc == '/dev/null' or loc.startswith('/dev/pts/') or loc.startswith('/dev/tty'):
        return
    with _lock:
        escapes.append((event, loc))
    raise EscapeRefused(1, f"refused by the check's containment: {event}", loc)


def _hook(event, args):
    if event == 'open':
        path, mode, flags = args
        if path is None:
            return
        w = False
        if isinstance(flags, int) and flags & WRITE_FLAGS:
            w = True
        elif isinstance(mode, str) and any(c in mode for c in 'wax+'):
            w = True
        if not w:
            return
        if isinstance(path, int):
            return
        fn = lambda: _check('write', path, None, True)
    elif event in ('os.remove', 'os.rmdir'):
        fn = lambda: _check(event, args[0], args[1])
    elif event == 'os.mkdir':
        fn = lambda: _check(event, args[0], args[2])
    elif event in ('os.rename', 'os.link'):
        fn = lambda: (_check(event, args[0], args[2]), _check(event, args[1], args[3]))
    elif event == 'os.symlink':
        fn = lambda: _check(event, args[1], args[2])
    elif event in ('os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'os.setxattr'):
        if isinstance(args[0], int):
            return
        fn = lambda: _check(event, args[0], None, True)
    elif event in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn', 'os.kill', 'os.killpg'):
        if getattr(_in_guard, 'trusted', False) or not _allowed:
            return
        with _lock:
            escapes.append((event, repr(args)[:200]))
        raise EscapeRefused(1, f"refused by the check's containment: {event}")
    else:
        return
    if getattr(_in_guard, 'on', False):
        return
    _in_guard.on = True
    try:
        fn()
    finally:
        _in_guard.on = False


def install(roots):
    global _installed
    _allowed[:] = [os.path.realpath(r) for r in roots]
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True


@contextmanager
def trusted():
    """Harness code that may start processes or signal its own children"""
    _in_guard.trusted = True
    try:
        yield
    finally:
        _in_guard.trusted = False


@contextmanager
def recording():
    """Collect (event, real location) of every mutation made inside the block"""
    global _rec
    prev, mine = _rec, []
    _rec = mine
    try:
        yield mine
    finally:
        _rec = prev
