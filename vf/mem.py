"""A storage type held in memory, registered the way storage types are (by subclassing)."""
import contextlib
import io
import os
import zlib
from cdtb.storage import Storage, PatchElement, PatchVersion

HISTORIES = {}          # key -> [MemElement...]


class MemElement(PatchElement):
    """files: [(source path, export path, lang or None)]"""

    def __init__(self, name, version, uid=0, files=(), stored=True):
        super().__init__(name, PatchVersion(version))
        self.uid, self.files, self.stored = uid, list(files), stored
        self.downloads = []

    def _sel(self, langs):
        for src, dst, lang in self.files:
            if langs is True or lang is None and langs is False:
                yield src, dst
            elif langs is not False and langs is not True:
                ls = [langs] if isinstance(langs, str) else list(langs)
                if lang in ls:
                    yield src, dst

    def download(self, langs=True):
        self.downloads.append(langs)

    def fspaths(self, langs=True):
        return (s for s, _ in self._sel(langs))

    def relpaths(self, langs=True):
        return (d for _, d in self._sel(langs))


class MemStorage(Storage):
    storage_type = 'vfmem'

    def __init__(self, path):
        super().__init__(path, 'http://invalid/')
        self.updates = 0

    @classmethod
    def from_conf_data(cls, conf):
        return cls(conf['path'])

    def patch_elements(self, stored=False):
        if not stored:
            self.updates += 1
        for e in HISTORIES[self.path]:
            if stored and not e.stored:
                continue
            yield e


class Refused(Exception):
    """The command refused its arguments"""


class _Err(io.StringIO):
    def fileno(self):
        return 2


def _relative(argv):
    """Some command lines are given their files relative to a working directory: (arguments, directory or None)"""
    n = zlib.crc32(repr([os.path.basename(a) for a in argv]).encode())
    n, kind = divmod(n, 3)
    if kind or not argv or argv[0] in ('files', 'versions', 'download'):
        return argv, None
    picked = [i for i, a in enumerate(argv) if a.startswith('/') and argv[i - 1] not in ('-s', '--storage') and (argv[i - 1] in ('-o', '--output') or os.path.exists(a))]
    picked = [i for i in picked if os.path.isdir(os.path.dirname(argv[i]))]
    if not picked:
        return argv, None
    first = argv[picked[0]]
    cwd = [os.path.dirname(first), first if os.path.isdir(first) else os.path.dirname(first), os.path.dirname(os.path.dirname(first))][n % 3]
    cwd = os.path.realpath(cwd)
    rel = lambda a: ('./' if a[0] == '-' else '') + a
    argv = [rel(os.path.relpath(a, cwd)) + ('/' if i in picked and os.path.isdir(a) and n // 3 % 3 == 0 else '') if i in picked else a for i, a in enumerate(argv)]
    return argv, cwd


def run_cli(argv, relative=True):
    """Run the command line in this process; returns its standard output
    `relative`: files and output may be given relative to a working directory"""
    import cdtb.__main__ as m
    out, err = io.StringIO(), _Err()
    argv = [str(a) for a in argv]
    argv, cwd = _relative(argv) if relative else (argv, None)
    before = os.getcwd() if cwd else None
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            m.main(argv)
    except SystemExit as e:
        if e.code not in (0, None):
            raise Refused(f"exit {e.code}: {err.getvalue()[-300:]}") from None
    finally:
        if cwd:
            os.chdir(before)
    return out.getvalue()


def tree(base, follow=False):
    """{relative path: content | ('link', target) | ('dir',)} of a directory"""
    out = {}
    if not os.path.lexists(base):
        return out
    stack = ['']
    while stack:
        d = stack.pop()
        with os.scandir(os.path.join(base, d) if d else base) as it:
            names = sorted(e.name for e in it)
        for n in names:
            rel = f"{d}/{n}" if d else n
            p = os.path.join(base, rel)
            if os.path.islink(p) and not follow:
                out[rel] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                stack.append(rel)
                out[rel] = ('dir',)
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[rel] = f.read()
            else:
                out[rel] = ('broken', os.readlink(p) if os.path.islink(p) else '?')
    return out


def files_only(t):
    return {k: v for k, v in t.items() if v != ('dir',)}


def diff_trees(a, b):
    """Short description of the first differences, '' if equal"""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            f = lambda x: 'absent' if x is None else (x if isinstance(x, tuple) else f"{len(x)} bytes {x[:24]!r}")
            out.append(f"{k}: {f(a.get(k))} / {f(b.get(k))}")
            if len(out) >= 4:
                break
    return '; '.join(out)
