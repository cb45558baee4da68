"""C07 RADS extraction reproduces every package file exactly"""
import collections
import os
import requests
from vf.core import Scenario
from vf.net import Reply
from vf.rads import Rads, URL, gen_contents
from vf.mem import tree, files_only
from cdtb.storage import RequestStreamReader
from cdtb.rads import RadsStorage, RadsProject, RadsProjectVersion, RadsVersion

PROPERTY = 'C07'
RULE = "a case is a sequence of extractions of related project versions under chosen cuts and faults of the stream; distinct signature = (package layout, pieces or fault)"
ASSUMPTIONS = ["entries of one package do not overlap (empty entries may lie anywhere)", "sizes in the package manifest are those of the stored data"]


def snap(base):
    out = {}
    for d, _, fs in os.walk(base):
        for n in fs:
            p = os.path.join(d, n)
            s = os.stat(p)
            out[os.path.relpath(p, base)] = (s.st_ino, s.st_mtime_ns)
    return out


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.srv = Rads(rng)
        self.base = os.path.join(ctx.dir(), 'rads')
        self.st = RadsStorage(self.base)
        self.name = rng.choice(['lol_game_client', 'league_client_en_us', 'x'])
        self.versions = []
        v = rng.randrange(100)
        for _ in range(rng.choice([1, 1, 2, 3])):
            v += rng.choice([1, 2, 20])
            version = f"0.0.1.{v}"
            c = gen_contents(rng, version, rng.choice([1, 6, 12]))
            if rng.random() < .1 and c:
                big = rng.choice(sorted(c))
                data = rng.randbytes(70000)
                if rng.random() < .5:
                    # much larger than its compressed form
                    data = b''.join(rng.choice([b'x' * 300000, b'ab' * 100000, rng.randbytes(50), data[:5000]]) for _ in range(rng.choice([2, 4, 9])))
                    ctx.count('well compressed')
                c[big] = (data, rng.random() < .8, c[big][2])
            self.srv.add_project(self.name, version, c)
            self.versions.append(version)
        self.set_cut()
        # amount of data that is asked for at once: files, and gaps between them, of several pieces
        RequestStreamReader.DOWNLOAD_CHUNK_SIZE = rng.choice([10 * 1024**2, 10 * 1024**2, 16, 100, 1000])

    def set_cut(self):
        r = self.rng
        k = r.choice([None, 'one', 'small', 'mix', 'mix'])
        self.srv.cut = {None: None, 'one': lambda n: 7, 'small': lambda n: r.choice([1, 2, 3]), 'mix': lambda n: r.choice([1, 60, 1000, n])}[k]
        return k

    def pv(self, version):
        return RadsProjectVersion(RadsProject(self.st, self.name), RadsVersion(version))

    def entries(self, version):
        """{extract path: (package, offset, stored size)}"""
        out = {}
        for line in self.srv.projects[self.name, version]['manifest'].decode().splitlines()[1:]:
            p, pk, off, size, _ = line.split(',')
            p = p[1:]
            out[p[:-11] if p.endswith('.compressed') else p] = (pk, int(off), int(size))
        return out

    def missing(self, paths):
        return [p for p in paths if not os.path.isfile(os.path.join(self.base, p))]

    def check_files(self, version, paths, must, what):
        t = files_only(tree(self.base))
        exp = self.srv.projects[self.name, version]['files']
        for p in paths:
            if p in t:
                self.ctx.check(t[p] == exp[p], 'content', f"{what}: {p} has {len(t[p])} bytes that differ from the {len(exp[p])} packaged ones")
                self.ctx.count('files_verified')
            else:
                self.ctx.check(not must, 'missing', f"{what}: {p} is not extracted")
        known = set(self.srv.stored)
        for p in t:
            if '/files/' in p:
                self.ctx.check(p in known, 'extra', f"{what}: unexpected file {p}")
                self.ctx.check(t[p] == self.srv.stored[p], 'partial', f"{what}: {p} is incomplete or wrong")

    def packages(self, version, urls):
        pre = f"{URL}projects/{self.name}/releases/{version}/packages/files/"
        return collections.Counter(u[len(pre):] for u in urls if u.startswith(pre) and not u.endswith('/packagemanifest'))


def extraction(ctx, rng, tier):
    w = World(ctx, rng)
    with w.srv.net.active():
        for version in w.versions:
            ents = w.entries(version)
            pv = w.pv(version)
            for step in range(rng.choice([1, 2, 3])):
                cut = w.set_cut()
                last = step > 0 and rng.random() < .6
                paths = None if last or rng.random() < .3 else rng.sample(sorted(ents), rng.randrange(0, len(ents) + 1))
                if step and rng.random() < .5 and ents:
                    p = os.path.join(w.base, rng.choice(sorted(ents)))
                    if os.path.isfile(p):
                        os.remove(p)
                        ctx.count('removed')
                todo = w.missing(ents if paths is None else paths)
                if rng.random() < .3:
                    pv = w.pv(version)
                before = snap(w.base)
                n = len(w.srv.net.log)
                if paths is None and rng.random() < .5:
                    pv.download()
                    path = os.path.join(w.base, f"projects/{w.name}/releases/{version}/releasemanifest")
                    ctx.check(os.path.isfile(path), 'release-manifest', f"release manifest of {version} is not stored by a download")
                    with open(path, 'rb') as f:
                        ctx.check(f.read() == w.srv.projects[w.name, version]['releasemanifest'], 'release-manifest', f"release manifest of {version} is not the served one")
                else:
                    pv.extract(*([] if paths is None else [paths]))
                ctx.equal(sorted(pv.filepaths()), sorted(ents), 'filepaths', f"file list of {version}")
                got = w.packages(version, w.srv.net.urls(n))
                need = {ents[p][0] for p in todo}
                ctx.equal(dict(got), {k: 1 for k in need}, 'packages', f"packages fetched for {len(todo)} missing files")
                after = snap(w.base)
                ctx.check(all(after.get(p) == s for p, s in before.items()), 'touched', f"files extracted before were changed: {[p for p, s in before.items() if after.get(p) != s][:3]}")
                w.check_files(version, ents if paths is None else paths, True, f"extract of {version} ({cut})")
                ctx.equal(set(after) - set(before) - {p for p in after if '/files/' not in p}, set(todo), 'created', "files created")
                ctx.count('extractions'); ctx.count('packages', len(got)); ctx.count('nothing_to_do', not todo)
                ctx.count('cut_' + str(cut))
                same = collections.Counter((pk, off) for pk, off, _ in ents.values())
                ctx.count('shared_offset', any(c > 1 for c in same.values()))
                if todo:
                    ctx.nontrivial(tuple(sorted(ents.values())), str(cut), len(todo))


def faults(ctx, rng, tier):
    w = World(ctx, rng)
    version = w.versions[-1]
    ents = w.entries(version)
    if not ents:
        return
    with w.srv.net.active():
        if rng.random() < .4:
            w.pv(version).extract(rng.sample(sorted(ents), rng.randrange(len(ents))))
        paths = None if rng.random() < .6 else rng.sample(sorted(ents), rng.randrange(1, len(ents) + 1))
        todo = w.missing(ents if paths is None else paths)
        if not todo:
            return
        pk = ents[rng.choice(todo)][0]
        need = max(off + size for p, (k, off, size) in ents.items() if k == pk and p in todo)
        body = len(w.srv.projects[w.name, version]['packages'][pk])
        kind = rng.choice(['500', '404', '403', 'conn', 'mid', 'mid', 'mid', 'eof', 'eof', 'eof'])
        if kind in ('mid', 'eof') and not need:
            return
        at = rng.randrange(need) if kind in ('mid', 'eof') else None
        hit = []
        def fault():
            hit.append(1)
            if kind.isdigit():
                return Reply(int(kind), b'<html>nope</html>' * 50)
            if kind == 'conn':
                return Reply(fault=requests.exceptions.ConnectionError("injected"))
            r = w.srv.serve(url)
            r.cut, r.fail_at = w.srv.cut, at
            r.fault = 'eof' if kind == 'eof' else rng.choice([requests.exceptions.ChunkedEncodingError, requests.exceptions.ConnectionError, requests.exceptions.ReadTimeout, KeyboardInterrupt])("injected")
            return r
        url = f"{URL}projects/{w.name}/releases/{version}/packages/files/{pk}"
        w.srv.faults[url] = fault
        before = snap(w.base)
        err = None
        try:
            pv = w.pv(version)
            pv.download() if paths is None and rng.random() < .5 else pv.extract(*([] if paths is None else [paths]))
        except BaseException as e:
            if type(e).__name__ == 'CaseTimeout':
                raise
            err = e
        ctx.check(hit, 'not-requested', f"{pk} was not requested")
        ctx.check(err is not None, 'error-hidden', f"extraction succeeds although {pk} fails ({kind} at {at} of {body}, needed {need})")
        w.check_files(version, ents, False, f"failed extraction ({kind} at {at})")
        after = snap(w.base)
        ctx.check(all(after.get(p) == s for p, s in before.items()), 'touched', "files extracted before were changed by a failed extraction")
        w.srv.faults.clear()
        todo = w.missing(ents if paths is None else paths)
        n = len(w.srv.net.log)
        w.set_cut()
        (pv if rng.random() < .5 else w.pv(version)).extract(*([] if paths is None else [paths]))
        ctx.equal(dict(w.packages(version, w.srv.net.urls(n))), {k: 1 for k in {ents[p][0] for p in todo}}, 'resume-packages', "packages fetched by the later extraction")
        w.check_files(version, ents if paths is None else paths, True, f"extraction after {kind}")
        after2 = snap(w.base)
        ctx.check(all(after2.get(p) == s for p, s in after.items()), 'redone', "the later extraction changed finished files")
        ctx.count('faults'); ctx.count('fault_' + kind); ctx.count('finished_before_fault', len(after) > len(before) + 1)
        ctx.nontrivial(tuple(sorted(ents.values())), kind, at)


SCENARIOS = [Scenario(extraction, 500, 9000), Scenario(faults, 600, 10000)]
REQUIRED = {'extractions': 600, 'files_verified': 3000, 'packages': 400, 'nothing_to_do': 60, 'removed': 20, 'well compressed': 20, 'shared_offset': 20, 'cut_one': 50, 'cut_small': 50, 'cut_mix': 100,
            'faults': 250, 'fault_mid': 60, 'fault_eof': 60, 'fault_500': 15, 'finished_before_fault': 60}
