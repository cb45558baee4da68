"""C10 Patcher downloads rebuild every file from its chunks"""
import collections
import json
import os
import shutil
import requests
from vf.core import Scenario
from vf.cdn import Cdn, gen_files, selected, BASE
from vf.net import Reply
from vf.mem import tree
from cdtb.patcher import PatcherStorage

PROPERTY = 'C10'
RULE = "a case is a sequence of element downloads over one to three releases under injected delays and faults; distinct signature = (release contents, completion order of the requests)"
ASSUMPTIONS = ["both elements of a release have distinct file names", "a download that ends early is noticed by the HTTP library (a length is announced)"]


def lang_args(rng, langs):
    """All languages are the default"""
    return {} if langs is True and rng.random() < .5 else {'langs': langs}


def snapshot(base):
    out = {}
    for d, ds, fs in os.walk(base):
        for n in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, n)
            s = os.lstat(p)
            out[os.path.relpath(p, base)] = (s.st_ino, s.st_mtime_ns, s.st_size)
    return out


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.cdn = Cdn(rng)
        self.cdn.twins = True
        self.base = os.path.join(ctx.dir(), 'st')
        if rng.random() < .2:
            # reached through a link
            real = os.path.join(ctx.dir(), 'x/y/real')
            os.makedirs(real)
            os.symlink(real, self.base)
            ctx.count('linked_storage')
        if rng.random() < .15:
            # the shared files are on another disk
            real = os.path.join(ctx.dir(), 'other/disk')
            os.makedirs(real)
            os.makedirs(os.path.join(self.base, 'cdtb'))
            os.symlink(real, os.path.join(self.base, 'cdtb/files'))
            ctx.count('linked_files')
        self.pl = rng.choice(['live', 'pbe'])
        self.st = PatcherStorage(self.base, self.pl)
        self.st.use_extract_symlinks = rng.random() < .6
        self.cdn.delay = lambda url: rng.choice([0, 0, 0, .0005, .002]) if '/bundles/' in url else 0
        if rng.random() < .3:
            self.cdn.cut = lambda n: rng.choice([1, 7, 100, n])
        self.sets = {}
        self.t = 1000
        self.prev = {}

    def new_release(self):
        s = {k: gen_files(self.rng, k, '9.1', prev=self.prev.get(k)) for k in ('client', 'game')}
        if self.prev and self.rng.random() < .4:
            # files moved around, contents kept
            for k in s:
                for p, f in list(self.prev[k].items())[:3]:
                    s[k].setdefault(p + '.moved', {x: f[x] for x in ('content', 'flags', 'link')})
        self.cdn.publish(self.pl, *[self.cdn.add_manifest(s[k]) for k in ('client', 'game')])
        self.prev = s
        before = {r.version for r in self.st.iter_releases()}
        import time
        real = time.time
        time.time = lambda: self.t
        try:
            elems = list(self.st.patch_elements())
        finally:
            time.time = real
        self.t += 100
        self.elems = {}
        for e in elems:
            self.elems.setdefault(e.name, e)
        self.sets = s
        return s

    def location(self, e, path):
        return os.path.join(e.elem.release.storage_dir, 'files', path)

    def extracted(self, e, path, f):
        p = self.location(e, path)
        return os.path.isfile(p) and os.path.getsize(p) == len(f['content'])

    def expected_bundles(self, e, sel):
        todo = [f for p, f in sel.items() if not self.extracted(e, p, f)]
        b = self.cdn.bundles_of(todo)
        return {x for x in b if not os.path.isfile(os.path.join(self.base, f'channels/public/bundles/{x:016X}.bundle'))}

    def check_contents(self, e, sel, must_exist, what):
        ctx = self.ctx
        for p, f in sel.items():
            loc = self.location(e, p)
            if os.path.isfile(loc):
                with open(loc, 'rb') as fo:
                    c = fo.read()
                if not must_exist and len(c) != len(f['content']):
                    continue            # stale file put there by the workload, to be extracted again
                ctx.check(c == f['content'], 'content', f"{what}: {p} has {len(c)} bytes that differ from its chunks ({len(f['content'])} bytes), symlinks={self.st.use_extract_symlinks}")
                ctx.count('files_verified')
            else:
                ctx.check(not must_exist, 'missing', f"{what}: {p} is not extracted")

    def check_sharing(self):
        """Symlink mode: equal chunk lists share one stored file"""
        seen = {}
        for e in self.elems.values():
            for p, f in self.sets[e.name].items():
                loc = self.location(e, p)
                if f['link'] or not os.path.islink(loc) or not os.path.isfile(loc):
                    continue
                key = tuple(f['chunks'])
                ino = os.stat(loc).st_ino
                if key in seen:
                    self.ctx.check(seen[key] == ino, 'not-shared', f"{p}: same content, other stored file")
                    self.ctx.count('shared_files')
                seen[key] = ino
        inv = collections.defaultdict(set)
        for k, i in seen.items():
            inv[i].add(k)
        self.ctx.check(all(len(v) == 1 for v in inv.values()), 'mixed', "files of different content share storage")


def gen_langs(rng):
    return rng.choice([True, True, True, False, 'en_us', ['en_us', 'ko_kr']])


def downloads(ctx, rng, tier):
    """Successful downloads: contents, exactly-once fetches, repeated downloads"""
    w = World(ctx, rng)
    with w.cdn.net.active():
        for r in range(rng.choice([1, 2, 3])):
            w.new_release()
            if rng.random() < .25:
                w.st.use_extract_symlinks = not w.st.use_extract_symlinks
            for name in rng.sample(['client', 'game'], rng.choice([1, 2])):
                e = w.elems[name]
                langs = gen_langs(rng)
                sel = {p: f for p, f in selected(w.sets[name], langs).items() if not f['link']}
                if sel and rng.random() < .25:
                    # stale file of another size at the place of a file
                    p = rng.choice(sorted(sel))
                    loc = w.location(e, p)
                    os.makedirs(os.path.dirname(loc), exist_ok=True)
                    if not os.path.lexists(loc):
                        if w.st.use_extract_symlinks and rng.random() < .5:
                            # a link of a storage that was moved or cleaned up
                            os.symlink(rng.choice(['/nonexistent/cdtb/files/x', 'gone', '../../files/' + '0' * 40, os.path.join(w.base, 'cdtb/files', 'f' * 40)]), loc)
                            ctx.count('stale_links')
                        else:
                            with open(loc, 'wb') as fo:
                                fo.write(b'x' * (len(sel[p]['content']) + 1))
                            ctx.count('stale_files')
                if rng.random() < .25:
                    # shared files, bundles or extracted files are removed from the storage to save space
                    gone = rng.choice([['cdtb/files'], ['cdtb/files', 'channels/public/bundles'], ['channels/public/bundles'], ['channels'], [os.path.relpath(e.elem.release.storage_dir, w.base) + '/files']])
                    for g in gone:
                        shutil.rmtree(os.path.join(w.base, g), ignore_errors=True)
                    ctx.count('removed: ' + ', '.join(g.split('/')[0] + '/' + g.split('/')[-1] for g in gone))
                need = w.expected_bundles(e, sel)
                other = {p: snapshot(w.base)[p] for p in snapshot(w.base) if p.startswith('cdtb/files/') or p.startswith('channels/')}
                n, o = len(w.cdn.net.log), len(getattr(w.cdn.net, 'order', []))
                e.download(**lang_args(rng, langs))
                got = collections.Counter(w.cdn.net.urls(n))
                exp = {f"{BASE}channels/public/bundles/{b:016X}.bundle" for b in need}
                bun = {u: c for u, c in got.items() if '/bundles/' in u}
                ctx.check(not exp - set(bun), 'bundle-missing', f"bundles needed but not fetched: {sorted(exp - set(bun))[:2]}")
                ctx.check(not set(bun) - exp, 'bundle-extra', f"bundles fetched but not needed: {sorted(set(bun) - exp)[:2]}")
                ctx.check(all(c == 1 for c in bun.values()), 'bundle-twice', f"bundles fetched more than once: {[u for u, c in bun.items() if c > 1][:2]}")
                ctx.check(not any('/releases/' in u and c > 1 for u, c in got.items()), 'manifest-twice', "a manifest is fetched twice")
                ctx.check(all('/channels/' in u for u in got), 'other-requests', f"unexpected requests {[u for u in got if '/channels/' not in u]}")
                ctx.count('bundles_fetched', len(bun))
                w.check_contents(e, sel, True, f"download({langs!r}) of {name}")
                w.check_sharing()
                snap = snapshot(w.base)
                ctx.check(all(snap.get(p) == v for p, v in other.items()), 'disturbed', "files stored before were changed")
                order = tuple(x - n for x in w.cdn.net.order[o:])
                if len(order) > 1:
                    ctx.count('reordered', order != tuple(sorted(order)))
                ctx.nontrivial(tuple(sorted((p, len(f['content'])) for p, f in sel.items())), order)
                # again: nothing to do
                n = len(w.cdn.net.log)
                e.download(**lang_args(rng, langs))
                ctx.equal([u for u in w.cdn.net.urls(n)], [], 'again-fetches', "second download sends requests")
                ctx.equal(snapshot(w.base), snap, 'again-changes', "second download changes files")
                if sel and rng.random() < .35:
                    # parts of what was extracted go away: rebuilt by the next download
                    for p in rng.sample(sorted(sel), min(len(sel), rng.choice([1, 2, 99]))):
                        loc = w.location(e, p)
                        real = os.path.realpath(loc)
                        victim = rng.choice([loc, real, real])
                        if os.path.lexists(victim):
                            if rng.random() < .25 and len(sel[p]['content']) > 1:
                                os.truncate(victim, len(sel[p]['content']) // 2) if not os.path.islink(loc) else None
                            else:
                                os.remove(victim)
                                ctx.count('dangling', os.path.islink(loc))
                    if rng.random() < .3:
                        shutil.rmtree(os.path.join(w.base, 'channels/public/bundles'), ignore_errors=True)
                    need = w.expected_bundles(e, sel)
                    n = len(w.cdn.net.log)
                    e.download(**lang_args(rng, langs))
                    got = collections.Counter(u for u in w.cdn.net.urls(n) if '/bundles/' in u)
                    ctx.equal(dict(got), {f"{BASE}channels/public/bundles/{b:016X}.bundle": 1 for b in need}, 'rebuild-fetch', "bundles fetched to rebuild removed files")
                    w.check_contents(e, sel, True, f"files removed, then download({langs!r}) of {name}")
                    w.check_sharing()
                    ctx.count('rebuilds')
                ctx.count('downloads')
                ctx.counters['max_inflight'] = max(ctx.counters['max_inflight'], w.cdn.net.max_inflight)
                ctx.count('concurrent_downloads', w.cdn.net.max_inflight > 1)
        # a fresh storage object over the same directory finds everything in place
        st2 = PatcherStorage(w.base, w.pl)
        st2.use_extract_symlinks = w.st.use_extract_symlinks
        n = len(w.cdn.net.log)
        elems = list(st2.patch_elements(stored=True))
        fresh = {}
        for e in elems:
            fresh.setdefault(e.name, e)
        ctx.equal(w.cdn.net.urls(n), [], 'stored-requests', "listing the stored releases sends requests")
        for name, e in fresh.items():
            w.check_contents(e, {p: f for p, f in w.sets[name].items() if not f['link']}, False, "reopened storage")
        # nor does it matter where the directory is: it can be moved as a whole
        there = {name: {p for p, f in w.sets[name].items() if not f['link'] and os.path.isfile(w.location(e, p))} for name, e in fresh.items()}
        moved = os.path.join(ctx.dir(), 'moved', 'é')
        os.makedirs(os.path.dirname(moved))
        os.rename(w.base, moved)
        st3 = PatcherStorage(moved, w.pl)
        st3.use_extract_symlinks = w.st.use_extract_symlinks
        fresh = {}
        for e in st3.patch_elements(stored=True):
            fresh.setdefault(e.name, e)
        for name, ps in there.items():
            e = fresh[name]
            for p in ps:
                ctx.check(os.path.isfile(w.location(e, p)), 'moved', f"{p} is not there any more when the storage is moved, symlinks={st3.use_extract_symlinks}")
            w.check_contents(e, {p: w.sets[name][p] for p in ps}, False, "moved storage")
            ctx.count('moved', len(ps))


def faults(ctx, rng, tier):
    """Failing bundle downloads are reported, leave no wrong file, and can be repeated"""
    w = World(ctx, rng)
    with w.cdn.net.active():
        w.new_release()
        name = rng.choice(['client', 'game'])
        e = w.elems[name]
        langs = gen_langs(rng)
        sel = {p: f for p, f in selected(w.sets[name], langs).items() if not f['link']}
        need = sorted(w.expected_bundles(e, sel))
        if not need:
            return
        bad = rng.sample(need, min(len(need), rng.choice([1, 1, 2])))
        state = {'n': 0}

        def faulty(url):
            kind = rng.choice(['500', '404', '403', 'conn', 'timeout', 'mid', 'mid'])
            def f():
                state['n'] += 1
                if kind in ('500', '404', '403'):
                    return Reply(int(kind), b'<html>error</html>')
                if kind == 'conn':
                    return Reply(fault=requests.exceptions.ConnectionError("injected"))
                if kind == 'timeout':
                    return Reply(fault=requests.exceptions.ReadTimeout("injected"))
                r = w.cdn.serve(url)
                r.cut = w.cdn.cut
                r.fail_at = rng.randrange(len(r.body) + 1)
                r.fault = requests.exceptions.ChunkedEncodingError("injected")
                return r
            return kind, f
        kinds = []
        for b in bad:
            url = f"{BASE}channels/public/bundles/{b:016X}.bundle"
            k, f = faulty(url)
            kinds.append(k)
            w.cdn.faults[url] = f
        try:
            e.download(**lang_args(rng, langs))
        except Exception as ex:
            ctx.check(isinstance(ex, (requests.exceptions.RequestException, OSError)), 'error-kind', f"failed download ends with {type(ex).__name__}: {ex}")
        else:
            ctx.violation('fault-hidden', f"download succeeds although bundles fail ({kinds})")
        ctx.check(state['n'], 'fault-unused', "the failing bundles were not requested")
        bdir = os.path.join(w.base, 'channels/public/bundles')
        for n in (os.listdir(bdir) if os.path.isdir(bdir) else []):
            if n.endswith('.bundle'):
                with open(os.path.join(bdir, n), 'rb') as f:
                    ctx.check(f.read() == w.cdn.bundle_data[int(n[:16], 16)], 'partial-bundle', f"bundle {n} is stored incomplete ({kinds})")
        w.check_contents(e, sel, False, "after a failed download")
        for p, f in sel.items():
            if os.path.lexists(w.location(e, p)):
                ctx.check(w.extracted(e, p, f), 'partial-file', f"{p} is incomplete after a failed download")
        w.cdn.faults.clear()
        n = len(w.cdn.net.log)
        need = w.expected_bundles(e, sel)
        e.download(**lang_args(rng, langs))
        got = collections.Counter(u for u in w.cdn.net.urls(n) if '/bundles/' in u)
        ctx.equal(dict(got), {f"{BASE}channels/public/bundles/{b:016X}.bundle": 1 for b in need}, 'resume-fetch', "bundles fetched by the repeated download")
        w.check_contents(e, sel, True, "repeated download")
        w.check_sharing()
        ctx.count('faults'); [ctx.count('fault_' + k) for k in kinds]
        ctx.nontrivial(tuple(kinds), tuple(sorted((p, len(f['content'])) for p, f in sel.items())))


def bundle_path(w, b):
    return os.path.join(w.base, f'channels/public/bundles/{b:016X}.bundle')


def releases(ctx, rng, tier):
    """Bundles and extraction as separate steps, on whole releases with one or two elements"""
    w = World(ctx, rng)
    with w.cdn.net.active():
        for _ in range(rng.choice([1, 2])):
            w.new_release()
        rels = list(w.st.iter_releases())
        rel = rels[0]
        both = ('game', 'client')
        names = both
        if rng.random() < .4:
            # release information with a single element
            gone = rng.choice(both)
            names = tuple(n for n in both if n != gone)
            p = os.path.join(rel.storage_dir, 'release.json')
            with open(p) as f:
                data = json.load(f)
            if rng.random() < .5:
                data[f'{gone}_patch_url'] = rng.choice([None, ''])
            else:
                del data[f'{gone}_patch_url']
            with open(p, 'w') as f:
                json.dump(data, f)
            rel = next(w.st.iter_releases())
            ctx.check(rel.element(gone) is None, 'absent-element', f"element {gone} without manifest")
            ctx.count('single_element')
        ctx.equal(sorted(rel.available_elements()), sorted(names), 'available', "available elements")
        ctx.equal(sorted(e.name for e in rel.elements()), sorted(names), 'available', "elements")
        langs = gen_langs(rng)
        sel = {n: {p: f for p, f in selected(w.sets[n], langs).items() if not f['link']} for n in names}
        kw = {} if langs is True and rng.random() < .5 else {'langs': langs}
        skip = rng.choice([None, True, False])
        kw2 = dict(kw) if skip is None else dict(kw, skip_extracted=skip)
        elems = {n: w.elems[n] for n in names}
        files = [f for n in names for p, f in sel[n].items() if skip is False or not w.extracted(elems[n], p, f)]
        want = {b for b in w.cdn.bundles_of(files) if not os.path.isfile(bundle_path(w, b))}
        before = {p: v for p, v in snapshot(w.base).items() if '/files/' in p}
        n0 = len(w.cdn.net.log)
        rel.download_bundles(**kw2)
        got = collections.Counter(u for u in w.cdn.net.urls(n0) if '/bundles/' in u)
        ctx.equal(dict(got), {f"{BASE}channels/public/bundles/{b:016X}.bundle": 1 for b in want}, 'release-bundles', f"bundles fetched by download_bundles({kw2})")
        ctx.equal({p: v for p, v in snapshot(w.base).items() if '/files/' in p}, before, 'release-extracts', "downloading bundles touches extracted files")
        n0 = len(w.cdn.net.log)
        overwrite = rng.random() < .5
        spoiled = None
        if rng.random() < .4:
            # an extracted file of the right size but other content: only replaced on demand
            n = rng.choice(names)
            cands = [p for p, f in sel[n].items() if f['content'] and not os.path.lexists(w.location(elems[n], p))]
            if cands:
                p = rng.choice(sorted(cands))
                loc = w.location(elems[n], p)
                os.makedirs(os.path.dirname(loc), exist_ok=True)
                c = bytes(x ^ 255 for x in sel[n][p]['content'])
                with open(loc, 'wb') as f:
                    f.write(c)
                spoiled = (loc, c, sel[n][p]['content'])
        # bundles of skipped files may have been left out: only extract what can be
        if not (overwrite and skip is not False):
            rel.extract(overwrite=overwrite, **kw)
            ctx.equal(w.cdn.net.urls(n0), [], 'extract-asks', "extracting sends requests")
            if spoiled:
                with open(spoiled[0], 'rb') as f:
                    ctx.check(f.read() == (spoiled[2] if overwrite else spoiled[1]), 'overwrite', f"extract(overwrite={overwrite}) of {spoiled[0]}")
                ctx.count('spoiled')
                if not overwrite:
                    os.remove(spoiled[0])
                    rel.extract(**kw)
            for n in names:
                w.check_contents(elems[n], sel[n], True, f"extract(overwrite={overwrite})")
            w.check_sharing()
            # with the bundles gone, nothing has to be fetched as everything is extracted
            allb = {b for n in names for b in w.cdn.bundles_of(sel[n].values())}
            for b in allb:
                os.remove(bundle_path(w, b)) if os.path.isfile(bundle_path(w, b)) else None
            n0 = len(w.cdn.net.log)
            for n in names:
                rel.element(n).download_bundles(**kw)
            ctx.equal([u for u in w.cdn.net.urls(n0) if '/bundles/' in u], [], 'extracted-fetch', "bundles fetched for extracted files")
            n0 = len(w.cdn.net.log)
            rel.download_bundles(skip_extracted=False, **kw)
            ctx.equal(collections.Counter(u for u in w.cdn.net.urls(n0) if '/bundles/' in u), collections.Counter(f"{BASE}channels/public/bundles/{b:016X}.bundle" for b in allb), 'all-fetch', "bundles fetched with skip_extracted=False")
            ctx.count('release_extracts')
        ctx.count('release_downloads')
        ctx.nontrivial(repr(langs), names, tuple(sorted(want)))


def manifests(ctx, rng, tier):
    """Manifests are stored once, under their ID, and only taken from the expected server"""
    w = World(ctx, rng)
    with w.cdn.net.active():
        urls = [w.cdn.add_manifest(gen_files(rng, 'client', '9.1', 1)) for _ in range(3)]
        for u in urls:
            mid = w.cdn.mid(u)
            path = os.path.join(w.base, f'channels/public/releases/{mid:016X}.manifest')
            for ref in rng.sample([u, mid, u.replace('.secure.', '.')], 3):
                n0 = len(w.cdn.net.log)
                had = os.path.exists(path)
                got = w.st.download_manifest(ref)
                ctx.equal(os.path.join(w.base, got), path, 'manifest-path', f"path of {ref}")
                ctx.equal(w.cdn.net.urls(n0), [] if had else [f"{BASE}channels/public/releases/{mid:016X}.manifest"], 'manifest-fetch', f"requests for {ref}")
                with open(path, 'rb') as f:
                    ctx.check(f.read() == w.cdn.manifests[mid], 'manifest-data', f"manifest {ref}")
                ctx.count('manifests')
        i = f"{rng.getrandbits(64) | 1 << 60:016X}"
        i = i[:-1] + 'A'
        before = tree(w.base)
        for bad in (f"https://evil.example.com/channels/public/releases/{i}.manifest", f"http://lol.dyn.riotcdn.net/channels/public/releases/{i}.manifest", f"{BASE}channels/private/releases/{i}.manifest",
                    f"{BASE}channels/public/releases/{i[:-1]}.manifest", f"{BASE}channels/public/releases/{i}0.manifest", f"{BASE}channels/public/releases/{i.lower()}.manifest", f"{BASE}channels/public/releases/{i}.manifesto",
                    f"{BASE}channels/public/bundles/{i}.manifest", f"{BASE}channels/public/releases/{i}Xmanifest", f"{BASE}channels/public/releases/../{i}.manifest", f"{BASE}x/channels/public/releases/{i}.manifest", f"https://example.com/{BASE}channels/public/releases/{i}.manifest", ''):
            n0 = len(w.cdn.net.log)
            with ctx.raises(ValueError, 'manifest-url', f"manifest URL {bad!r} accepted"):
                w.st.download_manifest(bad)
            ctx.equal(w.cdn.net.urls(n0), [], 'manifest-bad-fetch', f"requests for {bad!r}")
            ctx.count('bad_urls')
        ctx.equal(tree(w.base), before, 'manifest-bad-write', "refused manifests change files")
        ctx.nontrivial(i)


SCENARIOS = [Scenario(downloads, 350, 6000), Scenario(faults, 300, 5000), Scenario(releases, 300, 5000), Scenario(manifests, 20, 200)]
REQUIRED = {'moved': 100, 'downloads': 500, 'rebuilds': 80, 'dangling': 40, 'files_verified': 2000, 'bundles_fetched': 800, 'shared_files': 30, 'faults': 150, 'fault_mid': 30, 'stale_files': 15, 'stale_links': 10, 'removed: cdtb/files': 15, 'release_downloads': 250, 'release_extracts': 150, 'single_element': 80, 'spoiled': 30, 'manifests': 150, 'bad_urls': 200}
