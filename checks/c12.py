"""C12 A killed storage operation can always be resumed"""
import os
import re
import shutil
import time
from vf.core import Scenario
from vf.crash import child, pick_line
from vf.cdn import Cdn, gen_files
from vf.rads import Rads, SLN, MAIN, main_project, gen_contents
from vf.mem import tree, files_only
from cdtb.patcher import PatcherStorage
from cdtb.rads import RadsStorage

PROPERTY = 'C12'
RULE = "a case runs one operation on one prepared storage, kills it at several points and resumes it each time; distinct signature = (operation, source line or file size of the kill)"
ASSUMPTIONS = ["the process dies (kill, power of the process only): data given to the kernel stays", "the published releases do not change between the kill and the resumed run"]


def data_like(rel, known):
    """Would the storage take this file for a finished one?"""
    name = os.path.basename(rel)
    if rel.endswith(('.bundle', '.manifest')) or name in ('release.json', 'latest.timestamp', '_patch_version', 'solutionmanifest', 'packagemanifest', 'releasemanifest') or name.startswith('patch_version.'):
        return True
    if re.fullmatch(r'cdtb/files/[0-9a-f]{20,}', rel):
        return True
    return rel in known or re.sub(r'^(cdtb/releases/\w+)/\d+/', r'\1/N/', rel) in known


def normal(base, known):
    """Content of a storage, releases named by their rank; returns (data, extras)"""
    t = files_only(tree(base))
    rank, orphans = {}, set()
    pl = {}
    for p in t:
        m = re.match(r'cdtb/releases/(\w+)/(\d+)/', p)
        if m:
            pl.setdefault(m.group(1), set()).add(m.group(2))
    for l, vs in pl.items():
        kept = sorted((v for v in vs if f"cdtb/releases/{l}/{v}/release.json" in t), key=int)
        for v in vs:
            if v not in kept:
                orphans.add((l, v))
        for i, v in enumerate(kept):
            rank[l, v] = f"R{i}"
    out, extra = {}, []
    for p, c in t.items():
        m = re.match(r'cdtb/releases/(\w+)/(\d+)/(.*)', p)
        q = p
        if m:
            if (m.group(1), m.group(2)) in orphans:
                extra.append(p)
                continue
            q = f"cdtb/releases/{m.group(1)}/{rank[m.group(1), m.group(2)]}/{m.group(3)}"
        elif re.fullmatch(r'cdtb/releases/\w+/latest.timestamp', p):
            l = p.split('/')[2]
            c = rank.get((l, c.decode().strip()), c)
        if not data_like(p, known):
            extra.append(p)
            continue
        if isinstance(c, tuple) and c[0] == 'link':
            c = ('link', re.sub(r'/\d{3,}/', '/N/', c[1]))
            with open(os.path.join(base, p), 'rb') as f:
                c = c + (f.read(),)
        out[q] = c
    return out, extra


class PatcherWorld:
    def __init__(self, ctx, rng):
        self.rng, self.cdn = rng, Cdn(rng)
        self.net = self.cdn.net
        self.pl = rng.choice(['live', 'live', 'pbe'])
        self.links = rng.random() < .5
        self.prev = {}
        self.known = set()
        self.minor = 1

    def storage(self, base):
        st = PatcherStorage(base, self.pl)
        st.use_extract_symlinks = self.links
        return st

    def new_release(self):
        if self.rng.random() < .7:
            self.minor += 1
        s = {k: gen_files(self.rng, k, f"9.{self.minor}", self.rng.choice([0, 1, 3, 6]), prev=self.prev.get(k)) for k in ('client', 'game')}
        self.cdn.publish(self.pl, *[self.cdn.add_manifest(s[k]) for k in ('client', 'game')])
        self.prev = s
        for k in s:
            self.known |= {f"cdtb/releases/{self.pl}/N/files/{p}" for p in s[k]}

    def ops(self):
        def listing(base):
            return [(e.name, str(e.version)) for e in self.storage(base).patch_elements()]
        def download(langs, name):
            def f(base):
                st = self.storage(base)
                e = st.patch_element(name)
                e.download(langs=langs)
            f.__name__ = f"download_{name}"
            return f
        def patch(base):
            p = self.storage(base).patch(None)
            p.latest().download(langs=True)
        return [listing, patch, download(True, 'client'), download(self.rng.choice([True, False, 'en_us']), 'game')]

    def setup(self, base, run):
        """Earlier, complete operations"""
        k = self.rng.randrange(4)
        for i in range(k):
            if i == 0 or self.rng.random() < .6:
                self.new_release()
            run(self.rng.choice(self.ops()), base)
        if k == 0 or self.rng.random() < .7:
            self.new_release()


class RadsWorld:
    def __init__(self, ctx, rng):
        self.rng, self.srv = rng, Rads(rng)
        self.net = self.srv.net
        self.srv.cut = rng.choice([None, lambda n: rng.choice([1, 100, 3000, n])])
        self.known = set()
        for s in SLN.values():
            self.srv.listings[s] = []
        self.n = rng.randrange(100)
        self.patch = 1
        self.langs = {}

    def storage(self, base):
        return RadsStorage(base)

    def new_release(self):
        rng, srv = self.rng, self.srv
        el = rng.choice(list(SLN)); sln = SLN[el]
        self.n += 1 + rng.randrange(2)
        v = f"0.0.2.{self.n}"
        self.patch += rng.randrange(2)
        name = main_project(srv, rng, sln, v, f"8.{self.patch}", 3)
        projects, langs = {name: v}, {}
        for l in rng.sample(['en_us', 'fr_fr'], rng.randrange(3)):
            projects[f"{name}_{l}"] = v
            srv.add_project(f"{name}_{l}", v, gen_contents(rng, v, 3))
            langs[l] = [name, f"{name}_{l}"]
        srv.add_solution(sln, v, projects, langs, optional=[p for p in projects if p != name])
        srv.listings[sln].append(v)
        self.known |= set(srv.stored)
        self.last = (el, v, langs)

    def ops(self):
        el, v, langs = self.last
        def listing(base):
            return [(e.name, str(e.version)) for e in self.storage(base).patch_elements()]
        def download(base):
            st = self.storage(base)
            st.patch_element(el).download(langs=sel)
        sel = self.rng.choice([True, True, False] + sorted(langs))
        def solution(base):
            from cdtb.rads import RadsSolution, RadsSolutionVersion, RadsVersion
            RadsSolutionVersion(RadsSolution(self.storage(base), SLN[el]), RadsVersion(v)).download(sel)
        return [listing, download, solution, solution]

    def setup(self, base, run):
        self.new_release()
        for i in range(self.rng.randrange(3)):
            run(self.rng.choice(self.ops()), base)
            if self.rng.random() < .7:
                self.new_release()


def experiment(ctx, rng, tier, World, kind):
    w = World(ctx, rng)
    root = ctx.dir()
    pre = os.path.join(root, 'pre')
    out = os.path.join(root, 'out')
    now = [1000]
    real_time = time.time
    time.time = lambda: now[0]

    def run(op, base, t, **kw):
        def fn():
            now[0] = t
            return op(base)
        r = child(fn, out, **kw)
        if r['status'] in ('harness', 'crash', 'hang'):
            raise RuntimeError(f"{r}")
        return r

    try:
        with w.net.active():
            # this process must stay single-threaded: every operation runs in a child
            os.makedirs(pre)
            def prepare(op, base):
                r = run(op, base, 1000 + len(os.listdir(root)))
                if r['status'] != 'ok':
                    ctx.violation('operation-fails', f"{kind}.{op.__name__} fails without any fault: {r['error']}", trace=r.get('trace'))
            w.setup(pre, prepare)
            op = rng.choice(w.ops())
            name = f"{kind}.{op.__name__}"
            before = files_only(tree(pre))
            ref = os.path.join(root, 'ref')
            shutil.copytree(pre, ref, symlinks=True)
            r = run(op, ref, 2000, record=True)
            if r['status'] != 'ok':
                ctx.violation('operation-fails', f"{name} fails without any fault: {r['error']}", trace=r.get('trace'))
            events, value, r0 = r['events'], r.get('value'), r
            ref_state, extra = normal(ref, w.known)
            ctx.check(not [p for p in extra if p not in before], 'extra', f"{name} leaves {extra} behind")
            new = [p for p, c in files_only(tree(ref)).items() if p not in before and isinstance(c, bytes)]
            sizes = sorted({os.path.getsize(os.path.join(ref, p)) for p in new} - {0})
            ctx.count('line_events', len(events)); ctx.count('mutations', len(r0['mutations']))
            threads = kind == 'patcher' and op.__name__ != 'listing'
            for k in range(10 if tier == 'thorough' else 7):
                base = os.path.join(root, 'run')
                shutil.copytree(pre, base, symlinks=True)
                t, marks = 3000, []
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    if sizes and rng.random() < .35:
                        how = {'fsize': rng.choice([0, 1, rng.choice(sizes) - 1, rng.choice(sizes) // 2])}
                        if threads:
                            # (thread pools need a 32-byte semaphore file)
                            how['fsize'] += 32
                    else:
                        how = {'kill': pick_line(rng, events, r0['mutations'])}
                    r = run(op, base, t, **how)
                    t += rng.choice([0, 0, 1, 50])
                    if r['status'] == 'error':
                        ctx.violation('not-resumable', f"{name} fails after {marks}: {r['error']}", trace=r.get('trace'))
                    if r['status'] == 'killed':
                        mark = f"size {how['fsize']}" if 'fsize' in how else r['at']
                        marks.append(mark)
                        ctx.count('kills'); ctx.count('kill_size' if 'fsize' in how else 'kill_line')
                        ctx.nontrivial(name, r['at'], how.get('fsize', 0))
                        now_ = files_only(tree(base))
                        lost = [p for p in before if now_.get(p) != before[p] and not p.endswith('latest.timestamp')]
                        ctx.check(not lost, 'lost', f"{name} killed at {mark}: {lost[:3]} complete before the run")
                    else:
                        ctx.count('kill_point_not_reached')
                        break
                if marks:
                    ctx.count('multiple_kills', len(marks) > 1)
                    r = run(op, base, t)
                    if r['status'] != 'ok':
                        ctx.violation('not-resumable', f"{name} killed at {marks} fails when run again: {r['error']}", trace=r.get('trace'))
                    ctx.equal(r.get('value'), value, 'result', f"result of {name} killed at {marks} and run again")
                    got, extra = normal(base, w.known)
                    if got != ref_state:
                        diff = [(p, _short(got.get(p)), _short(ref_state.get(p))) for p in sorted(set(got) | set(ref_state)) if got.get(p) != ref_state.get(p)]
                        ctx.violation('state', f"{name} killed at {marks} and run again: differs from an uninterrupted run: {diff[:3]}")
                    bad = [p for p in extra if data_like(p, w.known)]
                    ctx.check(not bad, 'leftover', f"{name} killed at {marks}: {bad[:3]} left behind")
                    ctx.count('resumed'); ctx.count('temporary_left', bool(set(extra) - set(before)))
                shutil.rmtree(base)
    finally:
        time.time = real_time


def _short(c):
    return None if c is None else c[:2] if isinstance(c, tuple) else f"{len(c)} bytes"


def patcher(ctx, rng, tier):
    experiment(ctx, rng, tier, PatcherWorld, 'patcher')


def rads(ctx, rng, tier):
    experiment(ctx, rng, tier, RadsWorld, 'rads')


SCENARIOS = [Scenario(patcher, 70, 1500), Scenario(rads, 50, 1000)]
REQUIRED = {'kills': 500, 'kill_line': 300, 'kill_size': 100, 'resumed': 400, 'multiple_kills': 50, 'temporary_left': 0}
