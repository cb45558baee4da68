"""C05 RADS listings merge both solutions without loss"""
import os
import re
import shutil
import requests
from vf.core import Scenario
from vf.net import Reply
from vf.rads import Rads, SLN, MAIN, URL, URL_PBE, main_project
from cdtb.rads import RadsStorage

PROPERTY = 'C05'
RULE = "a case is one pair of solution histories listed by several storage objects, with the server log as witness; distinct signature = both histories with their patch versions"
ASSUMPTIONS = ["patch versions never decrease inside one solution (documented precondition of the listing)", "the order of two elements of different solutions with the same patch version is free"]

PATCHES = ['4.20', '5.1', '5.9', '5.10', '6.2', '6.24', '7.1', '8.9', '8.10', '8.24', '9.1', '9.2', '9.9', '9.10', '9.11', '10.1']


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        pbe = rng.random() < .1
        self.url = URL_PBE if pbe else URL
        self.pbe = pbe
        self.srv = Rads(rng, self.url)
        if rng.random() < .4:
            self.srv.cut = lambda n: rng.choice([1, 13, 200, n])
        self.base = os.path.join(ctx.dir(), 'rads')
        self.hist = {}           # sln -> [(version, patch or None)] oldest first
        for el, sln in SLN.items():
            n = rng.choice([0, 1, 2, 3, 4, 5])
            v = [0, 0, 0, rng.choice([0, 3, 40, 250])]
            ps = sorted(rng.choices(range(len(PATCHES)), k=n))
            self.hist[sln] = []
            self.srv.listings[sln] = []
            for i in range(n):
                self.add(sln, v, PATCHES[ps[i]])
                v[3] += rng.choice([1, 1, 2, 7])
                if v[3] > 255:
                    v = v[:2] + [v[2] + 1, v[3] - 256]
                if rng.random() < .15:
                    # the first components weigh more
                    k = rng.choice([0, 1, 1, 2])
                    v = v[:k] + [v[k] + rng.choice([1, 9, 10])] + [rng.choice([0, 0, 1, 8]) for _ in range(3 - k)]
                    ctx.count('major_steps')

    def add(self, sln, v, patch):
        rng, srv = self.rng, self.srv
        version = '.'.join(map(str, v))
        pv = version if rng.random() < .5 else f"{v[0]}.{v[1]}.{v[2]}.{(v[3] + 60) % 256}"
        pname, fname = MAIN[sln]
        prev = self.hist[sln][-1] if self.hist[sln] else None
        state = 'ok'
        if prev and prev[1] == patch and rng.random() < .3:
            # same project version as the release before
            pv, state = prev[2], prev[3]
        elif rng.random() < .15:
            state = 'gone'
        elif pname == 'league_client' and rng.random() < .5 and [int(x) for x in pv.split('.')] <= [0, 0, 0, 43]:
            state = 'nofile'
        if (pname, pv) not in srv.projects:
            main_project(srv, rng, sln, pv, patch, present=state != 'nofile')
            srv.projects[pname, pv]['gone'] = state == 'gone'
        else:
            p = srv.projects[pname, pv]
            state = prev[3] if prev and prev[2] == pv else state
            for h in self.hist[sln]:
                if h[2] == pv:
                    state, patch = h[3], h[4]
        projects = {f"{pname}_en_us": pv, pname: pv} if rng.random() < .5 else {pname: pv}
        if f"{pname}_en_us" in projects:
            srv.projects.setdefault((f"{pname}_en_us", pv), {'files': {}, 'manifest': b'PKG1\n', 'packages': {}, 'releasemanifest': b'x'})
        srv.add_solution(sln, version, projects, {'en_us': list(projects)}, optional=[p for p in projects if p != pname])
        srv.listings[sln].append(version)
        rng.shuffle(srv.listings[sln])
        self.hist[sln].append((version, patch if state == 'ok' else None, pv, state, patch))

    def storage(self):
        return RadsStorage(self.base, self.url if self.pbe or self.rng.random() < .5 else None)

    def expected(self, only=None):
        out = []
        for el, sln in SLN.items():
            for h in self.hist[sln]:
                p = 'main' if self.pbe else h[1]
                if p is not None and (only is None or (sln, h[0]) in only):
                    out.append((el, h[0], p))
        return out

    def check(self, elems, exp, what, prefix=False):
        ctx = self.ctx
        got = [(e.name, str(e.solution_version.version), str(e.version)) for e in elems]
        ctx.check(len(set(got)) == len(got), 'duplicate', f"{what}: an element is listed twice: {got}")
        if prefix:
            ctx.check(set(got) <= set(exp), 'unknown', f"{what}: {sorted(set(got) - set(exp))} listed")
        else:
            ctx.equal(sorted(got), sorted(exp), 'elements', what)
        key = lambda s: [float('inf')] if s == 'main' else [int(x) for x in s.split('.')]
        ps = [key(g[2]) for g in got]
        ctx.check(all(a >= b for a, b in zip(ps, ps[1:])), 'order', f"{what}: patch versions are not listed from the highest down: {[g[2] for g in got]}")
        for el in SLN:
            vs = [key(g[1]) for g in got if g[0] == el]
            ctx.check(all(a > b for a, b in zip(vs, vs[1:])), 'release-order', f"{what}: releases of {el} are not listed from the newest down: {vs}")
        if prefix:
            # the missing ones come after the listed ones
            for el in SLN:
                mine = sorted([e for e in exp if e[0] == el], key=lambda e: key(e[1]), reverse=True)
                g = [x for x in got if x[0] == el]
                ctx.equal(g, mine[:len(g)], 'prefix', f"{what}: elements listed before the error")
        ctx.count('elements', len(got))
        return got

    def remembered_ok(self, urls, what):
        """Only listings, and file lists of releases without a known version"""
        unknown = {h[2] for sln in SLN.values() for h in self.hist[sln] if h[3] in ('gone', 'nofile')}
        for u in urls:
            p = u[len(self.url):]
            if re.fullmatch(r'solutions/\w+/releases/releaselisting', p):
                continue
            m = re.fullmatch(r'projects/\w+/releases/([0-9.]+)/packages/files/packagemanifest', p)
            if m and m.group(1) in unknown:
                continue
            self.ctx.violation('downloads-again', f"{what}: {p} is requested although the version is known")


def merge(ctx, rng, tier):
    w = World(ctx, rng)
    with w.srv.net.active():
        got = w.check(w.storage().patch_elements(), w.expected(), "first listing")
        if w.pbe:
            w.remembered_ok(w.srv.net.urls(), "PBE listing")
            ctx.count('pbe')
        if rng.random() < .3 and os.path.isdir(os.path.join(w.base, 'projects')):
            # files that only served to know the version are not needed any more
            shutil.rmtree(os.path.join(w.base, 'projects'))
            for h in (h for s in SLN.values() for h in w.hist[s]):
                if not w.pbe and h[3] == 'nofile':
                    break
            else:
                ctx.count('projects_removed')
        n = len(w.srv.net.log)
        w.check(w.storage().patch_elements(), w.expected(), "second listing")
        w.remembered_ok(w.srv.net.urls(n), "second listing")
        ctx.count('gone', sum(h[3] == 'gone' for s in SLN.values() for h in w.hist[s]))
        ctx.count('nofile', sum(h[3] == 'nofile' for s in SLN.values() for h in w.hist[s]))
        both = sum(1 for s in SLN.values() if any(h[1] for h in w.hist[s]))
        ctx.count('two_solutions', both == 2)
        # what the server says about known releases does not matter any more
        if rng.random() < .5:
            for k, p in w.srv.projects.items():
                if not p.get('gone'):
                    p['packages'] = {}
                    p['manifest'] = b'damaged'
            n = len(w.srv.net.log)
            w.check(w.storage().patch_elements(), w.expected(), "listing after the server dropped old data")
            w.remembered_ok(w.srv.net.urls(n), "third listing")
            return
        # new releases, only some directories kept
        old = {(s, h[0]) for s in SLN.values() for h in w.hist[s]}
        disk = {(s, h) for s, h in old if os.path.isdir(os.path.join(w.base, f"solutions/{s}/releases/{h}"))}
        if not w.pbe:
            ctx.check(disk == old, 'not-stored', f"releases not stored by the listing: {sorted(old - disk)}")
        for s in SLN.values():
            if rng.random() < .6:
                v = [30, 0, 9, rng.randrange(200)]
                w.add(s, v, PATCHES[-1])
        if w.pbe:
            for s, h in old:
                if rng.random() < .5:
                    os.makedirs(os.path.join(w.base, f"solutions/{s}/releases/{h}"))
                    disk.add((s, h))
        for s, h in sorted(disk):
            if rng.random() < .25:
                shutil.rmtree(os.path.join(w.base, f"solutions/{s}/releases/{h}"))
                disk.discard((s, h))
                ctx.count('removed_releases')
        for s in SLN.values():
            d = os.path.join(w.base, f"solutions/{s}/releases")
            if os.path.isdir(d) and rng.random() < .5:
                with open(os.path.join(d, rng.choice(['releaselisting', '0.0.77.1', 'x.tmp'])), 'w') as f:
                    f.write('0.0.0.250\n')
        n = len(w.srv.net.log)
        w.check(w.storage().patch_elements(stored=True), w.expected(disk), "stored listing")
        w.remembered_ok(w.srv.net.urls(n), "stored listing")
        ctx.check(not any('releaselisting' in u for u in w.srv.net.urls(n)), 'stored-listing', "listing stored releases asks the server for its releases")
        ctx.count('stored_listings')
        for s in SLN.values():
            for n_ in ('releaselisting', '0.0.77.1', 'x.tmp'):
                p = os.path.join(w.base, f"solutions/{s}/releases/{n_}")
                if os.path.isfile(p):
                    os.remove(p)
        w.check(w.storage().patch_elements(), w.expected(), "listing after new releases")
        if len(got) > 1:
            ctx.nontrivial(tuple(got))


def errors(ctx, rng, tier):
    """A server error is reported, whatever is listed before it is right, and nothing wrong is remembered"""
    w = World(ctx, rng)
    if w.pbe:
        return
    with w.srv.net.active():
        choices = []
        for s in SLN.values():
            choices.append(f"solutions/{s}/releases/releaselisting")
            for h in w.hist[s]:
                pname, fname = MAIN[s]
                choices.append(f"solutions/{s}/releases/{h[0]}/solutionmanifest")
                if h[3] != 'nofile':
                    choices.append(f"projects/{pname}/releases/{h[2]}/packages/files/packagemanifest")
                if h[3] == 'ok':
                    pr = w.srv.projects[pname, h[2]]
                    pk = [q for p, q in pr['where'].items() if p.endswith('/' + fname)][0]
                    choices += [f"projects/{pname}/releases/{h[2]}/packages/files/{pk}"] * 2
        path = rng.choice(choices)
        kind = rng.choice(['500', '403', 'conn', 'timeout'] + (['404'] if 'packagemanifest' not in path else []) + (['mid', 'mid'] if 'BIN_' in path else []))
        hit = []
        def fault():
            hit.append(1)
            if kind.isdigit():
                return Reply(int(kind), b'<html>9.9</html>')
            if kind in ('conn', 'timeout'):
                return Reply(fault={'conn': requests.exceptions.ConnectionError, 'timeout': requests.exceptions.ReadTimeout}[kind]("injected"))
            url = w.url + path
            r = w.srv.serve(url)
            pr = w.srv.projects[tuple(path.split('/')[1:4:2])]
            # inside the entry of the version file
            for line in pr['manifest'].decode().splitlines()[1:]:
                p, pk, off, size, _ = line.split(',')
                if pk == path.split('/')[-1] and any(p.endswith(x) for x in ('/system.yaml', '/system.yaml.compressed', '/League of Legends.exe', '/League of Legends.exe.compressed')):
                    r.fail_at = int(off) + rng.randrange(int(size))
            r.fault = requests.exceptions.ChunkedEncodingError("injected")
            return r
        w.srv.faults[w.url + path] = fault
        elems, err = [], None
        try:
            for e in w.storage().patch_elements():
                elems.append(e)
        except Exception as e:
            err = e
        # everything listed reaches its server request at some point
        ctx.check(hit, 'not-requested', f"{path} was never requested")
        ctx.check(err is not None, 'error-hidden', f"listing succeeds although {path} fails ({kind})")
        # releases whose requests all worked are right
        w.check(elems, w.expected(), f"listing until {path} failed ({kind})", prefix=True)
        ctx.count('errors'); ctx.count('error_' + kind)
        w.srv.faults.clear()
        got = w.check(w.storage().patch_elements(), w.expected(), f"listing after {path} failed ({kind})")
        ctx.nontrivial(path, kind, tuple(got))


SCENARIOS = [Scenario(merge, 300, 6000), Scenario(errors, 350, 6000)]
REQUIRED = {'elements': 2000, 'two_solutions': 100, 'gone': 60, 'nofile': 10, 'removed_releases': 60, 'stored_listings': 80, 'pbe': 15, 'errors': 200, 'error_mid': 20, 'error_404': 20}
