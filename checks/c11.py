"""C11 The release history is append-only and faithful"""
import contextlib
import json
import os
import time
import requests
from vf.core import Scenario
from vf.cdn import Cdn, gen_files, BASE, CONFIG
from vf.net import Reply
from vf.mem import tree
from cdtb.patcher import PatcherStorage

PROPERTY = 'C11'
RULE = "a case is a history of publications, update checks and listings on both patchlines sharing one storage directory; distinct signature = the sequence of operations and outcomes"
ASSUMPTIONS = ["the files of a release state a version in a known form"]


@contextlib.contextmanager
def clock(t):
    real = time.time
    time.time = lambda: t
    try:
        yield
    finally:
        time.time = real


@contextlib.contextmanager
def shuffled_listdir(rng):
    real = os.listdir

    def listdir(*a, **kw):
        l = real(*a, **kw)
        rng.shuffle(l)
        return l
    os.listdir = listdir
    try:
        yield
    finally:
        os.listdir = real


def history(ctx, rng, tier):
    cdn = Cdn(rng)
    base = os.path.join(ctx.dir(), rng.choice(['st', 'pbe', 'live', 'x/pbe/st', 'releases/live']))
    model = {'live': [], 'pbe': []}        # [(urls, version, timestamp or None)] oldest first
    current, versions = {}, {}
    now = rng.choice([7, 95, 996, 1_000_000_000])
    trace = []
    minor = rng.choice([1, 1, 8, 21])
    season = rng.choice([6, 9, 10, 13, 25])

    def publish(pl, what):
        nonlocal minor
        old = current.get(pl)
        urls = dict(old[0]) if old else {}
        v = dict(old[1]) if old else {'client': f'{season}.1', 'game': f'{season}.1'}
        kinds = {'client': ['client'], 'game': ['game']}.get(what, ['client', 'game'])
        if not old:
            kinds = ['client', 'game']
        if rng.random() < .6 or not old:
            minor += 1
            if old and rng.random() < .7:
                kinds = ['client', 'game']
            # during a release, the elements may be of different patches
            for k in kinds:
                v[k] = f"{season}.{minor - (rng.random() < .3)}"
            if v['client'] != v['game']:
                ctx.count('mixed_versions')
        for k in kinds:
            urls[k] = cdn.add_manifest(gen_files(rng, k, v[k], rng.randrange(2)))
        current[pl] = (urls, v)
        cdn.publish(pl, urls['client'], urls['game'])

    def disk(pl):
        """Recorded releases, read from the disk independently"""
        d = os.path.join(base, 'cdtb', 'releases', pl)
        out = {}
        if os.path.isdir(d):
            for n in os.listdir(d):
                if n.isdigit() and os.path.isfile(os.path.join(d, n, 'release.json')):
                    with open(os.path.join(d, n, 'release.json')) as f:
                        out[int(n)] = json.load(f)
        return out

    def listing(st, stored):
        return [(e.name, str(e.version)) for e in st.patch_elements(stored=stored)]

    def expect(pl):
        return [(k, 'main' if pl == 'pbe' else v[k]) for urls, v, _ in reversed(model[pl]) for k in ('game', 'client')]

    with cdn.net.active(), shuffled_listdir(rng):
        for step in range(rng.randrange(4, 12)):
            pl = rng.choice(['live', 'live', 'pbe'])
            other = 'pbe' if pl == 'live' else 'live'
            st = PatcherStorage(base, pl)
            st.use_extract_symlinks = rng.random() < .5
            op = rng.choice(['publish', 'publish', 'update', 'update', 'update', 'stored', 'foreign', 'error', 'revert'])
            if pl not in current or not model[pl] and op == 'stored' and rng.random() < .5:
                op = 'publish' if pl not in current else op
            trace.append((op, pl))
            if op == 'publish':
                publish(pl, rng.choice(['client', 'game', 'both']))
                op = rng.choice(['none', 'update'])
            if op == 'revert' and len(model[pl]) > 1:
                # an older pair is published again: it differs from the latest recorded one
                urls, v, _ = rng.choice(model[pl][:-1])
                current[pl] = (dict(urls), v)
                cdn.publish(pl, urls['client'], urls['game'])
                op = 'update'
                ctx.count('reverts')
            before_tree = tree(base)
            before_other = {k: v for k, v in before_tree.items() if k.startswith(f'cdtb/releases/{other}/')}
            if op == 'update':
                now += rng.choice([0, 1, 1, 3, 100, 5000, -1, -50])
                now = max(now, 5)
                n = len(cdn.net.log)
                before = disk(pl)
                with clock(now + rng.random() * .9):
                    got = listing(st, False)
                urls, v = current[pl]
                new = not model[pl] or model[pl][-1][0] != urls
                if new:
                    model[pl].append((dict(urls), v, now))
                after = disk(pl)
                ctx.equal(len(after), len(model[pl]), 'recorded', f"releases recorded after an update of {pl}, trace {trace}")
                ctx.check(all(after.get(k) == d for k, d in before.items()), 'rewritten', f"an earlier release of {pl} was changed, trace {trace}")
                ctx.equal(PatcherStorage(base, pl).latest_timestamp(), max(after), 'latest', f"latest timestamp after an update of {pl}, trace {trace}")
                ctx.equal([(after[k]['client_patch_url'], after[k]['game_patch_url']) for k in sorted(after)],
                          [(u['client'], u['game']) for u, _, _ in model[pl]], 'order', f"recorded releases of {pl} by age, trace {trace}")
                # the two services are asked once; versions known before are not fetched again
                asked = cdn.net.urls(n)
                ctx.equal(sum('version-sets' in u for u in asked), 1, 'asked', "game configuration requests")
                ctx.equal(asked.count(CONFIG), 1, 'asked', "client configuration requests")
                data = [u for u in asked if '/channels/' in u]
                if pl == 'pbe':
                    ctx.equal(data, [], 'pbe-downloads', "files fetched to know that PBE is 'main'")
                elif not new:
                    ctx.equal(data, [], 'version-again', "files fetched although versions are known")
                else:
                    mans = [u for u in data if '/releases/' in u]
                    ctx.check(len(mans) <= 2 and set(int(u.split('/')[-1][:16], 16) for u in mans) <= {cdn.mid(x) for x in urls.values()}, 'version-source', f"manifests fetched: {mans}")
                ctx.count('updates'); ctx.count('updates_new', new); ctx.count('updates_same', not new)
            elif op in ('stored', 'none'):
                n = len(cdn.net.log)
                got = listing(st, True)
                ctx.equal(cdn.net.urls(n), [], 'stored-asks', "listing stored releases sends requests")
                ctx.equal(tree(base), before_tree, 'stored-writes', "listing stored releases changes files")
                ctx.count('stored_listings')
            elif op == 'foreign':
                d = os.path.join(base, 'cdtb', 'releases', pl)
                os.makedirs(d, exist_ok=True)
                for name in rng.sample(['foo', 'tmp.1', '99999999999', '3', 'x1', '.hidden', '12a'], 2):
                    p = os.path.join(d, name)
                    if os.path.lexists(p):
                        continue
                    if rng.random() < .5:
                        os.makedirs(p)              # a directory without release.json
                    else:
                        open(p, 'w').close()
                ctx.count('foreign')
                got = listing(st, True)
            else:
                if not model[pl]:
                    continue
                kind = rng.choice(['500', 'conn', 'noregion', 'nopatchline'])
                gurl = f"https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/{'PBE1' if pl == 'pbe' else 'EUW1'}?q%5Bplatform%5D=windows&q%5Bpublished%5D=true"
                if kind in ('500', 'conn'):
                    u = rng.choice([CONFIG, gurl])
                    cdn.faults[u] = (lambda: Reply(500, b'{}')) if kind == '500' else (lambda: Reply(fault=requests.exceptions.ConnectionError("injected")))
                elif kind == 'noregion':
                    cdn.faults[CONFIG] = lambda: Reply(200, json.dumps({f"keystone.products.league_of_legends.patchlines.{pl}": {'platforms': {'win': {'configurations': [{'id': 'XX', 'patch_url': 'x'}]}}}}).encode())
                else:
                    cdn.faults[CONFIG] = lambda: Reply(200, b'{}')
                try:
                    with clock(now):
                        listing(st, False)
                except Exception:
                    ctx.count('errors')
                else:
                    ctx.violation('error-hidden', f"update check succeeds although the service fails ({kind})")
                cdn.faults.clear()
                ctx.equal(tree(base), before_tree, 'error-writes', f"a failed update check changes files ({kind})")
                got = listing(st, True)
            ctx.equal(got, expect(pl), 'listing', f"elements of {pl} after {trace}")
            rels = [r.version for r in st.iter_releases()]
            ctx.equal(rels, sorted(disk(pl), reverse=True), 'releases', "order of the releases")
            if op not in ('foreign',):
                after_other = {k: v for k, v in tree(base).items() if k.startswith(f'cdtb/releases/{other}/')}
                ctx.equal(after_other, before_other, 'other-patchline', f"{op} on {pl} changed {other}")
            ctx.count('steps')
    ctx.nontrivial(tuple(trace), tuple((pl, len(m)) for pl, m in model.items()))
    ctx.count('max_history', 0); ctx.counters['max_history'] = max(ctx.counters['max_history'], *(len(m) for m in model.values()))


SCENARIOS = [Scenario(history, 350, 7000)]
REQUIRED = {'steps': 1200, 'updates_new': 300, 'updates_same': 100, 'stored_listings': 150, 'foreign': 80, 'errors': 60, 'reverts': 15, 'mixed_versions': 60}
