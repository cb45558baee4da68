"""C17 Extraction and export never write outside their output"""
import os
from vf.core import Scenario
from vf import env, gen, wadw, sknw, fsguard, patchgen
from vf.mem import run_cli, tree, files_only, diff_trees, Refused
from cdtb.wad import Wad

PROPERTY = 'C17'
RULE = "a case runs one extraction or export of entries with hostile names and compares every file-system change, observed as it happens, with the output directory; distinct signature = (operation, hostile names, outcome)"
ASSUMPTIONS = ["POSIX names: a backslash is an ordinary character", "the changes made by the interpreter's file functions are observed (audit events), and everything around the output is compared before and after"]


def evil_paths(rng, root, n, ext=('.txt', '.png', '.bin', '.skn', '.dds', '', '.json')):
    """Names that lead outside, or look as if they did; none is a directory of another"""
    out = []
    while len(out) < n:
        i, e = f"e{rng.getrandbits(30):x}", rng.choice(ext)
        k = rng.choice([
            f"../{i}{e}", f"../../{i}{e}", f"../canary/{i}{e}", f"a/../../{i}{e}", f"a{i}/b/../../../{i}{e}", f"{root}/canary/{i}{e}", f"{root}/{i}{e}", f"//{i}{e}", f"/{i}{e}",
            f"{'../' * 12}{root.lstrip('/')}/canary/{i}{e}", f"a{i}/../b{i}{e}", f"../out/{i}{e}", f"../out2/{i}{e}", f"./../{i}{e}", f"{i}/..", f"{i}/../..", "..", "../", "/", "../canary/victim.txt", "../out.txt",
            f"{root}/canary/victim.txt", f"~/{i}{e}", f"{i}\0{e}", f"../{i}\0{e}", f"a{i}/./b{e}", f"./{i}{e}", f"..{i}{e}", f"...{i}{e}", f"a{i}/...{e}x", f"..\\{i}{e}", f"C:\\{i}{e}", f"C:/{i}{e}", f"$HOME{i}{e}",
            f"a{i}//b{e}", f"{i} ..{e}", f"\\\\srv\\{i}{e}", f"%2e%2e/{i}{e}x", f"../canary", f"../canary/sub",
        ])
        if k not in out:
            out.append(k)
    return out


def leads_outside(p):
    """Can the name not be used below a directory?"""
    return p.startswith('/') or '..' in p.split('/') or '\0' in p


class Arena:
    """A directory with the output inside, and files around it"""

    def __init__(self, ctx, rng):
        self.root = ctx.dir('arena')
        self.out = os.path.join(self.root, 'out')
        for p in ('canary/victim.txt', 'canary/sub/deep.txt', 'out.txt', 'out2/x.txt', 'e/f.txt'):
            wadw.write_file(os.path.join(self.root, p), b'canary ' + p.encode())
        os.makedirs(os.path.join(self.root, 'empty/dir'))

    def outside(self):
        return {k: v for k, v in tree(self.root).items() if k != 'out' and not k.startswith('out/')}

    def watch(self, ctx, fn, what, may=()):
        """Run, and check that only the output was changed"""
        before = self.outside()
        n = len(fsguard.escapes)
        err = None
        with fsguard.recording() as rec:
            try:
                fn()
            except (Exception, SystemExit) as e:
                err = e
        out = os.path.realpath(self.out)
        bad = [(ev, p) for ev, p in rec if not fsguard.inside(p, out) and not any(fsguard.inside(p, m) for m in may) and not (ev == 'os.mkdir' and fsguard.inside(out, p))]
        ctx.check(not bad, 'outside', f"{what}: {bad[:3]} outside of the output")
        esc = fsguard.escapes[n:]
        ctx.check(not esc, 'outside', f"{what}: {esc[:3]} outside of the output")
        d = diff_trees(self.outside(), before)
        ctx.check(not d, 'outside', f"{what}: changed around the output: {d}")
        if err is not None:
            raise err
        ctx.count('changes_observed', len(rec))


def wad(ctx, rng, tier):
    a = Arena(ctx, rng)
    good = gen.paths(rng, rng.choice([1, 3, 6]))
    evil = evil_paths(rng, a.root, rng.choice([1, 2, 4, 8]))
    es, known = [], {}
    for p in good + evil:
        e = wadw.entry(rng.getrandbits(64) if p in evil or not os.path.splitext(p)[1] else p, rng.choice([b'\0\1' + rng.randbytes(20), b'\x89PNG\r\n\x1a\n' + rng.randbytes(20), b'\0']), rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD]))
        known[e['hash']] = e['path'] = p
        es.append(e)
    if rng.random() < .4:
        e = wadw.entry(rng.getrandbits(64), b'', wadw.REDIRECT, redirect=rng.choice(evil).replace('\0', ''))
        es.append(e)
        known[e['hash']] = 'redirected.txt'
    rng.shuffle(es)
    kind = rng.choice(['.wad', '.wad.client'])
    wpath = wadw.write_file(os.path.join(ctx.dir('w'), 'x' + kind), wadw.write_wad(rng, es, rng.choice(wadw.VERSIONS)))
    if rng.random() < .4:
        os.makedirs(a.out)
    lazy = rng.random() < .3
    how = rng.choice(['cli', 'cli', 'cli-H', 'lib'])
    what = f"extraction ({how}{', lazy' if lazy else ''}) of {evil}"
    if how == 'lib':
        def fn():
            w = Wad(wpath, hashes=known)
            if rng.random() < .5:
                w.guess_extensions()
            w.extract(a.out, overwrite=not lazy)
    else:
        argv = ['wad-extract', '-o', a.out] + (['--lazy'] if lazy else [])
        if how == 'cli-H':
            h = os.path.join(ctx.dir('h'), 'h.txt')
            with open(h, 'w') as f:
                f.writelines(f"{h:016x} {p}\n" for h, p in known.items())
            argv += ['-H', h]
        else:
            env.set_hashes('game' if kind == '.wad.client' else 'lcu', known)
        fn = lambda: run_cli(argv + [wpath])
    a.watch(ctx, fn, what)
    got = files_only(tree(a.out))
    byp = {e['path']: e for e in es if 'path' in e}
    used = set()
    for p in good:
        n = p if os.path.splitext(p.rsplit('/', 1)[-1])[1] else None
        hits = [k for k in got if k == p or n is None and k.startswith(p + '.cdtb')]
        ctx.check(hits and got[hits[0]] == byp[p]['data'], 'not-processed', f"{what}: {p!r} not extracted")
        used.update(hits)
    for p in evil:
        e = byp[p]
        safe = [k for k in got if k == p or k.startswith(f"unknown/{e['hash']:016x}")]
        if leads_outside(p):
            ctx.count('skipped_names' if not safe else 'renamed')
        else:
            ctx.count('odd_names')
            ctx.check(got and e['data'] in got.values(), 'not-processed', f"{what}: {p!r} is a valid name but was not extracted")
    rest = [k for k in got if k not in used and got[k] not in [byp[p]['data'] for p in evil]]
    ctx.check(not rest, 'extra', f"{what}: unexpected {rest[:3]}")
    ctx.count('wad_evil', sum(map(leads_outside, evil)))
    ctx.nontrivial(how, tuple(sorted(p.replace(a.root, 'ROOT') for p in evil)), lazy)


def skn(ctx, rng, tier):
    a = Arena(ctx, rng)
    names = []
    for p in evil_paths(rng, '/R', 12, ext=('', '.obj', 'x')):
        p = p.replace('\0', '')
        if len(p.encode()) <= 63 and p.replace('/', '_').replace('\\', '_') not in [n.replace('/', '_').replace('\\', '_') for n in names]:
            names.append(p)
    names += ['Body', '.', a.root[:60] + 'x', '../out']
    names = [n for n in dict.fromkeys(names)]
    m = sknw.gen(rng, version=rng.choice([(1, 1), (2, 1), (4, 1)]), names=names)
    if len({x['name'].replace('/', '_').replace('\\', '_') for x in m['parts']}) < len(m['parts']):
        return
    src = wadw.write_file(os.path.join(ctx.dir('s'), 'm.skn'), m['data'])
    if rng.random() < .5:
        os.makedirs(a.out)
        # links left at the place of a part
        for x in m['parts']:
            if rng.random() < .3 and '/' not in x['name'] and '\\' not in x['name']:
                os.symlink(os.path.join(a.root, rng.choice(['canary/victim.txt', 'canary/nothing', 'out.txt'])), os.path.join(a.out, x['name'] + '.obj'))
                ctx.count('part_links')
    what = f"extraction of a mesh with parts {[x['name'] for x in m['parts']]}"
    a.watch(ctx, lambda: run_cli(['skn-extract', '-o', a.out, src]), what)
    got = files_only(tree(a.out))
    ctx.equal(len(got), len(m['parts']), 'not-processed', f"{what}: number of parts written")
    left = list(got.values())
    for x in m['parts']:
        for c in left:
            r = sknw.parse_obj(c.decode()) if isinstance(c, bytes) else 'link'
            if not isinstance(r, str) and r[0] == [v['position'] for v in sknw.part_model(m, x)[0]]:
                left.remove(c)
                break
        else:
            ctx.violation('not-processed', f"{what}: part {x['name']!r} not written")
        ctx.count('mesh_evil', leads_outside(x['name']) or '/' in x['name'])
    ctx.nontrivial(tuple(sorted(x['name'].replace(a.root, 'R') for x in m['parts'])))


def export(ctx, rng, tier):
    a = Arena(ctx, rng)
    vs = rng.choice([['9.5'], ['9.5', '9.4'], ['9.5', '9.4'], ['9.5', '9.4', '9.3']])
    w = patchgen.World(ctx, rng, vs, n=rng.choice([3, 6, 10]))
    evil, items = [], []
    # parts of meshes with hostile names are written inside of the mesh's directory
    for p in evil_paths(rng, a.root, rng.choice([1, 3, 6])):
        kind = rng.choice(['plain', 'wad', 'wad', 'archive'])
        if kind == 'archive':
            where = (rng.choice(['game', 'client']), os.path.splitext(p)[0] + rng.choice(['.wad.client', '.wad']))
            if where[1].endswith('.wad') != (where[0] == 'client') or not leads_outside(where[1]):
                continue
            it = patchgen.Item(where, f"inside/{len(evil)}.txt", 'evil', [(b'evil %d' % i, None) for i in range(2)])
        elif kind == 'plain' or not [c for c in w.containers if c[0] != 'plain']:
            it = patchgen.Item(('plain', None), p, 'evil', [(b'evil %d' % i, None) for i in range(2)])
        else:
            where = rng.choice([c for c in w.containers if c[0] != 'plain'])
            it = patchgen.Item(where, p, 'evil', [(b'evil %d' % i, None) for i in range(2)])
            it.hash = rng.getrandbits(64)
        if not leads_outside(p) and ({'', '.'} & set(p.split('/')) or '.skn' in p and kind == 'plain'):
            continue    # links are made of normalised names only
        it.method = wadw.STORED
        evil.append(p)
        w.items.append(it)
    w.make_states(p_present=.9)
    for v in vs:
        w.materialise(v)
    s = w.publish(f"c17-{ctx.index}")
    # what the output held before
    junk = rng.sample(['cdragon_link', 'file_links', 'dir_links', 'dirs', 'ver_link', 'skn_links'], rng.choice([0, 1, 2, 4]))
    done = []

    def prepare(v):
        base = os.path.join(a.out, v)
        exp = sorted(w.expected(v))
        if 'cdragon_link' in junk:
            os.makedirs(base, exist_ok=True)
            if not os.path.lexists(f"{base}/cdragon"):
                os.symlink(os.path.join(a.root, 'canary'), f"{base}/cdragon")
                ctx.count('cdragon_links')
        for k in ('file_links', 'dir_links', 'skn_links'):
            if k not in junk:
                continue
            for p in exp:
                if rng.random() > .4:
                    continue
                target = os.path.join(a.root, 'canary/victim.txt' if k == 'file_links' else rng.choice(['canary', 'empty/dir', 'out2']))
                q = p
                if k == 'dir_links':
                    q = '/'.join(p.split('/')[:rng.randrange(1, p.count('/') + 1)]) if '/' in p else None
                elif k == 'skn_links':
                    q = os.path.splitext(p)[0] if p.endswith('.skn') else None
                if not q:
                    continue
                q = os.path.join(base, q)
                if os.path.realpath(os.path.dirname(q)) != os.path.normpath(os.path.dirname(q)):
                    continue
                os.makedirs(os.path.dirname(q), exist_ok=True)
                if not os.path.lexists(q):
                    os.symlink(target, q)
                    ctx.count('foreign_links')
        if 'dirs' in junk:
            os.makedirs(os.path.join(base, 'some/empty/tree'), exist_ok=True)
    for v in reversed(vs):
        links = len(done) > 0 and rng.random() < .6
        lazy = rng.random() < .2
        opts = (['--symlinks'] if links else []) + (['--lazy'] if lazy else [])
        opts += ['--previous', done[-1]] if done and (links or rng.random() < .5) else ['--full']
        prepare(v)
        what = f"export of {v} ({' '.join(opts)}) over {junk}, with {evil}"
        others = {o: tree(os.path.join(a.out, o)) for o in done}
        cur = os.path.join(a.out, v)
        save = a.out
        # only the directory of this patch may change
        def outside(self=a, v=v):
            return {k: x for k, x in tree(a.root).items() if k != 'out' and k != f"out/{v}" and not k.startswith(f"out/{v}/")}
        a.outside, a.out = outside, cur
        try:
            a.watch(ctx, lambda: run_cli(['export', '-s', s, '-o', save] + opts + [v]), what)
        finally:
            a.out = save
        t = files_only(tree(cur, follow=True))
        if '--full' in opts and not lazy:
            for p, spec in w.expected(v).items():
                ctx.check(p in t, 'not-processed', f"{what}: {p} not exported")
                patchgen.same_content(ctx, t[p], spec, p)
                ctx.count('good')
        ctx.count('exports'); ctx.count('links_made', links)
        done.append(v)
    ctx.count('export_evil', sum(map(leads_outside, evil)))
    ctx.nontrivial(tuple(vs), tuple(sorted(p.replace(a.root, 'ROOT') for p in evil)), tuple(sorted(junk)))
    w.close()


SCENARIOS = [Scenario(wad, 500, 20000), Scenario(skn, 150, 5000), Scenario(export, 250, 6000)]
REQUIRED = {'wad_evil': 500, 'odd_names': 250, 'mesh_evil': 80, 'part_links': 5, 'export_evil': 200, 'exports': 300, 'links_made': 80, 'good': 700, 'foreign_links': 300, 'cdragon_links': 70, 'changes_observed': 15000}
