"""C40 A wrong command line is refused before anything is done"""
import contextlib
import os
import struct
import time
from vf.core import Scenario
from vf import wadw, binw, sknw, gen, env, rads
from vf.cdn import Cdn, gen_files, selected
from vf.mem import run_cli, Refused, tree, files_only

PROPERTY = 'C40'
RULE = "a case runs one valid and several wrong command lines in a prepared directory with a storage and a fake server; distinct signature = the kinds of mistakes made"
ASSUMPTIONS = ["the latest release is already known to the storage"]

METHODS = ['grep', 'numbers', 'basenames', 'words', 'ext', 'regionlang', 'plugin', 'skin-num', 'character', 'prefixes']
ERRORS = (Refused, ValueError, OSError, struct.error, EOFError, AssertionError)


class World:
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.base = os.path.realpath(ctx.dir('w'))
        self.cdn = Cdn(rng)
        self.sets = {}
        self.st = os.path.join(self.base, 'st')
        from cdtb.patcher import PatcherStorage
        with self.cdn.net.active():
            for i, v in enumerate(('9.1', '9.2')):
                self.sets[v] = {k: {n: f for n, f in gen_files(rng, k, v, rng.choice([2, 4])).items() if '.wad' not in n.lower()} for k in ('client', 'game')}
                self.cdn.publish('live', *[self.cdn.add_manifest(self.sets[v][k]) for k in ('client', 'game')])
                real = time.time
                time.time = lambda: 1000 + i
                try:
                    list(PatcherStorage(self.st).patch_elements())
                finally:
                    time.time = real
            # manifests are known already
            for e in PatcherStorage(self.st).patch_elements(stored=True):
                e.elem.manif
        self.bundles = {n for n in os.listdir(os.path.join(self.st, 'channels/public/bundles'))}
        while True:
            self.wad = gen.archive(rng, n=5, known=1)
            # no file in the place of a directory
            names = set(self.wad['known'].values())
            if not any(a.startswith(b + '/') for a in names for b in names):
                break
        self.write('a.wad.client', self.wad['data'])
        self.write('junk.wad.client', b'RX' + rng.randbytes(50))
        self.write('empty.wad.client', b'')
        self.write('other.zip', self.wad['data'])
        self.bin = binw.gen_file(rng, xxh=wadw.path_hash, version=3)
        self.write('a.bin', self.bin['data'])
        self.write('junk.bin', b'PORP' + rng.randbytes(40))
        self.write('short.bin', b'PROP\3\0')
        m = sknw.gen(rng)
        self.skn = m
        self.write('a.skn', m['data'])
        self.write('junk.skn', b'\x11\x22\x33\x44' + rng.randbytes(60))
        self.write('file', b'not a directory')
        self.write('names.txt', ''.join(f"{h:016x} {p}\n" for h, p in self.wad['known'].items()).encode())
        self.write('rads/cdtb.conf', b'')
        os.makedirs(os.path.join(self.base, 'radsdir'))
        os.makedirs(os.path.join(self.base, 'folder'))
        for v in ('9.1', '9.2'):
            os.makedirs(os.path.join(self.base, 'exports', v))
        os.makedirs(os.path.join(self.base, 'cwd'))
        env.set_hashes('game', self.wad['known'])
        env.set_hashes('lcu', {})

    def p(self, name):
        return os.path.join(self.base, name)

    def write(self, name, data):
        p = self.p(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)

    @contextlib.contextmanager
    def cwd(self):
        old = os.getcwd()
        os.chdir(self.p('cwd'))
        try:
            yield
        finally:
            os.chdir(old)

    def mistakes(self):
        """{kind: command line}"""
        r, p = self.rng, self.p
        s = r.choice([['-s', 'patcher:' + self.st], [f'--storage=patcher:{self.st}']])
        good = r.choice(['patch=9.2', 'game=', 'client=9.1', 'patch='])
        absent = r.choice(['patch=9.3', 'game=1.1', 'client=9.10', 'patch=9.20'])
        wrong = r.choice(['9.2', 'patch', 'patchs=9.2', 'GAME=9.2', 'solution=1', '', 'patch:9.2', 'game=x', 'client=9', 'patch=9.x'])
        wad = p('a.wad.client')
        exp = p(r.choice(['exp', 'exports']))
        nowad = r.choice([p('missing.wad.client'), p('folder'), p('nodir/x.wad'), ''])
        junk = r.choice([p('junk.wad.client'), p('empty.wad.client')])
        return {
            'command': r.choice([['unknown'], ['down', 'patch=9.2'], ['Export', '9.2'], ['wad_extract', wad]]),
            'option': r.choice([['download', *s, '--nope', good], ['export', *s, '--fast', '9.2'], ['wad-list', '-z', wad], ['bin-dump', '--yaml', p('a.bin')]]),
            'positional': r.choice([['download', *s], ['files', *s], ['wad-extract'], ['bin-dump'], ['skn-extract'], ['versions', *s], ['wad-list'], ['files', *s, good, good]]),
            'choice': r.choice([['versions', *s, 'patches'], ['wad-extract', '-u', 'maybe', wad], ['versions', *s, '--patchline', 'beta', 'patch'], ['download', *s, '--patchline', 'PBE', good]]),
            'component': ['download', *s, *r.choice([[wrong], [good, wrong], [wrong, good], ['game=', wrong, good]])],
            'absent': ['download', *s, *r.choice([[absent], [good, absent], [absent, good]])],
            'files': ['files', *s, r.choice([wrong, absent])],
            'storage': [r.choice(['download', 'files']), '-s', r.choice([p('folder'), 'foo:' + self.st, p('file'), p('rads')]), good],
            'patchline': ['download', '-s', 'rads:' + p('radsdir'), '--patchline', r.choice(['pbe', 'live']), good],
            'wad': [r.choice(['wad-extract', 'wad-list']), nowad],
            'wad-junk': r.choice([['wad-extract', '-o', p('out'), junk], ['wad-list', junk], ['wad-extract', junk]]),
            'wad-output': ['wad-extract', *r.choice([[], ['--lazy'], ['-u', 'no'], ['-p', '*'], ['--lazy', '-p', 'nothing*']]), '-o', p('file'), wad],
            'wad-hashes': [r.choice(['wad-extract', 'wad-list']), '-H', p('nohashes.txt'), wad],
            'wad-which': [r.choice(['wad-extract', 'wad-list']), p('other.zip')],
            'guess-none': ['hashes-guess', *s, *r.choice([[], ['-m', 'grep'], ['-m', 'grep,ext'], ['--methods=numbers'], ['-n'], ['-n', '-m', 'ext']])],
            'guess-method': ['hashes-guess', *s, '-m', r.choice(['foo', 'grep,foo', 'greps', 'numbers,,ext', 'Grep', '*', 'ext;numbers']), wad],
            'guess-wad': ['hashes-guess', *s, *r.choice([[p('missing.wad')], [wad, p('missing.wad')], [p('missing.wad'), wad], [wad, junk]])],
            'guess-absent': ['hashes-guess', *s, *r.choice([[], ['-n']]), *r.choice([[absent], [wad, absent], [absent, wad]])],
            'export-previous': ['export', *s, '-o', exp, *r.choice([['--previous', '9.1'], ['--full'], ['--from', '9.1', '--full'], ['--full', '--from', '9.2'], ['--previous', '9.1', '--from', '9.1'], ['--previous', 'none'], ['--from', '9.1', '--previous', 'none'], ['--previous', 'none', '--from', '9.1', '--lazy']])],
            'export-nothing': ['export', *s, '-o', exp, *r.choice([[], ['--lazy'], ['-L']])],
            'export-from': ['export', *s, '-o', exp, '--from', '9.1', *r.choice([['9.2'], ['latest'], ['--full', '9.2']])],
            'export-from-bad': ['export', *s, '-o', exp, '--from', r.choice(['x', '9', '9.x', 'latest'])],
            'export-absent': ['export', *s, '-o', exp, *r.choice([[], ['--full']]), r.choice(['9.3', '9.20', '1.1', '9.22'])],
            'export-bad': ['export', *s, '-o', exp, '--full', r.choice(['x', '9', 'newest', '9.2.x'][:3])],
            'export-absent-previous': ['export', *s, '-o', exp, '--previous', r.choice(['9.3', '9.0', '8.24', '9.10']), r.choice(['9.2', 'latest'])],
            'export-no-previous': ['export', *s, '-o', exp, '9.1'],
            'bin': ['bin-dump', *r.choice([[], ['-j']]), r.choice([p('missing.bin'), p('folder'), ''])],
            'bin-junk': ['bin-dump', *r.choice([[], ['-j']]), r.choice([p('junk.bin'), p('short.bin'), p('file'), p('empty.wad.client')])],
            'bin-version': ['bin-dump', '-V', r.choice(['x', '9', '9.x', 'latest']), p('a.bin')],
            'skn': ['skn-extract', *r.choice([[], ['-o', p('mesh')]]), r.choice([p('missing.skn'), p('folder'), ''])],
            'skn-junk': ['skn-extract', *r.choice([[], ['-o', p('mesh')]]), r.choice([p('junk.skn'), p('file'), p('empty.wad.client')])],
        }

    def valid(self):
        """A valid command line with a check of its effect"""
        r, p, ctx = self.rng, self.p, self.ctx
        s = ['-s', 'patcher:' + self.st]
        k = r.choice(['help', 'download', 'extract', 'list', 'methods', 'dump', 'skn', 'export', 'versions'])
        ctx.count('valid_' + k)
        if k == 'help':
            out = run_cli([])
            ctx.check('usage' in out and all(c in out for c in ('download', 'export', 'wad-extract', 'hashes-guess', 'bin-dump')), 'help', f"output without arguments: {out[:200]!r}")
        elif k == 'download':
            run_cli(['download', *s, 'game=9.2'])
            t = files_only(tree(os.path.join(self.st, 'cdtb/releases/live'), follow=True))
            want = {f"1001/files/{n}": f['content'] for n, f in self.sets['9.2']['game'].items() if not f['link']}
            ctx.check(all(t.get(n) == c for n, c in want.items()), 'valid-download', f"{[n for n in want if t.get(n) != want[n]][:2]} not downloaded")
        elif k == 'extract':
            opts = r.choice([[], ['-H', p('names.txt')], ['--hashes', p('names.txt')]])
            run_cli(['wad-extract', *opts, p('a.wad.client')])
            ctx.check(os.path.isdir(p('a.wad')), 'valid-extract', "default output directory")
        elif k == 'list':
            out = run_cli(['wad-list', p('a.wad.client')])
            ctx.check(all(f"{h:016x} {n}" in out for h, n in self.wad['known'].items() if any(e['hash'] == h for e in self.wad['entries'])), 'valid-list', "listing of the archive")
        elif k == 'methods':
            out = run_cli(['hashes-guess', *s, '--list-methods'])
            ctx.equal([l.split()[0] for l in out.splitlines()], METHODS, 'methods', "listed methods")
        elif k == 'dump':
            out = run_cli(['bin-dump', '-j', *([] if self.bin['age'] > 9999 else ['-V', f"{self.bin['age'] // 100}.{self.bin['age'] % 100}"]), p('a.bin')])
            ctx.check(out.startswith('{'), 'valid-dump', "JSON of the BIN file")
        elif k == 'skn':
            run_cli(['skn-extract', p('a.skn')])
            ctx.check(os.path.isdir(p('a')), 'valid-skn', "default output directory")
        elif k == 'export':
            d = r.choice(['export', 'exp', 'deep/exp'])
            opts = []
            if d != 'export' and r.random() < .5:
                os.environ['CDTB_EXPORT'] = p('cwd/' + d)
            elif d != 'export':
                opts = ['-o', d]
            try:
                run_cli(['download', *s, 'patch=9.1'])
                run_cli(['export', *s, *opts, '--full', '9.1'])
            finally:
                os.environ.pop('CDTB_EXPORT', None)
            ctx.check(os.path.isdir(p(f'cwd/{d}/9.1')), 'valid-export', f"no {d}/9.1: {sorted(tree(p('cwd')))[:5]}")
        else:
            t = r.choice(['patch', 'game', 'client'])
            ctx.equal(run_cli(['versions', *s, *r.choice([[], ['-a'], ['--all']]), t]).split(), ['9.2', '9.1'], 'valid-versions', f"versions of {t}")


def commands(ctx, rng, tier):
    w = World(ctx, rng)
    ms = w.mistakes()
    kinds = rng.sample(sorted(ms), 12)
    with w.cdn.net.active(), w.cwd():
        for k in kinds:
            before, lists = tree(w.base), tree(env.hash_dir)
            n = len(w.cdn.net.log)
            what = f"{k}: {' '.join(ms[k]).replace(w.base, '.')}"
            try:
                out = run_cli(ms[k])
            except ERRORS as e:
                ctx.count('refused', isinstance(e, Refused)); ctx.count('raised', not isinstance(e, Refused))
            else:
                ctx.violation('accepted', f"wrong command line accepted: {what}, prints {out[:200]!r}")
            after = tree(w.base)
            changed = sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
            ctx.check(not changed, 'changes', f"refused, but {changed[:3]} changed: {what}")
            ctx.equal(tree(env.hash_dir), lists, 'hash-lists', f"refused, but hash lists changed: {what}")
            asked = [u for u in w.cdn.net.urls(n) if '/channels/' in u]
            ctx.check(not asked, 'requests', f"refused, but data was fetched: {asked[:2]}, {what}")
            ctx.count('mistakes'); ctx.count('k_' + k)
        w.valid()
    ctx.nontrivial(tuple(kinds))


SCENARIOS = [Scenario(commands, 160, 4000)]
REQUIRED = {'mistakes': 1500, 'refused': 800, 'raised': 300, **{'k_' + k: 25 for k in ('command', 'option', 'positional', 'choice', 'component', 'absent', 'files', 'storage', 'patchline', 'wad', 'wad-junk', 'wad-output', 'wad-hashes', 'wad-which', 'guess-none', 'guess-method', 'guess-wad', 'guess-absent',
            'export-previous', 'export-nothing', 'export-from', 'export-from-bad', 'export-absent', 'export-bad', 'export-absent-previous', 'export-no-previous', 'bin', 'bin-junk', 'bin-version', 'skn', 'skn-junk')},
            **{'valid_' + k: 5 for k in ('help', 'download', 'extract', 'list', 'methods', 'dump', 'skn', 'export', 'versions')}}
