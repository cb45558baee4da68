"""C03 Commands act on exactly the versions the user named"""
import os
from vf.core import Scenario
from vf.mem import MemElement, MemStorage, HISTORIES, run_cli, Refused, tree, files_only
from vf import env, hashw, wadw
from cdtb.hashes import HashFile
from cdtb.storage import parse_storage_component, Patch, PatchElement, PatchVersion, Storage

PROPERTY = 'C03'
RULE = "a case is one stored history with all component texts or command lines tried on it; distinct signature = (history, arguments)"
ASSUMPTIONS = ["exported directories are named as the exporter names them, or are foreign names that are no versions with a trailing sub-patch",
               "exported patches that are asked for are stored"]


def gen_versions(rng, n=None, season=None, any_season=False):
    n = rng.randrange(1, 7) if n is None else n
    pool = set()
    while len(pool) < n:
        t = (season or rng.choice([7, 8, 8, 9] + [4, 9, 10, 11, 14, 15, 25, 26, 99] * any_season), rng.choice([1, 2, 3, 8, 9, 10, 11, 12, 13, 20]))
        if any_season or t < (9, 14):         # TFT and Arena data are not what is checked here
            pool.add(t)
    return [f"{a}.{b}" for a, b in sorted(pool, reverse=True)]


def gen_history(rng, versions, d=None):
    h = []
    for v in versions:
        names = rng.choice([['game', 'client'], ['client', 'game'], ['game'], ['client'], ['game', 'game', 'client', 'game'], ['client', 'client']])
        for n in names:
            i = len(h)
            files = [(f"/src/{v}/{n}{i}/{k}", f"{n}/{k}.x", rng.choice([None, 'en_us', 'fr_fr'])) for k in range(rng.randrange(0, 4))]
            h.append(MemElement(n, v, i, files, stored=rng.random() < .7))
    return h


def first(it):
    return next(iter(it), None)


def model_component(h, comp):
    """What a valid component text names: list of element uids, None if not available"""
    name, _, v = comp.partition('=')
    v = v[:-1] if v.endswith('.') else v
    if name == 'patch':
        if not v:
            v = str(h[0].version) if h else None
        out = {}
        for e in h:
            if str(e.version) == v:
                out.setdefault(e.name, e.uid)
        return sorted(out.values()) or None
    e = first(e for e in h if e.name == name and (not v or str(e.version) == v))
    return None if e is None else [e.uid]


def view(c):
    if c is None:
        return None
    if isinstance(c, Patch):
        return sorted(e.uid for e in c.elements)
    return [c.uid]


def valid_components(rng, h):
    vs = list(dict.fromkeys(str(e.version) for e in h))
    out = []
    for name in ('patch', 'game', 'client'):
        out.append(f"{name}=")
        for v in vs[:5]:
            out.append(f"{name}={v}")
            if v != 'main':
                out += [f"{name}={v}.", f"{name}={v}0", f"{name}={v[:-1]}" if not v[:-1].endswith('.') else f"{name}={v}9"]
        out += [f"{name}=1.99", f"{name}=main"]
    return out


def invalid_components(rng, h):
    v = str(h[0].version) if h else '8.1'
    if v == 'main': v = '8.1'
    bad = ['', 'patch', v, f'={v}', f'Patch={v}', f'patch ={v}', f'patch= {v}', f'patch={v} ', f' patch={v}', f'lcu={v}', f'games={v}', f'xgame={v}',
           f'patch={v}x', f'patch=v{v}', f'patch={v}..', f'patch=.{v}', f'patch={v}-{v}', f'patch==', f'patch={v}=', 'patch=mains', 'patch=latest', 'patch=*',
           f'patch=-{v}', f'patch:{v}', f'client,game={v}', f'patch={v},{v}', 'patch=main.', 'game', 'client', 'main', f'namegame={v}']
    return bad


def components(ctx, rng, tier):
    versions = ['main'] if rng.random() < .1 else gen_versions(rng, any_season=rng.random() < .8)
    h = gen_history(rng, versions)
    if rng.random() < .5:
        for e in h: e.stored = True
    if rng.random() < .05: h = []
    key = f"k{ctx.index}"
    HISTORIES[key] = h
    try:
        st = MemStorage(key)
        for c in valid_components(rng, h):
            exp = model_component(h, c)
            try:
                got = parse_storage_component(st, c)
            except ValueError as e:
                ctx.violation('valid-rejected', f"{c!r} rejected: {e}")
            if view(got) != exp and c.startswith(('game=', 'client=')) and not c.endswith('='):
                # given a version, only stored elements may be looked at
                exp = model_component([e for e in h if e.stored], c)
            ctx.equal(view(got), exp, 'component', f"component {c!r} over {[(e, e.stored) for e in h]}")
            ctx.count('newest_not_stored', c.endswith('=') and exp is not None and model_component([e for e in h if e.stored], c) != exp)
            if got is not None:
                ctx.check(isinstance(got, Patch) == c.startswith('patch='), 'component-type', f"{c!r} gives {got!r}")
            ctx.count('components'); ctx.count('components_absent', exp is None)
            ctx.nontrivial(c, tuple((e.name, str(e.version)) for e in h))
        for c in invalid_components(rng, h):
            try:
                got = parse_storage_component(st, c)
            except ValueError:
                ctx.count('components_rejected')
            else:
                ctx.violation('invalid-accepted', f"{c!r} accepted as {got!r}")
    finally:
        del HISTORIES[key]


def listing(ctx, rng, tier):
    """versions, files and download commands"""
    h = gen_history(rng, gen_versions(rng, any_season=rng.random() < .8))
    key = f"l{ctx.index}"
    HISTORIES[key] = h
    loc = ['-s', f'vfmem:{key}']
    try:
        for type_ in ('patch', 'game', 'client'):
            for opts in ([], ['-a']):
                vis = [e for e in h if opts or e.stored]
                exp = list(dict.fromkeys(str(e.version) for e in vis if type_ == 'patch' or e.name == type_))
                out = run_cli(['versions', *loc, *opts, type_])
                ctx.equal(out.split('\n'), exp + [''], 'versions', f"versions {opts} {type_} over {[(e, e.stored) for e in h]}")
                ctx.count('version_listings')
        for e in h: e.stored = True
        byuid = {e.uid: e for e in h}
        comps = valid_components(rng, h)
        rng.shuffle(comps)
        for c in comps[:6]:
            lopts, langs = rng.choice([([], True), (['--no-lang'], False), (['--lang', 'en_us'], ['en_us']), (['--lang', 'en_us', 'fr_fr'], ['en_us', 'fr_fr'])])
            rel = rng.random() < .5
            exp = model_component(h, c)
            argv = ['files', *loc, *(['-r'] if rel else []), c, *lopts]
            try:
                out = run_cli(argv)
            except Refused:
                out = None
            lines = None if exp is None else sorted(d if rel else s for u in exp for s, d in byuid[u]._sel(langs))
            ctx.equal(None if out is None else sorted(out.split('\n')[:-1]), lines, 'files', f"{argv} over {h}")
            ctx.count('file_listings'); ctx.count('file_listings_absent', exp is None)
            ctx.nontrivial(tuple(argv))
        # download acts on the named components, all or none of them when one is unavailable
        avail = [c for c in comps if model_component(h, c) is not None]
        sel = rng.sample(avail if avail and rng.random() < .7 else comps, min(rng.randrange(1, 4), len(avail or comps)))
        exp = [model_component(h, c) for c in sel]
        for e in h: e.downloads.clear()
        try:
            run_cli(['download', *loc, *sel, *lopts])
            done = True
        except Refused:
            done = False
        ctx.equal(done, all(x is not None for x in exp), 'download-refusal', f"download {sel} over {h}")
        want = set(u for x in exp for u in x) if done else set()
        ctx.equal({e.uid for e in h if e.downloads}, want, 'download', f"elements downloaded by {sel}")
        if done:
            ctx.check(all(l == langs for e in h for l in e.downloads), 'download-langs', f"languages passed on: {[e.downloads for e in h]}")
        ctx.count('downloads', done)
    finally:
        del HISTORIES[key]


# --- export command, observed through the files it writes

def export_setup(ctx, rng, key, season=None):
    """A history whose patches are sets of shared plain files: the files of an
    incremental export identify the patch it was compared with."""
    src = ctx.dir('src')
    versions = gen_versions(rng, rng.randrange(1, 6), season)
    h, sets = [], {}
    for i, v in enumerate(versions):
        sets[v] = {f"f/{k}.txt" for k in range(9) if rng.random() < .5} | {f"f/only-{v}.txt"}
        for e in ('game', 'client') if rng.random() < .5 else ('client',):
            mine = sorted(sets[v]) if e == 'client' else []
            h.append(MemElement(e, v, len(h), [(os.path.join(src, os.path.basename(p)), p, None) for p in mine]))
    for p in {p for s in sets.values() for p in s}:
        with open(os.path.join(src, os.path.basename(p)), 'w') as f:
            f.write(p)
    HISTORIES[key] = h
    return versions, sets


def exported(base):
    return {k for k, v in files_only(tree(base)).items() if not k.startswith('cdragon/') and not isinstance(v, tuple)}


def export_single(ctx, rng, tier):
    key = f"e{ctx.index}"
    versions, sets = export_setup(ctx, rng, key)
    out = ctx.dir('out')
    loc = ['-s', f'vfmem:{key}']
    try:
        for _ in range(3):
            target = rng.choice(versions + ['latest', 'latest', '1.99'])
            v = versions[0] if target == 'latest' else target
            mode = rng.choice(['guess', 'guess', 'full', 'given', 'given', 'missing', 'from'])
            argv, prev, ok = [], None, v in versions
            if mode == 'full':
                argv = ['--full']
            elif mode == 'given':
                prev = rng.choice(versions)
                argv = ['--previous', prev]
            elif mode == 'missing':
                argv, ok = ['--previous', '1.98'], False
            elif mode == 'from':
                argv, ok = ['--from', versions[-1]], False
            elif ok:
                i = versions.index(v)
                if i + 1 < len(versions):
                    prev = versions[i + 1]
                else:
                    ok = False          # nothing to compare with: refused, not guessed
            links = ok and prev is not None and prev != v and rng.random() < .3
            if links:
                argv.append('-L')
            o = os.path.join(out, f"o{rng.randrange(10**9)}")
            if links:
                # a previous export to link to
                run_cli(['export', *loc, '-o', o, '--full', prev])
            before = tree(o)
            argv = ['export', *loc, '-o', o, *argv, target]
            try:
                run_cli(argv)
                done = True
            except Refused:
                done = False
            ctx.equal(done, ok, 'export-refusal', f"{argv} with stored {versions}")
            ctx.count('exports_refused', not ok)
            if not ok:
                ctx.equal(tree(o), before, 'refused-wrote', f"{argv} was refused but wrote")
                continue
            ctx.equal(sorted(os.listdir(o)), sorted({v} | ({prev} if links else set())), 'export-dir', f"directories after {argv}")
            exp = sets[v] - (sets[prev] if prev else set())
            ctx.equal(exported(os.path.join(o, v)), exp, 'export-previous', f"files of {argv} with stored {sets}: compared with {prev}")
            if links:
                shown = {k for k, x in files_only(tree(os.path.join(o, v), follow=True)).items() if not k.startswith('cdragon/')}
                ctx.equal(shown, sets[v], 'export-links', f"{argv}")
            ctx.count('exports'); ctx.count('exports_' + mode)
            ctx.nontrivial(mode, target == 'latest', tuple(versions), v, prev, links)
    finally:
        del HISTORIES[key]


def export_update(ctx, rng, tier):
    """No patch named: every exported patch from the given one on"""
    key = f"u{ctx.index}"
    versions, sets = export_setup(ctx, rng, key, season=rng.choice([None, 9]))
    out = ctx.dir('out')
    loc = ['-s', f'vfmem:{key}']
    links = rng.random() < .5
    try:
        have = [v for v in versions if rng.random() < .75]
        for v in have:
            os.makedirs(os.path.join(out, v))
        for n in rng.sample(['latest', 'pbe', 'tmp', 'cdragon', '9', '10', 'x.y', '9.', '-'], rng.randrange(0, 4)):
            os.makedirs(os.path.join(out, n))
        for n in rng.sample(['1.1', '9.24', '1.97', 'README', 'index.json'], rng.randrange(0, 3)):
            if n not in versions:
                open(os.path.join(out, n), 'w').close()
        if rng.random() < .15 :
            # neither a patch nor a starting point: refused
            try:
                run_cli(['export', *loc, '-o', out])
                ctx.violation('update-refusal', "export without patch nor --from is accepted")
            except Refused:
                ctx.count('exports_refused')
        frm = rng.choice(versions + ['1.1', '20.1'])
        key_ = lambda v: tuple(map(int, v.split('.')))
        for v in rng.sample(['0.1', '1.0', '1.95', '9.0', '8.24'], rng.choice([0, 0, 2])):
            # old exports of patches that are not stored any more
            if key_(v) < min(key_(frm), key_(versions[-1])):
                os.makedirs(os.path.join(out, v))
                open(os.path.join(out, v, 'x'), 'w').close()
                ctx.count('old_exports')
        before = tree(out)
        argv = ['export', *loc, '-o', out, '--from', frm] + (['-L'] if links else [])
        try:
            run_cli(argv)
        except Refused as e:
            ctx.violation('update-refused', f"{argv}: {e}")
        sel = [v for v in have if key_(v) >= key_(frm)]          # newest first
        for v, prev in zip(sel, sel[1:] + [None]):
            exp = sets[v] - (sets[prev] if prev else set())
            got = exported(os.path.join(out, v))
            if links and prev:
                # whatever is not linked is a real file
                ctx.check(got >= exp, 'update-previous', f"{argv}, {v} compared with {prev}: missing {exp - got}")
                shown = files_only(tree(os.path.join(out, v), follow=True))
                ctx.equal({k for k in shown if not k.startswith('cdragon/')}, sets[v], 'update-links', f"{argv}, {v} after {prev}")
                ctx.check(all(not isinstance(x, tuple) for x in shown.values()), 'update-broken-link', f"{argv}, {v} has broken links")
                ctx.equal(got, exp, 'update-previous', f"{argv}, {v} compared with {prev}, exported {have}")
            else:
                ctx.equal(got, exp, 'update-previous', f"{argv}, {v} compared with {prev}, exported {have}")
            ctx.count('updates')
        after = tree(out)
        for k in set(before) | set(after):
            if k.split('/')[0] not in sel:
                ctx.equal(after.get(k), before.get(k), 'update-foreign', f"{argv} changed {k}")
        ctx.nontrivial(tuple(versions), tuple(have), frm, links)
    finally:
        del HISTORIES[key]


def guessing(ctx, rng, tier):
    """hashes-guess on components and archive files: exactly the archives of the named versions are searched"""
    src = ctx.dir('src')
    versions = gen_versions(rng, rng.choice([1, 2, 4]), any_season=rng.random() < .7)
    h, own = [], {}

    def archive(kind, path):
        ps = []
        ext = '.wad' if kind == 'client' else '.wad.client'
        es = []
        for k in range(rng.choice([0, 1, 2])):
            p = f"assets/q{rng.randrange(10**9)}.dds" if kind == 'game' else f"plugins/rcp-fe-lol-x/global/default/q{rng.randrange(10**9)}.png"
            text = f'\0"{p.replace("assets", "ASSETS")}"' if kind == 'game' else f' "/fe/lol-x/{p.rsplit("/", 1)[1]}" '
            es.append(wadw.entry(hashw.hash_of(p), b'\x89PNG\r\n\x1a\n' + rng.randbytes(4), rng.choice([wadw.STORED, wadw.ZSTD])))
            es.append(wadw.entry(rng.getrandbits(64), text.encode(), wadw.STORED))
            ps.append(p)
        wadw.write_file(path + ext, wadw.write_wad(rng, es, rng.choice([(1, 0), (3, 0), (3, 1)])))
        return path + ext, ps

    for v in versions:
        for name in rng.choice([['game', 'client'], ['client'], ['game'], ['game', 'client', 'game']]):
            files, found = [], []
            for i in range(rng.choice([0, 1, 2])):
                # the client has archives of the other kind as well, and other files
                kind = rng.choice([name, name, 'game'])
                p, ps = archive(kind, f"{src}/{len(h)}-{i}")
                files.append((p, f"x/{os.path.basename(p)}", None))
                found += [(kind, q) for q in ps]
            other = f"{src}/{len(h)}.dat"
            wadw.write_file(other, b'not an archive')
            files.append((other, 'x/other.dat', None))
            if rng.random() < .5:
                # neither are these archives, whatever their names and contents
                decoy = f"{src}/{len(h)}" + rng.choice(['.wad.txt', '.wad.subchunktoc', '.wad.manifest', 'wad', '.wad.client.bak', '.wads', '.wad/x.dat', '.client'])
                os.makedirs(os.path.dirname(decoy), exist_ok=True)
                if rng.random() < .5:
                    wadw.write_file(decoy, b'not an archive')
                else:
                    os.rename(archive(rng.choice([name, 'game']), f"{src}/tmp")[0], decoy)
                files.append((decoy, 'x/' + os.path.basename(decoy), None))
                ctx.count('guessing decoys')
            e = MemElement(name, v, len(h), files)
            h.append(e)
            own[e.uid] = found
    extra, eps = archive('game', f"{src}/extra")
    key = f"g{ctx.index}"
    HISTORIES[key] = h
    try:
        comps = valid_components(rng, h)
        avail = [c for c in comps if model_component(h, c) is not None]
        for _ in range(3):
            sel = [rng.choice(avail if rng.random() < .7 else comps) for _ in range(rng.choice([1, 1, 2, 3]))]
            exp = {q for c in sel for u in model_component(h, c) or () for q in own[u]}
            if rng.random() < .4:
                sel.insert(rng.randrange(len(sel) + 1), extra)
                exp |= {('game', q) for q in eps}
            for kind in ('lcu', 'game'):
                env.set_hashes(kind, {})
            argv = ['hashes-guess', '-s', f'vfmem:{key}', *rng.choice([['-m', 'grep'], ['-m', 'grep,ext'], ['-m', ' grep , skin-num']]), *sel]
            if any(c not in avail for c in sel if c != extra):
                try:
                    run_cli(argv)
                    ctx.violation('guess-absent', f"{argv[1:]} is accepted over {h}")
                except Refused:
                    ctx.count('guessing absent')
                exp = set()
            else:
                run_cli(argv)
            for kind in ('lcu', 'game'):
                got = set(HashFile(env.hashfile(kind).filename).load().values())
                want = {q for k, q in exp if k.replace('client', 'lcu') == kind}
                ctx.equal(got, want, 'guess-components', f"{kind} paths found by {argv[1:]} over {h}")
            ctx.count('guessing commands')
            ctx.count('paths of components', len(exp))
            ctx.nontrivial(tuple(argv[3:]), len(exp))
        names = [l.split()[0] for l in run_cli(['hashes-guess', '-s', f'vfmem:{key}', '--list-methods']).splitlines() if l.strip()]
        ctx.check('grep' in names, 'guess-methods', f"listed methods: {names}")
        for n in names:
            try:
                run_cli(['hashes-guess', '-s', f'vfmem:{key}', '-m', n, '-n', extra])
            except Refused as e:
                ctx.violation('guess-methods', f"the listed method {n!r} is refused: {e}")
        for bad in (['-m', 'nothing', extra], ['-m', 'grep,', extra], []):
            try:
                run_cli(['hashes-guess', '-s', f'vfmem:{key}', *bad])
                ctx.violation('guess-methods', f"hashes-guess {bad} is accepted")
            except Refused:
                ctx.count('guessing refused')
    finally:
        del HISTORIES[key]


SCENARIOS = [Scenario(guessing, 100, 3000), Scenario(components, 200, 4000), Scenario(listing, 200, 4000), Scenario(export_single, 250, 4000), Scenario(export_update, 250, 4000)]
REQUIRED = {'newest_not_stored': 30, 'components': 4000, 'components_absent': 500, 'components_rejected': 4000, 'version_listings': 1000, 'file_listings': 800,
            'downloads': 50, 'exports': 200, 'exports_refused': 100, 'exports_guess': 40, 'exports_full': 40, 'exports_given': 60, 'updates': 200, 'guessing commands': 150, 'paths of components': 150, 'guessing refused': 150, 'guessing absent': 20, 'old_exports': 20}
