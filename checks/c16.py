"""C16 WAD extraction writes each entry once, at its own place"""
import fnmatch
import os
from vf.core import Scenario
from vf import env, gen, wadw, fsguard
from vf.mem import run_cli, tree, files_only
from cdtb.wad import Wad

PROPERTY = 'C16'
RULE = "a case extracts one archive through the library or the command line; distinct signature = (path classes present, filters, lazy, what was on disk)"
ASSUMPTIONS = ["no path of the archive is a directory of another one after naming, no two entries have the same name", "file system limits of 255 bytes per name (probed)"]

SIG = [(b'\x89PNG\r\n\x1a\nxx', 'png'), (b'OggSxxxx', 'ogg'), (b'TEX\0' + bytes(20), 'tex'), (b'PROP\3\0\0\0', 'bin'), (b'{"a": 1}', 'json'), (b'\0\1\2\3plain', None), (b'', None), (b'r3d2Mesh', 'scb')]


def model_name(e, known, guessed):
    """Name of an entry in the output"""
    p = known.get(e['hash'])
    if p is None:
        g = guessed and e['ext']
        return f"unknown/{e['hash']:016x}" + (f".{g}" if g else '')
    d, sep, base = p.rpartition('/')
    stem, ext = os.path.splitext(base)
    if not ext:
        ext = '.cdtb' + (f".{e['ext']}" if guessed and e['ext'] else '')
        base = base + ext
    if len(base) >= 250:
        base = base[:250 - 17 - len(ext)] + f".{e['hash']:016x}" + ext
    return d + sep + base


def storable(name):
    return all(len(c.encode()) <= 255 for c in name.split('/')) and len(name.encode()) < 3000


def special_paths(rng, ps):
    out = []
    k = rng.sample(['extless', 'dotfile', 'long', 'long_same', 'long_extless', 'edge', 'toolong_dir', 'toolong_bytes', 'deep', 'dir_and_file', 'upper'], rng.choice([0, 1, 3, 5]))
    base = f"sp{rng.randrange(1000)}"
    if 'extless' in k:
        out += [f"{base}/noext", f"{base}/sub/noext2"]
    if 'dotfile' in k:
        out += [f"{base}/.hidden", f"{base}/a.b.c", f"{base}/trail."]
    if 'long' in k:
        out.append(f"{base}/" + rng.choice('abc') * rng.choice([250, 260, 400]) + rng.choice(['.dds', '.bin', '.x1234567890']))
    if 'long_same' in k:
        n = 'q' * 260
        out += [f"{base}/{n}{x}.dds" for x in ('1', '2', '33')] + [f"{base}/{n}1.bin"]
    if 'long_extless' in k:
        out += [f"{base}/" + 'z' * n for n in (244, 245, 246, 250, 300)]
    if 'edge' in k:
        out += [f"{base}/" + 'e' * (n - 4) + '.txt' for n in (248, 249, 250, 251, 255, 256)]
    if 'toolong_dir' in k:
        out += ['d' * 256 + '/a.txt', 'd' * 255 + '/a.txt']
    if 'toolong_bytes' in k:
        out += [f"{base}/" + 'é' * 130 + '.txt', f"{base}/" + 'é' * 120 + '.txt']
    if 'deep' in k:
        out.append('/'.join(['x' * 90] * 10) + '/f.dat')
    if 'dir_and_file' in k:
        out += [f"{base}/thing", f"{base}/thing/child.txt"]
    if 'upper' in k:
        out.append(f"{base}/UPPER/Name.PNG")
    return k, out


def run(ctx, rng, tier):
    version = rng.choice(wadw.VERSIONS)
    ps = gen.paths(rng, rng.choice([0, 1, 4, 10]))
    kinds, sp = special_paths(rng, ps)
    es, known = [], {}
    uid = rng.getrandbits(40)
    for p in ps + sp:
        body, ext = rng.choice(SIG)
        if body and ext != 'json':
            body += uid.to_bytes(6, 'big')
        m = rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD])
        if rng.random() < .1:
            e = wadw.entry(p, b'', wadw.REDIRECT, redirect=rng.choice(ps + sp), path=p, ext=None)
        else:
            e = wadw.entry(p, body, m, path=p, ext=ext)
        # types are remembered per hash for the whole process: a hash is used for one content only
        if p in sp and rng.random() < .9 or rng.random() < .7:
            known[e['hash']] = p
        else:
            e['hash'] = rng.getrandbits(64)
        if p in known.values():
            # extension-less names may be seen again in other cases
            stem, x = os.path.splitext(p.rsplit('/', 1)[-1])
            if not x:
                e2 = rng.getrandbits(64)
                known[e2] = known.pop(e['hash'])
                e['hash'] = e2
        es.append(e)
    rng.shuffle(es)
    d = ctx.dir()
    kind = rng.choice(['.wad', '.wad.client'])
    wpath = os.path.join(d, 'arch.ive' + kind)
    wadw.write_file(wpath, wadw.write_wad(rng, es, version))
    cli = rng.random() < .6
    guessed = cli or rng.random() < .6
    lazy = rng.random() < .35
    pats, unk = None, 'yes'
    sel = list(es)
    if cli:
        unk = rng.choice(['yes', 'yes', 'only', 'no', None])
        if unk == 'only':
            sel = [e for e in sel if e['hash'] not in known]
        elif unk == 'no':
            sel = [e for e in sel if e['hash'] in known]
        if rng.random() < .35:
            pats = []
            for _ in range(rng.choice([1, 2])):
                p = rng.choice(ps + sp + ['nothing/here'])
                pats.append(rng.choice([p.replace('[', '?'), '*' + os.path.splitext(p)[1], p.split('/')[0] + '/*', '*', '?*a*', p.upper(), p[:-1] + '?', '*.[bd]*']))
            sel = [e for e in sel if e['hash'] in known and any(fnmatch.fnmatchcase(known[e['hash']], q) for q in pats)]
    exp, skipped = {}, 0
    for e in sel:
        n = model_name(e, known, guessed)
        if e['method'] == wadw.REDIRECT:
            continue
        if not storable(n):
            skipped += 1
            continue
        assert n not in exp
        exp[n] = e['data']
    out = os.path.join(ctx.dir(), 'out')
    if cli and rng.random() < .2:
        out = os.path.splitext(wpath)[0]
    # what is there before
    before, keep = {}, {}
    if rng.random() < .6:
        for n in exp:
            r = rng.random()
            if r < .3:
                before[n] = b'old' + rng.randbytes(3)
            elif r < .4:
                before[n] = exp[n]
        for _ in range(rng.choice([0, 1])):
            before['foreign/' + str(rng.randrange(10)) + '.x'] = b'foreign'
        # a different name of an entry already on disk is no reason to skip it
        for n in list(exp)[:2]:
            if rng.random() < .2:
                before.setdefault(n + '.bak', b'bak')
        for n, c in before.items():
            wadw.write_file(os.path.join(out, n), c)
            os.utime(os.path.join(out, n), ns=(10**18, 10**18))
    want = dict(before)
    for n, c in exp.items():
        if lazy and n in before:
            keep[n] = c
        else:
            want[n] = c
    if cli:
        argv = ['wad-extract']
        if out != os.path.splitext(wpath)[0]:
            argv += ['-o', out]
        if unk is not None:
            argv += [rng.choice(['-u', '--unknown']), unk]
        for q in pats or []:
            argv += ['-p', q]
        if lazy:
            argv.append('--lazy')
        if rng.random() < .5:
            hf = os.path.join(d, 'h.txt')
            with open(hf, 'w') as f:
                f.writelines(f"{h:016x} {p}\n" for h, p in known.items())
            argv += ['-H', hf]
        else:
            env.set_hashes('game' if kind == '.wad.client' else 'lcu', known)
        run_cli(argv + [wpath])
    else:
        wad = Wad(wpath, hashes=known)
        if guessed:
            wad.guess_extensions()
        wad.extract(out, overwrite=not lazy)
    got = files_only(tree(out))
    what = f"{'command' if cli else 'library'}{' lazy' if lazy else ''} -u {unk} -p {pats}"
    missing = sorted(set(want) - set(got))
    extra = sorted(set(got) - set(want))
    ctx.check(not missing, 'missing', f"{what}: not written: {missing[:3]} (unexpected: {extra[:3]})")
    ctx.check(not extra, 'extra', f"{what}: unexpected files {extra[:3]}")
    for n in want:
        ctx.check(got[n] == want[n], 'content', f"{what}: {n} holds {got[n][:40]!r} instead of {want[n][:40]!r}")
    for n in list(keep):
        ctx.check(os.stat(os.path.join(out, n)).st_mtime_ns == 10**18, 'lazy-touched', f"lazy extraction rewrote {n}")
        ctx.count('kept')
    for n in before:
        if n not in exp:
            ctx.check(os.stat(os.path.join(out, n)).st_mtime_ns == 10**18, 'touched', f"extraction touched {n}")
    ctx.count('files', len(exp)); ctx.count('skipped_names', skipped)
    ctx.count('redirects', sum(e['method'] == wadw.REDIRECT for e in sel))
    for k in kinds:
        ctx.count('k_' + k)
    if pats:
        ctx.count('patterns'); ctx.count('pattern_hits', len(exp))
    if unk in ('only', 'no'):
        ctx.count('unk_' + unk)
    ctx.count('cli' if cli else 'lib')
    if exp or skipped:
        ctx.nontrivial(tuple(sorted(kinds)), unk, tuple(pats or ()), lazy, len(exp), len(keep), skipped)


SCENARIOS = [Scenario(run, 900, 20000)]
REQUIRED = {'files': 4000, 'kept': 200, 'skipped_names': 60, 'redirects': 200, 'patterns': 100, 'pattern_hits': 100, 'unk_only': 60, 'unk_no': 60, 'cli': 300, 'lib': 200,
            'k_long': 50, 'k_long_same': 50, 'k_extless': 50, 'k_dir_and_file': 50, 'k_edge': 50}
