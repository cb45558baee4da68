"""C32 One bad game file never spoils an export"""
import os
import struct
from vf.core import Scenario
from vf import patchgen, wadw, texw, tabw
from vf.patchgen import UNREADABLE
from vf.mem import run_cli, tree, files_only

PROPERTY = 'C32'
RULE = "a case exports one generated patch some files of which are damaged, and compares with the model of the patch without these; distinct signature = (damages and kinds, options, what the output held)"
ASSUMPTIONS = ["no two files of a patch are exported to the same path, or to a directory of another", "the damage is one that no decoder of the format could overlook (a string table whose texts are cut is not told from an intact one)", "the files TFT and Arena data are made of are intact"]

ENTRY = ['gzip', 'gzip_cut', 'zstd', 'zstd_cut', 'type', 'chunked', 'chunked_size', 'offset', 'stored_cut', 'gzip_body', 'link_bad']


def cut(rng, b, lo=0):
    return b[:rng.choice([rng.randrange(lo, len(b)), len(b) - 1, max(lo, len(b) // 2)])]


def bad_content(rng, it):
    """(damage, data) that cannot be decoded, None if there is no such data"""
    kind, data = it.kind, it.variants[rng.randrange(len(it.variants))][0]
    text = rng.choice([b'', b'not a file', b'<html>error</html>', b'\0' * 60, b'\xff' * 40])
    ext = os.path.splitext(it.path)[1]
    if kind == 'tex':
        k = rng.choice(['cut', 'magic', 'format', 'header', 'text'])
        return k, {'cut': lambda: data[:len(data) - rng.choice([1, 4, rng.randrange(1, len(data) - 11)])], 'magic': lambda: rng.choice([b'TEX\1', b'DDS ']) + data[4:], 'header': lambda: data[:rng.randrange(12)],
                   'format': lambda: data[:9] + bytes([rng.choice([0, 9, 0x0f, 0x16, 255])]) + data[10:], 'text': lambda: text}[k]()
    if kind == 'dds':
        k = rng.choice(['cut', 'magic', 'text'])
        return k, {'cut': lambda: cut(rng, data), 'magic': lambda: b'DDX ' + data[4:], 'text': lambda: text}[k]()
    if kind == 'tga':
        k = rng.choice(['cut', 'text'])
        return k, {'cut': lambda: data[:rng.randrange(18)], 'text': lambda: rng.choice([b'', b'not a file', b'<html>error</html>' + bytes(range(1, 60))])}[k]()
    if kind == 'bin' and ext == '.bin':
        k = rng.choice(['cut', 'magic', 'text', 'type'])
        if k == 'type':
            return k, b'PROP' + struct.pack('<LLLL', 3, 0, 1, 1) + struct.pack('<LLHLB', 4 + 2 + 4 + 1 + 1, 5, 1, 7, rng.choice([0x21, 0x70, 0x8b, 0xff])) + b'x'
        return k, {'cut': lambda: cut(rng, data), 'magic': lambda: b'PROQ' + data[4:], 'text': lambda: text}[k]()
    if kind == 'skn':
        k = rng.choice(['magic', 'text', 'header'])
        return k, {'magic': lambda: b'\x34\x22\x11\0' + data[4:], 'text': lambda: text, 'header': lambda: data[:rng.randrange(12)]}[k]()
    if kind == 'rst':
        k = rng.choice(['magic', 'version', 'text', 'header'])
        return k, {'magic': lambda: rng.choice([b'rst', b'RSX', b'\0\0\0']) + data[3:], 'version': lambda: data[:3] + bytes([rng.choice([0, 1, 6, 90, 255])]) + data[4:], 'text': lambda: text, 'header': lambda: data[:rng.randrange(8)]}[k]()
    if kind == 'atlas':
        t = tabw.atlas(rng, False, textures=rng.choice([1, 4]))
        k = rng.choice(['cut', 'index', 'text'])
        return k, {'cut': lambda: cut(rng, t['data']), 'index': lambda: t['data'][:-4] + struct.pack('<L', rng.choice([len(t['atlases']), 2**32 - 1])), 'text': lambda: rng.choice([b'', b'abc', b'<html>error</html>'])}[k]()
    if kind == 'skins':
        k = rng.choice(['magic', 'version', 'cut', 'text'])
        return k, {'magic': lambda: b'Cham' + data[4:], 'version': lambda: data[:4] + struct.pack('<L', rng.choice([0, 1, 3])) + data[8:], 'cut': lambda: data[:rng.randrange(12)], 'text': lambda: text}[k]()
    return None


def mangle(rng, it, k):
    def fn(e):
        size = len(e['data'])
        e['size'] = size
        wadw.encode(rng, e)
        if k in ('gzip', 'zstd', 'gzip_cut', 'zstd_cut'):
            e['method'] = wadw.GZIP if k.startswith('gzip') else wadw.ZSTD
            wadw.encode(rng, e)
            e['stored'] = cut(rng, e['stored'], 1) if k.endswith('_cut') else b'\x99' + rng.randbytes(rng.choice([0, 10, 100]))
        elif k == 'gzip_body':
            # intact gzip header, damaged compressed data
            e['method'] = wadw.GZIP
            wadw.encode(rng, e)
            e['stored'] = e['stored'][:10] + rng.choice([b'\xff', b'\x06', b'\x07\0']) + e['stored'][11:]
        elif k == 'link_bad':
            # redirection to nothing readable
            e['type'] = wadw.REDIRECT
            e['stored'] = rng.choice([b'', b'\1', b'\5\0\0', struct.pack('<L', 4) + b'\xff\xfe\xc3(', struct.pack('<L', 6) + b'ab\xe2\x82cd'])
        elif k == 'type':
            e['type'] = rng.choice([5, 6, 9, 15])
        elif k in ('chunked', 'chunked_size'):
            e['type'] = wadw.CHUNKED | rng.choice([1, 2, 5]) << 4
            if k == 'chunked':
                e['stored'] = b'\x99' + rng.randbytes(rng.choice([0, 10, 100]))
            else:
                e['method'] = wadw.ZSTD
                wadw.encode(rng, e)
                e['type'] = wadw.CHUNKED | 1 << 4
                e['size'] = size + rng.choice([1, 5])
        elif k == 'offset':
            e['offset'] = rng.choice([2**31, 2**32 - 1, 10**8])
            if not e['stored']:
                e['stored'] = b'x'
        elif k == 'stored_cut':
            # the archive ends inside of the entry
            e['method'] = e['type'] = wadw.STORED
            e['stored'] = e['data'] + b'xy'
            e['offset'] = 'end'
    return fn


def damage(ctx, rng, w, items):
    """Add a damaged variant to an item; returns {item: damage}"""
    out = {}
    for it in items:
        b = bad_content(rng, it) if it.known and (it.where[0] == 'plain' or rng.random() < .6) and os.path.splitext(it.path)[1] else None
        if b is not None:
            it.variants.append((b[1], None))
            out[it] = b[0]
        elif it.where[0] != 'plain':
            k = rng.choice(ENTRY)
            it.variants.append((it.variants[0][0] or b'x', UNREADABLE))
            it.mangles[len(it.variants) - 1] = mangle(rng, it, k)
            out[it] = 'entry_' + k
    return out


def long_names(rng, w):
    """Archived files that no file system can hold, known by name"""
    n = 0
    for where in rng.sample([c for c in w.containers if c[0] != 'plain'] or [None], 1):
        if where is None:
            continue
        base = rng.choice(['x', 'n\u00e9', 'ab']) * rng.choice([300, 1000])
        for _ in range(rng.choice([1, 2, 4])):
            long = base
            kind = rng.choice(['png', 'bin', 'dds', 'skn', 'text'])
            # (long file names are shortened, long directory names are not)
            p = f"{rng.choice(['', 'long/b/', 'datalong/x/'])}{long}/{rng.choice(['', 'sub/'])}f{n}" + {'text': '.txt'}.get(kind, '.' + kind)
            if rng.random() < .2:
                p = '/'.join(['d' * 200] * 25) + f'/{n}' + p[-4:]      # too long as a whole
            if where[0] == 'client':
                p = where[1].rsplit('/', 1)[0].lower() + '/global/default/' + p
            it = patchgen.Item(where, p, 'evil', [(w.content(kind)[0], None) for _ in range(2)])
            it.method = rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD])
            w.items.append(it)
            n += 1
    return n


def run(ctx, rng, tier):
    vs = patchgen.history(rng)[:2]
    w = patchgen.World(ctx, rng, vs, unknown=rng.choice([0, .1]))
    # (what is too long as a whole depends on how the output is given)
    short = rng.random() >= .25
    if not short:
        ctx.count('long_names', long_names(rng, w))
    w.make_states(p_same=.6, p_present=.9)
    v, prev = vs
    s = f"vfmem:c32-{ctx.index}"
    out = ctx.dir('out')
    mode = rng.choice(['full', 'full', 'links', 'links', 'over', 'over-links', 'prev-damaged'])
    own = [it for it in w.states[v] if it.kind != 'evil' and (not w.data or it not in w.data.items)]
    hit = rng.sample(own, min(len(own), rng.choice([1, 1, 2, 4, 100])))
    if mode in ('over', 'over-links'):
        w.materialise(prev)
        w.materialise(v)
        w.publish(f"c32-{ctx.index}")
        if mode == 'over-links':
            run_cli(['export', '-s', s, '-o', out, '--full', prev], relative=short)
        run_cli(['export', '-s', s, '-o', out] + (['--full'] if mode == 'over' or rng.random() < .5 else ['--symlinks', '--previous', prev]) + [v], relative=short)
    bad = damage(ctx, rng, w, hit)
    for it in bad:
        w.states[v][it] = len(it.variants) - 1
        if mode == 'prev-damaged' and it in w.states[prev]:
            w.states[prev][it] = len(it.variants) - 1
            if rng.random() < .3:
                w.states[v][it] = 0     # repaired
    w.materialise(prev)
    w.materialise(v)
    w.publish(f"c32-{ctx.index}")
    if mode in ('links', 'prev-damaged'):
        run_cli(['export', '-s', s, '-o', out, '--full', prev], relative=short)
    run_cli(['export', '-s', s, '-o', out] + (['--full'] if mode in ('full', 'over') else ['--symlinks', '--previous', prev]) + [v], relative=short)
    base = os.path.join(out, v)
    full = files_only(tree(base, follow=True))
    got = {k: x for k, x in full.items() if not k.startswith('cdragon/')}
    want = w.expected(v)
    what = f"{mode} export of {v} with damaged {[(it, k) for it, k in bad.items()][:6]}"
    origin = lambda ps: [(p, [(it, bad.get(it)) for it in w.states[v] if p in w.outputs(it, w.states[v][it], v, claim=True)]) for p in ps[:4]]
    missing, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want))
    ctx.check(not missing, 'missing', f"{what}: not exported: {origin(missing)}")
    ctx.check(not extra, 'extra', f"{what}: should not be exported: {origin(extra)}")
    for p, spec in want.items():
        patchgen.same_content(ctx, got[p], spec, f"{what}: {p}")
    for p, spec in w.generated(v).items():
        ctx.check(p in full, 'generated', f"{what}: no {p}")
        patchgen.same_content(ctx, full[p], spec, f"{what}: {p}")
    # directories of meshes that could not be converted
    for it in bad:
        if it.kind == 'skn' and w.states[v][it]:
            p = w.export_path(it, v)
            d = os.path.join(base, patchgen.stem(p)) if p else None
            ctx.check(d is None or not os.path.lexists(d) or any(x.startswith(patchgen.stem(p) + '/') for x in want), 'left', f"{what}: {d} left")
    for f in ('files.exported.txt', 'files.unknown.txt'):
        ctx.check(os.path.exists(os.path.join(base, 'cdragon', f)), 'incomplete', f"{what}: no list {f}")
    for it, k in bad.items():
        ctx.count('damaged'); ctx.count(k if k.startswith('entry_') else f"{it.kind}_{k}")
        if w.outputs(it, w.states[v][it], v):
            ctx.count('unchanged_copy')
    ctx.count(mode); ctx.count('others', len(w.states[v]) - len(bad))
    ctx.nontrivial(mode, tuple(sorted((k, it.kind, it.where) for it, k in bad.items())))
    w.close()


SCENARIOS = [Scenario(run, 500, 10000)]
REQUIRED = {'damaged': 1000, 'long_names': 60, 'unchanged_copy': 150, 'others': 3000, **{'entry_' + k: 40 for k in ENTRY}, **{m: 30 for m in ('full', 'links', 'over', 'over-links', 'prev-damaged')},
            'bin_cut': 10, 'bin_magic': 10, 'bin_type': 10, 'bin_text': 10, 'dds_cut': 4, 'tga_cut': 4, 'skn_magic': 4, 'rst_magic': 3, 'rst_version': 3, 'tex_cut': 2, 'tex_header': 2, 'atlas_cut': 2, 'skins_cut': 2}
