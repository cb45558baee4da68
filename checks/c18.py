"""C18 File types of unnamed entries are detected consistently"""
import json
import os
from vf.core import Scenario
from vf import wadw
from vf.mem import run_cli, tree, files_only
from cdtb.wad import Wad

PROPERTY = 'C18'
RULE = "a case is a set of archives whose types are detected; distinct signature = (detected contents, kinds of names, number of archives)"
ASSUMPTIONS = ["an entry has the same content each time its hash is met (detected types are remembered for the life of the process)",
               "contents matching two signatures of different places (start of the file, and JFIF or Exif after six bytes) are not generated",
               "JSON text that cannot be parsed for its size (nesting, digits) may be detected as json or not at all"]
# signatures at the start of files, and their extension
SIGS = [(b'\xff\xd8\xff\xdb', 'jpg'), (b'\xff\xd8\xff\xe1', 'jpg'), (b'\x89PNG\r\n\x1a\n', 'png'), (b'GIF87a', 'gif'), (b'GIF89a', 'gif'), (b'OggS', 'ogg'),
        (b'\0\1\0\0', 'ttf'), (b'\x1a\x45\xdf\xa3', 'webm'), (b'true', 'ttf'), (b'OTTO\0', 'otf'), (b'"use strict";', 'min.js'), (b'<template ', 'template.html'),
        (b'<!-- Elements -->', 'template.html'), (b'<!DOCTYPE html>', 'html'), (b'<html', 'html'), (b'DDS ', 'dds'), (b'<svg', 'svg'), (b'PROP', 'bin'), (b'PTCH', 'bin'),
        (b'BKHD', 'bnk'), (b'r3d2Mesh', 'scb'), (b'r3d2anmd', 'anm'), (b'r3d2canm', 'anm'), (b'r3d2sklt', 'skl'), (b'r3d2', 'wpk'), (b'\x33\x22\x11\x00', 'skn'),
        (b'PreLoadBuildingBlocks = {', 'preload'), (b'\x1bLuaQ\0\1\4\4', 'luabin'), (b'\x1bLuaQ\0\1\4\x08', 'luabin64'), (b'\x02\x3d\x00\x28', 'troybin'),
        (b'[ObjectBegin]', 'sco'), (b'OEGM', 'mapgeo'), (b'TEX\0', 'tex'), (b'\0asm', 'wasm'), (b'UnityFS', 'bundle'), (b'UnityWebData1.0', 'data')]
AT6 = (b'JFIF', b'Exif')


def expected(data):
    """Extension of a content, False if two answers are possible"""
    if not data:
        return None
    hits = [(len(s), x) for s, x in SIGS if data.startswith(s)]
    if data[6:10] in AT6:
        if hits and max(hits)[1] != 'jpg':
            return False
        return 'jpg'
    if hits:
        return max(hits)[1]
    try:
        json.loads(data)
    except RecursionError:
        return False
    except ValueError as e:
        return False if 'digits' in str(e) else None
    return 'json'


def tail(rng):
    return rng.choice([b'', b'\0', b' ', b'\n', b'PROP', b'{"a": 1}', b'}', rng.randbytes(3), rng.randbytes(30), b'\xff\xd8\xff\xdb', b'r3d2Mesh', b'text <html', rng.randbytes(3000), b'\x80\xfe', b'"', b'x' * 70000])


def content(rng, sig=None):
    """(kind, data)"""
    k = rng.choice(['sig', 'sig', 'sig', 'near', 'near', 'inside', 'at6', 'json', 'json', 'notjson', 'random', 'empty', 'hard']) if sig is None else 'sig'
    if k == 'sig':
        s = sig or rng.choice(SIGS)[0]
        d = s + tail(rng)
    elif k == 'near':
        s = rng.choice(SIGS)[0]
        r = rng.random()
        if r < .35:
            i = rng.randrange(len(s))
            d = s[:i] + bytes([s[i] ^ rng.choice([1, 0x20, 0x80])]) + s[i + 1:] + tail(rng)
        elif r < .6:
            d = s[:rng.randrange(len(s))] + rng.choice([b'', b'\xfe', b'\xfe' * 9])
        elif r < .75:
            d = (s.lower() if s.lower() != s else s.upper()) + tail(rng)
        else:
            d = rng.choice([b' ', b'\0', b'\xef\xbb\xbf', b'x', b'\n']) + s + tail(rng)
    elif k == 'inside':
        d = rng.randbytes(rng.choice([1, 2, 5])) + rng.choice(SIGS)[0] + tail(rng)
    elif k == 'at6':
        n = rng.choice([6, 6, 6, 5, 7, 4])
        d = rng.choice([b'\xff\xd8\xff\xe0' + rng.randbytes(10), b'\xff\xd8\xff\xdb' + rng.randbytes(10), bytes([0xfe]) + rng.randbytes(20)])[:n].ljust(n, b'\xaa') + rng.choice(AT6 + (b'jfif', b'JFI', b'Exi', b'EXIF')) + tail(rng)
    elif k == 'json':
        v = rng.choice([{}, [], {'a': [1, 2.5, None, True]}, 'text', 12, -0.5, None, False, {'é': '漢\n'}, [[[]]], '', {'use strict': 1}])
        d = json.dumps(v, ensure_ascii=rng.random() < .5, indent=rng.choice([None, 1])).encode()
        r = rng.random()
        if r < .2:
            d = rng.choice([b' ', b'\n\n', b'\t', b'\r\n']) + d + rng.choice([b' ', b'\n'])
        elif r < .3:
            d = b'\xef\xbb\xbf' + d
        elif r < .4:
            d = d.decode().encode(rng.choice(['utf-16', 'utf-16-le', 'utf-16-be', 'utf-32']))
        if rng.random() < .15:
            n = rng.choice([100, 5000, 70000, 300000])
            d = rng.choice([b'[' + b'1,' * n + b'1]', b'{"a": "' + b'y' * n + b'"}', b' ' * n + d, d + b'\n' * n]) if d[:1] in b'{["' else d
        if len(d) > 8 and rng.random() < .1:
            d = b'[' + b','.join([d.decode('utf-8', 'replace').encode()] * 2) + b']' if d[:1] in b'{["' else d
    elif k == 'notjson':
        n = rng.choice([100, 5000, 70000, 300000])
        d = rng.choice([b'[' + b'1,' * n + b'}', b'{' + b'"a": ' * n + b'}', b'["' + b'x' * n + b']', b'{"a": ' + rng.randbytes(n) + b'}', b' ' * n, b'[' + b'1,' * n + b'x]', b'[' + b'1,' * n + b']', b'"' + b'x' * n + b'\n"']) if rng.random() < .3 else rng.choice([b'{"a": 1} x', b"{'a': 1}", b'{"a": 1', b'[1,]', b'"open', b'nul', b'trueish', b'True', b'{"a": "\xff"}', b'1 2', b'//x\n{}', b'plain text', b'[1] [2]', b'\x00{}', b'"\xed\xa0\x80"'])
    elif k == 'random':
        d = rng.randbytes(rng.choice([1, 2, 3, 4, 5, 9, 10, 100, 2000]))
    elif k == 'empty':
        d = b''
    else:
        n = rng.choice([500, 3000, 200000])
        d = rng.choice([b'[' * n, b'[' * n + b']' * n, b'{"a":' * n + b'1' + b'}' * n, b'1' * (n + 5000), b'[' + b'9' * 6000 + b']', b'-' + b'1' * 5000, b'1e' + b'9' * 400])
    return k, d


def near(rng, pool):
    """A new hash, often one that differs from another one in few bits"""
    while True:
        h = rng.getrandbits(64)
        if pool and rng.random() < .5:
            h = rng.choice(pool)['hash'] ^ rng.choice([1 << rng.randrange(64), (rng.getrandbits(32) | 1) << rng.choice([0, 32])])
        if h and all(h != e['hash'] for e in pool):
            return h


def run(ctx, rng, tier):
    pool, wanted = [], []
    for _ in range(rng.choice([1, 2, 5, 12])):
        # types are remembered per hash for the whole process: hashes are not used again by other cases
        k, d = content(rng)
        x = expected(d)
        p = None
        r = rng.random()
        if r < .2:
            p = f"u{rng.getrandbits(48):x}/name" + rng.choice(['.dds', '.TXT', '.x', '.min.js', '.'])
        elif r < .35:
            p = f"u{rng.getrandbits(48):x}/" + rng.choice(['noext', '.hidden', 'x.y/noext'])
        pool.append({'kind': k, 'data': d, 'want': x, 'path': p, 'hash': wadw.path_hash(p) if p else near(rng, pool)})
    n = rng.choice([1, 1, 2, 3])
    known = {e['hash']: e['path'] for e in pool if e['path']}
    hit = 0
    for a in range(n):
        es = []
        sel = pool if a == 0 and n == 1 else [e for e in pool if rng.random() < .7]
        for e in rng.sample(sel, len(sel)):
            es.append(wadw.entry(e['hash'], e['data'], rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD]), src=e))
        for _ in range(rng.choice([0, 0, 1, 3])):
            # unreadable entries, links to other files
            q = rng.choice(['link', 'type', 'gzip', 'gzip_body', 'zstd', 'chunks'])
            h = rng.getrandbits(64)
            e = wadw.entry(h, rng.randbytes(30), {'link': wadw.REDIRECT, 'gzip': wadw.GZIP, 'gzip_body': wadw.GZIP, 'zstd': wadw.ZSTD, 'chunks': wadw.ZSTD}.get(q, wadw.STORED), redirect='a/b', src=None)
            wadw.encode(rng, e)
            if q in ('gzip', 'zstd', 'chunks'):
                e['stored'] = rng.choice([e['stored'][:-6], rng.randbytes(20), b''])
            if q == 'gzip_body':
                e['stored'] = e['stored'][:10] + b'\xff' + e['stored'][11:]
            if q == 'link':
                e['stored'] = rng.choice([e['stored'], e['stored'], b'\1', b'\4\0\0\0\xff\xfe\xc3('])
            if q == 'type':
                e['type'] = rng.choice([5, 9, 15])
            if q == 'chunks':
                e['type'] = 0x14
            es.insert(rng.randrange(len(es) + 1), e)
        path = os.path.join(ctx.dir(), 'x.wad' + rng.choice(['', '.client']))
        wadw.write_file(path, wadw.write_wad(rng, es, rng.choice(wadw.VERSIONS)))
        wad = Wad(path, hashes=known)
        for _ in range(rng.choice([1, 1, 2])):
            wad.guess_extensions()
        got = {f.path_hash: f.ext for f in wad.files}
        for e in es:
            s = e['src']
            if s is None:
                ctx.check(not got[e['hash']], 'unreadable', f"an unreadable entry has extension {got[e['hash']]!r}")
                ctx.count('unreadable')
                continue
            g = got[e['hash']] or None
            own = os.path.splitext(s['path'])[1][1:] if s['path'] else ''
            if own:
                ctx.equal(g, own, 'own', f"extension of {s['path']!r} whose content is {s['data'][:30]!r}")
                ctx.count('own')
                continue
            if s['want'] is False:
                ctx.check(g in (None, 'json', 'jpg') or s['data'][6:10] in AT6, 'hard', f"extension {g!r} of {s['data'][:30]!r}")
                ctx.count('either')
                continue
            ctx.equal(g, s['want'], 'extension', f"extension of {s['data'][:40]!r} ({len(s['data'])} bytes)")
            ctx.count('none' if g is None else 'ext_' + g)
            ctx.count(s['kind'])
            hit += 1
    if hit:
        ctx.nontrivial(tuple((e['kind'], e['data'][:12], len(e['data'])) for e in pool), n)


def table(ctx, rng, tier):
    """Every signature, through names of extracted files"""
    i = ctx.index % len(SIGS)
    s, x = SIGS[i]
    d = s + tail(rng)
    h = rng.getrandbits(64)
    want = expected(d)
    path = os.path.join(ctx.dir(), 'x.wad')
    wadw.write_file(path, wadw.write_wad(rng, [wadw.entry(h, d, rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD]))], rng.choice(wadw.VERSIONS)))
    out = ctx.dir()
    run_cli(['wad-extract', '-o', out, path])
    got = sorted(files_only(tree(out)))
    ctx.equal(got, [f"unknown/{h:016x}.{want}"], 'extracted', f"name of an entry holding {d[:40]!r}")
    ctx.count('extracted')
    ctx.nontrivial(s, len(d))


SCENARIOS = [Scenario(run, 1200, 25000), Scenario(table, 3 * len(SIGS), 40 * len(SIGS))]
REQUIRED = {'own': 300, 'none': 500, 'either': 30, 'unreadable': 300, 'sig': 600, 'near': 400, 'inside': 200, 'at6': 150, 'json': 400, 'notjson': 200, 'hard': 5, 'random': 150, 'empty': 150,
            'extracted': 100, **{'ext_' + x: 8 for _, x in SIGS}}
