"""Shared generators: paths, contents, archives."""
import json
import struct
from . import wadw
from .wadw import entry, path_hash, write_wad, STORED, GZIP, REDIRECT, ZSTD, CHUNKED, VERSIONS

WORDS = ['data', 'assets', 'ux', 'characters', 'annie', 'aatrox', 'skins', 'base', 'skin01', 'maps', 'particles',
         'sounds', 'icon', 'shop', 'items', 'spells', 'hud', 'menu', 'plugins', 'v1', 'global', 'default', 'a', 'x1']
EXTS = ['dds', 'bin', 'png', 'jpg', 'skn', 'skl', 'anm', 'json', 'txt', 'tex', 'lua', 'troybin', 'bnk', 'dat', 'ttf']


def word(rng):
    w = rng.choice(WORDS)
    r = rng.random()
    if r < .15:
        w += '_' + rng.choice(WORDS)
    elif r < .3:
        w += str(rng.randrange(120))
    elif r < .35:
        w += '-' + rng.choice(WORDS)
    elif r < .38:
        w += ' ' + rng.choice(WORDS)
    elif r < .4:
        w = 'é' + w
    return w


def path(rng, ext=None, depth=None):
    parts = [word(rng) for _ in range(depth if depth is not None else rng.choice([0, 1, 2, 3, 4]))]
    name = word(rng)
    if ext is None:
        ext = rng.choice(EXTS)
    if ext:
        if rng.random() < .1:
            name += '.' + rng.choice(['en_us', '4x', 'v2', 'min'])
        name += '.' + ext
    return '/'.join(parts + [name])


def paths(rng, n, taken=None, **kw):
    """n distinct paths, none of them a directory of another"""
    out = []
    seen = set(taken or ())
    dirs = set()
    for p in seen:
        dirs.update(parents(p))
    while len(out) < n:
        p = path(rng, **kw)
        if p in seen or p in dirs or any(d in seen for d in parents(p)):
            if rng.random() < .3:
                p = f"n{rng.randrange(10**6)}/{p}"
                if p in seen or p in dirs or any(d in seen for d in parents(p)):
                    continue
            else:
                continue
        seen.add(p)
        dirs.update(parents(p))
        out.append(p)
    return out


def parents(p):
    parts = p.split('/')[:-1]
    return ['/'.join(parts[:i]) for i in range(1, len(parts) + 1)]


def blob(rng):
    k = rng.random()
    if k < .08:
        return b''
    if k < .4:
        return rng.randbytes(rng.choice([1, 3, 16, 100, 1000]))
    if k < .7:
        return bytes(rng.choice([1, 4, 60])) + (rng.choice([b'abc', b'\x00', b'xyzw', b'Lorem ipsum ']) * rng.choice([1, 10, 500, 3000]))
    if k < .95:
        return b''.join(rng.choice([b'text ', b'\n', b'key=value;', rng.randbytes(5)]) for _ in range(rng.choice([3, 60, 400])))
    return rng.randbytes(70000)


def method(rng, version, toc):
    m = [STORED, GZIP, ZSTD]
    if version[0] >= 2 and version >= (3, 0):
        m += [CHUNKED, CHUNKED]
    return rng.choice(m)


def archive(rng, version=None, n=None, toc='random', redirects=True, known=.7):
    """A well-formed archive. Returns dict(data, entries, known {hash: path}, version, toc entry or None)"""
    version = version or rng.choice(VERSIONS)
    n = rng.choice([0, 1, 2, 5, 12, 30]) if n is None else n
    es = []
    if toc == 'random':
        toc = rng.random() < .75
    toc = toc and version >= (3, 0)
    ps = paths(rng, n)
    known_map = {}
    for p in ps:
        m = method(rng, version, toc)
        kw = {}
        if redirects and rng.random() < .1:
            m = REDIRECT
            kw['redirect'] = rng.choice(ps)
        if m == CHUNKED:
            kw['chunks'] = rng.choice([1, 2, 3, 7, 15])
            if not toc:
                # only plainly decodable ones can be read
                kw['chunks'], kw['mixed'] = 1, False
        data = b'' if m == REDIRECT else blob(rng)
        if m == CHUNKED and not data:
            data = b'x' * 50
        if m == CHUNKED and not toc:
            data = data + bytes(200)
        e = entry(p, data, m, path=p, **kw)
        if es and rng.random() < .08 and version[0] >= 2:
            o = rng.choice(es)
            e = dict(o, hash=e['hash'], path=p, share=o)
            e.pop('stored', None)
        es.append(e)
        if rng.random() < known:
            known_map[e['hash']] = p
    t = None
    if toc:
        tp = rng.choice(['data/final/', 'x/', '']) + rng.choice(['a', 'map11', 'b.wad']) + '.subchunktoc'
        t = entry(tp, b'', rng.choice([STORED, ZSTD, GZIP]), path=tp)
        if version >= (3, 4) and rng.random() < .1:
            t['far'] = 65536 + rng.randrange(5)
        known_map[t['hash']] = tp
        es.insert(rng.randrange(len(es) + 1), t)
        if rng.random() < .3:
            # not the table, in spite of its name
            dp = rng.choice([tp + '.txt', tp + '/x.bin', 'a.subchunktoc.d/b', tp[:-3], 'subchunktoc', 'data/xsubchunktoc'])
            e = entry(dp, blob(rng), rng.choice([STORED, ZSTD, GZIP]), path=dp)
            if e['hash'] not in {x['hash'] for x in es}:
                known_map[e['hash']] = dp
                es.insert(rng.randrange(len(es) + 1), e)
    # shared entries reuse the stored form of their source
    for e in es:
        if e.get('share') is not None:
            src = e['share']
            while src.get('share') is not None:
                src = src['share']
            e['share'] = src
    for e in es:
        if e is not t and e.get('share') is None:
            wadw.encode(rng, e)
    if t is not None:
        _link_shared(es)
        data = write_wad(rng, es, version, toc=t)
    else:
        _link_shared(es)
        data = write_wad(rng, es, version)
    # unrelated names in the hash list
    for _ in range(rng.choice([0, 3, 20])):
        p = path(rng)
        known_map.setdefault(path_hash(p), p) if path_hash(p) not in {e['hash'] for e in es} else None
    return {'data': data, 'entries': es, 'known': known_map, 'version': version, 'toc': t}


def _link_shared(es):
    for e in es:
        s = e.get('share')
        if s is not None:
            for k in ('stored', 'type', 'table', 'size'):
                e[k] = s[k]


def text_json(rng):
    return json.dumps(rng.choice([{}, [], {'a': [1, 2.5, None]}, 'text', {'é': 'ü'}]), ensure_ascii=rng.random() < .5).encode()
