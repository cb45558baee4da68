"""Independent writers of atlas tables and of the champion skin table"""
import os
import struct
from .binw import f32
from .wadw import path_hash

NAMES = ['ASSETS/Items/Icons2D/Item', 'assets/ux/hud/Icon', 'clarity_hudatlas', 'Atlas', 'é', 'a b', 'x.y/z', '']
EXTS = ['.dds', '.tex', '.png', '.DDS', '.Tex', '.tga', '', '.jpg', '.dds.tex']


def name(rng):
    return rng.choice(NAMES) + str(rng.randrange(10**6)) + rng.choice(EXTS)


def exported(path):
    """Path of an image as exported"""
    p = path.lower()
    d, sep, b = p.rpartition('/')
    for x in ('.dds', '.tex', '.tga'):
        if b.endswith(x) and b != x:
            return p[:-len(x)] + '.png'
    return p


def coord(rng):
    return f32(rng.choice([0.0, 1.0, 0.5, .25, 1 / 3, -0.5, 1e-7, 4096.0, rng.random(), rng.random()]))


def string(s):
    b = s.encode()
    return struct.pack('<L', len(b)) + b


def atlas(rng, hashed, names=None, textures=None):
    """{'data', 'atlases': [name], 'textures': [(name, coordinates, atlas index)]}"""
    n = rng.choice([1, 1, 2, 5])
    atlases = names or [name(rng) for _ in range(n)]
    if names is None and rng.random() < .2:
        # exported under the same path, or listed twice
        a = rng.choice(atlases)
        atlases.insert(rng.randrange(len(atlases) + 1), rng.choice([a, a.swapcase(), os.path.splitext(a)[0] + '.tex']))
    tex, seen = [], set()
    for i in range(rng.choice([0, 1, 3, 20, 100]) if textures is None else textures):
        t = name(rng)
        if t.lower() in seen:
            continue
        seen.add(t.lower())
        tex.append((t, tuple(coord(rng) for _ in range(4)), rng.randrange(len(atlases))))
    key = (lambda s: struct.pack('<Q', path_hash(s))) if hashed else string
    out = (b'IMAA' if hashed else b'') + struct.pack('<L', len(atlases)) + b''.join(key(a) for a in atlases)
    out += struct.pack('<L', len(tex)) + b''.join(key(t) + struct.pack('<4fL', *c, i) for t, c, i in tex)
    return {'data': out, 'hashed': hashed, 'atlases': atlases, 'textures': tex}


def atlas_json(t, known=()):
    """JSON form; known: {hash: path} for the hash-based layout"""
    out = {}
    for tex, c, i in t['textures']:
        a = t['atlases'][i]
        if t['hashed']:
            h, ah = path_hash(tex), path_hash(a)
            tex = known[h] if h in known else f"{{{h:016x}}}"
            a = exported(known[ah]) if ah in known else f"{{{ah:016x}}}"
        else:
            a = exported(a)
        out[tex] = {'atlasPath': a, 'startX': c[0], 'startY': c[1], 'endX': c[2], 'endY': c[3]}
    return out


def skins(rng):
    champs, seen = [], set()
    for _ in range(rng.choice([0, 1, 3, 30])):
        n = rng.choice(['Annie', 'MonkeyKing', 'é', 'TFT_Champ', 'a b"c']) + str(rng.randrange(1000))
        if n in seen:
            continue
        seen.add(n)
        ids = rng.sample(range(200), rng.choice([0, 1, 3, 20])) + rng.sample([2**32 - 1, 65536], rng.choice([0, 0, 1]))
        champs.append((n, [(i, rng.choice([0, 1, 2, 3, 4, 4, 5, 255]), rng.choice(['Base', 'Panda Annie', '', '漢字', 'x' * 300, '"q"\n'])) for i in ids]))
    out = b'mahC' + struct.pack('<LL', 2, len(champs))
    for n, sk in champs:
        out += string(n) + struct.pack('<L', len(sk))
        for i, flag, s in sk:
            out += struct.pack('<LB', i, flag) + string(s)
    return {'data': out, 'champions': champs}


def skins_json(t):
    return {n: {str(i): {'name': s, 'prestige': flag == 4} for i, flag, s in sk} for n, sk in t['champions']}
