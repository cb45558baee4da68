"""Independent BIN writer and value model.

A value is a node (type name, ...):
  scalars ('U8', 5), vectors ('VEC3_FLOAT', (..)), ('STRING', 's'), ('HASH', h), ('PATH', h), ('LINK', h)
  ('LIST'|'LIST2', element type, [nodes]); ('OPTION', element type, node or None)
  ('MAP', key type, value type, [(node, node)])
  ('STRUCT'|'EMBEDDED', type hash, [(name hash, node)])
"""
import struct

SIMPLE = ['EMPTY', 'BOOL', 'S8', 'U8', 'S16', 'U16', 'S32', 'U32', 'S64', 'U64', 'FLOAT', 'VEC2_FLOAT', 'VEC3_FLOAT', 'VEC4_FLOAT', 'MATRIX4X4', 'RGBA', 'STRING', 'HASH']
FMT = {'EMPTY': '<3H', 'BOOL': '<?', 'S8': '<b', 'U8': '<B', 'S16': '<h', 'U16': '<H', 'S32': '<i', 'U32': '<I', 'S64': '<q', 'U64': '<Q', 'FLOAT': '<f',
       'VEC2_FLOAT': '<2f', 'VEC3_FLOAT': '<3f', 'VEC4_FLOAT': '<4f', 'RGBA': '<4B', 'HASH': '<L', 'PATH': '<Q', 'LINK': '<L', 'FLAG': '<B'}
OLD = ['LIST', 'STRUCT', 'EMBEDDED', 'LINK', 'OPTION', 'MAP', 'FLAG']
NEW = ['LIST', 'LIST2', 'STRUCT', 'EMBEDDED', 'LINK', 'OPTION', 'MAP', 'FLAG']
KEYS = ['BOOL', 'U8', 'S8', 'U16', 'S16', 'U32', 'S32', 'U64', 'S64', 'STRING', 'HASH', 'LINK']


def code(name, age):
    """Number of a type in files of a patch (923: 9.23, 1008: 10.8)"""
    if name == 'PATH':
        assert age >= 1008
        return 18
    if name in SIMPLE:
        return SIMPLE.index(name)
    if age < 923:
        return 18 + OLD.index(name)
    if age < 1008:
        return 0x80 + OLD.index(name)
    return 0x80 + NEW.index(name)


def type_names(age):
    out = SIMPLE + (NEW if age >= 1008 else OLD)
    return out + ['PATH'] if age >= 1023 else out


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def fnv(s):
    h = 0x811c9dc5
    for b in s.lower().encode('ascii'):
        h = ((h ^ b) * 0x01000193) & 0xffffffff
    return h


def rfloat(rng):
    return f32(rng.choice([0.0, -0.0, 1.0, -1.5, 0.1, 1e30, -1e-30, 3.4028234663852886e+38, 1e-45, rng.uniform(-1000, 1000), rng.gauss(0, 1)]))


TEXT = ['', 'a', 'ASSETS/Characters/Annie/Skins/Base/Annie.dds', 'é ü 漢字 😀', 'with "quotes" and \\ / slashes', 'line\nbreak\ttab', '\x00nul\x01', 'x' * 300, '{123}', '\u2028', 'Data/Spells/Q.bin']


def rtext(rng):
    return rng.choice(TEXT) if rng.random() < .6 else ''.join(rng.choice('abcXYZ/_. 09') for _ in range(rng.choice([1, 5, 40])))


class Gen:
    """Random values; hashes drawn from a pool so that some have names"""

    def __init__(self, rng, age, pool, types=None, maxdepth=4, keys=KEYS, wide=None):
        self.rng, self.age, self.pool = rng, age, pool
        self.types = types or type_names(age)
        self.maxdepth, self.keys = maxdepth, keys
        self.budget = wide or rng.choice([20, 60, 200])
        self.flat = [t for t in self.types if t not in ('LIST', 'LIST2', 'STRUCT', 'EMBEDDED', 'OPTION', 'MAP')]
        self.unique_fields = True

    def hash(self, kind):
        r = self.rng
        known = self.pool.get(kind)
        if known and r.random() < .6:
            return r.choice(known)
        return r.choice([0, 1, 0xffffffff]) if r.random() < .05 else r.getrandbits(64 if kind == 'game' else 32)

    def vtype(self, depth):
        return self.rng.choice(self.types if depth < self.maxdepth and self.budget > 0 else self.flat)

    def n(self):
        return self.rng.choice([0, 1, 1, 2, 3, 6])

    def value(self, t, depth=0):
        r = self.rng
        self.budget -= 1
        if t == 'EMPTY':
            return (t, tuple(r.choice([0, 1, 65535]) for _ in range(3)))
        if t == 'BOOL':
            return (t, r.random() < .5)
        if t in ('S8', 'S16', 'S32', 'S64'):
            b = int(t[1:])
            return (t, r.choice([0, -1, 1, -2 ** (b - 1), 2 ** (b - 1) - 1, r.randrange(-2 ** (b - 1), 2 ** (b - 1))]))
        if t in ('U8', 'U16', 'U32', 'U64'):
            b = int(t[1:])
            return (t, r.choice([0, 1, 2 ** b - 1, r.randrange(2 ** b)]))
        if t == 'FLAG':
            return (t, r.choice([0, 1, 255]))
        if t == 'FLOAT':
            return (t, rfloat(r))
        if t.startswith('VEC'):
            return (t, tuple(rfloat(r) for _ in range(int(t[3]))))
        if t == 'MATRIX4X4':
            return (t, tuple(tuple(rfloat(r) for _ in range(4)) for _ in range(4)))
        if t == 'RGBA':
            return (t, tuple(r.randrange(256) for _ in range(4)))
        if t == 'STRING':
            return (t, rtext(r))
        if t == 'HASH':
            return (t, self.hash('binhashes'))
        if t == 'PATH':
            return (t, self.hash('game'))
        if t == 'LINK':
            return (t, self.hash('binentries'))
        if t in ('LIST', 'LIST2'):
            vt = self.vtype(depth + 1)
            return (t, vt, [self.value(vt, depth + 1) for _ in range(self.n() if self.budget > 0 else 0)])
        if t == 'OPTION':
            vt = self.vtype(depth + 1)
            return (t, vt, self.value(vt, depth + 1) if r.random() < .7 else None)
        if t == 'MAP':
            kt = r.choice(self.keys + (['PATH'] if 'PATH' in self.types else []))
            vt = self.vtype(depth + 1)
            items, seen = [], set()
            for _ in range(self.n() if self.budget > 0 else 0):
                k = self.value(kt)
                if k[1] in seen:
                    continue
                seen.add(k[1])
                items.append((k, self.value(vt, depth + 1)))
            return (t, kt, vt, items)
        if t in ('STRUCT', 'EMBEDDED'):
            h = self.hash('bintypes')
            if t == 'STRUCT' and r.random() < .15:
                return (t, 0, [])
            if t == 'EMBEDDED' and r.random() < .05:
                return (t, 0, self.fields(depth + 1))   # only structures may be null
            return (t, h or 1, self.fields(depth + 1))
        raise AssertionError(t)

    def fields(self, depth=0, n=None):
        out, seen = [], set()
        for _ in range(self.n() if n is None else n):
            h = self.hash('binfields')
            if h in seen and self.unique_fields:
                continue
            seen.add(h)
            out.append((h, self.value(self.vtype(depth), depth)))
        return out


def large_value(g):
    """A value whose count or length needs most of its bits"""
    r = g.rng
    n = r.choice([127, 128, 255, 256, 257, 300, 1000, 32767, 32768, 65535])
    k = r.choice(['list', 'list', 'map', 'fields', 'string', 'nested'])
    t = r.choice(['U8', 'BOOL', 'U16', 'S32', 'FLOAT', 'RGBA', 'HASH', 'LINK', 'STRING'])
    if k in ('list', 'map'):
        n = r.choice([n, 65536, 65537, 70000])
    if k == 'map':
        return ('MAP', 'U32', t, [(('U32', i), g.value(t)) for i in r.sample(range(2**32), n)])
    if k in ('fields', 'string') and r.random() < .5:
        n = r.choice([32768, 40000, 65535])
    if k == 'string':
        return ('STRING', r.choice(['x', 'ab c']) * n if n < 10000 else 'y' * n)
    if k == 'fields':
        return (r.choice(['STRUCT', 'EMBEDDED']), g.hash('bintypes') or 1, [(h, g.value(t)) for h in r.sample(range(2**32), n)])
    if k == 'nested':
        n = min(n, 1000)
        return ('LIST', 'EMBEDDED', [('EMBEDDED', i + 1, [(5, g.value(t))]) for i in range(n)])
    return (r.choice([x for x in ('LIST', 'LIST2') if x in g.types]), t, [g.value(t) for _ in range(n)])


# --- encoding
def enc(v, age):
    t = v[0]
    if t in ('LIST', 'LIST2'):
        body = b''.join(enc(x, age) for x in v[2])
        return struct.pack('<BLL', code(v[1], age), len(body) + 4, len(v[2])) + body
    if t == 'OPTION':
        return struct.pack('<B?', code(v[1], age), v[2] is not None) + (enc(v[2], age) if v[2] is not None else b'')
    if t == 'MAP':
        body = b''.join(enc(k, age) + enc(x, age) for k, x in v[3])
        return struct.pack('<BBLL', code(v[1], age), code(v[2], age), len(body) + 4, len(v[3])) + body
    if t in ('STRUCT', 'EMBEDDED'):
        if t == 'STRUCT' and v[1] == 0:
            return struct.pack('<L', 0)
        body = enc_fields(v[2], age)
        return struct.pack('<LLH', v[1], len(body) + 2, len(v[2])) + body
    if t == 'STRING':
        b = v[1].encode()
        return struct.pack('<H', len(b)) + b
    if t == 'MATRIX4X4':
        return b''.join(struct.pack('<4f', *row) for row in v[1])
    x = v[1]
    return struct.pack(FMT[t], *(x if isinstance(x, tuple) else (x,)))


def enc_fields(fields, age):
    return b''.join(struct.pack('<LB', h, code(x[0], age)) + enc(x, age) for h, x in fields)


def enc_string(s):
    b = s.encode()
    return struct.pack('<H', len(b)) + b


def enc_file(entries, age=1500, version=3, linked=(), patches=None, as_patch=None):
    """entries: [(path hash, type hash, fields)]; patches: [(path hash, object path, node)]"""
    out = b''
    if as_patch if as_patch is not None else patches is not None:
        out += b'PTCH' + struct.pack('<LL', 1, 0)
    out += b'PROP' + struct.pack('<L', version)
    if version >= 2:
        out += struct.pack('<L', len(linked)) + b''.join(enc_string(s) for s in linked)
    out += struct.pack('<L', len(entries)) + b''.join(struct.pack('<L', t) for _, t, _ in entries)
    for h, _, fields in entries:
        body = struct.pack('<LH', h, len(fields)) + enc_fields(fields, age)
        out += struct.pack('<L', len(body)) + body
    if patches is not None and version >= 3:
        out += struct.pack('<L', len(patches))
        for h, path, v in patches:
            b = enc_string(path)
            e = enc(v, age)
            out += struct.pack('<LLB', h, 1 + len(b) + len(e), code(v[0], age)) + b + e
    return out


# --- comparison with decoded values
def same_float(a, b):
    return struct.pack('<d', a) == struct.pack('<d', b)


def cmp(got, v, where=''):
    """First difference between a decoded value and a node, or None"""
    t = v[0]
    try:
        if t in ('LIST', 'LIST2'):
            if got.vtype.name != v[1]:
                return f"{where}: list of {got.vtype.name} instead of {v[1]}"
            if len(got.values) != len(v[2]):
                return f"{where}: {len(got.values)} list values instead of {len(v[2])}"
            for i, (g, x) in enumerate(zip(got.values, v[2])):
                if d := cmp(g, x, f"{where}[{i}]"):
                    return d
            return None
        if t == 'OPTION':
            if got.vtype.name != v[1]:
                return f"{where}: option of {got.vtype.name} instead of {v[1]}"
            if v[2] is None:
                return None if got.value is None else f"{where}: {got.value!r} instead of an empty option"
            return cmp(got.value, v[2], where + '?')
        if t == 'MAP':
            if (got.ktype.name, got.vtype.name) != (v[1], v[2]):
                return f"{where}: map of {got.ktype.name},{got.vtype.name}"
            if len(got.values) != len(v[3]):
                return f"{where}: {len(got.values)} map entries instead of {len(v[3])}"
            for (gk, gv), (k, x) in zip(got.values.items(), v[3]):
                if d := cmp(gk, k, where + '{key}') or cmp(gv, x, where + '{}'):
                    return d
            return None
        if t in ('STRUCT', 'EMBEDDED'):
            if got.type.h != v[1]:
                return f"{where}: type {got.type.h:08x} instead of {v[1]:08x}"
            return cmp_fields(got.fields, v[2], where)
        if t in ('HASH', 'PATH', 'LINK'):
            return None if got.h == v[1] else f"{where}: {t} {got.h:x} instead of {v[1]:x}"
        if t == 'FLOAT':
            return None if same_float(got, v[1]) else f"{where}: {got} instead of {v[1]}"
        if t.startswith('VEC') or t == 'MATRIX4X4':
            flat = lambda q: [y for z in q for y in (z if isinstance(z, (tuple, list)) else [z])]
            a, b = flat(got), flat(v[1])
            if len(got) != len(v[1]) or len(a) != len(b) or not all(same_float(p, q) for p, q in zip(a, b)):
                return f"{where}: {got} instead of {v[1]}"
            return None
        if type(got) is not type(v[1]) or got != v[1]:
            return f"{where}: {got!r} instead of {v[1]!r}"
        return None
    except AttributeError as e:
        return f"{where}: {type(got).__name__} is no {t} ({e})"


def cmp_fields(got, fields, where):
    if len(got) != len(fields):
        return f"{where}: {len(got)} fields instead of {len(fields)}"
    for g, (h, x) in zip(got, fields):
        w = f"{where}.{h:08x}"
        if g.name.h != h:
            return f"{w}: field {g.name.h:08x} found"
        if g.type.name != x[0]:
            return f"{w}: {g.type.name} instead of {x[0]}"
        if d := cmp(g.value, x, w):
            return d
    return None


# --- JSON form
class Names:
    """names: {kind: {hash: name}}"""

    def __init__(self, names):
        self.names = names

    def get(self, kind, h):
        w = 16 if kind == 'game' else 8
        return self.names.get(kind, {}).get(h, f"{{{h:0{w}x}}}")

    def value(self, v):
        t = v[0]
        if t in ('LIST', 'LIST2'):
            return [self.value(x) for x in v[2]]
        if t == 'OPTION':
            return None if v[2] is None else self.value(v[2])
        if t == 'MAP':
            return {self.key(k): self.value(x) for k, x in v[3]}
        if t in ('STRUCT', 'EMBEDDED'):
            if t == 'STRUCT' and v[1] == 0:
                return None
            return self.fields(v[2], v[1])
        if t in ('HASH', 'PATH', 'LINK'):
            return self.get({'HASH': 'binhashes', 'PATH': 'game', 'LINK': 'binentries'}[t], v[1])
        if t == 'MATRIX4X4':
            return [list(r) for r in v[1]]
        if isinstance(v[1], tuple):
            return list(v[1])
        return v[1]

    def key(self, k):
        x = self.value(k)
        if isinstance(x, bool):
            return 'true' if x else 'false'
        return x if isinstance(x, str) else str(x)

    def fields(self, fields, htype):
        d = {self.get('binfields', h): self.value(x) for h, x in fields}
        d['__type'] = self.get('bintypes', htype)
        return d

    def file(self, entries, linked, patches):
        d = {self.get('binentries', h): self.fields(f, t) for h, t, f in entries}
        if linked is not None:
            d['__linked'] = list(linked)
        if patches is not None:
            out = {}
            for h, path, v in patches:
                out.setdefault(self.get('binentries', h), {})[path] = self.value(v)
            d['__patches'] = out
        return d


def same_json(a, b, where=''):
    """First difference between two JSON values (types and float bits matter), or None"""
    if isinstance(b, float):
        if type(a) is int and not isinstance(a, bool) and float(a) == b and a != 0:
            return None     # 1e30 may be written without a fraction
        if not isinstance(a, float) or not same_float(a, b):
            return f"{where}: {a!r} instead of {b!r}"
        return None
    if type(a) is not type(b):
        return f"{where}: {a!r:.80} instead of {b!r:.80}"
    if isinstance(b, dict):
        if set(a) != set(b):
            return f"{where}: keys {sorted(set(a) ^ set(b))[:4]} differ"
        for k in b:
            if d := same_json(a[k], b[k], f"{where}/{k}"):
                return d
        return None
    if isinstance(b, list):
        if len(a) != len(b):
            return f"{where}: {len(a)} values instead of {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            if d := same_json(x, y, f"{where}[{i}]"):
                return d
        return None
    return None if a == b else f"{where}: {a!r} instead of {b!r}"


FIELD_NAMES = ['mName', 'mCharacterName', 'SkinScale', 'rate', 'mSpell', 'emitter', 'Texture', 'mValue', 'mItems', 'x', 'PATH', 'ListOfThings', 'mDefaultValue', 'color', 'tags', 'flags']
TYPE_NAMES = ['SkinCharacterDataProperties', 'SpellObject', 'VfxSystemDefinitionData', 'Foo', 'barType', 'TFTData', 'MapThing']
ENTRY_NAMES = ['Characters/Annie/Skins/Skin0', 'Characters/Annie/Spells/AnnieQ', 'Maps/MapGeometry/Map11', 'Items/1001', 'UI/Thing', 'Shaders/X', 'é'][:6]
HASH_NAMES = ['Spell1', 'Q', 'Idle1', 'root', 'Buffbone_Glb', 'NoName', 'Attack1']
GAME_PATHS = ['assets/characters/annie/skins/base/annie.dds', 'data/x.bin', 'assets/a b.tex', 'ASSETS/up.dds']


def pools(rng, xxh):
    """(pool of hashes per kind, names per kind) with a random part of the names known"""
    pool = {'binfields': [fnv(s) for s in FIELD_NAMES], 'bintypes': [fnv(s) for s in TYPE_NAMES], 'binentries': [fnv(s) for s in ENTRY_NAMES],
            'binhashes': [fnv(s) for s in HASH_NAMES], 'game': [xxh(s) for s in GAME_PATHS]}
    src = {'binfields': FIELD_NAMES, 'bintypes': TYPE_NAMES, 'binentries': ENTRY_NAMES, 'binhashes': HASH_NAMES, 'game': GAME_PATHS}
    p = rng.choice([0, .5, .8, 1])
    names = {k: {h: s for h, s in zip(pool[k], src[k]) if rng.random() < p} for k in pool}
    return pool, names


def gen_file(rng, age=None, version=None, xxh=None, **kw):
    """Random well-formed file: dict(data, entries, linked, patches, age, version, names)"""
    age = age if age is not None else rng.choice([405, 912, 922, 923, 1000, 1007, 1008, 1010, 1022, 1023, 1110, 1415, 1502, 1600, 10000000])
    version = version if version is not None else rng.choice([1, 2, 3, 3, 3])
    pool, names = pools(rng, xxh)
    g = Gen(rng, age, pool, **kw)
    entries, seen = [], set()
    for _ in range(rng.choice([0, 1, 2, 4, 8])):
        h = g.hash('binentries')
        if h in seen:
            continue
        seen.add(h)
        entries.append((h, g.hash('bintypes'), g.fields(0, rng.choice([0, 1, 3, 6]))))
    linked = [rtext(rng) for _ in range(rng.choice([0, 0, 1, 4]))] if version >= 2 else None
    is_patch = rng.random() < .3
    patches = None
    if is_patch and version >= 3:
        patches = []
        hs = [g.hash('binentries') for _ in range(rng.choice([1, 2, 4]))]
        for _ in range(rng.choice([0, 1, 3, 6])):
            h, p = rng.choice(hs), rtext(rng) + str(rng.randrange(99))
            if patches and rng.random() < .15:
                h, p = rng.choice(patches)[:2]      # patched again
            patches.append((h, p, g.value(g.vtype(0))))
    data = enc_file(entries, age, version, linked or (), patches, as_patch=is_patch)
    return {'data': data, 'entries': entries, 'linked': linked, 'patches': patches, 'age': age, 'version': version, 'names': names, 'is_patch': is_patch, 'pool': pool}
