"""C26 String tables give every text under its key"""
import io
import json
import os
import re
from vf.core import Scenario
from vf import env, rstw
from cdtb.rstfile import RstFile
from cdtb.export import RstConverter

PROPERTY = 'C26'
RULE = "a case is a generated string table looked up key by key and converted to JSON; distinct signature = (version, age class, kinds of texts, names known)"
ASSUMPTIONS = ["texts end with a zero byte inside the file; keys of one table have distinct shortened hashes"]
KEYS = ['game_character_displayname_Annie', 'item_1001_name', 'generatedtip_spell_q_tooltip', 'TFT5_Trait', 'x', 'Cherry_Augment_desc', 'a b', 'é_key', 'UPPER_KEY', 'straße_ſ_key', '']


def texts(rng, version, trenc_ok):
    k = rng.random()
    if trenc_ok and k < .2:
        return rng.choice([b'', b'\0\1\2', rng.randbytes(30), b'text', rng.randbytes(300), b'\xff' * 5, rng.randbytes(rng.choice([32767, 32768, 40000, 65535])) if rng.random() < .1 else b'\xff\0']), True
    if k < .3:
        r = rng.choice([b'caf\xe9', b'it\x92s', b'\xc3', b'ok\xe2\x82', b'a\xffb', b'\x80'])
        if version == 5 and rng.random() < .3:
            r = b'\xff' + r
        return r, False
    return rng.choice(['', 'Annie', 'The Dark Child', 'é à 漢字 😀', 'line\nbreak "q" \\ /', 'x' * (500 if rng.random() < .9 else rng.choice([5000, 70000])), '%i:scale% @Damage@', ' ' + str(rng.random())]).encode(), False


def gen(rng, version=None, age=None, pad=0):
    version = version or rng.choice([2, 3, 4, 5])
    age = age or rng.choice(rstw.AGES)
    mask = (1 << rstw.bits(version, age)) - 1
    trenc_ok = version < 5 and rng.random() < .6
    entries, keys, seen = [], {}, set()
    for _ in range(rng.choice([0, 1, 3, 10, 40])):
        key = rng.choice(KEYS) + (str(rng.randrange(50)) if rng.random() < .8 else '')
        h = rstw.key_hash(key, age)
        if rng.random() < .15:
            key, h = None, rng.choice([0, 1, mask, rng.getrandbits(64)])
        if h & mask in seen:
            continue
        seen.add(h & mask)
        raw, e = texts(rng, version, trenc_ok)
        # texts that extend other ones, so that data can be shared
        if entries and not e and rng.random() < .3:
            o, oe = rng.choice(entries)[1:]
            if not oe:
                raw = rng.choice([o, o[len(o) // 2:]]) if rng.random() < .6 else b'pre ' + o
                if version < 5 and raw[:1] == b'\xff':
                    raw = b'z' + raw
        entries.append((h, raw, e))
        if key is not None:
            keys[key] = h
    fc = rng.choice([None, '', '[FontList "x"]\né']) if version == 2 else None
    if rstw.bits(version, age) == 40:
        # offsets have 24 bits
        pad = min(pad, 2**23)
    data = rstw.write(rng, entries, version, age, fc, pad=pad)
    return {'version': version, 'age': age, 'entries': entries, 'keys': keys, 'data': data, 'font': fc, 'mask': mask}


def observe(ctx, t):
    ctx.count(f"v{t['version']}")
    ctx.count('xxh3' if t['age'] >= 1415 else 'xxh64')
    ctx.count('bits%d' % rstw.bits(t['version'], t['age']))
    ctx.count('texts', len(t['entries']))
    ctx.count('encoded', sum(e for _, _, e in t['entries']))
    if t['entries']:
        ctx.nontrivial(t['version'], t['age'], tuple((len(r), e) for _, r, e in t['entries']))


def decode(ctx, rng, tier, pad=0):
    t = gen(rng, pad=pad)
    ctx.count('far_texts', len(t['data']) > 2**20 and bool(t['entries']))
    what = f"version {t['version']} of patch {t['age']}"
    if rng.random() < .5:
        p = os.path.join(ctx.dir(), 'x.stringtable')
        with open(p, 'wb') as f:
            f.write(t['data'])
        rst = RstFile(p, t['age'])
    else:
        rst = RstFile(io.BytesIO(t['data']), t['age'])
    want = {h & t['mask']: rstw.text_of(r, e) for h, r, e in t['entries']}
    ctx.equal(sorted(rst.entries), sorted(want), 'entries', f"{what}: keys")
    for h, s in want.items():
        ctx.equal(rst.entries[h], s, 'text', f"{what}: text of {h:x}")
    ctx.equal(rst.version, t['version'], 'version', "version")
    # lookups
    for key, h in t['keys'].items():
        s = want[h & t['mask']]
        for k in (key, key.lower(), key.upper() if key.isascii() else key, h, h & t['mask']):
            ctx.equal(rst[k], s, 'lookup', f"{what}: lookup of {k!r}")
            ctx.check(k in rst, 'contains', f"{what}: {k!r} is not contained")
            ctx.equal(rst.get(k, 'default'), s, 'lookup', f"{what}: get({k!r})")
            ctx.count('lookups')
    # keys that are missing in the data that refer to them
    ctx.check(None not in rst and rst.get(None, 'd') == 'd', 'default', f"{what}: get(None)")
    for k in ('missing_key', rng.getrandbits(64), 'other/%d' % rng.randrange(1000)):
        h = k if isinstance(k, int) else rstw.key_hash(k, t['age'])
        if h & t['mask'] in want:
            continue
        ctx.check(k not in rst, 'contains', f"{k!r} is contained")
        ctx.check(rst.get(k) is None and rst.get(k, 'd') == 'd', 'default', f"{what}: get({k!r})")
        try:
            r = rst[k]
        except LookupError:
            ctx.count('absent')
        else:
            ctx.violation('found', f"{what}: absent key {k!r} gives {r!r}")
    observe(ctx, t)


def far_texts(ctx, rng, tier):
    decode(ctx, rng, tier, pad=rng.choice([2**16, 2**20, 2**22, 2**24 + rng.randrange(1000), 2**24]))


def as_json(ctx, rng, tier):
    t = gen(rng)
    kind, other = rstw.list_kind(t['age']), 'rst_xxh64' if t['age'] >= 1415 else 'rst_xxh3'
    known = {h: k for k, h in t['keys'].items() if rng.random() < rng.choice([.3, .9, 1])}
    for i in range(rng.choice([0, 5])):
        known.setdefault(rstw.key_hash(f"unrelated{i}", t['age']), f"unrelated{i}")
    if len({h & t['mask'] for h in known}) < len(known):
        return
    env.set_hashes(kind, known)
    env.set_hashes(other, {h: 'wrong' for h in known})
    d = ctx.dir()
    c = RstConverter(re.compile(r'.*'), t['age'])
    path = 'game/data/menu/main_en_us.stringtable'
    c.convert(io.BytesIO(t['data']), d, path)
    with open(os.path.join(d, path), 'rb') as f:
        ctx.check(f.read() == t['data'], 'copy', "the table is not exported unchanged")
    with open(os.path.join(d, path + '.json'), encoding='utf-8') as f:
        got = json.load(f)
    short = {h & t['mask']: k for h, k in known.items()}
    want = {}
    for h, r, e in t['entries']:
        h &= t['mask']
        want[short.get(h, f"{{{h:010x}}}")] = rstw.text_of(r, e)
        ctx.count('json_known' if h in short else 'json_unknown')
    ctx.equal(got, {'entries': want, 'version': t['version']}, 'json', f"JSON form of version {t['version']} of patch {t['age']}")
    observe(ctx, t)


def refused(ctx, rng, tier):
    t = gen(rng)
    b = bytearray(t['data'])
    if rng.random() < .5:
        b[:3] = rng.choice([b'rst', b'RSX', b'\0\0\0', b'PRO', b'TSR'])
    else:
        b[3] = rng.choice([0, 1, 6, 7, 50, 255])
    try:
        rst = RstFile(io.BytesIO(bytes(b)), t['age'])
    except Exception:
        ctx.count('refused')
        ctx.nontrivial(bytes(b[:4]), len(b))
        return
    ctx.violation('accepted', f"table starting with {bytes(b[:4])!r} accepted with {len(rst.entries)} texts")


SCENARIOS = [Scenario(decode, 700, 15000), Scenario(as_json, 500, 10000), Scenario(refused, 150, 2000), Scenario(far_texts, 16, 300)]
REQUIRED = {'texts': 5000, 'encoded': 200, 'lookups': 5000, 'absent': 500, 'json_known': 1000, 'json_unknown': 500, 'refused': 100, 'v2': 100, 'v3': 100, 'v4': 100, 'v5': 100,
            'bits40': 100, 'bits39': 100, 'bits38': 50, 'xxh64': 200, 'xxh3': 200, 'far_texts': 3}
