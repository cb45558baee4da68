"""C23 BIN files are decoded completely, for every format age"""
import io
import json
import os
import re
import xxhash
from vf.core import Scenario
from vf import binw, env
from vf.mem import run_cli
from cdtb.binfile import BinFile
from cdtb.export import BinConverter

PROPERTY = 'C23'
RULE = "a case is a generated BIN file decoded through the library, the exporter's converter or bin-dump; distinct signature = (age class, version, plain or patch, types at each depth)"
ASSUMPTIONS = ["files written by an independent writer following the type numbering of each patch age", "map keys of numeric, text and hash types; key and field names of one object are distinct (JSON form)", "PATH values only from 10.23 on, LIST2 from 10.8 on"]
xxh = lambda s: xxhash.xxh64_intdigest(s.lower())


def age_class(a):
    return '<923' if a < 923 else '<1008' if a < 1008 else '>=1008'


def types_of(v, depth=0, out=None):
    out = set() if out is None else out
    out.add((v[0], depth))
    if v[0] in ('LIST', 'LIST2'):
        for x in v[2]:
            types_of(x, depth + 1, out)
    elif v[0] == 'OPTION' and v[2] is not None:
        types_of(v[2], depth + 1, out)
    elif v[0] == 'MAP':
        for k, x in v[3]:
            types_of(x, depth + 1, out)
    elif v[0] in ('STRUCT', 'EMBEDDED'):
        for _, x in v[2]:
            types_of(x, depth + 1, out)
    return out


def observe(ctx, m):
    ts = set()
    for _, _, fields in m['entries']:
        for _, v in fields:
            types_of(v, 0, ts)
    for _, _, v in m['patches'] or []:
        types_of(v, 0, ts)
    for t, d in ts:
        ctx.count('t_' + t)
        if d:
            ctx.count('nested')
    ctx.count('age' + age_class(m['age']))
    ctx.count(f"version{m['version']}")
    if ts:
        ctx.nontrivial(age_class(m['age']), m['version'], m['is_patch'], tuple(sorted(ts)))


def set_names(m):
    for k, d in m['names'].items():
        env.set_hashes(k, d)


def compare(ctx, bf, m, what):
    ctx.equal(bf.version, m['version'], 'header', f"{what}: version")
    ctx.equal(bf.linked_files, m['linked'], 'linked', f"{what}: linked files")
    ctx.equal(bool(bf.is_patch), m['is_patch'], 'header', f"{what}: patch flag")
    ctx.equal([(e.path.h, e.type.h) for e in bf.entries], [(h, t) for h, t, _ in m['entries']], 'entries', f"{what}: entries")
    for e, (h, t, fields) in zip(bf.entries, m['entries']):
        d = binw.cmp_fields(e.fields, fields, f"{h:08x}")
        ctx.check(d is None, 'value', f"{what}: {d}")
        ctx.count('entries')
    if m['patches'] is None:
        ctx.check(not bf.patch_entries, 'patches', f"{what}: patch section out of nowhere")
    else:
        order = list(dict.fromkeys(h for h, _, _ in m['patches']))
        ctx.equal([e.path.h for e in bf.patch_entries], order, 'patches', f"{what}: patched objects")
        for e in bf.patch_entries:
            want = [(p, v) for h, p, v in m['patches'] if h == e.path.h]
            ctx.equal([f.path for f in e.fields], [p for p, _ in want], 'patches', f"{what}: patched fields of {e.path.h:08x}")
            for f, (p, v) in zip(e.fields, want):
                ctx.equal(f.type.name, v[0], 'patches', f"{what}: type of {p}")
                d = binw.cmp(f.value, v, p)
                ctx.check(d is None, 'patches', f"{what}: patch {d}")
                ctx.count('patched_fields')


def decode(ctx, rng, tier, large=False):
    m = binw.gen_file(rng, xxh=xxh, wide=rng.choice([None, None, 600]))
    if rng.random() < .3:
        # decoding (unlike JSON) keeps repeated fields
        g = binw.Gen(rng, m['age'], m['pool'])
        g.unique_fields = False
        m['entries'] = [(h, t, f + f[:2] + g.fields()) for h, t, f in m['entries']]
        m['data'] = binw.enc_file(m['entries'], m['age'], m['version'], m['linked'] or (), m['patches'], as_patch=m['is_patch'])
    if large:
        g = binw.Gen(rng, m['age'], m['pool'])
        h = next(i for i in range(1, 100) if i not in [e[0] for e in m['entries']])
        m['entries'].insert(rng.randint(0, len(m['entries'])), (h, g.hash('bintypes'), g.fields() + [(7, binw.large_value(g)), (8, ('U8', 3))]))
        if rng.random() < .2:
            # many objects
            used = {e[0] for e in m['entries']}
            m['entries'] += [(i, g.hash('bintypes'), [(i, ('U16', 5))]) for i in range(1000, 1000 + rng.choice([255, 256, 300, 32768, 65536])) if i not in used]
        m['data'] = binw.enc_file(m['entries'], m['age'], m['version'], m['linked'] or (), m['patches'], as_patch=m['is_patch'])
        ctx.count('large')
    set_names(m)
    kw = {'btype_version': m['age']}
    if m['age'] >= 1008 and rng.random() < .4:
        kw = {}
    what = f"age {m['age']} version {m['version']}{' patch' if m['is_patch'] else ''}"
    if rng.random() < .5:
        p = os.path.join(ctx.dir(), 'x.bin')
        with open(p, 'wb') as f:
            f.write(m['data'])
        bf = BinFile(p, **kw)
    else:
        bf = BinFile(io.BytesIO(m['data']), **kw)
    compare(ctx, bf, m, what)
    # names of hashes
    for e in bf.entries:
        n = m['names']['binentries'].get(e.path.h)
        ctx.equal(str(e.path), n if n is not None else f"{{{e.path.h:08x}}}", 'name', "entry name")
    observe(ctx, m)


def large(ctx, rng, tier):
    decode(ctx, rng, tier, large=True)


def as_json(ctx, rng, tier):
    # known and braced names of one object are distinct, so JSON objects keep all values
    m = binw.gen_file(rng, xxh=xxh)
    set_names(m)
    want = binw.Names(m['names']).file(m['entries'], m['linked'], m['patches'])
    d = ctx.dir()
    how = rng.choice(['cli', 'converter', 'library'])
    if how == 'cli':
        p = os.path.join(d, 'x.bin')
        with open(p, 'wb') as f:
            f.write(m['data'])
        argv = ['bin-dump', '-j']
        if m['age'] >= 10000000 and rng.random() < .5:
            pass
        elif m['age'] >= 10000000:
            argv += ['-V', 'main']
        else:
            argv += ['-V', f"{m['age'] // 100}.{m['age'] % 100}"]
        text = run_cli(argv + [p])
    elif how == 'converter':
        c = BinConverter(re.compile(r'\.bin$'), m['age'])
        c.convert(io.BytesIO(m['data']), d, 'a/x.bin')
        with open(os.path.join(d, 'a/x.bin'), 'rb') as f:
            ctx.check(f.read() == m['data'], 'copy', "the BIN file itself is not exported unchanged")
        with open(os.path.join(d, 'a/x.bin.json'), encoding='utf-8') as f:
            text = f.read()
    else:
        text = json.dumps(BinFile(io.BytesIO(m['data']), btype_version=m['age']).to_serializable())
    got = json.loads(text)
    diff = binw.same_json(got, want)
    ctx.check(diff is None, 'json', f"{how}: JSON form of age {m['age']}: {diff}")
    ctx.count('json_' + how)
    observe(ctx, m)


SCENARIOS = [Scenario(decode, 900, 20000), Scenario(as_json, 500, 10000), Scenario(large, 14, 200)]
REQUIRED = {'entries': 2000, 'nested': 500, 'patched_fields': 100, 'json_cli': 100, 'json_converter': 100, 'age<923': 100, 'age<1008': 100, 'age>=1008': 100,
            'version1': 100, 'version2': 100, 'version3': 100, **{'t_' + t: 20 for t in binw.SIMPLE + binw.NEW + ['PATH']}}
