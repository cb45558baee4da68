"""C24 BIN lookups work by name and by hash alike"""
import io
import xxhash
from vf.core import Scenario
from vf import binw, env
from checks.c23 import xxh, set_names, types_of
from cdtb.binfile import (BinFile, BinField, BinType, BinHashValue, BinEntryPath, BinFieldName, BinTypeName, BinPathValue, BinStruct, BinEmbedded,
                          BinObjectWithFields, BinList, BinMap, BinOption)

PROPERTY = 'C24'
RULE = "a case decodes a generated BIN file and runs a random program of lookups and assignments against a dictionary model; distinct signature = (operations with key form, presence and value type)"
ASSUMPTIONS = ["names are ASCII (the hash is only defined for ASCII)", "path lookups go through objects (structures), as in BIN files"]

MISSING = object()


def casing(rng, s):
    return rng.choice([s, s.lower(), s.upper(), ''.join(rng.choice([c.lower(), c.upper()]) for c in s)])


def key_forms(rng, h, name):
    """All ways to write a key"""
    out = [('int', h)]
    cls = rng.choice([BinFieldName, BinHashValue, BinEntryPath, BinTypeName])
    out.append(('hash', cls(h)))
    if name:
        out += [('name', casing(rng, name)), ('name', name), ('upper', name.upper())]
    return out


def unwrap(v):
    """Model of a value lookup"""
    return v


def check_unwrapped(ctx, got, v, what):
    t = v[0]
    if t in ('LIST', 'LIST2'):
        ctx.check(isinstance(got, list) and len(got) == len(v[2]), 'getv', f"{what}: {got!r:.100} is not the list of values")
        for g, x in zip(got, v[2]):
            d = binw.cmp(g, x, what)
            ctx.check(d is None, 'getv', str(d))
    elif t == 'MAP':
        ctx.check(isinstance(got, dict) and len(got) == len(v[3]), 'getv', f"{what}: {got!r:.100} is not the dictionary of values")
        for (gk, gv), (k, x) in zip(got.items(), v[3]):
            d = binw.cmp(gk, k, what) or binw.cmp(gv, x, what)
            ctx.check(d is None, 'getv', str(d))
            # keys can be looked up
            if k[0] in ('HASH', 'LINK'):
                ctx.check(got[k[1]] is gv, 'map-key', "a hashed map key is not found by its number")
                ctx.count('map_hash_keys')
    elif t == 'OPTION':
        if v[2] is None:
            ctx.check(got is None, 'getv', f"{what}: {got!r:.100} for an empty option")
        else:
            d = binw.cmp(got, v[2], what)
            ctx.check(d is None, 'getv', str(d))
    else:
        d = binw.cmp(got, v, what)
        ctx.check(d is None, 'getv', str(d))
    ctx.count('unwrap_' + t)


def lookups(ctx, rng, tier):
    m = binw.gen_file(rng, xxh=xxh, wide=rng.choice([20, 60]))
    if not m['entries']:
        g = binw.Gen(rng, m['age'], m['pool'])
        m['entries'] = [(1, 2, g.fields(0, 4))]
        m['data'] = binw.enc_file(m['entries'], m['age'], m['version'], m['linked'] or (), m['patches'], as_patch=m['is_patch'])
    set_names(m)
    bf = BinFile(io.BytesIO(m['data']), btype_version=m['age'])
    names = {binw.fnv(s): s for s in binw.FIELD_NAMES}
    sig = []
    objs = []

    def collect(obj, fields, depth):
        objs.append((obj, fields, depth))
        for f, (h, v) in zip(obj.fields, fields):
            stack = [(f.value, v)]
            while stack:
                g, x = stack.pop()
                if x[0] in ('STRUCT', 'EMBEDDED'):
                    collect(g, x[2], depth + 1)
                elif x[0] in ('LIST', 'LIST2'):
                    stack += list(zip(g.values, x[2]))
                elif x[0] == 'OPTION' and x[2] is not None:
                    stack.append((g.value, x[2]))
    for e, (h, t, fields) in zip(bf.entries, m['entries']):
        collect(e, fields, 0)
    rng.shuffle(objs)
    for obj, fields, depth in objs[:12]:
        model = dict(fields)
        order = [h for h, _ in fields]
        present = list(model)
        absent = [h for h in list(names) + [rng.getrandbits(32), 0] if h not in model]
        for _ in range(10):
            h = rng.choice(present) if present and rng.random() < .65 else rng.choice(absent)
            v = model.get(h, MISSING)
            form, key = rng.choice(key_forms(rng, h, names.get(h)))
            known = h in m['names']['binfields']
            op = rng.choice(['item', 'get', 'getv', 'in', 'path', 'default'])
            what = f"{op} {key!r} ({form}, name {'known' if known else 'unknown'})"
            if op == 'item':
                if v is MISSING:
                    try:
                        r = obj[key]
                    except LookupError:
                        pass
                    else:
                        ctx.violation('found', f"{what}: a missing field gives {r!r:.100}")
                else:
                    f = obj[key]
                    ctx.check(f.name.h == h and f.type.name == v[0], 'wrong-field', f"{what}: field {f.name.h:08x}")
                    d = binw.cmp(f.value, v, what)
                    ctx.check(d is None, 'wrong-field', str(d))
                    for form2, key2 in key_forms(rng, h, names.get(h)):
                        ctx.check(obj[key2] is f, 'differs', f"{what}: {key2!r} gives another field than {key!r}")
            elif op == 'get':
                d = object()
                r = obj.get(key) if rng.random() < .5 else obj.get(key, d)
                if v is MISSING:
                    ctx.check(r is None or r is d, 'default', f"{what}: {r!r:.80}")
                else:
                    ctx.check(isinstance(r, BinField) and r.name.h == h, 'wrong-field', f"{what}: {r!r:.80}")
            elif op in ('getv', 'default'):
                d = rng.choice([None, 5, 'x', [], object()])
                r = obj.getv(key, d) if op == 'default' else obj.getv(key)
                if v is MISSING:
                    ctx.check(r is (d if op == 'default' else None), 'default', f"{what}: {r!r:.80}")
                else:
                    check_unwrapped(ctx, r, v, what)
            elif op == 'in':
                ctx.check((key in obj) == (v is not MISSING), 'contains', f"{what}: {key in obj}")
            else:
                # follow nested objects as deep as they go
                keys, cur, node = [key], model, v
                while node is not MISSING and node[0] in ('STRUCT', 'EMBEDDED') and (node[2] or rng.random() < .5) and len(keys) < 5 and rng.random() < .85:
                    inner = dict(node[2])
                    h2 = rng.choice(list(inner)) if inner and rng.random() < .8 else rng.choice(list(names))
                    keys.append(rng.choice(key_forms(rng, h2, names.get(h2)))[1])
                    node = inner.get(h2, MISSING)
                if node is MISSING and rng.random() < .4:
                    keys.append('mMore')
                d = object()
                r = obj.get_path(*keys, default=d) if rng.random() < .6 else obj.get_path(*keys)
                if node is MISSING:
                    ctx.check(r is d or r is None, 'path-default', f"get_path{keys!r}: {r!r:.80}")
                    ctx.count('path_missing')
                else:
                    check_unwrapped(ctx, r, node, f"get_path{keys!r}")
                    ctx.count('path_found'); ctx.count('path_depth', len(keys) - 1)
            ctx.count(op + ('_missing' if v is MISSING else '_found'))
            ctx.count('key_' + form)
            sig.append((op, form, known, None if v is MISSING else v[0]))
    # assignments, to one object (assigning to others could change what it holds)
    for obj, fields, depth in objs[:1]:
        model = dict(fields)
        order = [h for h, _ in fields]
        present = list(model)
        for _ in range(8):
            h = rng.choice(present) if present and rng.random() < .5 else rng.choice(list(names) + [rng.getrandbits(32)])
            form, key = rng.choice(key_forms(rng, h, names.get(h)))
            val = ('U32', rng.getrandbits(32))
            obj[key] = BinField(h, BinType.U32, val[1])
            if h not in model:
                order.append(h)
                ctx.count('added')
            else:
                ctx.count('replaced')
            model[h] = val
            present = list(model)
            d = binw.cmp_fields(obj.fields, [(x, model[x]) for x in order], 'after assignment')
            ctx.check(d is None, 'assign', f"assignment by {form}: {d}")
            ctx.check(obj.getv(key) == val[1] and key in obj, 'assign', f"assigned value not found by {form}")
            sig.append(('set', form))
    if sig:
        ctx.nontrivial(tuple(sorted(set(sig), key=repr)))


CLASSES = [(BinFieldName, 'binfields', binw.FIELD_NAMES), (BinTypeName, 'bintypes', binw.TYPE_NAMES), (BinEntryPath, 'binentries', binw.ENTRY_NAMES),
           (BinHashValue, 'binhashes', binw.HASH_NAMES), (BinPathValue, 'game', binw.GAME_PATHS)]


def comparisons(ctx, rng, tier):
    pool, names = binw.pools(rng, xxh)
    for k, d in names.items():
        env.set_hashes(k, d)
    vals = []
    # the same hash in every class, with a name known to some of them only
    for s in rng.sample(binw.FIELD_NAMES + binw.ENTRY_NAMES, 2):
        h = binw.fnv(s)
        for cls, kind, _ in CLASSES[:4]:
            if rng.random() < .5:
                names[kind] = {**names[kind], h: s}
                env.set_hashes(kind, names[kind])
            vals.append((cls, kind, h, s))
    for cls, kind, strs in CLASSES:
        f = xxh if kind == 'game' else binw.fnv
        for s in rng.sample(strs, 3):
            vals.append((cls, kind, f(s), s))
        vals.append((cls, kind, rng.choice([0, 1, 0xffffffff, rng.getrandbits(32)]), None))
        vals.append((cls, kind, vals[-2][2], vals[-2][3]))
    for _ in range(60):
        (c1, k1, h1, s1), (c2, k2, h2, s2) = rng.choice(vals), rng.choice(vals)
        a, b = c1(h1), c2(h2)
        ctx.check((a == b) == (h1 == h2) and (a != b) == (h1 != h2), 'compare', f"{c1.__name__}({h1:x}) == {c2.__name__}({h2:x})")
        ctx.check((a == h2) == (h1 == h2) and (h2 == a) == (h1 == h2), 'compare-int', f"{c1.__name__}({h1:x}) == {h2:x}")
        if h1 == h2:
            if (h1 in names[k1]) != (h2 in names[k2]):
                ctx.count('equal_one_named')
            ctx.check(hash(a) == hash(b), 'hash', "equal values with different hash()")
            ctx.check({a: 1}.get(b) == 1, 'hash', "an equal value is not found in a dictionary")
        ctx.check(hash(a) == hash(h1) and {h1: 1}.get(a) == 1, 'hash', "hash() differs from the number's")
        if s2:
            f = xxh if k1 == 'game' else binw.fnv
            t = casing(rng, s2)
            want = f(t) == h1
            got = a == t
            ctx.check(got == want, 'compare-name', f"{c1.__name__} of {s1!r} ({'known' if h1 in names[k1] else 'unknown'}) == {t!r} is {got}")
            ctx.check((a != t) == (not want), 'compare-name', "!= disagrees with ==")
            ctx.count('name_equal' if want else 'name_differs')
            ctx.count('name_known' if h1 in names[k1] else 'name_unknown')
        ctx.count('pairs')
    ctx.check(not (a == None) and a != None, 'compare-none', "a hashed value equals None")
    ctx.nontrivial(tuple(sorted((k, len(d)) for k, d in names.items())), tuple(h for _, _, h, _ in vals))


SCENARIOS = [Scenario(lookups, 2500, 15000), Scenario(comparisons, 200, 3000)]
REQUIRED = {'item_found': 500, 'item_missing': 300, 'getv_found': 500, 'getv_missing': 300, 'in_found': 300, 'in_missing': 300, 'path_found': 300, 'path_depth': 80,
            'path_missing': 200, 'default_missing': 200, 'key_name': 1000, 'key_hash': 1000, 'added': 200, 'replaced': 200, 'name_equal': 200, 'name_differs': 500,
            'name_known': 100, 'name_unknown': 100, 'unwrap_LIST': 50, 'unwrap_MAP': 50, 'unwrap_OPTION': 50, 'map_hash_keys': 10, 'equal_one_named': 50}
