"""C25 Damaged BIN files are refused, not misread"""
import io
import os
import struct
from vf.core import Scenario
from vf import binw
from checks.c23 import xxh, set_names, age_class, compare
from vf.mem import run_cli
from cdtb.binfile import BinFile

PROPERTY = 'C25'
RULE = "a case damages one generated BIN file in one way (or cuts it at every byte); distinct signature = (damage, age class, version, plain or patch, position)"
ASSUMPTIONS = ["damage keeps the counts below the file size (huge counts are refused for lack of data)"]


def small(rng, **kw):
    while True:
        m = binw.gen_file(rng, xxh=xxh, wide=rng.choice([5, 15, 40]), **kw)
        if len(m['data']) < 6000:
            return m


def attempt(data, age, path=None):
    if path is None:
        return BinFile(io.BytesIO(data), btype_version=age)
    with open(path, 'wb') as f:
        f.write(data)
    return BinFile(path, btype_version=age)


def refused(ctx, data, m, what, path=None):
    try:
        bf = attempt(data, m['age'], path)
    except Exception as e:
        if not isinstance(e, Exception) or isinstance(e, (MemoryError,)):
            raise
        ctx.count('refused')
        return
    ctx.violation('accepted', f"{what}: accepted with {len(bf.entries)} entries and {None if bf.patch_entries is None else len(bf.patch_entries)} patched objects", age=m['age'], version=m['version'], data=data)


def cuts(ctx, rng, tier):
    """Every strict prefix is refused"""
    m = small(rng)
    if rng.random() < .1:
        # a text is the last thing in the file
        while not m['patches']:
            m = small(rng, version=3)
        m['patches'].append((rng.getrandbits(32), 'x', ('STRING', rng.choice(['text', 'é' * 20, '', 'x' * 300]))))
        m['data'] = binw.enc_file(m['entries'], m['age'], m['version'], m['linked'] or (), m['patches'], as_patch=m['is_patch'])
    set_names(m)
    data = m['data']
    if len(data) > 700 and tier != 'thorough':
        pos = sorted(set(rng.sample(range(len(data)), 400)) | set(range(len(data) - 200, len(data))) | set(range(40)))
    else:
        pos = range(len(data))
    path = os.path.join(ctx.dir(), 'x.bin') if rng.random() < .2 else None
    for i in pos:
        refused(ctx, data[:i], m, f"{'PTCH' if m['is_patch'] else 'PROP'} version {m['version']} of {len(data)} bytes cut at {i}", path)
    attempt(data, m['age'])
    ctx.count('cut_files')
    if m['patches'] and m['patches'][-1][2][0] == 'STRING':
        ctx.count('last_string')
    ctx.nontrivial('cut', age_class(m['age']), m['version'], m['is_patch'], len(data))


def nodes(fields):
    for h, v in fields:
        yield v
        stack = [v]
        while stack:
            x = stack.pop()
            if x[0] in ('LIST', 'LIST2'):
                kids = x[2]
            elif x[0] == 'OPTION':
                kids = [x[2]] if x[2] is not None else []
            elif x[0] == 'MAP':
                kids = [q for kv in x[3] for q in kv]
            elif x[0] in ('STRUCT', 'EMBEDDED'):
                kids = [q for _, q in x[2]]
            else:
                continue
            for k in kids:
                yield k
                stack.append(k)


BAD_CODE = object()


def damage(ctx, rng, tier):
    m = small(rng)
    set_names(m)
    data = m['data']
    age = m['age']
    kind = rng.choice(['magic', 'magic', 'type', 'type', 'length', 'length', 'length', 'nested_type', 'ptch', 'field_count', 'swap_lengths'])
    off = 12 if m['is_patch'] else 0
    if kind == 'magic':
        b = bytearray(data)
        k = rng.choice(['first', 'bit', 'empty', 'inner'])
        if k == 'first':
            b[:4] = rng.choice([b'prop', b'PORP', b'PTCK', b'RST\5', b'\0\0\0\0', b'PROQ'])
        elif k == 'bit':
            b[rng.randrange(4)] ^= 1 << rng.randrange(8)
        elif k == 'empty':
            b = b[:0]
        else:
            b[off:off + 4] = rng.choice([b'PTCH', b'prop', b'PRO\0'])
            if not off:
                b[:4] = b'prop'
        refused(ctx, bytes(b), m, f"signature {bytes(b[:4])!r} ({k})")
    elif kind == 'ptch':
        m = small(rng)
        while not m['is_patch']:
            m = small(rng)
        b = bytearray(m['data'])
        struct.pack_into('<LL', b, 4, *rng.choice([(0, 0), (2, 0), (1, 1), (1 << 24, 0)]))
        refused(ctx, bytes(b), m, "patch header")
    else:
        if not any(f for _, _, f in m['entries']):
            g = binw.Gen(rng, age, m['pool'])
            m['entries'] = [(5, 6, g.fields(0, 2))] + [e for e in m['entries'] if e[0] != 5]
        n = rng.choice([i for i, e in enumerate(m['entries']) if e[2]])
        h, t, fields = m['entries'][n]
        chunks = []
        for i, (eh, et, ef) in enumerate(m['entries']):
            body = struct.pack('<LH', eh, len(ef)) + binw.enc_fields(ef, age)
            length = len(body)
            if i == n:
                if kind == 'type':
                    # one top-level value has a type that does not exist
                    k = rng.randrange(len(ef))
                    p = 6
                    for q, (fh, v) in enumerate(ef):
                        if q == k:
                            body = body[:p + 4] + bytes([bad_code(rng, age)]) + body[p + 5:]
                        p += 5 + len(binw.enc(v, age))
                elif kind == 'nested_type':
                    ef2 = ef + [(77, ('OPTION', 'U8', ('U8', 1)))]
                    body = struct.pack('<LH', eh, len(ef2)) + binw.enc_fields(ef, age)
                    kind2 = rng.choice(['OPTION', 'LIST', 'MAP'])
                    if kind2 == 'OPTION':
                        body += struct.pack('<LB', 77, binw.code('OPTION', age)) + bytes([bad_code(rng, age), rng.choice([0, 1]), 1])
                        if body[-2] == 0:
                            body = body[:-1]
                    elif kind2 == 'LIST':
                        body += struct.pack('<LBBLL', 77, binw.code('LIST', age), bad_code(rng, age), 4 + 1, rng.choice([0, 1])) + b'\1'
                        if body[-5:-1] == b'\0\0\0\0':
                            body = body[:-1]
                    else:
                        body += struct.pack('<LBBBLL', 77, binw.code('MAP', age), *rng.choice([(bad_code(rng, age), 3), (3, bad_code(rng, age))]), 4, 0)
                    length = len(body)
                elif kind == 'length':
                    length += rng.choice([1, -1, 4, -4, 100, -len(body), 6, 2 ** 31])
                elif kind == 'field_count':
                    # one field less or more than announced
                    c = len(ef) + rng.choice([-1, 1])
                    body = body[:4] + struct.pack('<H', c) + body[6:]
            chunks.append((length & 0xffffffff, body))
        if kind == 'swap_lengths':
            ls = [l for l, _ in chunks]
            if len(set(ls)) < 2:
                chunks = [(chunks[0][0] + 3, chunks[0][1])] + chunks[1:]
            else:
                i, j = 0, next(x for x in range(len(ls)) if ls[x] != ls[0])
                chunks[i], chunks[j] = (ls[j], chunks[i][1]), (ls[i], chunks[j][1])
        head = binw.enc_file([], age, m['version'], m['linked'] or (), None, as_patch=m['is_patch'])
        out = head[:-4] + struct.pack('<L', len(m['entries'])) + b''.join(struct.pack('<L', t) for _, t, _ in m['entries'])
        out += b''.join(struct.pack('<L', l) + b for l, b in chunks)
        full = binw.enc_file([], age, m['version'], m['linked'] or (), m['patches'], as_patch=m['is_patch'])
        out += full[len(head):]
        refused(ctx, out, m, f"{kind} (age {age}, version {m['version']})")
    ctx.count('d_' + kind)
    ctx.nontrivial(kind, age_class(age), m['version'], m['is_patch'], len(m['data']))


def bad_code(rng, age):
    if age < 923:
        return rng.choice([25, 26, 60, 0x70, 0x87, 0x90, 255])
    if age < 1008:
        return rng.choice([19, 30, 0x7f, 0x87, 0x90, 255])
    return rng.choice([19, 24, 0x7f, 0x88, 0x90, 255])


def anywhere(ctx, rng, tier):
    """Random damage: whatever is accepted has consistent lengths and everything it announces"""
    m = small(rng)
    set_names(m)
    for _ in range(20):
        b = bytearray(m['data'])
        for _ in range(rng.choice([1, 1, 3])):
            i = rng.randrange(len(b))
            b[i] = rng.choice([0, 1, 255, b[i] ^ (1 << rng.randrange(8))])
        k = rng.random()
        if k < .2:
            i = rng.randrange(len(b)); del b[i:i + rng.choice([1, 2, 8])]
        elif k < .3:
            i = rng.randrange(len(b)); b[i:i] = rng.randbytes(rng.choice([1, 4]))
        b = bytes(b)
        try:
            want = parse(b, m['age'])
        except Undefined:
            ctx.count('mut_undefined')
            continue
        try:
            bf = BinFile(io.BytesIO(b), btype_version=m['age'])
        except Exception:
            ctx.count('mut_refused')
            continue
        ctx.check(want is not None, 'accepted', f"damaged file of {len(b)} bytes accepted (age {m['age']})", data=b)
        if want is not None:
            compare(ctx, bf, dict(want, age=m['age']), "accepted damaged file")
        ctx.count('mut_accepted')
    ctx.nontrivial('mutate', m['version'], m['is_patch'], len(m['data']), age_class(m['age']))


class Bad(Exception):
    pass


def parse(b, age):
    """Strict reference reader; None if the file must be refused"""
    rev = {binw.code(t, age): t for t in (binw.SIMPLE + (binw.NEW if age >= 1008 else binw.OLD))}
    if age >= 923:
        rev.setdefault(18, 'PATH')
    pos = 0

    def take(n):
        nonlocal pos
        if n < 0 or pos + n > len(b):
            raise Bad()
        r = b[pos:pos + n]
        pos += n
        return r

    def fmt(f):
        return struct.unpack(f, take(struct.calcsize(f)))

    def string():
        n, = fmt('<H')
        return take(n).decode('utf-8')

    def tcode():
        c, = fmt('<B')
        if c not in rev:
            raise Bad()
        return rev[c]

    def val(t):
        if t in ('LIST', 'LIST2'):
            vt = tcode()
            _, n = fmt('<LL')
            return (t, vt, [val(vt) for _ in range(n)])
        if t == 'OPTION':
            vt = tcode()
            has, = fmt('<?')
            return (t, vt, val(vt) if has else None)
        if t == 'MAP':
            kt, vt = tcode(), tcode()
            _, n = fmt('<LL')
            items = [(val(kt), val(vt)) for _ in range(n)]
            if n and kt in ('LIST', 'LIST2', 'STRUCT', 'EMBEDDED', 'OPTION', 'MAP', 'FLOAT', 'MATRIX4X4') or kt.startswith('VEC'):
                raise Undefined()
            if len({k[1] for k, _ in items}) < n:
                raise Undefined()
            return (t, kt, vt, items)
        if t in ('STRUCT', 'EMBEDDED'):
            h, = fmt('<L')
            if t == 'STRUCT' and h == 0:
                return (t, 0, [])
            _, n = fmt('<LH')
            return (t, h, [field() for _ in range(n)])
        if t == 'STRING':
            return (t, string())
        if t == 'MATRIX4X4':
            return (t, tuple(fmt('<4f') for _ in range(4)))
        r = fmt(binw.FMT[t])
        return (t, r if len(r) > 1 else r[0])

    def field():
        h, = fmt('<L')
        t = tcode()
        return h, val(t)

    try:
        magic = take(4)
        is_patch = magic == b'PTCH'
        if is_patch:
            if fmt('<LL') != (1, 0):
                return None
            magic = take(4)
        if magic != b'PROP':
            return None
        version, = fmt('<L')
        linked = None
        if version >= 2:
            n, = fmt('<L')
            linked = [string() for _ in range(n)]
        n, = fmt('<L')
        types = [fmt('<L')[0] for _ in range(n)]
        entries = []
        for t in types:
            length, = fmt('<L')
            start = pos
            h, c = fmt('<LH')
            fields = [field() for _ in range(c)]
            if pos - start != length:
                return None
            entries.append((h, t, fields))
        patches = None
        if is_patch and version >= 3:
            n, = fmt('<L')
            patches = []
            for _ in range(n):
                h, _ = fmt('<LL')
                t = tcode()
                p = string()
                patches.append((h, p, val(t)))
        return {'version': version, 'linked': linked, 'entries': entries, 'patches': patches, 'is_patch': is_patch}
    except Bad:
        return None
    except UnicodeDecodeError:
        raise Undefined() from None


class Undefined(Exception):
    pass


SCENARIOS = [Scenario(cuts, 160, 3000), Scenario(damage, 600, 15000), Scenario(anywhere, 200, 6000, name='mutations')]
REQUIRED = {'refused': 30000, 'cut_files': 100, 'last_string': 1, 'mut_refused': 1000, 'mut_accepted': 300, **{'d_' + k: 20 for k in ('magic', 'type', 'length', 'nested_type', 'ptch', 'field_count', 'swap_lengths')}}
