"""C15 Corrupt WAD subchunks are detected and isolated"""
import os
import struct
import pyzstd
import xxhash
from vf.core import Scenario
from vf import gen, wadw, fsguard
from vf.mem import tree, files_only
from cdtb.wad import Wad

PROPERTY = 'C15'
RULE = "a case is an archive in which chosen subchunks or table rows are damaged; distinct signature = (kind of damage, subchunk, count, method of the table, version)"
ASSUMPTIONS = ["a damaged subchunk whose 64-bit hash still matches does not occur", "without a table, 'plainly decodable' means that the stored data is a sequence of complete zstd frames giving the size recorded in the archive"]
KINDS = ['flip', 'flip', 'swap', 'cut', 'cut_archive', 'row_hash', 'row_size', 'row_usize', 'row_raw', 'short_table', 'shifted', 'badzstd', 'index', 'no_table', 'table_gone', 'size', 'empty_table']


def build(rng, version):
    n = rng.choice([2, 4, 8])
    ps = gen.paths(rng, n)
    es = []
    for i, p in enumerate(ps):
        m = wadw.CHUNKED if i == 0 or rng.random() < .6 else rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD])
        data = gen.blob(rng) + rng.choice([b'', bytes(300), rng.randbytes(300)])
        if m == wadw.CHUNKED and len(data) < 40:
            data += rng.randbytes(40)
        e = wadw.entry(p, data, m, path=p, chunks=rng.choice([1, 2, 3, 6, 15]), mixed=rng.random() < .8)
        wadw.encode(rng, e)
        es.append(e)
    toc = wadw.entry('data/x.wad.subchunktoc', b'', rng.choice([0, 1, 3]), path='data/x.wad.subchunktoc')
    es.insert(rng.randrange(len(es) + 1), toc)
    if rng.random() < .3:
        # not the table, in spite of its name
        dp = rng.choice(['data/x.wad.subchunktoc.txt', 'data/a.subchunktoc/b.bin', 'subchunktoc.bin', 'data/xsubchunktoc.txt'])
        e = wadw.entry(dp, rng.randbytes(rng.choice([0, 16, 160])), wadw.STORED, path=dp)
        wadw.encode(rng, e)
        es.insert(rng.randrange(len(es) + 1), e)
    return es, toc


def row(toc, i):
    return list(struct.unpack_from('<IIQ', toc['data'], 16 * i))


def corrupt(ctx, rng, tier):
    version = rng.choice([(3, 0), (3, 1), (3, 3), (3, 4), (3, 4)])
    es, toc = build(rng, version)
    victims = [e for e in es if e['method'] == wadw.CHUNKED]
    vic = rng.choice(victims)
    kind = rng.choice(KINDS)
    # where the table rows are depends on the writer: build once to know
    state = rng.getstate()
    wadw.write_wad(rng, es, version, toc=toc)
    rows = [row(toc, i) for i in range(len(toc['data']) // 16)]
    j = rng.randrange(len(vic['table']))
    k = vic['first'] + j
    start = sum(t[0] for t in vic['table'][:j])
    size = vic['table'][j][0]
    bad = {id(vic)}
    if kind in ('flip', 'swap', 'cut', 'badzstd') and size == 0:
        kind = 'row_hash'
    st = bytearray(vic['stored'])
    table = [list(r) for r in rows]
    drop_table = False
    if kind == 'flip':
        for _ in range(rng.choice([1, 1, 5])):
            st[start + rng.randrange(size)] ^= 1 << rng.randrange(8)
        if bytes(st) == vic['stored']:
            st[start] ^= 1
    elif kind == 'swap':
        c = rng.randbytes(size)
        if c == bytes(st[start:start + size]):
            c = bytes(x ^ 255 for x in c)
        st[start:start + size] = c
    elif kind == 'cut':
        n = rng.choice([1, size, max(1, size // 2)])
        del st[start + size - n:start + size]
        if j < len(vic['table']) - 1 and rng.random() < .5:
            pass
    elif kind == 'cut_archive':
        # the entry runs past the end of the archive
        vic['last'] = True
    elif kind == 'row_hash':
        table[k][2] ^= 1 << rng.randrange(64)
    elif kind == 'row_size':
        table[k][0] = max(0, table[k][0] + rng.choice([-1, 1, 1000, 2**31]))
        if table[k][0] == rows[k][0]:
            table[k][0] += 1
    elif kind == 'row_usize':
        # the compressed chunk is declared raw: its bytes must not be returned as content
        if table[k][0] == table[k][1]:
            kind = 'row_hash'
            table[k][2] ^= 1
        else:
            table[k][1] = table[k][0]
    elif kind == 'row_raw':
        # a raw chunk is declared compressed
        if table[k][0] != table[k][1]:
            kind = 'row_hash'
            table[k][2] ^= 1
        else:
            table[k][1] += 1
            try:
                if pyzstd.decompress(bytes(st[start:start + size])) is not None and size:
                    pass
            except pyzstd.ZstdError:
                pass
    elif kind == 'short_table':
        cut = rng.randrange(16 * k, 16 * k + 16)
    elif kind == 'shifted':
        table.insert(rng.randrange(k + 1), [rng.randrange(1, 9), rng.randrange(1, 9), rng.getrandbits(64)])
    elif kind == 'badzstd':
        # consistent with the table, but not decodable
        c = rng.randbytes(size)
        st[start:start + size] = c
        table[k][2] = xxhash.xxh3_64_intdigest(c)
        table[k][1] = size + 5
    elif kind == 'index':
        vic['first'] = len(table) - rng.randrange(len(vic['table']))
        if rng.random() < .5:
            vic['first'] = 60000
    elif kind == 'size':
        # all subchunks fine, but together they are not the recorded size
        vic['size'] += rng.choice([1, 100, -1])
    if kind in ('no_table', 'table_gone'):
        drop_table = True
        r = rng.random()
        if r < .2:
            vic['size'] += rng.choice([1, 100, -1])
        elif r < .5:
            # whole subchunks are missing at the end
            n = rng.randrange(1, len(vic['table']) + 1)
            del st[sum(t[0] for t in vic['table'][:len(vic['table']) - n]):]
    vic['stored'] = bytes(st)
    # expected result of every split entry, from the damaged data and table alone
    exp = {}
    for e in es:
        if e is toc:
            continue
        exp[e['path']] = e['data']
    data = bytearray()
    tdata = b''.join(struct.pack('<IIQ', *r) for r in table)
    if kind == 'short_table':
        tdata = tdata[:cut]
    if kind == 'empty_table':
        tdata = b''
    toc2 = dict(toc, data=tdata)
    wadw.encode(rng, toc2)
    toc2['size'] = len(tdata)
    out = [toc2 if e is toc else e for e in es]
    if drop_table:
        out = [e for e in out if e is not toc2]
    saved = [(e, e.get('first', 0)) for e in out]
    blob = write(rng, out, version, last=vic if kind == 'cut_archive' else None)
    if kind == 'cut_archive':
        blob = blob[:len(blob) - rng.randrange(1, len(vic['stored']) + 1)]
    known = {e['hash']: e['path'] for e in out}
    if kind == 'table_gone' and rng.random() < .5:
        known[toc['hash']] = toc['path']
    has_table = not drop_table
    for e in es:
        if e['method'] != wadw.CHUNKED or e is toc:
            continue
        exp[e['path']] = judge(e, tdata if has_table else None, truncated=(kind == 'cut_archive' and e is vic))
    d = ctx.dir()
    path = os.path.join(d, 'a.wad.client')
    wadw.write_file(path, blob)
    wad = Wad(path, hashes=known)
    by_path = {wf.path: wf for wf in wad.files}
    what = f"{kind} ({version}, chunk {j} of {len(vic['table'])})"
    order = list(exp.items())
    rng.shuffle(order)
    with open(path, 'rb') as f:
        for p, want in order:
            got = wad.read_file_data(f, by_path[p])
            if want is None:
                ctx.check(got is None, 'misread', f"{what}: {p} is returned with {len(got or b'')} bytes although it is corrupt")
                ctx.count('refused')
            else:
                ctx.check(got is not None, 'lost', f"{what}: intact entry {p} is reported unreadable")
                ctx.check(got == want, 'content', f"{what}: {p}: {len(got)} bytes differ from the {len(want)} archived ones")
                ctx.count('intact')
    # extraction: same verdicts, nothing else appears
    outdir = os.path.join(ctx.dir(), 'out')
    if rng.random() < .5:
        wad.guess_extensions()
    wad.extract(outdir)
    got = files_only(tree(outdir))
    want = {p: c for p, c in exp.items() if c is not None}
    if has_table:
        want[toc['path']] = tdata
    ctx.equal(sorted(got), sorted(want), 'extract-set', f"{what}: extracted files")
    for p in want:
        ctx.check(got[p] == want[p], 'extract-content', f"{what}: extracted {p} differs")
    ctx.count('extractions')
    if exp[vic['path']] is None:
        ctx.count('bad_' + kind)
    ctx.nontrivial(kind, j, len(vic['table']), toc['method'], version, len(victims))


def write(rng, out, version, last):
    """Like wadw.write_wad, with stored data and subchunk indices as they are"""
    start = 268 + 4 + 32 * len(out)
    body, where = bytearray(), {}
    order = list(out)
    rng.shuffle(order)
    if last is not None:
        order.remove(last)
        order.append(last)
    for e in order:
        where[id(e)] = start + len(body)
        body += e['stored']
    head = struct.pack('<2sBB', b'RW', *version) + bytes(264) + struct.pack('<I', len(out))
    for e in out:
        f = e.get('first', 0)
        a = (e['hash'], where[id(e)], len(e['stored']), e['size'])
        if version <= (3, 3):
            head += struct.pack('<QIIIBBHQ', *a, e['type'], 0, f & 0xffff, 0)
        else:
            head += struct.pack('<QIIIBBHQ', *a, e['type'], f >> 16, f & 0xffff, 0)
    return bytes(head + body)


def judge(e, tdata, truncated):
    """Content of a split entry, or None if its data does not match the table"""
    st = e['stored']
    if truncated:
        return None
    if tdata is None:
        try:
            c = pyzstd.decompress(st)
        except Exception:
            return None
        return c if len(c) == e['size'] else None
    out, pos = b'', 0
    for i in range(e['first'], e['first'] + (e['type'] >> 4)):
        r = tdata[16 * i:16 * i + 16]
        if len(r) < 16:
            return None
        cs, us, h = struct.unpack('<IIQ', r)
        c = st[pos:pos + cs]
        if len(c) < cs or xxhash.xxh3_64_intdigest(c) != h:
            return None
        if cs != us:
            try:
                c = pyzstd.decompress(c)
            except Exception:
                return None
        out += c
        pos += cs
    return out if len(out) == e['size'] else None


SCENARIOS = [Scenario(corrupt, 900, 20000)]
REQUIRED = {'refused': 700, 'intact': 2000, 'extractions': 800, **{'bad_' + k: 10 for k in ('flip', 'swap', 'cut', 'cut_archive', 'row_hash', 'row_size', 'row_usize', 'short_table', 'shifted', 'badzstd', 'index', 'size', 'empty_table')}, 'bad_no_table': 5}
