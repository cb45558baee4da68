"""C14 WAD archives give back exactly the archived content"""
import gzip
import os
import struct
import pyzstd
from xxhash import xxh3_64_intdigest
from vf.core import Scenario
from vf import env, gen, wadw
from vf.mem import run_cli
from cdtb.wad import Wad
from cdtb.hashes import HashFile

PROPERTY = 'C14'
RULE = "a case is a generated archive, opened with its hash list and read entry by entry in random order; distinct signature = (version, methods and subchunk counts of the entries, known/unknown)"
ASSUMPTIONS = ["archives written by an independent writer (cross-checked against the layouts documented in cdtb/wad.py)", "entry sizes fit in memory"]


def content(ctx, rng, tier):
    a = gen.archive(rng)
    d = ctx.dir()
    kind = rng.choice(['game', 'lcu'])
    path = os.path.join(d, 'x.wad.client' if kind == 'game' else 'x.wad')
    wadw.write_file(path, a['data'])
    how = rng.choice(['given', 'default', 'file'])
    if how != 'default':
        # the default lists are not used
        if rng.random() < .3 and not any(p.endswith('.subchunktoc') for p in a['known'].values()):
            a['known'] = {}
            ctx.count('given empty lists')
        for x in ('game', 'lcu'):
            env.set_hashes(x, {e['hash']: 'default/list.bin' for e in a['entries']})
    if how == 'given':
        wad = Wad(path, hashes=a['known'])
    elif how == 'default':
        env.set_hashes(kind, a['known'])
        env.set_hashes('lcu' if kind == 'game' else 'game', {e['hash']: 'wrong/list.bin' for e in a['entries']})
        wad = Wad(path)
    else:
        hf = os.path.join(d, 'h.txt')
        with open(hf, 'w') as f:
            for h, p in a['known'].items():
                f.write(f"{h:016x} {p}\n")
        wad = Wad(path, hashes=HashFile(hf).load())
    es = a['entries']
    ctx.equal([(f.path_hash, f.path) for f in wad.files], [(e['hash'], a['known'].get(e['hash'])) for e in es], 'entries', "entry list")
    order = list(zip(wad.files, es))
    rng.shuffle(order)
    with open(path, 'rb') as f:
        for _ in range(2):
            for wf, e in order:
                got = wad.read_file_data(f, wf)
                name = f"{a['version']} method {e['method']} ({len(e.get('table') or [])} subchunks, {len(e['data'])} bytes)"
                if e['method'] == wadw.REDIRECT:
                    ctx.check(got is None, 'redirect', f"redirection gives data {got!r}")
                    ctx.count('redirects')
                else:
                    ctx.check(got is not None, 'unreadable', f"{name}: not readable")
                    ctx.check(got == e['data'], 'content', f"{name}: {len(got)} bytes differ from the archived ones")
                    if e['method'] != wadw.CHUNKED:
                        ctx.check(wf.read_data(f) == e['data'], 'content', f"{name}: read_data() differs")
                    ctx.count('entries_read'); ctx.count(f"m{e['method']}")
                    if e.get('first', 0) >= 65536:
                        ctx.count('far_index')
    ctx.count(f"v{a['version'][0]}.{a['version'][1]}")
    ctx.count('known', sum(e['hash'] in a['known'] for e in es))
    ctx.count('unknown', sum(e['hash'] not in a['known'] for e in es))
    if es:
        ctx.nontrivial(a['version'], tuple((e['method'], len(e.get('table') or []), e['hash'] in a['known']) for e in es))


def listing(ctx, rng, tier):
    a = gen.archive(rng, n=rng.choice([0, 1, 5, 20]))
    d = ctx.dir()
    kind = rng.choice(['game', 'lcu'])
    path = os.path.join(d, 'x.wad.client' if kind == 'game' else 'x.wad')
    wadw.write_file(path, a['data'])
    if rng.random() < .5:
        env.set_hashes(kind, a['known'])
        out = run_cli(['wad-list', path])
    else:
        hf = os.path.join(d, 'h.txt')
        with open(hf, 'w') as f:
            for h, p in a['known'].items():
                f.write(f"{h:016x} {p}\n")
        out = run_cli(['wad-list', '-H', hf, path])
    lines = out.split('\n')
    ctx.check(lines.pop() == '', 'cli', "incomplete last line")
    exp = sorted(f"{e['hash']:016x} {a['known'].get(e['hash'], '?')}" for e in a['entries'])
    ctx.equal(sorted(lines), exp, 'cli', "wad-list output")
    ctx.count('listings')
    ctx.nontrivial(len(exp), kind, a['version'])


def refused(ctx, rng, tier):
    a = gen.archive(rng, n=3)
    data = bytearray(a['data'])
    k = rng.choice(['magic', 'magic2', 'version', 'zero', 'short', 'toc'])
    if k == 'magic':
        data[:2] = rng.choice([b'WR', b'rw', b'PK', b'R\0', b'\0W', b'RX', b'QW'])
    elif k == 'magic2':
        data[rng.randrange(2)] ^= 1 << rng.randrange(8)
    elif k == 'version':
        data[2] = rng.choice([4, 5, 9, 255, 0x31])
    elif k == 'zero':
        data[2] = 0
    elif k == 'short':
        data = data[:rng.randrange(5)]
    else:
        start = {1: 8, 2: 100, 3: 268}[a['version'][0]] + 4
        step = 24 if a['version'][0] == 1 else 32
        data = data[:start + rng.randrange(3 * step)]
    path = os.path.join(ctx.dir(), 'x.wad')
    wadw.write_file(path, bytes(data))
    try:
        wad = Wad(path, hashes=a['known'])
    except (ValueError, struct.error):
        ctx.count('refused_' + k)
        ctx.nontrivial(k, bytes(data[:4]))
        return
    ctx.violation('accepted', f"{k}: archive starting with {bytes(data[:4])!r} and {len(data)} bytes accepted with {len(wad.files)} entries")


def far_table(ctx, rng, tier):
    """Subchunks far into a (sparse) table: their index has 24 bits"""
    pieces = [bytes([65 + i]) * rng.choice([1, 50, 3000]) for i in range(rng.randint(1, 15))]
    data, table = b'', b''
    for p in pieces:
        c = pyzstd.compress(p) if rng.random() < .5 else p
        if len(c) == len(p):
            c = p
        data += c
        table += struct.pack('<IIQ', len(c), len(p), xxh3_64_intdigest(c))
    k = rng.randrange(16, 24)
    first = rng.choice([1 << k, (1 << k) + rng.randrange(1 << k), (1 << k + 1) - len(pieces)])
    h, ht = rng.getrandbits(64), rng.getrandbits(64)
    start = 272 + 2 * 32
    off = start + len(data)
    size = (first + len(pieces)) * 16
    minor = rng.randrange(4, 8)
    path = os.path.join(ctx.dir(), 'x.wad')
    entries = [(h, start, len(data), sum(map(len, pieces)), len(pieces) << 4 | wadw.CHUNKED, first >> 16, first & 0xffff, 0), (ht, off, size, size, 0, 0, 0, 0)]
    if rng.random() < .5:
        entries.reverse()
    with open(path, 'wb') as f:
        f.write(b'RW\x03' + bytes([minor]) + bytes(264) + struct.pack('<I', 2))
        for e in entries:
            f.write(struct.pack('<QIIIBBHQ', *e))
        f.write(data)
        f.seek(off + first * 16)
        f.write(table)
    wad = Wad(path, hashes={ht: 'x.wad.subchunktoc'})
    with open(path, 'rb') as f:
        got = wad.read_file_data(f, next(wf for wf in wad.files if wf.path_hash == h))
    ctx.check(got == b''.join(pieces), 'content', f"3.{minor}: {len(pieces)} subchunks at index {first:#x}: {'not readable' if got is None else 'other content'}")
    os.remove(path)
    ctx.count('far_table')
    ctx.nontrivial(k, minor, len(pieces))


def far_offset(ctx, rng, tier):
    """Entries beyond 2 GiB of a (sparse) archive: offsets have 32 bits"""
    version = rng.choice([(1, 0), (2, 0), (3, 0), (3, 1), (3, 3), (3, 4), (3, 6)])
    es, pos = [], 2**31 - 5000
    for _ in range(rng.randint(3, 6)):
        data = rng.randbytes(rng.choice([1, 10, 2000])) * rng.choice([1, 3])
        method = rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD] if version[0] > 1 else [wadw.STORED, wadw.GZIP])
        raw = data if method == wadw.STORED else gzip.compress(data) if method == wadw.GZIP else pyzstd.compress(data)
        es.append((rng.getrandbits(64), pos, raw, data, method))
        pos += len(raw) + rng.choice([0, 3000, 2**30])
        if pos >= 2**32 - 10000:
            break
    rng.shuffle(es)
    path = os.path.join(ctx.dir(), 'x.wad')
    with open(path, 'wb') as f:
        f.write(b'RW' + bytes(version) + bytes({1: 4, 2: 96, 3: 264}[version[0]]) + struct.pack('<I', len(es)))
        for h, off, raw, data, method in es:
            f.write(struct.pack('<QIII', h, off, len(raw), len(data)))
            f.write(struct.pack('<I', method) if version[0] == 1 else struct.pack('<BBHQ', method, 0, 0, 0))
        for h, off, raw, data, method in es:
            f.seek(off)
            f.write(raw)
    wad = Wad(path, hashes={})
    with open(path, 'rb') as f:
        for wf, (h, off, raw, data, method) in zip(wad.files, es):
            got = wad.read_file_data(f, wf)
            ctx.check(wf.path_hash == h and got == data, 'content', f"{version}: entry of method {method} at {off:#x}: {'not readable' if got is None else 'other content'}")
            ctx.count('far_offset', off >= 2**31)
    os.remove(path)
    ctx.nontrivial(version, len(es), 'far')


def many_entries(ctx, rng, tier):
    """More entries than 16 bits can count, as game archives have"""
    version = rng.choice([(1, 0), (2, 0), (3, 1), (3, 4)])
    n = rng.choice([65536, 65537, 70001, 32769, 131073])
    hashes = rng.sample(range(2**62), n)
    start = {1: 8, 2: 100, 3: 268}[version[0]] + 4
    step = 24 if version[0] == 1 else 32
    pos = start + n * step
    datas = [b'%d.' % i * rng.choice([0, 1, 2]) for i in range(50)]
    offs = [pos]
    for x in datas:
        offs.append(offs[-1] + len(x))
    path = os.path.join(ctx.dir(), 'x.wad')
    with open(path, 'wb') as f:
        f.write(b'RW' + bytes(version) + bytes(start - 8) + struct.pack('<I', n))
        f.write(b''.join(struct.pack('<QIIII' if step == 24 else '<QIIIIQ', h, offs[h % 50], len(datas[h % 50]), len(datas[h % 50]), 0, *[0] * (step == 32)) for h in hashes))
        f.write(b''.join(datas))
    known = {h: 'a/%x' % h for h in hashes[::7]}
    wad = Wad(path, hashes=known)
    ctx.check([x.path_hash for x in wad.files] == hashes, 'entries', f"{version}: {len(wad.files)} entries of {n}, or other ones")
    ctx.check([x.path for x in wad.files] == [known.get(h) for h in hashes], 'entries', f"{version}: paths of {n} entries differ")
    with open(path, 'rb') as f:
        for wf in [wad.files[0], wad.files[-1]] + rng.sample(wad.files, 200):
            ctx.check(wad.read_file_data(f, wf) == datas[wf.path_hash % 50], 'content', f"{version}: other content")
    os.remove(path)
    ctx.count('many_entries', n > 65535)
    ctx.nontrivial(version, n)


SCENARIOS = [Scenario(content, 500, 12000), Scenario(listing, 150, 2000), Scenario(refused, 200, 3000), Scenario(far_table, 6, 200), Scenario(far_offset, 24, 400), Scenario(many_entries, 4, 80)]
REQUIRED = {'entries_read': 3000, 'm0': 300, 'm1': 300, 'm3': 300, 'm4': 300, 'redirects': 100, 'far_index': 1, 'far_table': 6, 'far_offset': 5, 'known': 1000, 'unknown': 500,
            'given empty lists': 30, 'v1.0': 20, 'v2.0': 20, 'v3.0': 20, 'v3.3': 20, 'v3.4': 20, 'listings': 100, 'refused_magic': 10, 'refused_version': 10}
