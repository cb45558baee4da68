"""Independent WAD writer (all supported layouts and storage methods)."""
import gzip
import hashlib
import struct
import pyzstd
import xxhash

STORED, GZIP, REDIRECT, ZSTD, CHUNKED = 0, 1, 2, 3, 4
VERSIONS = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 3), (3, 4)]


def path_hash(path):
    """Hash of a path in WAD archives"""
    return xxhash.xxh64_intdigest(path.lower())


def split(rng, data, n):
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(n - 1))
    cuts = [0] + cuts + [len(data)]
    return [data[a:b] for a, b in zip(cuts, cuts[1:])]


def entry(path_or_hash, data=b'', method=STORED, **kw):
    h = path_hash(path_or_hash) if isinstance(path_or_hash, str) else path_or_hash
    return {'hash': h, 'data': data, 'method': method, **kw}


def encode(rng, e):
    """Stored form of an entry; sets e['stored'], e['table'] (subchunks), e['type']"""
    m, data = e['method'], e['data']
    e['table'] = []
    e['type'] = m
    if m == STORED:
        e['stored'] = data
    elif m == GZIP:
        e['stored'] = gzip.compress(data, rng.choice([1, 6]), mtime=0)
    elif m == REDIRECT:
        t = e['redirect'].encode()
        e['stored'] = struct.pack('<L', len(t)) + t + b'\0' * rng.choice([0, 1])
    elif m == ZSTD:
        e['stored'] = pyzstd.compress(data, rng.choice([1, 3]))
    elif m == CHUNKED:
        n = e.get('chunks')
        if n is None:
            n = rng.choice([1, 2, 3, 15])
        parts = split(rng, data, n) if n else []
        out = []
        for p in parts:
            raw = rng.random() < .4 if e.get('mixed', True) else False
            c = p if raw else pyzstd.compress(p, 3)
            if len(c) == len(p):
                c = p
            out.append(c)
            e['table'].append([len(c), len(p), xxhash.xxh3_64_intdigest(c)])
        e['stored'] = b''.join(out)
        e['type'] = CHUNKED | len(parts) << 4
    e.setdefault('size', len(data))
    return e


def checksum(e):
    return int.from_bytes(hashlib.sha256(bytes([e['method']]) + e['data']).digest()[:8], 'little')


def write_wad(rng, entries, version=(3, 1), toc=None, gaps=True):
    """entries: dicts made by entry(). toc: an entry (without data) to be filled with the
    subchunk table; it must be in `entries`. Returns the archive."""
    major, minor = version
    index = rng.choice([0, 0, 3]) if toc is not None else 0
    table = [[rng.randrange(100), rng.randrange(100), rng.getrandbits(64)] for _ in range(index)]
    if toc is not None and toc.get('far'):
        # indices above 16 bits need the high byte of the newer layout
        index = toc['far']
        table = [[0, 0, 0]] * index
    for e in entries:
        if e is toc:
            continue
        if 'stored' not in e:
            encode(rng, e)
        e['first'] = len(table)
        table += e['table']
        if rng.random() < .2 and toc is not None:
            table.append([1, 2, 3])
    if toc is not None:
        toc['data'] = b''.join(struct.pack('<IIQ', *t) for t in table)
        encode(rng, toc)
        toc['first'] = 0
    size = {1: 24, 2: 32, 3: 32}[major]
    start = {1: 8, 2: 100, 3: 268}[major] + 4 + size * len(entries)
    body, where = bytearray(), {}
    order = list(range(len(entries)))
    if gaps:
        rng.shuffle(order)
    for i in order:
        e = entries[i]
        if e.get('share') is not None and id(e['share']) in where:
            where[id(e)] = where[id(e['share'])]
            continue
        if gaps and rng.random() < .3:
            body += rng.randbytes(rng.choice([1, 7, 100]))
        where[id(e)] = start + len(body)
        body += e['stored']
    def offset(e):
        o = e.get('offset', where[id(e)])
        return start + len(body) - len(e['stored']) + 1 if o == 'end' else o
    head = struct.pack('<2sBB', b'RW', major, minor)
    if major == 1:
        head += struct.pack('<HH', 12, 24)
    elif major == 2:
        head += rng.randbytes(100 - len(head))
    else:
        head += rng.randbytes(268 - len(head))
    head += struct.pack('<I', len(entries))
    for e in entries:
        a = (e['hash'], offset(e), len(e['stored']), e['size'])
        if major == 1:
            head += struct.pack('<QIIII', *a, e['type'])
        elif (major, minor) <= (3, 3):
            head += struct.pack('<QIIIBBHQ', *a, e['type'], rng.randrange(2), e.get('first', 0) & 0xffff, e.get('checksum', checksum(e)))
        else:
            f = e.get('first', 0)
            head += struct.pack('<QIIIBBHQ', *a, e['type'], f >> 16, f & 0xffff, e.get('checksum', checksum(e)))
    assert len(head) == start
    return bytes(head + body)


def write_file(path, data):
    import os
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    return path
