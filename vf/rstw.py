"""Independent string table writer"""
import base64
import struct
import xxhash

AGES = [902, 1009, 1110, 1214, 1301, 1404, 1414, 1415, 1416, 1501, 1502, 1503, 1604, 10000000]


def bits(version, age):
    if version < 4:
        return 40
    return 39 if age < 1502 else 38


def key_hash(key, age):
    b = key.lower().encode('utf-8')
    return xxhash.xxh3_64_intdigest(b) if age >= 1415 else xxhash.xxh64_intdigest(b)


def list_kind(age):
    return 'rst_xxh3' if age >= 1415 else 'rst_xxh64'


def write(rng, entries, version, age, font_config=None, trenc=None, gaps=True, pad=0):
    """entries: [(hash, raw bytes of the text, encoded?)]; equal or suffix texts may share data.
    Returns the file."""
    if trenc is None:
        trenc = version < 5 and (any(e for _, _, e in entries) or rng.random() < .3)
    data = bytearray()
    where = {}
    order = list(range(len(entries)))
    rng.shuffle(order)
    pos = {}
    for k, i in enumerate(order):
        h, raw, e = entries[i]
        if pad and k == len(order) // 2:
            # texts far into the data
            data += bytes(pad)
        stored = (b'\xff' + struct.pack('<H', len(raw)) + raw) if e else raw + b'\0'
        if not e and gaps and rng.random() < .5:
            # share the data of an equal text, or the end of a longer one
            hit = None
            for (raw2, e2), p2 in where.items():
                if not e2 and raw2.endswith(raw) and (raw2 == raw or rng.random() < .6):
                    hit = p2 + len(raw2) - len(raw)
                    break
            if hit is not None and not (trenc and data[hit] == 0xff):
                pos[i] = hit
                continue
        if gaps and rng.random() < .15:
            data += rng.choice([b'\0', b'junk\0', b'\0\0'])
        pos[i] = len(data)
        where[raw, e] = len(data)
        data += stored
    b = bits(version, age)
    mask = (1 << b) - 1
    out = b'RST' + bytes([version])
    if version == 2:
        if font_config is not None:
            f = font_config.encode()
            out += struct.pack('<BL', 1, len(f)) + f
        else:
            out += b'\0'
    out += struct.pack('<L', len(entries))
    out += b''.join(struct.pack('<Q', (pos[i] << b) | (h & mask)) for i, (h, _, _) in enumerate(entries))
    if version < 5:
        out += bytes([trenc])
    return out + bytes(data)


def text_of(raw, e):
    return base64.b64encode(raw).decode() if e else raw.decode('utf-8', 'replace')
