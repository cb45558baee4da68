"""Independent texture and image writers, and block decoders"""
import struct

BC1, BC3, BC7, BC5, BGRA8, RGBA16 = 0x0a, 0x0c, 0x0d, 0x0e, 0x14, 0x15
FORMATS = [BC1, BC3, BC7, BC5, BGRA8]
NAMES = {BC1: 'BC1', BC3: 'BC3', BC7: 'BC7', BC5: 'BC5', BGRA8: 'BGRA8', RGBA16: 'RGBA16'}
BLOCK = {BC1: (4, 8), BC3: (4, 16), BC7: (4, 16), BC5: (4, 16), BGRA8: (1, 4), RGBA16: (1, 8)}


def level_size(fmt, w, h):
    b, n = BLOCK[fmt]
    return ((w + b - 1) // b) * ((h + b - 1) // b) * n


def rand_block(rng, fmt):
    if fmt == BC7:
        # mode 6: 7 bits, endpoints 4x2x7 bits, 2 p-bits, indices 63 bits
        v = 1 << 6
        v |= rng.getrandbits(128 - 7) << 7
        return v.to_bytes(16, 'little')
    if fmt == BC3:
        # colors of BC3 blocks always have four colors: avoid the order that BC1 reads differently
        a = rng.randbytes(8)
        c0, c1 = sorted((rng.getrandbits(16), rng.getrandbits(16)), reverse=True)
        return a + struct.pack('<HH', c0, c1) + rng.randbytes(4)
    return rng.randbytes(BLOCK[fmt][1])


SPECIAL = ['transparent', 'opaque', 'gray', 'black', 'white', 'uniform', 'blank']


def raw_pixels(rng, n, count):
    """Pixels of n bytes (b, g, r, a), some of them of a special kind of image"""
    kind = rng.choice(SPECIAL) if rng.random() < .4 else None
    if kind == 'uniform':
        return rng.randbytes(n) * count
    if kind in ('black', 'white', 'blank'):
        c = b'\xff' if kind == 'white' else b'\0'
        return (c * min(n, 3) + (b'\xff' if kind != 'blank' else b'\0')[:n - 3 if n > 3 else 0]) * count
    data = bytearray(rng.randbytes(n * count))
    if kind in ('transparent', 'opaque') and n == 4:
        data[3::4] = (b'\0' if kind == 'transparent' else b'\xff') * count
    if kind == 'gray' and n >= 3:
        data[1::n] = data[0::n]; data[2::n] = data[0::n]
    return bytes(data)


def level(rng, fmt, w, h):
    n = BLOCK[fmt][1]
    count = level_size(fmt, w, h) // n
    if rng.random() < .15:
        return rand_block(rng, fmt) * count
    if fmt == BGRA8:
        return raw_pixels(rng, 4, count)
    if fmt == BC3 and rng.random() < .15:
        # the same alpha everywhere
        a = rng.choice([b'\0\0', b'\xff\xff', b'\x80\x80']) + b'\0' * 6
        return b''.join(a + rand_block(rng, fmt)[8:] for _ in range(count))
    return b''.join(rand_block(rng, fmt) for _ in range(count))


def tex(rng, fmt, w, h, mips):
    """(file, data of the full-size level)"""
    head = struct.pack('<4sHHBBBB', b'TEX\0', w, h, rng.choice([1, 0]), fmt, rng.choice([0, 1, 2]), 1 if mips else 0)
    full = level(rng, fmt, w, h)
    body = full
    if mips:
        n = max(w, h).bit_length()
        body = b''.join(level(rng, fmt, max(w >> i, 1), max(h >> i, 1)) for i in range(n - 1, 0, -1)) + full
    return head + body, full


# --- decoders: rows of (r, g, b, a)
def rgb565(c):
    r, g, b = c >> 11, (c >> 5) & 63, c & 31
    return (r * 255 / 31, g * 255 / 63, b * 255 / 31)


def dec_color(b, four):
    c0, c1, bits = struct.unpack('<HHL', b)
    p0, p1 = rgb565(c0), rgb565(c1)
    pal = [p0 + (255,), p1 + (255,)]
    if four or c0 > c1:
        pal += [tuple((2 * x + y) / 3 for x, y in zip(p0, p1)) + (255,), tuple((x + 2 * y) / 3 for x, y in zip(p0, p1)) + (255,)]
    else:
        pal += [tuple((x + y) / 2 for x, y in zip(p0, p1)) + (255,), (0, 0, 0, 0)]
    return [pal[(bits >> (2 * i)) & 3] for i in range(16)]


def dec_channel(b, signed=False):
    """One channel of BC3 (alpha) or BC5; signed values are shown as value + 128"""
    a0, a1 = b[0], b[1]
    if signed:
        a0, a1 = (a0 + 128) & 255, (a1 + 128) & 255
    bits = int.from_bytes(b[2:8], 'little')
    if a0 > a1:
        pal = [a0, a1] + [((7 - i) * a0 + i * a1) / 7 for i in range(1, 7)]
    else:
        pal = [a0, a1] + [((5 - i) * a0 + i * a1) / 5 for i in range(1, 5)] + [0, 255]
    return [pal[(bits >> (3 * i)) & 7] for i in range(16)]


W4 = [0, 4, 9, 13, 17, 21, 26, 30, 34, 38, 43, 47, 51, 55, 60, 64]


def dec_bc7_mode6(b):
    v = int.from_bytes(b, 'little') >> 7
    ch = []
    for c in range(4):
        e0, e1 = v & 127, (v >> 7) & 127
        v >>= 14
        ch.append([e0, e1])
    p0, p1 = v & 1, (v >> 1) & 1
    v >>= 2
    ends = [[(x << 1) | p0, (y << 1) | p1] for x, y in ch]
    out = []
    for i in range(16):
        n = 3 if i == 0 else 4
        w = W4[v & ((1 << n) - 1)]
        v >>= n
        out.append(tuple(((64 - w) * e[0] + w * e[1] + 32) >> 6 for e in ends))
    return out


def decode(fmt, w, h, data):
    """Pixels of a level as {(x, y): (r, g, b, a)}, and the tolerance"""
    out = {}
    if fmt == BGRA8:
        for i in range(w * h):
            b, g, r, a = data[4 * i:4 * i + 4]
            out[i % w, i // w] = (r, g, b, a)
        return out, 0
    n = BLOCK[fmt][1]
    bw = (w + 3) // 4
    for k in range(len(data) // n):
        b = data[k * n:(k + 1) * n]
        if fmt == BC1:
            px = dec_color(b, False)
        elif fmt == BC3:
            px = [c[:3] + (a,) for c, a in zip(dec_color(b[8:], True), dec_channel(b[:8]))]
        elif fmt == BC5:
            px = [(r, g, None, 255) for r, g in zip(dec_channel(b[:8], True), dec_channel(b[8:], True))]
        else:
            px = dec_bc7_mode6(b)
        x0, y0 = 4 * (k % bw), 4 * (k // bw)
        for i, p in enumerate(px):
            x, y = x0 + i % 4, y0 + i // 4
            if x < w and y < h:
                out[x, y] = p
    return out, 0 if fmt == BC7 else 9


# --- the standard image formats
def dds(rng, kind, w, h, mips=False):
    """(file, pixels, tolerance)"""
    if kind in ('DXT1', 'DXT5'):
        fmt = BC1 if kind == 'DXT1' else BC3
        full = level(rng, fmt, w, h)
        pf = struct.pack('<LL4s5L', 32, 4, kind.encode(), 0, 0, 0, 0, 0)
        px, tol = decode(fmt, w, h, full)
    elif kind == 'BGRA':
        fmt = BGRA8
        full = raw_pixels(rng, 4, w * h)
        pf = struct.pack('<LL4s5L', 32, 0x41, b'\0\0\0\0', 32, 0xff0000, 0xff00, 0xff, 0xff000000)
        px, tol = decode(BGRA8, w, h, full)
    elif kind == 'BGR':
        full = raw_pixels(rng, 3, w * h)
        pf = struct.pack('<LL4s5L', 32, 0x40, b'\0\0\0\0', 24, 0xff0000, 0xff00, 0xff, 0)
        px, tol = {(i % w, i // w): (full[3 * i + 2], full[3 * i + 1], full[3 * i], 255) for i in range(w * h)}, 0
        fmt = None
    count = max(w, h).bit_length() if mips and fmt else 1
    body = full
    if count > 1:
        body += b''.join(level(rng, fmt, max(w >> i, 1), max(h >> i, 1)) for i in range(1, count))
    flags = 0x1007 | (0x20000 if count > 1 else 0)
    return b'DDS ' + struct.pack('<7L44x', 124, flags, h, w, len(full), 0, count if count > 1 else 0) + pf + struct.pack('<5L', 0x1000 | (0x400008 if count > 1 else 0), 0, 0, 0, 0) + body, px, tol


def tga_palette(rng, kind, w, h):
    """An image with a palette of 24 or 32-bit colours, whose first entries may be left out"""
    top, n = rng.random() < .5, int(kind[-2:]) // 8
    start, size = rng.choice([0, 0, 1, 10]), rng.choice([1, 2, 16, 17, 200])
    pal = [bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)) for _ in range(size)]
    px, body = {}, b''
    for y in range(h):
        for x in range(w):
            i = rng.randrange(size)
            body += bytes([start + i])
            c = pal[i]
            px[x, y if top else h - 1 - y] = (c[2], c[1], c[0], c[3] if n == 4 else 255)
    head = struct.pack('<BBBHHBHHHHBB', 0, 1, 1, start, size, 8 * n, 0, 0, w, h, 8, 0x20 if top else 0)
    return head + b''.join(pal) + body, px, 0


def tga(rng, kind, w, h):
    if kind.startswith('tgapal'):
        return tga_palette(rng, kind, w, h)
    top = rng.random() < .5
    rle = kind.endswith('rle')
    base = kind.replace('rle', '')
    n = {'tga32': 4, 'tga24': 3, 'tga8': 1}[base]
    rows = [[tuple(rng.choice([0, 7, 255]) if rle else rng.randrange(256) for _ in range(n)) for _ in range(w)] for _ in range(h)]
    if rng.random() < .4:
        raw = raw_pixels(rng, n, w * h)
        rows = [[tuple(raw[n * (y * w + x):][:n]) for x in range(w)] for y in range(h)]
    px = {}
    for y, row in enumerate(rows):
        for x, p in enumerate(row):
            px[x, y if top else h - 1 - y] = (p[0], p[0], p[0], 255) if n == 1 else (p[2], p[1], p[0], p[3] if n == 4 else 255)
    body = b''
    for row in rows:
        if not rle:
            body += b''.join(bytes(p) for p in row)
            continue
        x = 0
        while x < w:
            run = 1
            while x + run < w and run < 128 and row[x + run] == row[x]:
                run += 1
            if run > 1:
                body += bytes([0x80 | (run - 1)]) + bytes(row[x])
            else:
                body += b'\0' + bytes(row[x])
            x += run
    itype = (3 if n == 1 else 2) + (8 if rle else 0)
    head = struct.pack('<BBBHHBHHHHBB', 0, 0, itype, 0, 0, 0, 0, 0, w, h, 8 * n, (0x20 if top else 0) | (8 if n == 4 else 0))
    return head + body, px, 0
