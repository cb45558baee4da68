"""Minimal PE executable with a version resource."""
import struct


def _pad4(b):
    return b + b'\0' * (-len(b) % 4)


def _node(key, value=b'', children=(), text=False, vlen=None):
    k = _pad4(struct.pack('<HHH', 0, 0, 0) + key.encode('utf-16-le') + b'\0\0')
    body = k + value
    for c in children:
        body = _pad4(body) + c
    n = len(value) // 2 if text else len(value)
    return struct.pack('<HHH', len(body), n if vlen is None else vlen, 1 if text else 0) + body[6:]


def exe(version, extra=b'', **strings):
    strings = {'CompanyName': 'X', 'FileVersion': '1.2.3.4', **strings, 'ProductVersion': version}
    sn = [_node(k, (v + '\0').encode('utf-16-le'), text=True) for k, v in strings.items()]
    fixed = struct.pack('<13L', 0xFEEF04BD, 0x10000, 0, 0, 0, 0, 0x3f, 0, 0x40004, 1, 0, 0, 0)
    vi = _node('VS_VERSION_INFO', fixed, [
        _node('StringFileInfo', b'', [_node('040904b0', b'', sn, text=True)], text=True),
        _node('VarFileInfo', b'', [_node('Translation', struct.pack('<HH', 0x409, 0x4b0))], text=True)])
    rva = 0x1000
    # resource directories: type 16 -> id 1 -> lang 0x409 -> data entry
    d = lambda i, off: struct.pack('<LLHHHH', 0, 0, 0, 0, 0, 1) + struct.pack('<LL', i, off)
    rsrc = d(16, 0x80000000 | 24) + d(1, 0x80000000 | 48) + d(0x409, 72) + struct.pack('<LLLL', rva + 88, len(vi), 0, 0) + vi
    rsrc += b'\0' * (-len(rsrc) % 512)
    coff = struct.pack('<HHLLLHH', 0x14c, 1, 0x5f000000, 0, 0, 224, 0x102)
    opt = struct.pack('<HBBLLLLLL', 0x10b, 9, 0, 0, len(rsrc), 0, 0, rva, rva) + struct.pack('<LLLHHHHHHLLLLHHLLLLLL', 0x400000, 0x1000, 0x200, 5, 0, 0, 0, 5, 0, 0, rva + 0x1000 * (1 + len(rsrc) // 0x1000), 0x400, 0, 2, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, 16)
    dirs = [(0, 0)] * 16
    dirs[2] = (rva, len(rsrc))
    opt += b''.join(struct.pack('<LL', *x) for x in dirs)
    sec = b'.rsrc\0\0\0' + struct.pack('<LLLLLLHHL', len(rsrc), rva, len(rsrc), 0x400, 0, 0, 0, 0, 0x40000040)
    dos = b'MZ' + struct.pack('<HHHHHH', 0x90, 3, 0, 4, 0, 0xffff) + b'\0' * 46 + struct.pack('<L', 0x80) + b'\0' * 64
    head = dos + b'PE\0\0' + coff + opt + sec
    return head + b'\0' * (0x400 - len(head)) + rsrc + extra
