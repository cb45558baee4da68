"""Independent writer of release manifests (RMAN), with randomised table layout."""
import random
import struct
import pyzstd


class Node:
    def __init__(self, data=b'', align=1):
        self.data = bytearray(data)
        self.rel = []           # (offset in node, target node): u32, target - position
        self.vt = None          # vtable node, soffset at 0
        self.pos = None


def string(s):
    b = s.encode('utf-8')
    return Node(struct.pack('<L', len(b)) + b + b'\0')


def table(entries):
    n = Node(struct.pack('<l', len(entries)))
    for e in entries:
        n.rel.append((len(n.data), e))
        n.data += b'\0\0\0\0'
    return n


class Writer:
    def __init__(self, rng):
        self.rng = rng
        self.vtables = {}

    def obj(self, fields, nfields=None):
        """fields: list of None (omitted) | (fmt, value) | Node (offset)"""
        rng = self.rng
        n = Node(b'\0\0\0\0')
        order = list(range(len(fields)))
        rng.shuffle(order)
        offs = [0] * len(fields)
        for i in order:
            f = fields[i]
            if f is None:
                continue
            if rng.random() < .2:
                n.data += rng.randbytes(rng.randrange(1, 5))
            offs[i] = len(n.data)
            if isinstance(f, Node):
                n.rel.append((len(n.data), f))
                n.data += b'\0\0\0\0'
            else:
                n.data += struct.pack('<' + f[0], f[1])
        # trailing omitted fields may be dropped from the vtable
        last = max([i for i, f in enumerate(fields) if f is not None], default=-1) + 1
        k = rng.choice([last, len(fields)])
        vt = struct.pack('<HH', 4 + 2 * k, len(n.data)) + b''.join(struct.pack('<H', o) for o in offs[:k])
        if rng.random() < .8 and vt in self.vtables:
            n.vt = self.vtables[vt]
        else:
            n.vt = self.vtables[vt] = Node(vt)
        return n

    def layout(self, roots, base):
        """Place nodes so that every reference goes forward; vtables anywhere"""
        rng = self.rng
        children, indeg, nodes = {}, {}, []
        seen = set()
        stack = list(roots)
        while stack:
            n = stack.pop()
            if id(n) in seen:
                continue
            seen.add(id(n)); nodes.append(n)
            for _, t in n.rel:
                indeg[id(t)] = indeg.get(id(t), 0) + 1
                stack.append(t)
        # a node is ready when all its referrers are placed
        ready = [n for n in nodes if indeg.get(id(n), 0) == 0]
        mode = rng.randrange(3)
        order, placed_vt = [], set()
        vts = list({id(n.vt): n.vt for n in nodes if n.vt}.values())
        rng.shuffle(vts)
        cutv = rng.randrange(len(vts) + 1)
        order += vts[:cutv]
        late = vts[cutv:]
        while ready:
            i = {0: 0, 1: len(ready) - 1}.get(mode, rng.randrange(len(ready)))
            n = ready.pop(i)
            if late and rng.random() < .3:
                order.append(late.pop())
            order.append(n)
            for _, t in n.rel:
                indeg[id(t)] -= 1
                if indeg[id(t)] == 0:
                    ready.append(t)
        order += late
        out = bytearray()
        pad = rng.random() < .3
        for n in order:
            if pad:
                out += rng.randbytes(rng.randrange(0, 6))
            n.pos = base + len(out)
            out += n.data
        for n in order:
            for off, t in n.rel:
                at = n.pos + off
                assert t.pos > at
                struct.pack_into('<L', out, at - base, t.pos - at)
            if n.vt:
                struct.pack_into('<l', out, n.pos - base, n.pos - n.vt.pos)
        return bytes(out)


def write_manifest(rng, bundles, flags, files, dirs, manifest_id=None, minor=None, magic=b'RMAN', major=2):
    """bundles: [(id, [(chunk id, compressed size, size)])]; flags: [(id, text)]
    files: [dict(id, dir, size, name, flag_ids, chunks, link)]; dirs: [(id, parent or None, name)]"""
    w = Writer(rng)

    def opt(fmt, v, omit_prob=1.0):
        return None if v in (None,) else (fmt, v)

    bnodes = [w.obj([('Q', bid), table([w.obj([('Q', c), ('L', cs), ('L', us)]) for c, cs, us in chunks])]) for bid, chunks in bundles]
    fnodes = []
    for fid, text in flags:
        n = Node(rng.randbytes(4) + rng.randbytes(3) + struct.pack('<B', fid) + b'\0\0\0\0')
        n.rel.append((8, string(text)))
        fnodes.append(n)
    shared = {}
    filenodes = []
    for f in files:
        mask = sum(1 << (i - 1) for i in f['flag_ids'])
        cv = Node(struct.pack('<L', len(f['chunks'])) + b''.join(struct.pack('<Q', c) for c in f['chunks']))
        junk = lambda: rng.choice([None, ('B', rng.randrange(256)), ('L', rng.getrandbits(32)), ('Q', rng.getrandbits(64))])
        size = ('L', f['size']) if f['size'] or rng.random() < .5 else None
        filenodes.append(w.obj([
            ('Q', f['id']), None if f['dir'] is None else ('Q', f['dir']), size, string(f['name']),
            ('Q', mask) if mask or rng.random() < .3 else None, junk(), junk(), None if not f['chunks'] and rng.random() < .4 else cv, junk(),
            string(f['link']) if f['link'] or rng.random() < .7 else None, junk(), junk(), junk()]))
    dnodes = [w.obj([('Q', did), None if parent is None else ('Q', parent), string(name)]) for did, parent, name in dirs]
    tables = [table(bnodes), table(fnodes), table(filenodes), table(dnodes),
              table([w.obj([('Q', rng.getrandbits(64))]) for _ in range(rng.randrange(3))]), table([])]
    head = rng.randbytes(rng.choice([0, 4, 8, 20]))
    root = Node(b'')
    for t in tables:
        root.rel.append((len(root.data), t))
        root.data += b'\0\0\0\0'
    prefix = struct.pack('<l', len(head)) + head
    # the root node must come right after the header: lay it out first, alone
    body = bytearray(prefix)
    root.pos = len(prefix)
    rest = w.layout(tables, root.pos + len(root.data))
    for off, t in root.rel:
        struct.pack_into('<L', root.data, off, t.pos - (root.pos + off))
    body += root.data + rest
    comp = pyzstd.compress(bytes(body), rng.choice([1, 3, 9]))
    mid = rng.getrandbits(64) if manifest_id is None else manifest_id
    minor = rng.choice([0, 1]) if minor is None else minor
    head = struct.pack('<4sBBHLLQL', magic, major, minor, (1 << 9) | rng.choice([0, 0, 1]), 28, len(comp), mid, len(body))
    return head + comp + (rng.randbytes(rng.choice([0, 0, 256])))
