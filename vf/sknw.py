"""Independent mesh (SKN) writer"""
import struct
from .binw import f32

VERSIONS = [(0, 1), (1, 1), (2, 1), (4, 1)]
NAMES = ['Body', 'head_mat', 'Recall Item', 'Wings-L', 'é', 'a.b', 'Banner', 'UPPER', 'x' * 63, 'base_MAT2', 'Unknown']


def rf(rng):
    return f32(rng.choice([0.0, 1.0, -0.5, 1e-8, 123456.789, rng.uniform(-200, 200), rng.gauss(0, 1)]))


def vertex(rng):
    return {'position': (rf(rng), rf(rng), rf(rng)), 'normal': (rf(rng), rf(rng), rf(rng)), 'uv': (rf(rng), rf(rng)),
            'bones': [rng.randrange(256) for _ in range(4)], 'weights': [rf(rng) for _ in range(4)]}


def gen(rng, version=None, names=None, big=False, huge=False):
    """{'version', 'vertices', 'indices', 'parts': [{name, start_vertex, vertex_count, start_index, index_count}], 'data'}"""
    version = version or rng.choice(VERSIONS)
    vertices, indices, parts = [], [], []
    names = list(names or NAMES)
    rng.shuffle(names)
    n = 1 if version[0] == 0 else rng.choice([0, 1, 2, 4]) if not big else 3
    if huge:
        # indices that need all of their 16 bits
        n = 1 if version[0] == 0 else 2
        few = [vertex(rng) for _ in range(50)]
    for i in range(n):
        if version[0] and rng.random() < .15:
            # data that belongs to no part
            vertices += [vertex(rng) for _ in range(rng.choice([1, 3]))]
        nv = rng.choice([0, 1, 3, 4, 20] + ([3000] if big else []))
        sv = len(vertices)
        if huge:
            nv = rng.choice([32000, 32768, 32769, 25000 if n > 1 else 65535])
            vertices += [rng.choice(few) for _ in range(nv)]
            nv = min(nv, 65536 - sv)
        else:
            vertices += [vertex(rng) for _ in range(nv)]
        nt = rng.choice([1, 2, 5, 30]) if nv else 0
        if rng.random() < .1:
            nt = 0
        if version[0] and rng.random() < .1:
            indices += [0, 0, 0]
        si = len(indices)
        indices += [sv + (rng.choice([0, nv - 1, rng.randrange(nv)])) for _ in range(3 * nt)]
        parts.append({'name': 'Unknown' if version[0] == 0 else names.pop(), 'start_vertex': sv, 'vertex_count': nv, 'start_index': si, 'index_count': 3 * nt})
    vtype = rng.choice([0, 1, 2]) if version[0] == 4 else None
    m = {'version': version, 'vertices': vertices, 'indices': indices, 'parts': parts, 'vtype': vtype}
    m['data'] = write(rng, m)
    return m


def write(rng, m):
    major, minor = m['version']
    out = bytearray(struct.pack('<LHH', 0x00112233, major, minor))
    if major:
        out += struct.pack('<L', len(m['parts']))
        for p in m['parts']:
            name = p['name'].encode()
            # the rest of the name is not always cleared
            pad = b'\0' * (64 - len(name)) if rng.random() < .7 or len(name) >= 63 else b'\0' + rng.choice([b'junk', b'\xff\xfe']).ljust(63 - len(name), b'\xcd')
            out += struct.pack('<64sLLLL', (name + pad)[:64], p['start_vertex'], p['vertex_count'], p['start_index'], p['index_count'])
        if major == 4:
            out += struct.pack('<L', 0)
    out += struct.pack('<LL', len(m['indices']), len(m['vertices']))
    if major == 4:
        out += struct.pack('<LL', {0: 52, 1: 56, 2: 72}[m['vtype']], m['vtype']) + struct.pack('<10f', *[rng.uniform(-5, 5) for _ in range(10)])
    out += struct.pack(f"<{len(m['indices'])}H", *m['indices'])
    for v in m['vertices']:
        out += struct.pack('<3f4B4f3f2f', *v['position'], *v['bones'], *v['weights'], *v['normal'], *v['uv'])
        if m['vtype']:
            out += bytes(rng.randrange(256) for _ in range(4))
        if m['vtype'] == 2:
            out += struct.pack('<4f', 1, 0, 0, 1)
    if major == 4 or major == 2:
        out += bytes(12)
    return bytes(out)


def part_model(m, p):
    """(vertices, 0-based triangles) of a part"""
    vs = m['vertices'][p['start_vertex']:p['start_vertex'] + p['vertex_count']]
    ix = m['indices'][p['start_index']:p['start_index'] + p['index_count']]
    return vs, [tuple(i - p['start_vertex'] for i in ix[k:k + 3]) for k in range(0, len(ix), 3)]


def parse_obj(text):
    """Strict OBJ reader: (vertices, triangles as 0-based vertex indices) or an error string"""
    import re
    v, vt, vn, faces = [], [], [], []
    for line in text.split('\n'):
        if not line or line.startswith('#') or line.split()[0] in ('o', 'g', 's', 'usemtl', 'mtllib'):
            continue
        key, *args = line.split()
        try:
            if key == 'v' and len(args) == 3:
                v.append(tuple(float(x) for x in args))
            elif key == 'vt' and len(args) == 2:
                vt.append(tuple(float(x) for x in args))
            elif key == 'vn' and len(args) == 3:
                vn.append(tuple(float(x) for x in args))
            elif key == 'f' and len(args) == 3:
                tri = []
                for a in args:
                    mm = re.fullmatch(r'(\d+)/(\d+)/(\d+)', a)
                    if not mm:
                        return f"malformed face reference {a!r}"
                    tri.append(tuple(int(x) for x in mm.groups()))
                faces.append(tri)
            else:
                return f"malformed line {line!r}"
        except ValueError:
            return f"malformed line {line!r}"
    return v, vt, vn, faces
