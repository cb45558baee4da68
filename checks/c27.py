"""C27 Meshes are converted with their geometry intact"""
import io
import os
from vf.core import Scenario
from vf import sknw
from vf.mem import run_cli, tree, files_only
from cdtb.sknfile import SknFile
from cdtb.export import SknConverter

PROPERTY = 'C27'
RULE = "a case is a generated mesh decoded or written as OBJ files by skn-extract or the exporter; distinct signature = (version, vertex type, sizes of the parts)"
ASSUMPTIONS = ["indices refer to the vertices of their own part, counted from the first vertex of the mesh", "part names of one mesh are distinct"]


def check_obj(ctx, text, m, p, what):
    r = sknw.parse_obj(text)
    ctx.check(not isinstance(r, str), 'obj', f"{what}: {r}")
    v, vt, vn, faces = r
    vs, tris = sknw.part_model(m, p)
    ctx.equal(len(v), len(vs), 'obj-vertices', f"{what}: vertices")
    ctx.check(v == [x['position'] for x in vs], 'obj-vertices', f"{what}: positions differ")
    ctx.check(vt == [x['uv'] for x in vs], 'obj-vertices', f"{what}: texture coordinates differ")
    ctx.check(vn == [x['normal'] for x in vs], 'obj-vertices', f"{what}: normals differ")
    ctx.equal(len(faces), len(tris), 'obj-faces', f"{what}: triangles")
    for f, t in zip(faces, tris):
        for (a, b, c), i in zip(f, t):
            if not a == b == c == i + 1:
                ctx.violation('obj-faces', f"{what}: face refers to {a}/{b}/{c} instead of vertex {i + 1} of {len(vs)}")
    ctx.count('triangles', len(tris)); ctx.count('vertices', len(vs)); ctx.count('parts')
    if p['start_vertex']:
        ctx.count('later_parts')


def observe(ctx, m):
    ctx.count('version%d' % m['version'][0])
    if m['vtype'] is not None:
        ctx.count('vtype%d' % m['vtype'])
    if m['parts']:
        ctx.nontrivial(m['version'], m['vtype'], tuple((p['vertex_count'], p['index_count'], p['start_vertex']) for p in m['parts']))


def library(ctx, rng, tier, huge=False):
    m = sknw.gen(rng, big=not huge and rng.random() < .03, huge=huge)
    if rng.random() < .5:
        path = os.path.join(ctx.dir(), 'x.skn')
        with open(path, 'wb') as f:
            f.write(m['data'])
        skn = SknFile(path)
    else:
        skn = SknFile(io.BytesIO(m['data']))
    what = f"version {m['version']} vertex type {m['vtype']}"
    ctx.equal(len(skn.entries), len(m['parts']), 'parts', f"{what}: parts")
    for e, p in zip(skn.entries, m['parts']):
        if m['version'][0]:
            ctx.equal(e['name'], p['name'], 'name', f"{what}: part name")
        vs, tris = sknw.part_model(m, p)
        ctx.count('far_indices', sum(i + p['start_vertex'] > 32767 for t in tris for i in t))
        ctx.equal(len(e['vertices']), len(vs), 'vertices', f"{what}: vertices of {p['name']}")
        for a, b in zip(e['vertices'], vs):
            if tuple(a['position']) != b['position'] or tuple(a['normal']) != b['normal'] or tuple(a['uv']) != b['uv']:
                ctx.violation('vertices', f"{what}: vertex of {p['name']} differs: {a}")
        check_obj(ctx, skn.to_obj(e), m, p, f"{what}: part {p['name']}")
    observe(ctx, m)


def many(ctx, rng, tier):
    library(ctx, rng, tier, huge=True)


def files(ctx, rng, tier):
    odd = rng.random() < .25
    names = ['a/b', '../up', '/abs', 'x\\y', '..', '.', 'sub/dir/z', 'plain', '~', 'C:evil'] if odd else None
    m = sknw.gen(rng, version=rng.choice(sknw.VERSIONS[1:]) if odd else None, names=names)
    d = ctx.dir()
    how = rng.choice(['cli', 'cli-default', 'converter'])
    if how == 'converter':
        out = os.path.join(d, 'exp/chars/ann.ie/mesh')
        if rng.random() < .4:
            # an earlier conversion of another mesh
            os.makedirs(out)
            with open(os.path.join(out, 'Old.obj'), 'w') as f:
                f.write('old')
        SknConverter().convert(io.BytesIO(m['data']), os.path.join(d, 'exp'), 'chars/ann.ie/mesh.skn')
        with open(out + '.skn', 'rb') as f:
            ctx.check(f.read() == m['data'], 'copy', "the mesh is not exported unchanged")
    else:
        p = os.path.join(d, 'in.put/mesh.skn')
        os.makedirs(os.path.dirname(p))
        with open(p, 'wb') as f:
            f.write(m['data'])
        if how == 'cli':
            out = os.path.join(d, 'exp/out')
            run_cli(['skn-extract', '-o', out, p])
        else:
            out = p[:-4]
            run_cli(['skn-extract', p])
    got = files_only(tree(out))
    what = f"{how}: version {m['version']}"
    if not odd:
        want = {'Unknown.obj'} if m['version'][0] == 0 else {p['name'] + '.obj' for p in m['parts']}
        ctx.equal(sorted(got), sorted(want), 'files', f"{what}: files")
        for p in m['parts']:
            check_obj(ctx, got[p['name'] + '.obj'].decode(), m, p, f"{what}: {p['name']}")
    else:
        ctx.equal(len(got), len(m['parts']), 'files', f"{what}: number of files for parts {[p['name'] for p in m['parts']]}: {sorted(got)}")
        for p in m['parts']:
            if p['name'] == 'plain':
                check_obj(ctx, got['plain.obj'].decode(), m, p, what)
        ctx.count('odd_names', len(m['parts']))
    ctx.count('files', len(got)); ctx.count(how)
    observe(ctx, m)


def refused(ctx, rng, tier):
    m = sknw.gen(rng)
    b = bytearray(m['data'])
    b[:4] = rng.choice([b'\x22\x33\x11\0', b'PROP', b'\0\0\0\0', b'\x33\x22\x11\1', b'r3d2', bytes(reversed(b[:4]))])
    if rng.random() < .1:
        b = b[:rng.randrange(4)]
    try:
        SknFile(io.BytesIO(bytes(b)))
    except Exception:
        ctx.count('refused')
        ctx.nontrivial(bytes(b[:4]), len(b))
        return
    ctx.violation('accepted', f"file starting with {bytes(b[:4])!r} accepted as a mesh")


SCENARIOS = [Scenario(library, 500, 12000), Scenario(files, 300, 6000), Scenario(refused, 80, 1000), Scenario(many, 4, 60)]
REQUIRED = {'parts': 600, 'triangles': 4000, 'later_parts': 200, 'version0': 60, 'version1': 60, 'version2': 60, 'version4': 60, 'vtype0': 20, 'vtype1': 20, 'vtype2': 20,
            'cli': 40, 'cli-default': 40, 'converter': 40, 'odd_names': 60, 'refused': 60, 'far_indices': 1}
