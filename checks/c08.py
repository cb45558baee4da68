"""C08 Release manifests are decoded completely and exactly"""
import io
import os
import struct
from vf.core import Scenario
from vf.rman import write_manifest
from cdtb.patcher import PatcherManifest

PROPERTY = 'C08'
RULE = "a case is one generated manifest with a random table layout; non-trivial when it has files; distinct signature = shape of the manifest and its bytes"
ASSUMPTIONS = ["full paths are unique in a manifest", "flag ids are 1 to 64, as the flag mask allows"]

LANGS = ['en_US', 'fr_FR', 'ko_KR', 'zh_CN', 'en_GB']
FLAGS = LANGS + ['windows', 'macos', 'a_b', 'x']


def gen(rng, big=False):
    name = lambda: rng.choice(['a', 'B', 'Data', 'été', '日本', 'x y', 'f.wad.client', 'n%d', "it's"]) + str(rng.randrange(1000))
    ids = set()
    def uid(bits=64):
        while True:
            i = rng.choice([rng.getrandbits(bits), rng.randrange(1, 300), (1 << 63) | rng.getrandbits(20)])
            if i and i not in ids:
                ids.add(i); return i
    bundles = []
    for _ in range(rng.choice([0, 1, 1, 2, 5, 9]) + (20 if big else 0)):
        bundles.append((uid(), [(uid(), rng.choice([rng.randrange(1, 2**20), rng.randrange(1, 50), 2**32 - 1 if rng.random() < .02 else 7, 0 if rng.random() < .1 else 9]), rng.choice([rng.randrange(1, 2**22), rng.randrange(1, 2**22), 0 if rng.random() < .1 else 1, rng.randrange(2**31, 2**32) if rng.random() < .1 else 3])) for _ in range(rng.choice([0, 1, 2, 6, 12]))]))
    allchunks = [c[0] for _, cs in bundles for c in cs]
    flags = []
    for fid in sorted(rng.sample(range(1, 65), rng.choice([0, 1, 3, 6, 9]))):
        flags.append((fid, rng.choice(FLAGS)))
    rng.shuffle(flags)
    dirs = []
    for _ in range(rng.choice([0, 1, 2, 5, 10])):
        i = 0 if rng.random() < .05 and 0 not in ids else uid()
        ids.add(i)
        dirs.append((i, rng.choice([None] + [d[0] for d in dirs]), name()))
    rng.shuffle(dirs)
    paths, files = set(), []
    dmap = {d[0]: d for d in dirs}
    for _ in range(rng.choice([0, 1, 2, 5, 20]) + (60 if big else 0)):
        d = rng.choice([None] + list(dmap))
        n = name()
        parts, k = [n], d
        while k is not None:
            parts.insert(0, dmap[k][2]); k = dmap[k][1]
        p = '/'.join(parts)
        if p in paths:
            continue
        paths.add(p)
        link = name() if rng.random() < .15 else ''
        chunks = [] if link or not allchunks else [rng.choice(allchunks) for _ in range(rng.choice([0, 1, 2, 3, 8]))]
        fl = rng.sample([f[0] for f in flags], min(len(flags), rng.choice([0, 0, 1, 2, 3])))
        files.append({'id': uid(), 'dir': d, 'size': rng.randrange(2**32) if chunks else 0, 'name': n, 'flag_ids': fl, 'chunks': chunks, 'link': link, 'path': p})
    return bundles, flags, files, dirs


def expected(bundles, flags, files):
    where = {}
    for bid, cs in bundles:
        off = 0
        for c, cs_, us in cs:
            where[c] = (c, bid, off, cs_, us)
            off += cs_
    fl = dict(flags)
    return {f['path']: (f['path'], f['size'], f['link'], sorted(fl[i] for i in f['flag_ids']), [where[c] for c in f['chunks']]) for f in files}


def observed(m):
    out = {}
    for k, f in m.files.items():
        out[k] = (f.name, f.size, f.link or '', sorted(f.flags or []), [(c.chunk_id, c.bundle.bundle_id, c.offset, c.size, c.target_size) for c in f.chunks])
    return out


def manifests(ctx, rng, tier):
    g = gen(rng, big=rng.random() < .1)
    bundles, flags, files, dirs = g
    data = write_manifest(rng, *g)
    path = os.path.join(ctx.dir(), rng.choice(['m.manifest', 'x', 'é.manifest']))
    with open(path, 'wb') as f:
        f.write(data)
    exp = expected(bundles, flags, files)
    m = PatcherManifest(path)
    got = observed(m)
    ctx.equal(sorted(got), sorted(exp), 'file-set', "files of the manifest")
    for p in exp:
        ctx.equal(got[p], exp[p], 'file-entry', f"entry of {p}")
        ctx.count('entries'); ctx.count('dir_zero', any(d[0] == 0 for d in g[3])); ctx.count('chunk_refs', len(exp[p][4]))
        ctx.count('flagged', bool(exp[p][3])); ctx.count('links', bool(exp[p][2])); ctx.count('nested', '/' in p)
        ctx.count('unflagged_none', got[p][3] == [] )
    gotb = [(b.bundle_id, [(c.chunk_id, c.offset, c.size, c.target_size) for c in b.chunks]) for b in m.bundles]
    expb = []
    for bid, cs in bundles:
        off, l = 0, []
        for c, s, u in cs:
            l.append((c, off, s, u)); off += s
        expb.append((bid, l))
    ctx.equal(gotb, expb, 'bundles', "bundles of the manifest")
    with open(path, 'rb') as f:
        ctx.equal(observed(PatcherManifest(f)), got, 'file-object', "manifest read from an open file")
    ctx.equal(observed(PatcherManifest(io.BytesIO(data))), got, 'file-object', "manifest read from memory")
    if files:
        ctx.nontrivial(len(files), len(dirs), len(flags), data[:200])
    ctx.count('manifests')


def large(ctx, rng, tier):
    """More chunks, references, files and flags than usual, as game manifests have"""
    n = rng.choice([256, 300, 32768, 40000, 65536, 66000])
    ids = rng.sample(range(1, 2**62), n)
    cuts = sorted(rng.sample(range(n), rng.choice([0, 1, 300 if n > 1000 else 3])))
    parts = [ids[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    bundles = [(i + 1, [(c, rng.randrange(2**20), rng.randrange(2**20)) for c in p]) for i, p in enumerate(parts)]
    nf = rng.choice([1, 3, 300, 33000 if n < 1000 else 2, 66000 if n < 1000 else 2])
    flags = [(i, 'f%d' % i) for i in range(1, 65)]
    chunks = [rng.choice([0, 1, 255, 300])] + [rng.choice([0, 1, 2]) for _ in range(nf)]
    chunks[rng.randrange(nf)] = rng.choice([300, 32768, 65535, 65536, 70000])
    files = [{'id': i + 1, 'dir': 4, 'size': 5, 'name': 'n%d' % i, 'flag_ids': rng.choice([[], [64], list(range(1, 65)), [32, 33]]), 'chunks': [rng.choice(ids) for _ in range(chunks[i])], 'link': '', 'path': 'd/n%d' % i} for i in range(nf)]
    dirs = [(4, None, 'd')] + [(i, 4, 'e%d' % i) for i in range(5, rng.choice([6, 300, 70000 if n < 1000 else 6]))]
    m = PatcherManifest(io.BytesIO(write_manifest(rng, bundles, flags, files, dirs)))
    got, exp = observed(m), expected(bundles, flags, files)
    ctx.check(len(got) == len(exp) and set(got) == set(exp), 'file-set', f"{len(got)} files of {nf}, or other ones")
    for p in exp:
        if got[p] != exp[p]:
            ctx.violation('file-entry', f"entry of {p} of {nf}: {len(got[p][4])} chunks of {len(exp[p][4])}, or other values")
    ctx.equal([len(b.chunks) for b in m.bundles], [len(p) for p in parts], 'bundles', "sizes of the bundles")
    ctx.count('large')
    ctx.nontrivial(n, nf, len(bundles), len(dirs))


def refused(ctx, rng, tier):
    """Not a manifest, or not a supported one"""
    g = gen(rng)
    good = write_manifest(rng, *g)
    bad = [write_manifest(rng, *g, magic=rng.choice([b'RMAX', b'rman', b'\0\0\0\0', b'RST\x05'])),
           write_manifest(rng, *g, major=rng.choice([0, 1, 3, 255])), write_manifest(rng, *g, minor=rng.choice([2, 3, 200])),
           b'', good[:rng.randrange(0, 28)], b'\0' + good, good[1:], b'<html>' + good, rng.randbytes(rng.randrange(1, 300)),
           good[:28 + max(0, struct.unpack_from('<L', good, 12)[0] - rng.randrange(1, 20))]]
    for i, data in enumerate(bad):
        path = os.path.join(ctx.dir(), 'm')
        with open(path, 'wb') as f:
            f.write(data)
        for arg in (path, io.BytesIO(data)):
            try:
                m = PatcherManifest(arg)
            except Exception as e:
                ctx.count('refused')
            else:
                ctx.violation('accepted', f"damaged manifest ({i}) accepted with {len(m.files)} files")
    ctx.nontrivial(good[:100])


SCENARIOS = [Scenario(manifests, 600, 12000), Scenario(refused, 150, 3000), Scenario(large, 3, 40)]
REQUIRED = {'entries': 2500, 'chunk_refs': 2000, 'flagged': 500, 'links': 200, 'nested': 800, 'refused': 2000, 'manifests': 500}
