"""C29 Atlas and skin tables are converted entry by entry"""
import io
import json
import os
import re
import struct
from vf.core import Scenario
from vf import env, tabw
from vf.mem import tree, files_only
from vf.wadw import path_hash
from cdtb.export import AtlasInfoConverter, ChampionSkinInfoConverter, FileConversionError

PROPERTY = 'C29'
RULE = "a case converts one generated table and reads the JSON file back; distinct signature = (layout, atlases, textures, names known / champions, skins / damage)"
ASSUMPTIONS = ["no two textures of a table have the same name; coordinates are finite"]
SKINS = 'game/global/champions/championskins.info'


def convert(ctx, conv, data, path, before=None):
    d = ctx.dir()
    if before is not None:
        p = os.path.join(d, path + '.json')
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(before)
    try:
        conv.convert(io.BytesIO(data), d, path)
    except FileConversionError as e:
        return files_only(tree(d)), e
    return files_only(tree(d)), None


def same(ctx, got, want, what):
    """Exact comparison, floats as values"""
    ctx.equal(sorted(got), sorted(want), 'keys', f"{what}: entries")
    for k in want:
        ctx.equal(got[k], want[k], 'entry', f"{what}: {k!r}")


def atlas(ctx, rng, tier):
    hashed = rng.random() < .5
    t = tabw.atlas(rng, hashed)
    known = {}
    if hashed:
        p = rng.choice([0, .5, 1])
        for n in t['atlases'] + [x[0] for x in t['textures']]:
            if rng.random() < p:
                # the list may spell the path in another way than the table's author
                known[path_hash(n)] = n.lower() if rng.random() < .5 else n
        known.setdefault(path_hash('other/path.dds'), 'other/path.dds')
    env.set_hashes('game', known)
    path = rng.choice(['game/x/atlas.cdtb', 'game/assets/items/icons2d/autoatlas/largeicons/atlas_info.bin'])
    conv = AtlasInfoConverter(re.compile('.*'))
    files, err = convert(ctx, conv, t['data'], path, b'old' if rng.random() < .3 else None)
    what = f"{'hash' if hashed else 'text'} layout, {len(t['atlases'])} atlases, {len(t['textures'])} textures"
    ctx.check(err is None, 'refused', f"{what}: {err}")
    ctx.equal(sorted(files), [path + '.json'], 'files', f"{what}: files")
    same(ctx, json.loads(files[path + '.json'].decode('utf-8')), tabw.atlas_json(t, known), what)
    ctx.count('hashed' if hashed else 'text'); ctx.count('textures', len(t['textures']))
    for n in t['atlases']:
        if hashed:
            ctx.count('known_atlas' if path_hash(n) in known else 'unknown_atlas')
        if tabw.exported(n) != n.lower():
            ctx.count('image_ext')
    for n, _, _ in t['textures'] if hashed else ():
        ctx.count('known_texture' if path_hash(n) in known else 'unknown_texture')
    if t['textures']:
        ctx.nontrivial(hashed, tuple(t['atlases']), len(t['textures']), len(known))


def skins(ctx, rng, tier):
    t = tabw.skins(rng)
    files, err = convert(ctx, ChampionSkinInfoConverter(), t['data'], SKINS, b'old' if rng.random() < .3 else None)
    what = f"{len(t['champions'])} champions"
    ctx.check(err is None, 'refused', f"{what}: {err}")
    ctx.equal(sorted(files), [SKINS + '.json'], 'files', f"{what}: files")
    same(ctx, json.loads(files[SKINS + '.json'].decode('utf-8')), tabw.skins_json(t), what)
    ctx.count('champions', len(t['champions'])); ctx.count('skins', sum(len(s) for _, s in t['champions']))
    ctx.count('prestige', sum(f == 4 for _, s in t['champions'] for _, f, _ in s))
    if t['champions']:
        ctx.nontrivial(tuple((n, len(s)) for n, s in t['champions']))


def refused(ctx, rng, tier):
    k = rng.choice(['atlas_cut', 'atlas_index', 'atlas_text', 'skins_magic', 'skins_version', 'skins_cut', 'skins_text'])
    before = rng.choice([None, b'old'])
    if k.startswith('atlas'):
        conv, path = AtlasInfoConverter(re.compile('.*')), 'game/x/atlas.cdtb'
        t = tabw.atlas(rng, rng.random() < .5, textures=rng.choice([1, 3, 10]))
        data = t['data']
        if k == 'atlas_cut':
            data = data[:rng.randrange(len(data))]
        elif k == 'atlas_index':
            data = data[:-4] + struct.pack('<L', rng.choice([len(t['atlases']), 1000, 2**32 - 1]))
        else:
            data = rng.choice([b'', b'abc', b'some text that is not a table', b'\x89PNG\r\n\x1a\n' + bytes(50), b'PROP\3\0\0\0' + rng.randbytes(40)])
    else:
        conv, path = ChampionSkinInfoConverter(), SKINS
        t = tabw.skins(rng)
        data = t['data']
        if k == 'skins_magic':
            data = rng.choice([b'Cham', b'mahc', b'\0\0\0\0', b'PROP']) + data[4:]
        elif k == 'skins_version':
            data = data[:4] + struct.pack('<L', rng.choice([0, 1, 3, 4, 2**32 - 1, 2 << 8])) + data[8:]
        elif k == 'skins_cut':
            data = data[:rng.choice([rng.randrange(len(data)), len(data) - 1])] if t['champions'] else data[:rng.randrange(len(data))]
        else:
            data = rng.choice([b'', b'mah', b'{"champions": []}', rng.randbytes(60)])
    files, err = convert(ctx, conv, data, path, before)
    what = f"{k}: {len(data)} of {len(t['data'])} bytes"
    ctx.check(err is not None, 'accepted', f"{what}: accepted as {str(files.get(path + '.json'))[:200]}")
    ctx.check(not files, 'left', f"{what}: {sorted(files)} left after the failure")
    ctx.count('refused'); ctx.count(k)
    ctx.nontrivial(k, len(data), data[:12])


SCENARIOS = [Scenario(atlas, 600, 12000), Scenario(skins, 300, 6000), Scenario(refused, 500, 10000)]
REQUIRED = {'hashed': 200, 'text': 200, 'textures': 5000, 'known_atlas': 100, 'unknown_atlas': 100, 'image_ext': 300, 'known_texture': 1000, 'unknown_texture': 1000,
            'champions': 800, 'skins': 3000, 'prestige': 500, 'refused': 450, 'atlas_cut': 40, 'skins_cut': 40, 'skins_version': 40, 'skins_magic': 40}
