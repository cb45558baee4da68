"""C35 Arena data is exported complete, in every language"""
import json
import os
import sys
from vf.core import Scenario
from vf import patchgen, tftw, env
from vf.mem import tree, files_only
from checks.c34 import write, style_of, disk
from cdtb.arenadata import ArenaTransformer
import cdtb.arenadata

PROPERTY = 'C35'
RULE = "a case builds the Arena files of a patch age and compares the exported data of every language with an independent model; distinct signature = (age, kind of string tables, augments)"
ASSUMPTIONS = ["augments have icons", "data values are exported as their list, or as the first of it"]

AGES = [1314, 1315, 1324, 1403, 1404, 1414, 1415, 1424, 1501, 1502, 1510, 1601, 9999]


def run(ctx, rng, tier):
    age = rng.choice(AGES)
    t = tftw.Arena(rng, age)
    env.set_hashes('game', t.game_names)
    env.set_hashes('binhashes', t.binhash_names)
    style = style_of(rng, age)
    langs = rng.sample(tftw.LANGS, rng.choice([1, 2, 4]))
    files, trs = tftw.tables(rng, age, style, 'lol', t.table_keys(), langs)
    base = os.path.join(ctx.dir('in'), rng.choice(['game', 'game', 'ga[m]e', 'g*', 'out?']))
    write(base, disk(t.files))
    write(base, files)
    if rng.random() < .2 and style in ('lang_game', 'lang_main', 'main'):
        older = {'lang_game': 'lang_main', 'lang_main': 'main', 'main': 'fontconfig'}[style]
        write(base, tftw.tables(rng, age, older, 'lol', t.table_keys(), rng.sample(tftw.LANGS, 2))[0])
    if style == 'lang_game':
        write(base, tftw.tables(rng, age, style, 'tft', t.table_keys(), rng.sample(tftw.LANGS, 2))[0])
    out = os.path.join(ctx.dir('out'), 'cdragon/arena')
    how = rng.choice(['lib', 'lib', 'langs', 'main'])
    want = list(langs)
    if how == 'langs':
        want = rng.sample(langs, rng.randrange(1, len(langs) + 1))
        ArenaTransformer(base, age).export(out, want)
    elif how == 'main':
        argv = sys.argv
        sys.argv = ['arenadata', base, '-o', out, '-V', 'main' if age == 9999 else f"{age // 100}.{age % 100}"]
        try:
            cdtb.arenadata.main()
        finally:
            sys.argv = argv
    else:
        ArenaTransformer(base, age).export(out)
    got = files_only(tree(out))
    what = f"patch {age} with {style} tables"
    ctx.equal(sorted(got), sorted(f"{l}.json" for l in want), 'languages', f"{what}: files")
    for l in want:
        d = tftw.same_arena(json.loads(got[f"{l}.json"].decode('utf-8')), t.expected(trs[l]))
        ctx.check(d is None, 'data', f"{what}: {l}: {d}")
    ctx.count(style); ctx.count('languages', len(want)); ctx.count(how)
    ctx.count('augments', len(t.augments)); ctx.count('values', sum(len(a['dataValues']) for a in t.augments))
    for k, n in t.stats.items():
        ctx.count(k, n)
    if t.augments:
        ctx.nontrivial(age, style, how, [(a['apiName'], len(a['dataValues'])) for a in t.augments])


VERSIONS = [['13.13'], ['13.14', '13.13'], ['13.20'], ['14.4', '14.3'], ['14.14'], ['14.16', '14.15'], ['15.1', '14.24'], ['15.2'], ['16.1', '15.24'], ['main', '16.2']]


def exported(ctx, rng, tier):
    """The data in exports of whole patches, in full or with links"""
    patchgen.exports_data(ctx, rng, 'arena', VERSIONS)


SCENARIOS = [Scenario(run, 500, 12000), Scenario(exported, 60, 1500)]
REQUIRED = {'augments': 700, 'values': 300, 'calculations': 150, 'disabled': 150, 'root_none': 60, 'root_null': 60, 'root_dangling': 60, 'root_spell': 300, 'languages': 700, 'exported languages': 80, 'exports with links': 12, 'exports in full': 30, 'main': 60, 'langs': 60, 'fontconfig': 20, 'lang_main': 60, 'lang_game': 60}
