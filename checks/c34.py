"""C34 TFT data is exported complete and cross-referenced"""
import json
import os
import sys
from vf.core import Scenario
from vf import patchgen, tftw, env
from vf.mem import tree, files_only
from cdtb.tftdata import TftTransformer
import cdtb.tftdata

PROPERTY = 'C34'
RULE = "a case builds the TFT files of a patch age and compares the exported data of every language with an independent model; distinct signature = (age, layout, kind of string tables, objects)"
ASSUMPTIONS = ["items are made of items, and refer to traits, that exist", "every object has the names and icons its export needs", "exports hold all files of the patch"]

AGES = [914, 915, 921, 922, 923, 1001, 1007, 1008, 1022, 1023, 1101, 1209, 1305, 1314, 1403, 1404, 1414, 1415, 1423, 1501, 1502, 1510, 1601, 9999]


def write(base, files):
    for p, b in files.items():
        p = os.path.join(base, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(b)


def style_of(rng, age):
    if age < 1009:
        return rng.choice(['text', 'text', 'fontconfig'])
    if age < 1404:
        return rng.choice(['fontconfig', 'main'])
    return rng.choice(['lang_main', 'lang_game'])


def disk(files):
    """Extension-less files are exported with a suffix"""
    return {p + ('' if '.' in os.path.basename(p) else '.cdtb.bin'): b for p, b in files.items()}


def run(ctx, rng, tier):
    age = rng.choice(AGES)
    t = tftw.Tft(rng, age)
    env.set_hashes('game', t.game_names)
    env.set_hashes('binhashes', t.binhash_names)
    style = style_of(rng, age)
    langs = rng.sample(tftw.LANGS, rng.choice([1, 2, 4]))
    files, trs = tftw.tables(rng, age, style, 'tft', t.table_keys(), langs)
    base = os.path.join(ctx.dir('in'), rng.choice(['game', 'game', 'ga[m]e', 'g*', 'out?']))
    write(base, disk(t.files))
    write(base, files)
    if rng.random() < .2 and style in ('lang_game', 'lang_main', 'main'):
        # older ones next to the current ones
        older = {'lang_game': 'lang_main', 'lang_main': 'main', 'main': 'fontconfig'}[style]
        write(base, tftw.tables(rng, age, older, 'tft', t.table_keys(), rng.sample(tftw.LANGS, 2))[0])
    if style == 'lang_game':
        write(base, tftw.tables(rng, age, style, 'lol', t.table_keys(), rng.sample(tftw.LANGS, 2))[0])
    out = os.path.join(ctx.dir('out'), 'cdragon/tft')
    how = rng.choice(['lib', 'lib', 'langs', 'main'])
    want = list(langs)
    if how == 'langs':
        want = rng.sample(langs, rng.randrange(1, len(langs) + 1))
        TftTransformer(base, age).export(out, want)
    elif how == 'main':
        argv = sys.argv
        sys.argv = ['tftdata', base, '-o', out, '-V', 'main' if age == 9999 else f"{age // 100}.{age % 100}"]
        try:
            cdtb.tftdata.main()
        finally:
            sys.argv = argv
    else:
        TftTransformer(base, age).export(out)
    got = files_only(tree(out))
    what = f"patch {age} with {style} tables"
    ctx.equal(sorted(got), sorted(f"{l}.json" for l in want), 'languages', f"{what}: files")
    for l in want:
        d = tftw.same_tft(json.loads(got[f"{l}.json"].decode('utf-8')), t.expected(trs[l]))
        ctx.check(d is None, 'data', f"{what}: {l}: {d}")
    ctx.count(style); ctx.count('languages', len(want)); ctx.count(how)
    ctx.count('items', len(t.items)); ctx.count('champions', sum(len(s['champions']) for s in t.sets)); ctx.count('traits', sum(len(s['traits']) for s in t.sets)); ctx.count('sets', len(t.sets))
    for k, n in t.stats.items():
        ctx.count(k, n)
    ctx.count('age_old_types' if age < 923 else 'age_923' if age < 1008 else 'age_new')
    ctx.nontrivial(age, style, how, len(t.items), sorted(t.champs), [(s['number'], len(s['traits'])) for s in t.sets])


VERSIONS = [['9.14'], ['9.15', '9.14'], ['9.23'], ['10.1', '9.24'], ['10.9', '10.8'], ['13.14', '13.13'], ['14.4', '14.3'], ['14.14'], ['14.16', '14.15'], ['15.1', '14.24'], ['15.2'], ['16.1', '15.24'], ['main', '16.2']]


def exported(ctx, rng, tier):
    """The data in exports of whole patches, in full or with links"""
    patchgen.exports_data(ctx, rng, 'tft', VERSIONS)


SCENARIOS = [Scenario(run, 500, 12000), Scenario(exported, 60, 1500)]
REQUIRED = {'items': 2000, 'champions': 800, 'traits': 600, 'sets': 300, 'old': 15, 'languages': 700, 'exported languages': 80, 'exports with links': 12, 'exports in full': 30, 'innate': 300, 'overridden': 40, 'template_item': 200, 'template_trait': 150, 'template_champ': 50, 'lack_script': 25, 'lack_name': 25, 'lack_traits': 25, 'lack_chars': 25, 'lack_number': 20, 'lack_value': 20, 'no_file': 80, 'no_record': 50, 'age_old_types': 30, 'age_923': 25, 'age_new': 150, 'main': 60, 'langs': 60, **{k: 25 for k in tftw.STYLES}}
