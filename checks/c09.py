"""C09 Patcher language filters select exactly the right files"""
import os
from vf.core import Scenario
from vf.cdn import Cdn, gen_files, selected, BASE
from vf.mem import tree, files_only, run_cli
from cdtb.patcher import PatcherManifest, PatcherStorage
import io

PROPERTY = 'C09'
RULE = "a case is one release element with one language selection seen by all observers; distinct signature = (file names and flags, selection)"
ASSUMPTIONS = ["locale flags are the five-character ones with an underscore, as documented in the code", "link entries are not regular files: they are never listed nor extracted"]

CASES = ['en_us', 'EN_US', 'en_US', 'En_uS', 'fr_fr', 'fr_FR', 'de_DE', 'en_gb', 'ko_kr', 'zh_cn', 'de_de', 'windows', 'x_y', 'pt_br', 'ja_JP', 'macos', 'en', 'en_usx', '']


def lang_args(rng, langs):
    """All languages are the default"""
    return {} if langs is True and rng.random() < .5 else {'langs': langs}


def gen_langs(rng):
    k = rng.randrange(6)
    if k == 0: return True
    if k == 1: return False
    if k in (2, 3): return rng.choice(CASES)
    l = rng.sample(CASES, rng.randrange(0, 4))
    return tuple(l) if rng.random() < .3 else l


def filters(ctx, rng, tier):
    """Manifest level: every selection on one manifest"""
    cdn = Cdn(rng)
    files = gen_files(rng, rng.choice(['client', 'game']), '9.1', 15)
    url = cdn.add_manifest(files)
    m = PatcherManifest(io.BytesIO(cdn.manifests[cdn.mid(url)]))
    for _ in range(12):
        langs = gen_langs(rng)
        got = [f.name for f in m.filter_files(*lang_args(rng, langs).values())]
        exp = selected(files, langs)
        ctx.equal(sorted(got), sorted(exp), 'filter', f"filter_files({langs!r}) with flags {[(p, f['flags']) for p, f in files.items()]}")
        ctx.count('selections'); ctx.count('sel_list', isinstance(langs, (list, tuple))); ctx.count('sel_one', isinstance(langs, str))
        ctx.count('proper_subset', 0 < len(exp) < len(files))
        ctx.nontrivial(tuple(sorted((p, tuple(f['flags'])) for p, f in files.items())), repr(langs))


def observers(ctx, rng, tier):
    """Element level: paths, bundles and extracted files follow the selection"""
    base = ctx.dir()
    cdn = Cdn(rng)
    pl = rng.choice(['live', 'pbe'])
    sets = {'client': gen_files(rng, 'client', '9.1', 8), 'game': gen_files(rng, 'game', '9.1', 8)}
    cdn.publish(pl, *[cdn.add_manifest(sets[k]) for k in ('client', 'game')])
    st = PatcherStorage(os.path.join(base, 'st'), pl)
    st.use_extract_symlinks = rng.random() < .5
    with cdn.net.active():
        elems = {e.name: e for e in st.patch_elements()}
        for name in rng.sample(['client', 'game'], 2):
            e = elems[name]
            langs = gen_langs(rng)
            sel = {p: f for p, f in selected(sets[name], langs).items() if not f['link']}
            relbase = os.path.join(base, 'st')
            before = {k for k in files_only(tree(relbase, follow=True)) if '/files/' in k and k.startswith('cdtb/releases')}
            n = len(cdn.net.log)
            fs, rel, both = list(e.fspaths(**lang_args(rng, langs))), list(e.relpaths(**lang_args(rng, langs))), list(e.paths(**lang_args(rng, langs)))
            ctx.equal(sorted(rel), sorted(p.lower() for p in sel), 'relpaths', f"relpaths({langs!r}) of {name}")
            ctx.equal(both, list(zip(fs, rel)), 'paths', f"paths({langs!r}) is not the pairing of fspaths and relpaths")
            ctx.check(len(set(fs)) == len(fs), 'fspaths', "a location is listed twice")
            need = cdn.bundles_of(f for p, f in sel.items())
            have = set(os.listdir(os.path.join(relbase, 'channels/public/bundles'))) if os.path.isdir(os.path.join(relbase, 'channels/public/bundles')) else set()
            e.download(**lang_args(rng, langs))
            asked = [u for u in cdn.net.urls(n) if '/bundles/' in u]
            ok = {f"{BASE}channels/public/bundles/{b:016X}.bundle" for b in need}
            ctx.check(set(asked) <= ok, 'bundles', f"download({langs!r}) of {name} fetched bundles that no selected file uses: {len(set(asked) - ok)} of {len(asked)}")
            after = {k: v for k, v in files_only(tree(relbase, follow=True)).items() if '/files/' in k and k.startswith('cdtb/releases')}
            new = {k for k in after if k not in before}
            # the version file may have been extracted before, for the listing
            got = {k.split('/files/')[1] for k in new}
            pre = {k.split('/files/')[1] for k in before}
            ctx.equal(sorted(got), sorted(set(sel) - pre), 'extracted', f"files extracted by download({langs!r}) of {name}")
            locs = {os.path.realpath(os.path.dirname(p)) + '/' + os.path.basename(p): r for p, r in zip(fs, rel)}
            for p, r in zip(fs, rel):
                ctx.check(os.path.isfile(p), 'listed-missing', f"listed file {p} does not exist after download({langs!r})")
                with open(p, 'rb') as f:
                    c = f.read()
                ctx.check(any(q.lower() == r and x['content'] == c for q, x in sel.items()), 'pairing', f"{p} is paired with {r} but has other content ({len(c)} bytes, expected {[(q, len(x["content"])) for q, x in sel.items() if q.lower() == r]}, symlinks {st.use_extract_symlinks})")
            ctx.count('elements'); ctx.count('extracted_files', len(sel)); ctx.count('bundles_skipped', len(cdn.bundle_data) - len(need))
            ctx.count('sel_list', isinstance(langs, (list, tuple)))
            ctx.nontrivial(name, tuple(sorted((p, tuple(f['flags'])) for p, f in sets[name].items())), repr(langs))


def command(ctx, rng, tier):
    """The --lang and --no-lang options reach the storage"""
    base = ctx.dir()
    cdn = Cdn(rng)
    sets = {'client': gen_files(rng, 'client', '9.1', 8), 'game': gen_files(rng, 'game', '9.1', 8)}
    cdn.publish('live', *[cdn.add_manifest(sets[k]) for k in ('client', 'game')])
    name = rng.choice(['client', 'game'])
    opts, langs = rng.choice([([], True), (['--no-lang'], False), (['--lang', 'en_us'], ['en_us']), (['--lang', 'en_US', 'fr_FR'], ['en_us', 'fr_fr']), (['--lang', 'ko_kr', 'de_de'], ['ko_kr', 'de_de'])])
    loc = ['-s', os.path.join(base, 'st')]
    sel = {p: f for p, f in selected(sets[name], langs).items() if not f['link']}
    with cdn.net.active():
        run_cli(['download', *loc, f'{name}=9.1' if False else f'{name}=', *opts])
        rel = run_cli(['files', *loc, '-r', f'{name}=9.1', *opts]).split('\n')[:-1]
        fs = run_cli(['files', *loc, f'{name}=9.1', *opts]).split('\n')[:-1]
    ctx.equal(sorted(rel), sorted(p.lower() for p in sel), 'cli-files', f"files {opts} {name}")
    for p, r in zip(fs, rel):
        ctx.check(os.path.isfile(p), 'cli-missing', f"{p} missing after download {opts}")
    got = {k.split(f'/files/')[1] for k in files_only(tree(os.path.join(base, 'st'), follow=True)) if k.startswith('cdtb/releases') and '/files/' in k}
    # the files holding the versions are always there
    ctx.equal(sorted(got - {'system.yaml', 'content-metadata.json'}), sorted(set(sel) - {'system.yaml', 'content-metadata.json'}), 'cli-extracted', f"download {opts} {name}")
    ctx.count('commands'); ctx.nontrivial(name, tuple(opts), tuple(sorted(sel)))


SCENARIOS = [Scenario(filters, 300, 8000), Scenario(observers, 250, 4000), Scenario(command, 100, 1500)]
REQUIRED = {'selections': 3000, 'sel_list': 800, 'sel_one': 800, 'proper_subset': 800, 'elements': 400, 'extracted_files': 500, 'bundles_skipped': 200, 'commands': 80}
