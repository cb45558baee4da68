"""C21 Each guessing method finds all variants in its domain"""
import contextlib
import io
import itertools
import json
import os
import re
import subprocess
import sys
from vf.core import Scenario, REPO, VERIF
from vf import env, fsguard, hashw, mem, net
from checks import c22
from vf.hashw import hash_of, split_dir, join
import cdtb.hashes
from cdtb import wad
from cdtb.hashes import LcuHashGuesser, GameHashGuesser

PROPERTY = 'C21'
RULE = "a case is one method run on one hash list, with variants of known paths among the wanted hashes; distinct signature = (method and parameters, wanted variants, paths found)"
ASSUMPTIONS = ["the words of a list are the pieces of its paths between / _ - and dots, extensions and numbers of three or more digits excluded, as documented for the word list",
               "skin groups are made from the skins of a character by choosing some of them, in lexicographic order"]
LANGS, REGIONS = hashw.ALL_LANGS, hashw.ALL_REGIONS


class Run:
    """kind, known paths, and how to run the method"""

    def __init__(self, kind, known, name, call):
        self.kind, self.known, self.name, self.call = kind, known, name, call
        self.wanted = []


def known_paths(rng, kind, n=None):
    return hashw.known_list(rng, kind, n if n is not None else rng.choice([1, 3, 10, 40]))


def pick(rng, n, make):
    """Several variants, those that exist"""
    out = []
    for _ in range(n):
        v = make()
        if v is not None:
            out.append(v)
    return out


def m_numbers(rng):
    kind = rng.choice(['lcu', 'game'])
    k = known_paths(rng, kind)
    args = rng.choice([{}, {}, {'nmax': rng.choice([1, 10, 100, 1000])}, {'nmax': rng.choice([10, 100, 1000]), 'digits': True}, {'nmax': rng.choice([10, 100]), 'digits': rng.choice([1, 2, 3, 4])}])
    nmax = args.get('nmax', 10000 if kind == 'lcu' else 100)
    src = [p for p in k.values() if kind == 'game' or not hashw.LCU_NUMBERS_SKIP.search(p)]
    r = Run(kind, k, f"numbers {args}", lambda g: g.substitute_numbers(**args))
    if src:
        r.wanted = pick(rng, 6, lambda: hashw.v_numbers(rng, rng.choice(src), nmax, args.get('digits')))
    return r


def m_basenames(rng):
    kind = rng.choice(['lcu', 'game'])
    k = known_paths(rng, kind)
    dirs, names = sorted(hashw.directories(k.values())), sorted({split_dir(p)[1] for p in k.values()})
    if rng.random() < .5:
        r = Run(kind, k, 'basenames', lambda g: g.substitute_basenames())
    else:
        names = [hashw.basename(rng, hashw.LCU_EXTS) for _ in range(rng.choice([1, 5]))]
        if rng.random() < .3:
            names.append('sub/' + names[0])
        r = Run(kind, k, 'given basenames', lambda g: g.check_basenames(names))
    r.wanted = pick(rng, 6, lambda: join(rng.choice(dirs), rng.choice(names)))
    return r


def m_later_basenames(rng):
    """Directories that other methods found count as known ones"""
    kind = rng.choice(['lcu', 'game'])
    k = known_paths(rng, kind)
    dirs = sorted(hashw.directories(k.values()))
    found = [f"{rng.choice(dirs) or 'x'}/new{rng.randrange(10**6)}/{rng.choice(['', 'deep/'])}" + hashw.basename(rng, hashw.GAME_EXTS) for _ in range(rng.choice([1, 3]))]
    names = [hashw.basename(rng, hashw.LCU_EXTS) for _ in range(3)]

    def call(g):
        g.check_basenames(names)
        g.check_iter(found)
        g.check_basenames(names)
        g.substitute_basenames()
    r = Run(kind, k, 'basenames after others', call)
    dirs = sorted(hashw.directories(found))
    names = names[:1] + [split_dir(p)[1] for p in k.values()]
    r.wanted = found + pick(rng, 6, lambda: join(rng.choice(dirs), rng.choice(names)))
    return r


def word_args(rng, kind, k):
    """(arguments, sources, words)"""
    if kind == 'game':
        return {}, list(k.values()), hashw.wordlist(k.values())
    args, src = {}, list(k.values())
    words = hashw.wordlist(p for p in k.values() if hashw.lcu_word_source(p))
    if rng.random() < .3:
        args['words'] = words = ['alpha', 'beta', 'é', '7', 'x1'][:rng.choice([1, 3, 5])]
        if rng.random() < .3:
            args['words'] = iter(list(words)) if rng.random() < .5 else set(words)
    if rng.random() < .25:
        pl = rng.choice(hashw.PLUGINS)
        args['plugin'] = pl
        src = [p for p in src if p.startswith(f"plugins/{pl}/")]
    if rng.random() < .25:
        ext = rng.choice(['.png', '.jpg', '.json', 'g'])
        args['fileext'] = ext
        src = [p for p in src if p.endswith(ext)]
    if rng.random() < .4:
        args['nold'] = rng.choice([1, 2, 2, 3])
    if len(words) <= 12 and rng.random() < .5:
        args['nnew'] = rng.choice([1, 2, 2, 3] if len(words) <= 5 else [2])
    return args, src, words


def m_words(rng):
    kind = rng.choice(['lcu', 'lcu', 'game'])
    k = known_paths(rng, kind, rng.choice([1, 2, 3, 10, 25]))
    args, src, words = word_args(rng, kind, k)
    shown = {a: v for a, v in args.items() if a != 'words'}
    r = Run(kind, k, f"words {shown} {'given' if 'words' in args else 'own'}", lambda g: g.substitute_basename_words(**{**args, **({'words': list(words)} if 'words' in args and not isinstance(args['words'], (list, set)) else {})}))
    if src and words:
        r.wanted = pick(rng, 6, lambda: hashw.v_word(rng, rng.choice(src), words, args.get('nold', 1), args.get('nnew', 1)))
    return r


def m_addword(rng):
    kind = rng.choice(['lcu', 'game'])
    k = known_paths(rng, kind, rng.choice([1, 3, 10, 25]))
    if kind == 'game':
        src = [p for p in k.values() if not any(x in p for x in ('assets/characters/', 'vo/', 'sfx/', 'skins_skin'))]
        words = hashw.wordlist(k.values())
    else:
        src, words = list(k.values()), hashw.wordlist(p for p in k.values() if hashw.lcu_word_source(p))
    r = Run(kind, k, 'added words', lambda g: g.add_basename_word())
    if src and words:
        r.wanted = pick(rng, 6, lambda: hashw.v_addword(rng, rng.choice(src), words))
    return r


def m_extensions(rng):
    kind = rng.choice(['lcu', 'game'])
    k = known_paths(rng, kind)
    pre = [hashw.splitext(p)[0] for p in k.values()]
    exts = sorted({hashw.splitext(p)[1] for p in k.values() if not hashw.splitext(p)[1].endswith('00')})
    r = Run(kind, k, 'extensions', lambda g: g.substitute_extensions())
    if exts:
        r.wanted = pick(rng, 6, lambda: rng.choice(pre) + rng.choice(exts))
    return r


def odd_plugins(rng, k):
    """Known paths in plugins whose names are not those of today"""
    for _ in range(rng.choice([0, 0, 2])):
        pl = rng.choice(['rcp-fe-lol-tft4', 'rcp-fe-lol_x', 'RCP-FE-Lol', 'rcp-be-lol.x', 'rcp be', 'é', '2', 'global', 'plugins', 'en_us'])
        p = f"plugins/{pl}/{rng.choice(REGIONS + ['x1', 'x-y'])}/{rng.choice(LANGS + ['xx', '9'])}/{rng.choice(['x.png', 'v1/a_1.json', 'global/default/x.js', 'plugins/a/global/default/x.css'])}"
        k[hash_of(p)] = p


def m_regionlang(rng):
    k = known_paths(rng, 'lcu')
    odd_plugins(rng, k)
    src = [p.split('/') for p in k.values() if p.startswith('plugins/') and p.count('/') >= 4]
    r = Run('lcu', k, 'region and language', lambda g: g.substitute_region_lang())
    if src:
        def make():
            s = rng.choice(src)
            return '/'.join(s[:2] + [rng.choice(REGIONS + ['global']), rng.choice(LANGS + ['default'])] + s[4:])
        r.wanted = pick(rng, 6, make)
    return r


def m_plugin(rng):
    k = known_paths(rng, 'lcu')
    odd_plugins(rng, k)
    src = [p.split('/', 2) for p in k.values() if p.startswith('plugins/') and p.count('/') >= 2]
    r = Run('lcu', k, 'plugin', lambda g: g.substitute_plugin())
    if src:
        r.wanted = pick(rng, 6, lambda: '/'.join(['plugins', rng.choice(src)[1], rng.choice(src)[2]]))
    return r


def m_prefixes(rng):
    k = known_paths(rng, 'game')
    args = {} if rng.random() < .6 else {'prefixes': [rng.choice(['x_', '3x_', 'é', 'a/', ''])]}
    prefixes = args.get('prefixes', ['2x_', '2x_sd_', '4x_', '4x_sd_', 'sd_'])
    r = Run('game', k, f"prefixes {args}", lambda g: g.check_basename_prefixes(**args))

    for p in rng.sample(list(k.values()), min(3, len(k))):
        # some known paths have a prefix already
        d, b = split_dir(p)
        p = d + rng.choice(['2x_', 'sd_', '4x_sd_', 'x_']) + b
        k[hash_of(p)] = p

    def make():
        d, b = split_dir(rng.choice(list(k.values())))
        return d + rng.choice(prefixes) + b
    r.wanted = pick(rng, 6, make)
    return r


def m_character(rng):
    k = known_paths(rng, 'game')
    for _ in range(rng.choice([0, 1, 3])):
        # the name can be anywhere else in the path
        c = rng.choice(hashw.CHARS)
        p = f"{rng.choice(['assets', 'data'])}/characters/{c}/" + rng.choice([f"hud/icon_{c}_{c}tft.dds", f"old{c}/x.bin", f"my{c}.dds", f"{c}{c}.dds", f"skins/base/{c}s.{c}", f"{c}2/{c}.{c}_x.tex", f"x/{c.upper()}_{c}.dds"])
        k[hash_of(p)] = p
    src = [(p, m.group(1)) for p in k.values() if (m := re.match(r'(?:assets|data)/characters/([^/]+)/', p))]
    r = Run('game', k, 'character', lambda g: g.substitute_character())
    if src:
        def make():
            p, c = rng.choice(src)
            return p.replace(c, rng.choice(src)[1])
        r.wanted = pick(rng, 6, make)
    return r


def m_skin_numbers(rng):
    k = known_paths(rng, 'game')
    for _ in range(rng.choice([1, 4])):
        c, s = rng.choice(hashw.CHARS[:3] + ['sightwardx', 'sightward2', 'oldsightward', 'sight', 'tft_sightward']), rng.choice(['base', 'skin01', 'skin02', 'skin11'])
        p = f"assets/characters/{c}/skins/{s}/" + rng.choice([f"{c}_tx.dds", f"{c}_{s}_tx.dds", f"particles/{s}_{c}_{s}.dds", "50%.dds"])
        k[hash_of(p)] = p
    src = []
    for p in k.values():
        m = re.search(r'/characters/([^/]+)/skins/(base|skin\d+)/', p)
        if m and m.group(1) != 'sightward':
            src.append((p, m.group(1), m.group(2)))
    r = Run('game', k, 'skin numbers', lambda g: g.substitute_skin_numbers())
    if src:
        odd = [x for x in src if 'sight' in x[1]]

        def make():
            p, c, _ = rng.choice(odd if odd and rng.random() < .5 else src)
            skins = sorted({s for _, d, s in src if d == c})
            if rng.random() < .7:
                # the same skin all over
                new = rng.choice(skins)
                return re.sub(r'base|skin\d+', lambda m: new, p)
            return re.sub(r'base|skin\d+', lambda m: rng.choice(skins), p)
        r.wanted = pick(rng, 6, make)
    return r


def m_suffixes(rng):
    k = known_paths(rng, 'game')
    for _ in range(rng.choice([0, 3])):
        # shaders and localized files have several dots
        p = f"data/{rng.choice(hashw.WORDS)}{rng.choice(['', '', '.sru', '.ps_3_0', '.1.2'])}{rng.choice(['', '.fr_fr', '.materials', '.50%', '.x y'])}.{rng.choice(hashw.GAME_EXTS)}"
        k[hash_of(p)] = p

    def cut(p):
        """(prefix, suffix, extension) of paths without dots in directories"""
        d, b = split_dir(p)
        if '.' in d or b.startswith('.') or '..' in b or b.endswith('.'):
            return None
        parts = b.rsplit('.', 2)
        if len(parts) == 2:
            return d + parts[0], '', '.' + parts[1]
        if len(parts) == 3:
            return d + parts[0], '.' + parts[1], '.' + parts[2]
        return None
    cuts = [c for c in map(cut, k.values()) if c]
    r = Run('game', k, 'suffixes', lambda g: g.substitute_suffixes())
    if cuts:
        def make():
            c = rng.choice(cuts)
            return c[0] + rng.choice(['', rng.choice(cuts)[1]]) + c[2]
        r.wanted = pick(rng, 6, make)
    return r


def m_lang(rng):
    k = known_paths(rng, 'game')
    for _ in range(rng.choice([0, 2])):
        a = [rng.choice(LANGS) for _ in range(4)]
        p = rng.choice([f"assets/{a[0]}/{a[0]}/x_{a[0]}.dds", f"data/{a[0]}/menu_{a[0]}_{a[0]}.{a[0]}.txt", f"data/menu_{a[0]}.txt"])
        k[hash_of(p)] = p
    src = [p for p in k.values() if any(l in p for l in LANGS) and '{}' not in p]
    r = Run('game', k, 'language', lambda g: g.substitute_lang())
    if src:
        def make():
            new = rng.choice(LANGS)
            return re.sub('|'.join(LANGS), lambda m: new, rng.choice(src))
        r.wanted = pick(rng, 6, make)
    return r


def m_skin_groups(rng):
    k, skins = {}, {}
    for c in rng.sample(hashw.CHARS, rng.choice([1, 3])):
        for n in rng.sample([1, 2, 3, 9, 10, 11, 20, 34], rng.choice([0, 1, 3, 5])):
            p = f"assets/characters/{c}/skins/skin{rng.choice(['', '0']) if n < 10 else ''}{n}/x{rng.randrange(99)}.dds"
            k[hash_of(p)] = p
            skins.setdefault(c, {0}).add(n)
    r = Run('game', k, 'skin groups', lambda g: g.guess_skin_groups_bin())
    if skins:
        def make():
            c = rng.choice(sorted(skins))
            some = rng.sample(sorted(skins[c]), rng.randrange(1, len(skins[c]) + 1))
            return f"data/{c}{''.join(sorted(f'_skins_skin{i}' for i in some))}.bin"
        r.wanted = pick(rng, 6, make)
    return r


def m_skin_groups_chromas(rng):
    k = known_paths(rng, 'game', 2)
    data, groups = {}, {}
    for cid, c in enumerate(rng.sample(hashw.CHARS, rng.choice([1, 3])), rng.choice([1, 222])):
        n = 0
        for _ in range(rng.choice([1, 2, 4])):
            sid = cid * 1000 + n
            d = {'id': sid, 'loadScreenPath': f"/lol-game-data/assets/ASSETS/Characters/{c.title()}/Skins/Base/x.jpg"}
            g = [n]
            if n and rng.random() < .6:
                d['chromas'] = [{'id': sid + i} for i in range(1, rng.choice([2, 4]))]
                g += [n + i for i in range(1, len(d['chromas']) + 1)]
            n = g[-1] + rng.choice([1, 1, 1, 60, 150])
            data[str(sid)] = d
            groups.setdefault(c, []).append([f"_skins_skin{i}" for i in g])
    server = net.Net(lambda url: net.Reply(200, json.dumps(data).encode(), {'content-type': 'application/json'}))

    def call(g):
        with server.active():
            g.guess_skin_groups_bin_using_chromas()
    r = Run('game', k, 'skin groups from chromas', call)

    def make():
        c = rng.choice(sorted(groups))
        gs = groups[c] + [['_skins_root']]
        some = rng.sample(gs, rng.randrange(1, len(gs) + 1))
        return f"data/{c}{''.join(sorted(s for g in some for s in g))}.bin"
    r.wanted = pick(rng, 6, make)
    return r


def m_from_lcu(rng):
    k = known_paths(rng, 'game')
    lcu = []
    for p in list(k.values()) + [hashw.game_path(rng) for _ in range(6)]:
        e = rng.choice(['.png', '.jpg', '.json'])
        p = p if p.startswith(('assets/', 'data/')) else 'data/' + p
        lcu.append((hashw.splitext(p)[0], e))
    env.set_hashes('lcu', {hash_of(q): q for q in (f"plugins/rcp-be-lol-game-data/global/default/{a}{b}" for a, b in lcu)})
    r = Run('game', k, 'from client paths', lambda g: g.guess_from_lcu_hashes())
    r.other = True
    r.wanted = [a + ('.json' if b == '.json' else '.dds') for a, b in rng.sample(lcu, min(6, len(lcu)))]
    return r


def m_from_game(rng):
    k = known_paths(rng, 'lcu')
    game = known_paths(rng, 'game', 20)
    for _ in range(5):
        p = f"{rng.choice(['assets', 'data'])}/x/{hashw.basename(rng, ['dds', 'json'])}"
        game[hash_of(p)] = p
    env.set_hashes('game', game)
    r = Run('lcu', k, 'from game paths', lambda g: g.guess_from_game_hashes())
    r.other = True
    base = 'plugins/rcp-be-lol-game-data/global/default/'
    out = []
    for p in game.values():
        a, e = hashw.splitext(p)
        if e == '.dds':
            out.append(base + a + rng.choice(['.png', '.jpg']))
        elif e == '.json':
            out.append(base + p)
    r.wanted = rng.sample(out, min(6, len(out)))
    return r


def m_characters(rng):
    k = known_paths(rng, 'game')
    given = rng.random() < .3
    chars = ['newchamp', 'petx'] if given else sorted({m.group(1) for p in k.values() if (m := re.match(r'(?:assets/|data/)?characters/([^/.]+)(?:/|$)', p))})
    if not given and rng.random() < .2:
        k[hash_of('characters/sightward')] = 'characters/sightward'
        chars = sorted(chars + ['sightward'])
    r = Run('game', k, f"characters {'given' if given else 'known'}", lambda g: g.guess_characters_files(chars) if given else g.guess_characters_files())
    if chars:
        def make():
            c = rng.choice(chars)
            n = rng.randrange(500 if c == 'sightward' else 200)
            fmts = ["data/characters/{c}/skins/root.bin", "data/characters/{c}/skins/base/{c}.skl", "data/characters/{c}/skins/base/{c}.skn", "data/characters/{c}/skins/base/{c}_tx_cm.dds",
                    "data/characters/{c}/tiers/root.bin", "data/characters/{c}/{c}.bin", "data/characters/{c}/{c}.ddf", "data/characters/{c}/hud/{c}_circle.dds", "data/characters/{c}/hud/{c}_square.dds",
                    "assets/characters/{c}/hud/{c}_circle.dds", "assets/characters/{c}/hud/{c}_square.dds", "characters/{c}",
                    "data/characters/{c}/skins/skin{n}.bin", "data/characters/{c}/animations/skin{n}.bin"]
            if c.startswith('pet'):
                fmts.append("data/characters/{c}/tiers/tier{t}.bin")
            f = rng.choice(fmts)
            return f.replace('{c}', c).replace('{n}', str(n)).replace('{t}', str(n % 10))
        r.wanted = pick(rng, 6, make)
    return r


def m_shaders(rng):
    k = known_paths(rng, 'game')
    src = []
    for p in k.values():
        d, b = split_dir(p)
        m = re.fullmatch(r'([^.]+\.[pv]s(?:_[23]_0)?)(?:[.-].*|_\d+)?', b)
        if m and not re.search(r'\.[pv]s', d):
            if re.fullmatch(r'[^.]+\.[pv]s_\d+', b):
                continue
            src.append(d + m.group(1))
    r = Run('game', k, 'shader variants', lambda g: g.guess_shader_variants())
    if src:
        r.wanted = pick(rng, 6, lambda: rng.choice(src) + rng.choice(['.dx11', '.dx9', '.dx9sm3', '.glsl', '.metal', '-dx11', '-metal']) + rng.choice(['', f"_{100 * rng.randrange(200)}"]))
    return r


def m_patterns(rng):
    k = known_paths(rng, 'lcu')
    r = Run('lcu', k, 'patterns', lambda g: g.guess_patterns())
    icons = [p for p in k.values() if p.startswith('plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/') and p.endswith('.png') and p.count('.png') == 1]

    def make():
        x = rng.randrange(4)
        if x == 0 and icons:
            return rng.choice(icons)[:-4] + '_splash.png'
        if x == 1:
            a = rng.choice(['filter', 'unfilter', 'whitelist'])
            l = rng.choice(LANGS)
            return f"plugins/rcp-be-sanitizer/global/default/{rng.randrange(5)}.{a}" + rng.choice(['', f".language.{l[:2]}", f".country.{l[3:]}", f".region.{rng.choice(REGIONS)}", f".locale.{l}"]) + '.csv'
        if x == 2:
            l = rng.choice(LANGS)
            return f"plugins/rcp-be-sanitizer/global/default/{rng.choice('allowedchars breakingchars projectedchars projectedchars1337 punctuationchars variantaliases'.split())}{rng.choice(['.locale.' + l, '.language.' + l[:2]])}.txt"
        i = rng.choice(range(8000, 8600, 100))
        base = 'plugins/rcp-fe-lol-perks/global/default/images/'
        j, kk = rng.choice([0] + list(range(8000, 8600, 100))), rng.choice([0, i, i + 7, i + 99])
        return base + rng.choice([f"inventory-card/{i}/p{i}_s{j}_k{kk}.jpg", f"construct/{i}/environment.jpg", f"construct/{i}/construct.png", f"construct/{i}/keystones/{i + rng.randrange(100)}.png", f"construct/{i}/second/{rng.randrange(8000, 8600, 100)}.png"])
    r.wanted = pick(rng, 6, make)
    return r


METHODS = [m_numbers, m_basenames, m_later_basenames, m_words, m_addword, m_extensions, m_regionlang, m_plugin, m_prefixes, m_character, m_skin_numbers,
           m_suffixes, m_lang, m_skin_groups, m_skin_groups_chromas, m_from_lcu, m_from_game, m_characters, m_shaders, m_patterns]


def guess(kind, known, wanted, call):
    """Paths found, in a fresh guesser"""
    env.set_hashes(kind, {})
    hf = env.hashfile(kind)
    hf.hashes = dict(known)
    g = (LcuHashGuesser if kind == 'lcu' else GameHashGuesser)(wanted)
    with contextlib.redirect_stdout(io.StringIO()):
        call(g)
    return g, {h: p for h, p in g.known.items() if h not in known}


def variants(ctx, rng, tier):
    """Every variant that a method describes is found, in any order of the list"""
    method = METHODS[ctx.index % len(METHODS)]
    r = method(rng)
    wanted = {hash_of(p): p for p in r.wanted}
    noise = {rng.getrandbits(64) for _ in range(rng.choice([0, 5]))}
    # unrelated paths, that the method may find or not
    extra = {hash_of(p): p for p in (hashw.game_path(rng) if r.kind == 'game' else hashw.lcu_path(rng) for _ in range(rng.choice([0, 10])))}
    hashes = set(wanted) | noise | set(extra)
    new = {h: p for h, p in wanted.items() if h not in r.known}
    g, found = guess(r.kind, r.known, set(hashes), r.call)
    missed = {h: p for h, p in new.items() if h not in found}
    ctx.check(not missed, 'missed', f"{r.name}: {sorted(missed.values())[:3]} not found", known=sorted(r.known.values())[:60])
    wrong = {h: found[h] for h in new if found[h] != new[h]}
    ctx.check(not wrong, 'missed', f"{r.name}: listed as other paths: {wrong}")
    ctx.count('variants found', len(new))
    ctx.count(method.__name__[2:] + ': found', len(new))
    others = set(found) - set(new)
    ctx.count('other paths found', len(others))
    # the same list, in another order
    items = list(r.known.items())
    rng.shuffle(items)
    _, again = guess(r.kind, dict(items), set(hashes), r.call)
    ctx.check(again == found, 'order', f"{r.name}: another order of the list finds {sorted(set(again.values()) ^ set(found.values()))[:4]} differently")
    # what was found is not needed to find the rest: run again, nothing new but through found paths
    ctx.nontrivial(r.name, len(r.known), tuple(sorted(new)), len(found))


DRIVER = """
import sys, json, io, contextlib
sys.path.insert(0, %r); sys.path.insert(0, %r)
import logging
logging.disable(logging.CRITICAL)
spec = json.load(sys.stdin)
from vf import env
env.setup(spec['root'])
from cdtb.hashes import LcuHashGuesser, GameHashGuesser
out = []
for kind, method, known, wanted in spec['runs']:
    env.hashfile(kind).hashes = {int(h): p for h, p in known}
    g = (LcuHashGuesser if kind == 'lcu' else GameHashGuesser)({int(h) for h in wanted})
    before = set(g.known)
    with contextlib.redirect_stdout(io.StringIO()):
        getattr(g, method)()
    out.append(sorted(p for h, p in g.known.items() if h not in before))
json.dump(out, sys.stdout)
"""
PLAIN = {'lcu': ['substitute_basenames', 'substitute_extensions', 'substitute_basename_words', 'add_basename_word', 'substitute_region_lang', 'substitute_plugin', 'substitute_numbers', 'guess_patterns'],
         'game': ['substitute_basenames', 'substitute_extensions', 'substitute_basename_words', 'add_basename_word', 'substitute_numbers', 'check_basename_prefixes', 'substitute_character',
                  'substitute_skin_numbers', 'substitute_skin_numbers', 'substitute_skin_numbers', 'substitute_suffixes', 'substitute_lang', 'guess_skin_groups_bin', 'guess_characters_files', 'guess_shader_variants']}


def processes(ctx, rng, tier):
    """The result is the same in every process: sets of texts are ordered differently in each"""
    runs = []
    for kind in ('lcu', 'game'):
        for method in PLAIN[kind]:
            k = {}
            while not k:
                k = known_paths(rng, kind, 15)
                if method == 'guess_skin_groups_bin':
                    k = {h: p for h, p in k.items() if p.count('skin') < 4}
            if 'skin_numbers' in method:
                for s in rng.sample(['base', 'skin01', 'skin02', 'skin03', 'skin11'], 4):
                    p = f"assets/characters/ahri/skins/{s}/x{rng.randrange(99)}_{s}_y.dds"
                    k[hash_of(p)] = p
            # wanted: all that any order may give
            cand = set()
            for p in k.values():
                for _ in range(12):
                    q = re.sub(r'skin\d+|base', lambda m: rng.choice(['base', 'skin01', 'skin02', 'skin03', 'skin11']), p)
                    cand.add(q)
                    cand.add(hashw.v_numbers(rng, q, 100) or q)
                cand.add(hashw.v_word(rng, p, hashw.WORDS) or p)
                cand.add(hashw.v_addword(rng, p, hashw.WORDS) or p)
                cand.add(hashw.splitext(p)[0] + hashw.splitext(rng.choice(list(k.values())))[1])
                cand.add(join(split_dir(rng.choice(list(k.values())))[0].rstrip('/'), split_dir(p)[1]))
            wanted = {hash_of(p) for p in cand} - set(k)
            runs.append((kind, method, [(str(h), p) for h, p in k.items()], sorted(str(h) for h in wanted)))
    root = ctx.dir('proc')
    res = []
    seeds = [str(rng.randrange(1, 4 * 10**9)) for _ in range(3)]
    for s in seeds:
        e = {**os.environ, 'PYTHONHASHSEED': s, 'VF_REPO': REPO, 'PYTHONDONTWRITEBYTECODE': '1'}
        with fsguard.trusted():
            r = subprocess.run([sys.executable, '-c', DRIVER % (VERIF, REPO)], input=json.dumps({'root': root, 'runs': runs}), env=e, capture_output=True, text=True, timeout=200)
        ctx.equal(r.returncode, 0, 'process', f"guessing failed: {r.stderr[-400:]}")
        res.append(json.loads(r.stdout))
    for (kind, method, known, wanted), *outs in zip(runs, *res):
        for o in outs[1:]:
            ctx.check(o == outs[0], 'order', f"{kind} {method}: two processes find {sorted(set(o) ^ set(outs[0]))[:4]} differently", known=[p for _, p in known][:60])
        ctx.count('methods compared between processes')
        ctx.count('paths found in processes', len(outs[0]))
        ctx.nontrivial('process', kind, method, len(outs[0]))


# Methods of the command, and the guessers they are for
COMMAND = {'numbers': ('lcu', 'game'), 'basenames': ('lcu', 'game'), 'words': ('lcu', 'game'), 'ext': ('lcu', 'game'), 'regionlang': ('lcu',), 'plugin': ('lcu',),
           'skin-num': ('game',), 'character': ('game',), 'prefixes': ('game',)}
MAKERS = {'numbers': m_numbers, 'basenames': m_basenames, 'words': m_words, 'ext': m_extensions, 'regionlang': m_regionlang, 'plugin': m_plugin,
          'skin-num': m_skin_numbers, 'character': m_character, 'prefixes': m_prefixes}
CALLS = {'numbers': 'substitute_numbers', 'basenames': 'substitute_basenames', 'words': 'substitute_basename_words', 'ext': 'substitute_extensions', 'regionlang': 'substitute_region_lang',
         'plugin': 'substitute_plugin', 'skin-num': 'substitute_skin_numbers', 'character': 'substitute_character', 'prefixes': 'check_basename_prefixes'}


def plain_variants(rng, name, kind):
    """(known paths, variants) of a method with the parameters it has by default"""
    for _ in range(60):
        r = MAKERS[name](rng)
        ws = [p for p in r.wanted if hash_of(p) not in r.known]
        if r.kind == kind and ws and (r.name in (name, f"{name} {{}}", f"{name} {{}} own") or name in ('ext', 'regionlang', 'skin-num', 'character', 'plugin')):
            return r.known, ws
    return {}, []


def command(ctx, rng, tier):
    """hashes-guess runs the chosen methods, or all but the two that are too long"""
    d = ctx.dir()
    chosen = None if rng.random() < .4 else rng.sample(sorted(COMMAND), rng.choice([1, 1, 2]))
    run = chosen or [n for n in COMMAND if n not in ('basenames', 'words')]
    known, want, noise = {'lcu': {}, 'game': {}}, {'lcu': {}, 'game': {}}, {'lcu': {}, 'game': {}}
    paths, by, never = [], {}, {}
    for kind in rng.sample(['lcu', 'game'], rng.choice([1, 2, 2])):
        for name in rng.sample([n for n in run if kind in COMMAND[n]] or sorted(COMMAND), 1 if rng.random() < .5 else len([n for n in run if kind in COMMAND[n]]) or 1):
            if kind not in COMMAND[name]:
                continue
            k, ws = plain_variants(rng, name, kind)
            if len(k) + len(known[kind]) > 120 and known[kind]:
                continue
            known[kind].update(k)
            for p in ws:
                if name in run:
                    want[kind][hash_of(p)] = p
                    by[p] = name
        for name in COMMAND:
            if kind in COMMAND[name] and name not in run:
                # what only other methods find stays unknown
                k, ws = plain_variants(rng, name, kind)
                noise[kind].update({hash_of(p): p for p in ws[:2]})
        if chosen is None:
            # what only the methods that are not run by default would find
            w = [''.join(rng.choice('qzjx') for _ in range(6)) for _ in range(4)]
            sub, ext = ('assets/', '.dds') if kind == 'game' else ('plugins/rcp-fe-lol-zqx/global/default/', '.png')
            ps = rng.choice([(f"{sub}qa/{w[0]}{ext}", f"{sub}qb/{w[1]}{ext}", f"{sub}qa/{w[1]}{ext}"), (f"{sub}qa/{w[0]}_{w[1]}{ext}", f"{sub}qb/{w[2]}_{w[3]}{ext}", f"{sub}qa/{w[0]}_{w[3]}{ext}")])
            known[kind].update({hash_of(p): p for p in ps[:2]})
            noise[kind][hash_of(ps[2])] = ps[2]
            never[hash_of(ps[2])] = ps[2]
        a = c22.Archive(rng)
        new = {h: p for h, p in {**noise[kind], **want[kind]}.items() if h not in known[kind]}
        for h, p in new.items():
            if not p.endswith('.subchunktoc'):
                a.add(p, b'', known=False)
        p = os.path.join(d, kind + ('.wad.client' if kind == 'game' else '.wad'))
        a.write(p)
        known[kind].update(a.known)
        want[kind] = {h: p for h, p in want[kind].items() if h in {e['hash'] for e in a.entries} and h not in known[kind]}
        paths.append(p)
    rng.shuffle(paths)
    kinds = [k for k in ('lcu', 'game') if any(os.path.basename(p).startswith(k) for p in paths)]
    for kind in ('lcu', 'game'):
        env.set_hashes(kind, known[kind])
    # the same methods, called one by one
    exp = {}
    for kind in kinds if len(run) == 1 else ():
        g = (LcuHashGuesser if kind == 'lcu' else GameHashGuesser).from_wads([wad.Wad(p) for p in paths])
        with contextlib.redirect_stdout(io.StringIO()):
            if kind in COMMAND[run[0]]:
                getattr(g, CALLS[run[0]])()
        exp[kind] = {h: p for h, p in g.known.items() if h not in known[kind]}
    for kind in ('lcu', 'game'):
        env.set_hashes(kind, known[kind])
    opts = ['-m', rng.choice([',', ', ', ' ,']).join(rng.sample(chosen, len(chosen)))] if chosen else []
    mem.run_cli(['hashes-guess', '-s', f"patcher:{d}", *opts, *paths])
    for kind in kinds:
        hf = env.hashfile(kind)
        saved = {h: p for h, p in hf.__class__(hf.filename).load().items() if h not in known[kind]}
        what = f"hashes-guess {' '.join(opts)} ({kind})"
        missed = [p for h, p in want[kind].items() if saved.get(h) != p]
        ctx.check(not missed, 'command', f"{what}: {[(by[p], p) for p in missed[:3]]} not in the saved list", known=sorted(known[kind].values())[:60])
        odd = sorted(p for h, p in never.items() if h in saved)
        ctx.check(not odd, 'default-methods', f"{what}: {odd[:3]} found, as only 'basenames' and 'words' would")
        ctx.count('not by default', len(never))
        if len(run) == 1:
            # several methods build on each other, in an order that is not specified
            odd = sorted(set(saved.items()) ^ set(exp[kind].items()))
            ctx.check(not odd, 'command', f"{what}: {odd[:3]} differ from what the method finds")
        ctx.count('commands: variants', len(want[kind]))
        for p in want[kind].values():
            ctx.count(f"command {by[p]}: {'chosen' if chosen else 'default'}")
    ctx.count('commands')
    ctx.nontrivial('command', tuple(run), tuple(paths), tuple(sorted(len(x) for x in want.values())))


SCENARIOS = [
    Scenario(variants, 3000, 60000),
    Scenario(command, 200, 5000),
    Scenario(processes, 4, 60),
]
REQUIRED = {'not by default': 60, 'variants found': 5000, 'methods compared between processes': 60, 'paths found in processes': 200}
for _m in METHODS:
    REQUIRED[_m.__name__[2:] + ': found'] = 40
for _n in COMMAND:
    REQUIRED[f"command {_n}: chosen"] = 8
    if _n not in ('basenames', 'words'):
        REQUIRED[f"command {_n}: default"] = 40
