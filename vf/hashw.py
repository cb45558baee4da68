"""Hash lists: generators of known paths, and for each guessing method the variants it
must find. The variants are made from the description of the methods alone."""
import re
import xxhash

WORDS = ['annie', 'icon', 'base', 'loading', 'screen', 'tx', 'cm', 'hud', 'circle', 'square', 'banner', 'ward', 'hero', 'splash', 'bg', 'fx',
         'glow', 'main', 'map11', 'lol', 'x', 'ahri', 'gold', 'rune', 'chest', 'open', 'w2', 'q', 'default', 'test', 'new', 'old', 'é', 'left', 'top', '2023event', '100xp']
CHARS = ['annie', 'ahri', 'lux', 'tft4_ahri', 'sru_baron', 'petchoncc', 'ward2', 'yorick', 'petakalidragon', 'zed', 'missfortune', 'pet_tibbers']
PLUGINS = ['rcp-be-lol-game-data', 'rcp-fe-lol-loot', 'rcp-fe-lol-perks', 'rcp-fe-lol-splash', 'rcp-fe-audio', 'rcp-be-sanitizer', 'rcp-fe-lol-static-assets']
REGIONS = ['global', 'na', 'euw', 'kr', 'pbe', 'tencent', 'oc1', 'vn2', 'br', 'garena2']
LANGS = ['default', 'en_us', 'fr_fr', 'ko_kr', 'zh_tw', 'es_mx', 'ar_ae', 'vi_vn', 'id_id']
# All languages and regions of the game (written down here: the list of the code is part of what is checked)
ALL_LANGS = ('ar_ae ar_eg cs_cz de_de el_gr en_au en_gb en_ph en_pl en_sg en_us es_ar es_es es_mx fr_fr hu_hu id_id it_it ja_jp ko_kr ms_my pl_pl pt_br ro_ro ru_ru th_th tr_tr vi_vn vn_vn zh_cn zh_my '
    'zh_tw').split()
ALL_REGIONS = ('br cn eun eune euw garena2 garena3 id jp kr la la1 la2 lan las me1 na oc oc1 oce pbe ph ph2 ru sg sg2 tencent th th2 tr tw tw2 vn vn2').split()
LCU_EXTS = ['png', 'jpg', 'json', 'js', 'html', 'css', 'webm', 'ogg', 'svg', 'csv']
GAME_EXTS = ['dds', 'bin', 'skn', 'skl', 'anm', 'tex', 'scb', 'bnk', 'wpk', 'troybin', 'luabin64', 'lua', 'preload', 'mapgeo', 'json', 'stringtable']
SEPS = '-_'


def hash_of(path):
    return xxhash.xxh64_intdigest(path)


def rhash(rng, width=16):
    top = 16 ** width
    return rng.choice([0, 1, top - 1, top >> 1, 0x1a, rng.randrange(top), rng.randrange(top), rng.randrange(top), rng.randrange(top >> 32 or 1)])


def rpath(rng):
    """Any text that a hash list can hold"""
    r = rng.random()
    if r < .05:
        return ''
    if r < .3:
        alphabet = 'abz/._- 019é\u4e2d\U0001f600\t"\'%{}\\AB:\u2028\x85\x0b\x0c\xa0'
        return ''.join(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 5, 30])))
    if r < .35:
        return ' ' + game_path(rng) + ' '
    if r < .7:
        return game_path(rng)
    return lcu_path(rng)


def number(rng):
    return str(rng.choice([0, 1, 2, 7, 9, 10, 11, 20, 42, 99, 100, 101, 1234, 9999]))


def basename(rng, exts, odd=.06):
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        r = rng.random()
        w = rng.choice(WORDS)
        if r < .2:
            w = number(rng)
        elif r < .35:
            w += number(rng)
        elif r < .4:
            w = number(rng).zfill(rng.choice([2, 3, 4]))
        elif r < .4 + odd:
            w += rng.choice(['%', '%d', '%s', '{}', ' ', '+', '@', '(1)', '{sep}', '%%', '$'])
        parts.append(w)
    name = parts[0]
    for w in parts[1:]:
        name += rng.choice(SEPS) + w
    if rng.random() < .12:
        name += '.' + rng.choice(['en_us', 'fr_fr', '4x', 'v2', 'min', 'materials', 'sru'])
    if rng.random() > .05:
        name += '.' + rng.choice(exts)
    return name


def lcu_path(rng):
    r = rng.random()
    if r < .03:
        return rng.choice(['plugins/manifest.json', 'plugins', 'x/y.png', 'readme.txt', 'plugins/rcp-fe-x', 'plugins/rcp-fe-x/description.json', 'plugins/rcp-be-single/index.html'])
    p = f"plugins/{rng.choice(PLUGINS)}/{rng.choice(REGIONS)}/{rng.choice(LANGS)}/"
    if r < .12:
        if rng.random() < .5:
            p = 'plugins/rcp-be-lol-game-data/global/default/'
        return p + f"v1/{rng.choice(['champion-icons', 'profile-icons', 'champions', 'champion-splashes/7'])}/{number(rng)}.{rng.choice(['png', 'jpg', 'json'])}"
    if r < .18:
        if rng.random() < .6:
            p = 'plugins/rcp-be-lol-game-data/global/default/'
        return p + rng.choice(['data/items/icons2d/3001_', 'data/items/icons2d/', 'data/items/icons2d/hash_', 'assets/characters/annie/', 'data/characters/annie/', 'x/', 'data/', 'assets/', 'v1/champions/']) + basename(rng, LCU_EXTS)
    if r < .21:
        return p + ''.join(rng.choice('0123456789abcdef') for _ in range(32)) + '.png'
    if r < .26:
        return 'plugins/rcp-fe-lol-loot/global/default/assets/loot_item_icons/' + basename(rng, ['png'])
    return p + '/'.join([rng.choice(WORDS + ['images', 'assets', 'v1']) for _ in range(rng.choice([0, 0, 1, 2]))] + [basename(rng, LCU_EXTS)])


def game_path(rng):
    r = rng.random()
    c = rng.choice(CHARS)
    skin = rng.choice(['base', 'skin01', 'skin02', 'skin1', 'skin10', 'skin34', 'skin5'])
    top = rng.choice(['assets', 'data'])
    if r < .03:
        return rng.choice(['x.bin', 'a_1.dds', 'noext', 'global.json', 'data', 'characters'])
    if r < .1:
        return rng.choice([f"characters/{c}", f"data/characters/{c}/{c}.bin", f"data/characters/{c}/skins/{skin}.bin", f"characters/{c}/x.bin"])
    if r < .3:
        return f"{top}/characters/{c}/skins/{skin}/" + rng.choice([f"{c}_{skin}_tx_cm.dds", f"{c}.skn", f"{c}_tx_cm.dds", f"particles/{c}_{skin}_q.dds", f"particles/{basename(rng, GAME_EXTS)}",
                                                                  f"{c}_skin01_{skin}.tex", f"animations/{c}_idle1.anm"])
    if r < .38:
        s = rng.choice(['ps_2_0', 'ps_3_0', 'vs_2_0', 'vs_3_0', 'ps', 'vs'])
        v = rng.choice(['', '', '.dx11', '.dx9_1200', '.glsl', '.metal_0', '-dx11', '-metal_100', '_4000'])
        return f"assets/shaders/generated/shaders/{rng.choice(['x', 'env', 'fx/y'])}/{rng.choice(WORDS)}.{s}{v}"
    if r < .44:
        l = rng.choice(LANGS[1:])
        return rng.choice([f"{l}/data/menu/en_us/main.stringtable", f"assets/sounds/wwise2016/vo/{l}/characters/{c}/skins/base/{c}_base_vo_audio.wpk", f"data/menu/fontconfig_{l}.txt"])
    return '/'.join([rng.choice(['assets', 'data'])] + [rng.choice(WORDS + ['maps', 'particles', 'ux']) for _ in range(rng.choice([0, 1, 1, 2]))] + [basename(rng, GAME_EXTS)])


def known_list(rng, kind, n):
    make = lcu_path if kind == 'lcu' else game_path
    out = {}
    while len(out) < n:
        p = make(rng)
        out[hash_of(p)] = p
        # neighbours, so that there are several variants of something
        if rng.random() < .3 and len(out) < n:
            q = re.sub(r'\d+', lambda m: number(rng), p)
            out[hash_of(q)] = q
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


# --- parts of paths

def split_dir(p):
    d, sep, b = p.rpartition('/')
    return d + sep, b


def stem_end(b):
    """Position of the last dot, if something follows it"""
    i = b.rfind('.')
    return i if i >= 0 and i + 1 < len(b) else -1


def runs(b, chars=None, inverse=None):
    """(start, end) of maximal runs in a basename, before its last dot"""
    end = stem_end(b)
    if end < 0:
        return []
    out, start = [], None
    for i, c in enumerate(b[:end]):
        ok = c in chars if chars else c not in inverse
        if ok and start is None:
            start = i
        if not ok and start is not None:
            out.append((start, i))
            start = None
    if start is not None:
        out.append((start, end))
    return out


def splitext(p):
    d, b = split_dir(p)
    # leading dots do not start an extension
    i = b.rfind('.')
    if i < 0 or not b[:i].strip('.'):
        return p, ''
    return d + b[:i], b[i:]


def lcu_word_source(p):
    return not (p.startswith('plugins/rcp-be-lol-game-data/global/default/data/characters/') or re.search(r'/[0-9a-f]{32}\.', p))


def wordlist(paths):
    """Words of paths, without their last one (the extension)"""
    words = set()
    for p in paths:
        words.update(re.split(r'[/_.-]', p)[:-1])
    return sorted(w for w in words if w and not re.fullmatch(r'[0-9]{3,}', w))


# --- variants: (source path, variant) by method

def v_numbers(rng, p, nmax, digits=None):
    d, b = split_dir(p)
    rs = runs(b, '0123456789')
    if digits is True:
        digits = len(str(nmax - 1))
    if digits is not None:
        rs = [r for r in rs if r[1] - r[0] == digits]
    if not rs:
        return None
    i, j = rng.choice(rs)
    n = rng.choice([0, min(1, nmax - 1), nmax - 1, rng.randrange(nmax), rng.randrange(nmax)])
    return d + b[:i] + (str(n) if digits is None else str(n).zfill(digits)) + b[j:]


LCU_NUMBERS_SKIP = re.compile(r'^plugins/rcp-be-lol-game-data/[^/]+/[^/]+/v1/champion-|^plugins/rcp-be-lol-game-data/global/default/(data|assets)/characters/|'
                              r'^plugins/rcp-be-lol-game-data/global/default/data/items/icons2d/\d+_|^plugins/rcp-be-lol-game-data/[^/]+/[^/]+/v1/champions/-1.json|/[0-9a-f]{32}\.')


def words_of(b):
    return runs(b, inverse='_.-')


def v_word(rng, p, words, nold=1, nnew=1):
    d, b = split_dir(p)
    ws = words_of(b)
    # words side by side: one dash or underscore between them
    cands = []
    for k in range(len(ws) - nold + 1):
        if all(ws[m + 1][0] == ws[m][1] + 1 and b[ws[m][1]] in SEPS for m in range(k, k + nold - 1)):
            cands.append((ws[k][0], ws[k + nold - 1][1]))
    if not cands:
        return None
    i, j = rng.choice(cands)
    sep = rng.choice(SEPS)
    return d + b[:i] + sep.join(rng.choice(words) for _ in range(nnew)) + b[j:]


def v_addword(rng, p, words):
    d, b = split_dir(p)
    ws = words_of(b)
    if not ws:
        return None
    i, j = rng.choice(ws)
    w, sep = rng.choice(words), rng.choice(SEPS)
    return d + (b[:i] + w + sep + b[i:] if rng.random() < .5 else b[:j] + sep + w + b[j:])


def directories(paths):
    out = {''}
    for p in paths:
        parts = p.split('/')[:-1]
        for k in range(len(parts) + 1):
            out.add('/'.join(parts[:k]))
    return out


def join(d, b):
    return f"{d}/{b}" if d else b
