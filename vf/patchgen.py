"""Random histories of patches, materialised as the files a storage holds, and an
independent model of what an export of a patch contains.

An item is one file of the patches: it lies in a container (plain file, plugin
archive, game archive) and has a few variants of its content. A state maps the
items present in a patch to the number of their variant.
"""
import hashlib
import json
import os
import random
from . import wadw, binw, rstw, sknw, texw, tabw, tftw, env
from .mem import MemElement, MemStorage, HISTORIES

NOT_NAMES = {p.lower() for p in binw.GAME_PATHS}    # not to be names of the files: tables refer to them as unknown
GAME_KEEP = ('.png', '.txt', '.stringtable', '.json', '.ttf', '.otf')


def png(rng):
    return b'\x89PNG\r\n\x1a\n' + rng.randbytes(rng.choice([4, 40, 300]))


UNREADABLE = ('unreadable',)    # converted form of an entry that cannot be read


class Item:
    """spec(i) gives {suffix handling: content}: see outputs()"""

    def __init__(self, where, path, kind, variants, ext=None):
        self.where, self.path, self.kind, self.variants = where, path, kind, variants
        self.known = True
        self.ext = ext                  # detected type, for unknown or extension-less ones
        self.hash = wadw.path_hash(path)
        self.method = None
        self.mangles = {}               # {variant: change to the written archive entry}

    def __repr__(self):
        return f"<{self.kind} {self.path} in {self.where}{'' if self.known else ' unknown'}>"


def toc_path(where):
    return where[1].rsplit('.wad', 1)[0].lower() + '.subchunktoc'


def ver(v):
    return (10**6,) if v == 'main' else tuple(int(x) for x in v.split('.'))


def as_int(v):
    return 9999 if v == 'main' else ver(v)[0] * 100 + ver(v)[1]


PAIRS = [['9.5', '9.4'], ['9.5', '9.4', '9.3'], ['9.2', '9.1', '8.24', '8.23'], ['5.2', '5.1'], ['9.10', '9.9', '9.8'], ['9.13', '9.12']]
# versions that have TFT data, and Arena data from 13.14 on
TFT_PAIRS = [['9.14', '9.13'], ['9.15', '9.14', '9.13'], ['10.1', '9.24'], ['10.9', '10.8'], ['13.14', '13.13'], ['14.2', '14.1'], ['14.4', '14.3', '14.2'], ['14.14', '14.13'], ['14.16', '14.15'],
             ['15.1', '14.24'], ['15.3', '15.2'], ['main', '15.4'], ['16.1', '15.24', '15.23']]


def history(rng, n=2, tft=True):
    """Versions, newest first; the formats of game files do not change in between"""
    return list(rng.choice([h for h in PAIRS + (TFT_PAIRS if tft else []) if len(h) >= n]))


def has_tft(v):
    return ver(v) >= (9, 14)


def has_arena(v):
    return ver(v) >= (13, 14)


def stem(p):
    return os.path.splitext(p)[0]


class World:
    def __init__(self, ctx, rng, versions, n=None, wad_versions=None, unknown=.12, kinds=None, damage=0, hostile=False, containers=None, trade=False):
        self.traded = 0
        self.ctx, self.rng, self.versions = ctx, rng, list(versions)   # newest first
        self.damage, self.unknown, self.kinds = damage, unknown, kinds
        self.src = ctx.dir('src')
        self.items, self.claimed, self.reserved = [], set(), set()
        self.wad_versions = wad_versions or [(3, 0), (3, 1), (3, 3), (3, 4), (2, 0)]
        self.containers = containers or self.make_containers()
        self.n_files = 0
        self.cache = {}
        self.data = None
        if any(has_tft(v) for v in versions) and not kinds:
            self.data = GameData(self)
        n = rng.choice([3, 8, 15, 25]) if n is None else n
        n += len(self.items)
        tries = 0
        while len(self.items) < n and tries < 20 * n:
            tries += 1
            self.add(self.random_item())
        self.partner = {}
        if trade:
            for it in list(self.items):
                if rng.random() < .25 and not (self.data and it in self.data.items):
                    self.add_partner(it)
        self.elements = {}
        self.states = {}
        self.sources = {}
        self.key = None

    # --- containers
    def make_containers(self):
        r = self.rng
        out = [('plain', None)] * 3
        for p in r.sample(['rcp-be-lol-game-data', 'rcp-be-lol-game-data', 'rcp-fe-lol-champ', 'rcp-fe-x', r.choice(['rcp-be-lol-en', 'rcp-fe-lol-tft-2', 'rcp-fe-lol_v2', 'Rcp-fe-lol-shared-components-v2.1'])], r.choice([1, 2])):
            out += [('client', f"plugins/{p}/{r.choice(['default-assets', 'assets', 'de_de-assets', 'default-assets2', 'Default-assets', 'default-assets10', 'assets12', 'assets123'])}.wad")] * 2
        if r.random() < .2:
            out.append(('client', 'other/stuff.wad'))
        for w in r.sample(['champions/annie', 'champions/aatrox', 'global', 'maps/shipping/map11', 'ui'], r.choice([1, 2, 3])):
            out += [('game', f"data/final/{w}.wad.client")] * 3
            if r.random() < .4:
                out.append(('game', f"data/final/{w}.{r.choice(['en_us', 'fr_FR', 'ko_kr'])}.wad.client"))
            if r.random() < .15:
                # not archives of a language
                out.append(('game', f"data/final/{w}.{r.choice(['en_us.x', 'v1', 'de_de.hd', 'extra', 'en', 'vo_en_us', 'fr_FR.2'])}.wad.client"))
        return out

    # --- items
    def name(self, depth=None):
        r = self.rng
        words = ['a', 'b', 'data', 'ux', 'annie', 'skins', 'skin01', 'base', 'x', 'ab', 'a-b', 'a b', 'icons', 'v1.2', 'map11']
        return '/'.join([r.choice(words) for _ in range(r.choice([0, 1, 1, 2, 3]) if depth is None else depth)] + [r.choice(words) + r.choice(['', '', str(r.randrange(30)), '_' + r.choice(words)])])

    def content(self, kind):
        """(file, content spec of the converted form)"""
        r, age = self.rng, as_int(self.versions[0])
        if kind == 'dds':
            b, px, tol = texw.dds(r, r.choice(['DXT1', 'BGRA', 'BGR']), r.choice([1, 4, 5]), r.choice([1, 4, 7]))
            return b, ('pixels', px, tol)
        if kind == 'tga':
            b, px, tol = texw.tga(r, r.choice(['tga32', 'tga24', 'tga24rle']), r.choice([4, 5]), r.choice([3, 6]))    # smaller ones than 26 bytes are not supported as real files by the library
            return b, ('pixels', px, tol)
        if kind == 'tex':
            fmt, w, h = r.choice([texw.BC1, texw.BC3, texw.BGRA8]), r.choice([1, 4, 5]), r.choice([1, 4, 7])
            b, full = texw.tex(r, fmt, w, h, r.random() < .5)
            px, tol = texw.decode(fmt, w, h, full)
            return b, ('pixels', px, tol)
        if kind == 'bin':
            g = binw.gen_file(r, age=age, version=3, xxh=wadw.path_hash)
            return g['data'], ('json', binw.Names({}).file(g['entries'], g['linked'], g['patches']))
        if kind == 'skn':
            m = sknw.gen(r, names=['Body', 'Head', 'Wings', 'b c', 'UP'])
            return m['data'], ('mesh', m)
        if kind == 'rst':
            v = r.choice([2, 3, 4, 5])
            es, seen = [], set()
            for i in range(r.choice([0, 1, 5])):
                k = f"key{r.randrange(100)}"
                if k not in seen:
                    seen.add(k)
                    es.append((rstw.key_hash(k, age), f"text {r.random()} é".encode(), False))
            mask = (1 << rstw.bits(v, age)) - 1
            return rstw.write(r, es, v, age), ('json', {'entries': {f"{{{h & mask:010x}}}": t.decode() for h, t, _ in es}, 'version': v})
        if kind == 'atlas':
            t = tabw.atlas(r, False, textures=r.choice([0, 1, 4]))
            return t['data'], ('json', tabw.atlas_json(t))
        if kind == 'skins':
            t = tabw.skins(r)
            return t['data'], ('json', tabw.skins_json(t))
        b = {'png': png, 'json': lambda r: json.dumps({'v': r.random()}).encode(), 'ttf': lambda r: b'\0\1\0\0' + r.randbytes(20), 'otf': lambda r: b'OTTO\0' + r.randbytes(20),
             'scb': lambda r: b'r3d2Mesh' + r.randbytes(9), 'ogg': lambda r: b'OggS' + r.randbytes(9), 'jpg': lambda r: b'\xff\xd8\xff\xdb' + r.randbytes(30)}.get(kind)
        if b:
            return b(r), None
        return r.choice([b'', b'text \xc3\xa9 ' + str(r.random()).encode(), b'\0\1\2' + r.randbytes(r.choice([1, 30, 4000]))]), None

    SIGS = {'dds': 'dds', 'tex': 'tex', 'bin': 'bin', 'skn': 'skn', 'png': 'png', 'json': 'json', 'ttf': 'ttf', 'otf': 'otf', 'scb': 'scb', 'ogg': 'ogg', 'jpg': 'jpg'}

    def random_item(self, kind=None, where=None):
        r = self.rng
        where = where or r.choice(self.containers)
        kind = kind or r.choice(self.kinds or ['dds', 'tga', 'tex', 'bin', 'bin', 'skn', 'rst', 'atlas', 'skins', 'png', 'json', 'ttf', 'otf', 'txt', 'other', 'other', 'scb', 'ogg', 'jpg', 'exe', 'noext', 'skinsbin', 'description'])
        ext = {'txt': '.txt', 'other': r.choice(['.lua', '.html', '.dat', '.skl', '.x']), 'exe': r.choice(['.exe', '.dll']), 'skinsbin': '.bin', 'rst': '.stringtable'}.get(kind, '.' + kind)
        ck = {'txt': 'text', 'other': 'text', 'exe': 'text', 'skinsbin': 'bin', 'description': 'json'}.get(kind, kind)
        sig = self.SIGS.get(ck)
        p = self.name()
        if kind == 'rst':
            p = r.choice(['', 'en_us/', 'x/']) + 'data/menu/' + r.choice(['', 'en_us/']) + f"t{r.randrange(40)}" + r.choice(['.txt', '.stringtable', '.stringtable'])
        elif kind == 'atlas':
            if r.random() < .5:
                p += f"_atlas{r.getrandbits(40):x}"       # stored without extension
                if '.' in p.rsplit('/')[-1]:
                    p = p.replace('.', '')
            else:
                p = f"assets/items/icons2d/autoatlas/{r.choice('abc')}{r.randrange(9)}/atlas_info.bin"
        elif kind == 'skins':
            p = 'global/champions/championskins.info'
        elif kind == 'noext':
            ck = r.choice(['png', 'text', 'ttf', 'json'])
            sig = self.SIGS.get(ck)
            p = p.replace('.', '') + f"n{r.getrandbits(40):x}"   # types are remembered per hash
        elif kind == 'skinsbin':
            p += r.choice(['_skins_', '_skins_root_skins_skin1', '_skins']) + '.bin'
        elif kind == 'description':
            p += r.choice(['/description.json'] * 2 + ['-description.json', '/my_description.json', '/description.json.txt'])
        else:
            p += ext
        if where[0] == 'client' and where[1].startswith('plugins/') and r.random() < .9:
            p = where[1].rsplit('/', 1)[0].lower() + '/global/default/' + p
        elif where[0] == 'plain':
            if r.random() < .3:
                p = p.replace('annie', 'Annie').replace('ux', 'UX')
        nv = r.choice([1, 2, 2, 3])
        variants = [self.content(ck) for _ in range(nv)]
        if r.random() < .4 and nv > 1 and variants[0][1] is None and len(variants[0][0]) > 8 and ck in ('text', 'png', 'jpg', 'ogg', 'scb', 'ttf', 'otf'):
            # another content of the same size
            b = bytearray(variants[0][0])
            b[-1 - r.randrange(min(4, len(b) - 8))] ^= 1
            variants[1] = bytes(b), None
        it = Item(where, p, ck, variants)
        it.ext = sig
        if where[0] != 'plain' and kind not in ('rst', 'skins', 'skinsbin', 'description', 'tga', 'exe') and r.random() < self.unknown:
            it.known = False
            # types are remembered per hash
            it.hash = r.getrandbits(64)
            if kind == 'atlas':
                it.kind = 'unsure'      # never converted: no name
        it.method = r.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD])
        return it

    def add(self, it):
        """Unless its files are in the way of another item's"""
        if it is None or it.path.lower() in NOT_NAMES:
            return False
        outs = set()
        for v in set(self.versions):
            outs |= set(self.outputs(it, 0, v, claim=True))
        raw = {o for o in outs}
        # plain names must not collide even if they are not exported
        raw.add(('raw', it.path.lower(), it.where[0] == 'game'))
        for o in outs:
            parts = o.split('/')
            if o in self.claimed or o in self.reserved or any('/'.join(parts[:i]) in self.claimed for i in range(1, len(parts))):
                return False
            if any(len(x.encode()) > 200 for x in parts):
                return False
        if ('raw', it.path.lower(), it.where[0] == 'game') in self.claimed:
            return False
        for o in outs:
            parts = o.split('/')
            self.claimed.add(o)
            self.reserved.update('/'.join(parts[:i]) for i in range(1, len(parts)))
        self.claimed |= raw
        self.items.append(it)
        return True

    def add_partner(self, it):
        """Another item, never present at the same time: the same file in another archive, or
        a file below the path of this one"""
        r = self.rng
        if not it.known or it in self.partner:
            return
        if r.random() < .5:
            others = [c for c in self.containers if c != it.where and c[0] == it.where[0] and c[0] != 'plain']
            if not others or it.kind == 'unsure':
                return
            b = Item(r.choice(others), it.path, it.kind, [x if r.random() < .5 else self.content(it.kind) for x in it.variants], it.ext)
            b.hash = it.hash
        else:
            if it.path.startswith('data/menu') or it.kind in ('rst', 'skins', 'atlas'):
                return
            k = r.choice(['text', 'png', 'bin', 'skn'])
            b = Item(it.where, f"{it.path}/{r.choice(['inner', 'Body.obj', 'x/y'])}" + {'text': '.txt', 'png': '.png', 'bin': '.bin', 'skn': '.skn'}[k], k, [self.content(k) for _ in range(2)])
            if it.kind == 'skn' and r.random() < .5:
                # a file in the place of the directory of a mesh, or in it
                b.path = stem(it.path) + r.choice(['/Body.obj.txt', '/sub/more.txt'])
                b.hash = wadw.path_hash(b.path)
                b.kind, b.variants, b.ext = 'text', [self.content('text')], None
        if b.path.lower() in NOT_NAMES:
            return
        b.method = it.method
        mine = set()
        for v in set(self.versions):
            for o in self.outputs(it, 0, v, claim=True):
                mine.add(o)
                mine.update('/'.join(o.split('/')[:i]) for i in range(1, o.count('/') + 1))
        outs = set()
        for v in set(self.versions):
            outs |= set(self.outputs(b, 0, v, claim=True))
        for o in outs:
            parts = o.split('/')
            if (o in self.claimed or o in self.reserved) and o not in mine or any('/'.join(parts[:i]) in self.claimed and '/'.join(parts[:i]) not in mine for i in range(1, len(parts))):
                return
            if len(o) > 200:
                return
        self.claimed |= outs
        for o in outs:
            self.reserved.update('/'.join(o.split('/')[:i]) for i in range(1, o.count('/') + 1))
        self.items.append(b)
        self.partner[it], self.partner[b] = b, it

    def settle(self, state):
        """Remove one of each pair of partners"""
        for it in list(state):
            b = self.partner.get(it)
            if b in state and it in state:
                del state[self.rng.choice([it, b])]
                self.traded += 1
        if self.data:
            self.data.settle(state)
        return state

    def generated(self, version):
        """{path below the export: content spec} of the data collected from the files"""
        return self.data.generated(version, self.states[version]) if self.data else {}

    # --- the naming and selection rules
    def export_path(self, it, version):
        """Path before conversion, or None if it is not exported"""
        kind, container = it.where
        if kind == 'plain':
            p = it.path
            if p.endswith('.exe') or p.endswith('.dll') or p.endswith('/description.json'):
                return None
            return p
        if it.known:
            p = it.path
            base = p.rsplit('/', 1)[-1]
            if not os.path.splitext(base)[1]:
                p += '.cdtb' + (f".{it.ext}" if it.ext else '')
        else:
            e = f".{it.ext}" if it.ext and it.variants[0][0] else ''
            p = f"{it.hash:016x}{e}"
            low = container.lower()
            if kind == 'client' and low.startswith('plugins/rcp-') and 'assets' in low.rsplit('/', 1)[-1]:
                p = f"{low.rsplit('/', 1)[0]}/unknown/{p}"
            else:
                p = f"unknown/{p}"
        if p.endswith('.exe') or p.endswith('.dll'):
            return None
        if kind == 'game':
            lang = container[:-len('.wad.client')].rsplit('/', 1)[-1].rsplit('.', 1)
            if len(lang) == 2 and len(lang[1]) == 5 and lang[1][2] == '_' and ver(version) >= (14, 4):
                return f"game/{lang[1].lower()}/{p}"
            return f"game/{p}"
        return p

    def outputs(self, it, i, version, claim=False):
        """{exported path: content spec} of a variant; None specs are directories or unknown"""
        if it.kind == 'evil':
            return {}
        p = self.export_path(it, version)
        if p is None:
            return {}
        data, conv = it.variants[i]
        if conv is UNREADABLE and not claim:
            return {}
        ext = os.path.splitext(p)[1]
        raw = ('bytes', data)
        if it.kind == 'atlas' and ext == '.bin':
            conv = conv if p.startswith('game/assets/') else None     # tables of language archives are not known as such
        game = p.startswith('game/')
        atlas = game and (p.endswith('.cdtb') or p.startswith('game/assets/items/icons2d/autoatlas/') and p.endswith('/atlas_info.bin'))
        if ext in ('.dds', '.tga', '.tex'):
            out = {stem(p) + '.png': conv}
        elif atlas:
            out = {p + '.json': conv}
        elif ext == '.bin' and game:
            if '_skins_' in p:
                return {}
            out = {p: raw, p + '.json': conv}
        elif ext == '.skn':
            out = {p: raw}
            if claim:
                out[stem(p)] = None
            else:
                out.update({f"{stem(p)}/{x['name']}.obj": ('part', conv[1], x) for x in conv[1]['parts']} if conv and conv[0] == 'mesh' else {})
        elif game and ext in ('.txt', '.stringtable') and 'data/menu/' in p:
            out = {p: raw, p + '.json': conv}
        elif p == 'game/global/champions/championskins.info':
            out = {p + '.json': conv}
        else:
            if it.where[0] == 'game' and ext not in GAME_KEEP:
                return {}
            out = {p: raw}
        # content that is not what its name says cannot be converted
        return out if claim else {o: x for o, x in out.items() if x is not None}

    def listed(self, it, version):
        """Paths in the list of exported files"""
        return list(self.outputs(it, 0, version, claim=True)) if it.variants else []

    def expected(self, version, state=None):
        """{exported path: content spec} of a full export"""
        out = {}
        for it, i in (state or self.states[version]).items():
            out.update(self.outputs(it, i, version))
        return out

    def unknown_hashes(self, version):
        return sorted({it.hash for it in self.states[version] if it.where[0] != 'plain' and not it.known})

    # --- states
    def make_states(self, p_same=.5, p_present=.8):
        """States from the oldest version on"""
        r = self.rng
        state = None
        for v in reversed(self.versions):
            new = {}
            for it in self.items:
                if state is not None and it in state and r.random() < p_same:
                    new[it] = state[it]
                elif r.random() < p_present:
                    new[it] = r.randrange(len(it.variants))
            state = self.settle(new)
            self.states[v] = state

    def write_source(self, data, name):
        p = os.path.join(self.src, f"{self.n_files:04d}", name)
        self.n_files += 1
        return wadw.write_file(p, data)

    def materialise(self, version, fresh=None):
        """Write the files of a version. Files equal to already written ones share their
        location, except archives with a probability of `fresh`."""
        r = self.rng
        fresh = r.choice([0, .3, 1]) if fresh is None else fresh
        state = self.states[version]
        wads, files = {}, {'client': [], 'game': []}
        for it, i in state.items():
            if it.where[0] == 'plain':
                k = (it, i)
                if k not in self.cache:
                    self.cache[k] = self.write_source(it.variants[i][0], os.path.basename(it.path) if it.kind != 'evil' else 'evil')
                files[r.choice(['client', 'client', 'game'])].append((self.cache[k], it.path, None))
            else:
                wads.setdefault(it.where, []).append((it, i))
        for where, its in wads.items():
            k = (where, tuple(sorted((it.hash, i) for it, i in its)))
            if k not in self.cache or r.random() < fresh:
                es = []
                for it, i in its:
                    data = it.variants[i][0]
                    es.append(wadw.entry(it.hash, data, it.method, checksum=int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), 'big'), **getattr(it, 'raw', {})))
                    if i in it.mangles:
                        es[-1]['checksum'] = r.getrandbits(64)
                        it.mangles[i](es[-1])
                wv, toc = r.choice(self.wad_versions), None
                if where[0] == 'game' and wv >= (3, 0) and r.random() < .35:
                    # the table of subchunks is not exported itself
                    chunked = [e for e, (it, i) in zip(es, its) if i not in it.mangles and not getattr(it, 'raw', None) and len(e['data']) > 3 and r.random() < .6]
                    for e in chunked:
                        e['method'] = wadw.CHUNKED
                        e['chunks'] = r.choice([1, 2, 5, 15])
                    if chunked:
                        toc = wadw.entry(wadw.path_hash(toc_path(where)), b'', r.choice([wadw.STORED, wadw.ZSTD]), checksum=r.getrandbits(64))
                        es.append(toc)
                        self.ctx.count('subchunked', len(chunked))
                r.shuffle(es)
                if r.random() < .15:
                    es.append(wadw.entry(r.getrandbits(64), b'', wadw.REDIRECT, redirect='a/b'))
                    self.redirects = getattr(self, 'redirects', 0) + 1
                self.cache[k] = self.write_source(wadw.write_wad(r, es, wv, toc=toc), os.path.basename(where[1]).replace('\0', ''))
            files['client' if where[0] == 'client' else 'game'].append((self.cache[k], where[1], None))
        for l in files.values():
            r.shuffle(l)
        self.elements[version] = [MemElement(n, version, 0, files[n]) for n in r.sample(['client', 'game'], 2)]
        return self.elements[version]

    def publish(self, key):
        """Hash lists and storage; returns the -s argument"""
        known = {'game': {}, 'client': {}}
        for it in self.items:
            if it.where[0] != 'plain' and it.known:
                known[it.where[0]][it.hash] = it.path
        for c in {it.where for it in self.items}:
            if c[0] == 'game':
                known['game'][wadw.path_hash(toc_path(c))] = toc_path(c)
        env.set_hashes('game', known['game'])
        env.set_hashes('lcu', known['client'])
        self.key = key
        self.refresh()
        return f"vfmem:{key}"

    def refresh(self):
        HISTORIES[self.key] = [e for v in self.versions for e in self.elements[v]]

    def storage(self):
        return MemStorage(self.key)

    def close(self):
        HISTORIES.pop(self.key, None)


class GameData:
    """The files TFT and Arena data are made of, as items of a world"""

    def __init__(self, w):
        self.w = w
        r, self.age = w.rng, as_int(w.versions[0])
        oldest = min(map(ver, w.versions))
        seed = r.getrandbits(64)
        make = lambda cls, twist, **kw: cls(random.Random(seed), self.age, named=False, twist=random.Random(r.getrandbits(64)) if twist else None, **kw)
        self.tft = [make(tftw.Tft, False, size=1), make(tftw.Tft, True, size=1), tftw.Tft(r, self.age, size=1, named=False)]
        self.by_path = {}
        for k, t in enumerate(self.tft):
            for p, b in t.files.items():
                self.by_path.setdefault(p, {})[k] = (b, ('json', binw.Names({}).file(t.nodes[b], [], None)))
        wad = r.choice(['data/final/maps/shipping/map22.wad.client', 'data/final/global.wad.client'])
        self.files = {}     # {path: (item, {k: variant})}
        for p, ks in self.by_path.items():
            variants, index = [], {}
            for k, x in ks.items():
                if x not in variants:
                    variants.append(x)
                index[k] = variants.index(x)
            it = Item(('game', wad if p == tftw.MAP22 or r.random() < .5 else 'data/final/champions/tft.wad.client'), p, 'bin', variants, 'bin')
            self.files[p] = (it, index)
            self.add(it)
        self.leader = self.files[tftw.MAP22][0]
        self.leader.variants = [x for k, x in sorted(self.by_path[tftw.MAP22].items())]
        self.files[tftw.MAP22] = (self.leader, {k: k for k in range(3)})
        self.arena = None
        if any(has_arena(v) for v in w.versions):
            self.arena = [make(tftw.Arena, False), make(tftw.Arena, True), tftw.Arena(r, self.age, named=False)]
            self.map30 = Item(('game', 'data/final/maps/shipping/map30.wad.client'), tftw.MAP30, 'bin', [(a.files[tftw.MAP30], ('json', binw.Names({}).file(a.nodes[a.files[tftw.MAP30]], [], None))) for a in self.arena], 'bin')
            self.add(self.map30)
        # string tables
        self.style = r.choice(['lang_main', 'lang_game', 'main']) if oldest >= (14, 4) else r.choice(['fontconfig', 'main']) if oldest >= (10, 9) else r.choice(['text', 'fontconfig'])
        keys = {x for t in self.tft + (self.arena or []) for x in t.table_keys()}
        self.tables = {}    # {(game, language): (item, [translation])}
        for game in ['tft', 'lol'] if self.style == 'lang_game' else ['']:
            if game == 'lol' and not self.arena:
                continue
            for lang in r.sample(tftw.LANGS, 2):
                variants, trs = [], []
                for _ in range(2):
                    files, tr = tftw.tables(r, self.age, self.style, game, keys, [lang])
                    (p, b), = files.items()
                    conv = None
                    if p in files.texts:
                        mask = (1 << rstw.bits(b[3], self.age)) - 1
                        conv = ('json', {'entries': {f"{{{rstw.key_hash(k, self.age) & mask:010x}}}": x for k, x in files.texts[p].items()}, 'version': b[3]})
                    variants.append((b, conv))
                    trs.append(tr[lang])
                where = f"data/final/localized/global.{lang}.wad.client" if self.style.startswith('lang') or r.random() < .4 else 'data/final/global.wad.client'
                # languages have a directory of their own since 14.4
                if self.style.startswith('lang'):
                    p = p[len(lang) + 1:]
                elif where.count('.') > 2 and ver(w.versions[0]) >= (14, 4):
                    where = 'data/final/global.wad.client'
                it = Item(('game', where), p, 'rst', variants)
                self.tables[game, lang] = (it, trs)
                self.add(it)
        self.items = {it for it, _ in list(self.files.values()) + list(self.tables.values())} | ({self.map30} if self.arena else set())

    def add(self, it):
        w = self.w
        it.method = w.rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD])
        outs = {o for v in w.versions for o in w.outputs(it, 0, v, claim=True)}
        assert not outs & w.claimed, outs & w.claimed
        w.claimed |= outs
        for o in outs:
            w.reserved.update('/'.join(o.split('/')[:i]) for i in range(1, o.count('/') + 1))
        w.items.append(it)

    def settle(self, state):
        r = self.w.rng
        k = state.setdefault(self.leader, r.randrange(3))
        for it, index in self.files.values():
            if k in index:
                state[it] = index[k]
            else:
                state.pop(it, None)
        if self.arena:
            state.setdefault(self.map30, r.randrange(3))
        for game in {g for g, _ in self.tables}:
            ts = [it for (g, _), (it, _) in self.tables.items() if g == game]
            if not any(it in state for it in ts):
                state[r.choice(ts)] = r.randrange(2)

    def generated(self, version, state):
        out = {}
        for (game, lang), (it, trs) in self.tables.items():
            if it not in state:
                continue
            tr = trs[state[it]]
            if game != 'lol' and has_tft(version):
                out[f"cdragon/tft/{lang}.json"] = ('tft', self.tft[state[self.leader]].expected(tr))
            if game != 'tft' and has_arena(version):
                out[f"cdragon/arena/{lang}.json"] = ('arena', self.arena[state[self.map30]].expected(tr))
        return out


def same_content(ctx, got, spec, what):
    """Does exported data have the specified content?"""
    kind = spec[0]
    if kind == 'bytes':
        ctx.check(got == spec[1], 'content', f"{what}: content differs ({len(got)} bytes instead of {len(spec[1])})")
    elif kind == 'pixels':
        import io
        from PIL import Image
        im = Image.open(io.BytesIO(got)).convert('RGBA')
        acc = im.load()
        ctx.equal(im.size, (max(x for x, _ in spec[1]) + 1, max(y for _, y in spec[1]) + 1), 'size', f"{what}: image size")
        for (x, y), p in spec[1].items():
            ctx.check(all(b is None or abs(a - b) <= spec[2] for a, b in zip(acc[x, y], p)), 'pixels', f"{what}: pixel {x},{y} is {acc[x, y]} instead of {p}")
    elif kind == 'json':
        d = binw.same_json(json.loads(got.decode('utf-8')), json.loads(json.dumps(spec[1])))
        ctx.check(d is None, 'json', f"{what}: {d}")
    elif kind in ('tft', 'arena'):
        d = (tftw.same_tft if kind == 'tft' else tftw.same_arena)(json.loads(got.decode('utf-8')), spec[1])
        ctx.check(d is None, kind, f"{what}: {d}")
        ctx.count(f"generated_{kind}")
    elif kind == 'part':
        r = sknw.parse_obj(got.decode())
        ctx.check(not isinstance(r, str), 'mesh', f"{what}: {r}")
        vs, tris = sknw.part_model(spec[1], spec[2])
        ctx.check(r[0] == [x['position'] for x in vs] and [[a - 1 for a, _, _ in f] for f in r[3]] == [list(t) for t in tris], 'mesh', f"{what}: geometry differs")


def exports_data(ctx, rng, kind, versions):
    """The data of `kind` (tft or arena) in an export of a whole patch"""
    from .mem import run_cli
    vs = rng.choice(versions)
    for k in env.HASH_NAMES:
        env.set_hashes(k, {})
    w = World(ctx, rng, vs, n=rng.choice([0, 3]))
    w.make_states(p_same=.5, p_present=1)
    for v in reversed(vs):
        w.materialise(v)
    s = w.publish(f"d{ctx.index}")
    out = ctx.dir('out')
    for i, v in list(enumerate(vs))[::-1]:
        links = i + 1 < len(vs) and rng.random() < .6
        run_cli(['export', '-s', s, '-o', out, *(['--symlinks', '--previous', vs[i + 1]] if links else ['--full']), v])
        want = {p: x for p, x in w.generated(v).items() if x[0] == kind}
        d = os.path.join(out, v, 'cdragon', kind)
        got = {n: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d)} if os.path.isdir(d) else {}
        ctx.equal(sorted(f"cdragon/{kind}/{n}" for n in got), sorted(want), 'languages', f"export of {v}: files")
        for p, x in want.items():
            same_content(ctx, got[os.path.basename(p)], x, f"export of {v}: {p}")
        ctx.count('exported languages', len(want))
        ctx.count('exports with links' if links else 'exports in full')
    ctx.nontrivial('export', tuple(vs), w.data.style, sorted((p, str(x)[:4000]) for p, x in want.items()))
    w.close()
