"""A simulated patcher CDN: manifests, bundles, and the two configuration services."""
import hashlib
import json
import pyzstd
import requests
from . import rman
from .net import Net, Reply

BASE = 'https://lol.dyn.riotcdn.net/'
CONFIG = 'https://clientconfig.rpg.riotgames.com/api/v1/config/public?namespace=keystone.products.league_of_legends.patchlines'
FLAGS = [(1, 'en_US'), (2, 'fr_FR'), (3, 'ko_KR'), (4, 'windows'), (5, 'x_y'), (6, 'de_de'), (7, 'EN_gb'), (9, 'zh_CN'), (33, 'pt_BR'), (41, 'macos'), (64, 'ja_JP')]


def chunk_id(data):
    return int.from_bytes(hashlib.sha256(data).digest()[:8], 'big') or 1


class Cdn:
    def __init__(self, rng):
        self.rng = rng
        self.chunks = {}        # chunk id -> (bundle id, offset, csize, size)
        self.bundle_data = {}   # bundle id -> bytes
        self.bundle_chunks = {}
        self.manifests = {}     # manifest id -> bytes
        self.manifest_files = {}    # manifest id -> {path: dict(content, flags, link, chunks)}
        self.published = {}     # patchline -> {'client': url, 'game': url}
        self.faults = {}        # url -> callable() -> Reply or None
        self.delay = None       # callable(url) -> seconds
        self.cut = None
        self.net = Net(self.handle)
        self.extra = {}
        self.twins = False      # add files whose chunk lists are easily confused
        self.ids = {}           # piece -> chosen chunk id

    def cid(self, piece):
        return self.ids.get(piece) or chunk_id(piece)

    def twin_files(self):
        """Files with similar chunk lists: {path: (pieces, flags)}"""
        rng = self.rng
        a, b, c, d = (rng.randbytes(12) for _ in range(4))
        kind = rng.choice(['order', 'repeat', 'digits', 'half', 'sum', 'bits', 'bits', 'prefix'])
        if kind == 'order':
            l = [[a, b, c], [c, a, b], [b, a, c]]
        elif kind == 'repeat':
            l = [[a, b], [a, a, b], [a, b, b], [a, b, a]]
        elif kind == 'prefix':
            l = [[a], [a, b], [a, b, c], [b, c]]
        else:
            if kind == 'digits':
                x = ''.join(rng.choice('123456789ABCDEF') for _ in range(rng.choice([4, 9, 20])))
                cut = rng.sample(range(max(1, len(x) - 16), min(len(x), 17)), 2)
                ids = [int(x[:cut[0]], 16), int(x[cut[0]:], 16), int(x[:cut[1]], 16), int(x[cut[1]:], 16)]
            elif kind == 'half':
                h = [rng.getrandbits(32) or 1 for _ in range(4)]
                ids = [h[0] << 32 | h[1], h[2] << 32 | h[3], h[0] << 32 | h[3], h[2] << 32 | h[1]]
            elif kind == 'bits':
                # a few bits of one chunk id differ
                n = [rng.getrandbits(64) or 1 for _ in range(2)]
                m = rng.choice([1 << rng.randrange(64), 0xff << 8 * rng.randrange(8), 0xffffffff << 32])
                ids = [n[0], n[1], *rng.choice([[n[0] ^ m, n[1]], [n[0], n[1] ^ m], [n[0] ^ m, n[1] ^ m]])]
            else:
                n = [rng.getrandbits(60) + 9 for _ in range(2)]
                ids = [n[0], n[1], n[0] - 5, n[1] + 5]
            if kind == 'bits':
                ids4 = dict(zip((a, b, c, d), ids))
                if ids[2] == ids[0]: c = a
                if ids[3] == ids[1]: d = b
                ids = [ids4[x] for x in dict.fromkeys((a, b, c, d))]
                if len(set(ids)) == len(ids) and not any(i in self.chunks or i in self.ids.values() or not i for i in ids):
                    self.ids.update(zip(dict.fromkeys((a, b, c, d)), ids))
            elif len(set(ids)) == 4 and not any(i in self.chunks or i in self.ids.values() or not i for i in ids):
                self.ids.update(zip((a, b, c, d), ids))
            l = [[a, b], [c, d]]
        n = rng.getrandbits(32)
        return {f"{rng.choice(['', 'tw/'])}t{n}-{i}": ps for i, ps in enumerate(l)}

    # --- building releases

    def add_chunks(self, pieces):
        """Store pieces of content that are not stored yet, in new bundles"""
        new = [p for p in dict.fromkeys(pieces) if self.cid(p) not in self.chunks]
        while new:
            k = self.rng.choice([1, 2, 3, 6, 20])
            group, new = new[:k], new[k:]
            bid = self.rng.getrandbits(64) or 1
            data, lst = b'', []
            for p in group:
                c = pyzstd.compress(p, 3)
                self.chunks[self.cid(p)] = (bid, len(data), len(c), len(p))
                lst.append((self.cid(p), len(c), len(p)))
                data += c
            self.bundle_data[bid] = data
            self.bundle_chunks[bid] = lst

    def split(self, content):
        out = []
        while content:
            n = self.rng.choice([1, 5, 40, 300, 5000, len(content)])
            out.append(content[:n]); content = content[n:]
        return out

    def add_manifest(self, files):
        """files: {path: dict(content=bytes, flags=[ids], link=str)} -> manifest URL"""
        rng = self.rng
        pieces, entries, used = [], [], set()
        twins = self.twin_files() if self.twins and rng.random() < .5 else {}
        for path, ps in twins.items():
            files[path] = {'content': b''.join(ps), 'flags': rng.choice([[], [], [4]]), 'link': ''}
        for path, f in files.items():
            ps = twins[path] if path in twins else self.split(f['content']) if not f.get('link') else []
            if ps and path not in twins and rng.random() < .2 and path not in ('system.yaml', 'content-metadata.json'):
                # the same chunk may occur several times in a file
                f['content'] += ps[0]; ps.append(ps[0])
            f['pieces'] = ps
            pieces += ps
        rng.shuffle(pieces)
        self.add_chunks(pieces)
        dirs, dids = [], {}
        for path in files:
            parts = path.split('/')[:-1]
            for i in range(1, len(parts) + 1):
                p = '/'.join(parts[:i])
                if p not in dids:
                    dids[p] = len(dids) + 1
                    dirs.append((dids[p], dids.get('/'.join(parts[:i - 1])), parts[i - 1]))
        for n, (path, f) in enumerate(files.items()):
            d, _, name = path.rpartition('/')
            f['chunks'] = [self.cid(p) for p in f['pieces']]
            used |= {self.chunks[c][0] for c in f['chunks']}
            entries.append({'id': n + 1, 'dir': dids.get(d), 'size': len(f['content']) if not f.get('link') else 0, 'name': name,
                            'flag_ids': f.get('flags', []), 'chunks': f['chunks'], 'link': f.get('link', '')})
        # bundles that no file of this manifest uses may be listed as well
        blist = sorted(used | set(rng.sample(sorted(self.bundle_data), min(len(self.bundle_data), rng.choice([0, 0, 2])))))
        rng.shuffle(blist)
        rng.shuffle(entries)
        mid = rng.getrandbits(64)
        self.manifests[mid] = rman.write_manifest(rng, [(b, self.bundle_chunks[b]) for b in blist], FLAGS, entries, dirs, manifest_id=mid)
        self.manifest_files[mid] = files
        host = rng.choice(['https://lol.dyn.riotcdn.net/', 'https://lol.secure.dyn.riotcdn.net/'])
        return f"{host}channels/public/releases/{mid:016X}.manifest"

    @staticmethod
    def mid(url):
        return int(url.rsplit('/', 1)[1].split('.')[0], 16)

    def files_of(self, url):
        return self.manifest_files[self.mid(url)]

    def bundles_of(self, files):
        """Bundles needed by an iterable of file descriptions"""
        return {self.chunks[c][0] for f in files for c in f['chunks']}

    def publish(self, patchline, client, game):
        self.published[patchline] = {'client': client, 'game': game}

    # --- serving

    def handle(self, url):
        f = self.faults.get(url)
        if f is not None:
            r = f()
            if r is not None:
                return r
        r = self.serve(url)
        if r is not None:
            r.cut = self.cut
            if self.delay:
                r.delay = self.delay(url)
        return r

    def serve(self, url):
        if url in self.extra:
            return Reply(200, self.extra[url])
        if url.startswith(BASE + 'channels/public/'):
            kind, _, name = url[len(BASE + 'channels/public/'):].partition('/')
            i = name.split('.')[0]
            if kind == 'releases' and int(i, 16) in self.manifests and name == f"{int(i, 16):016X}.manifest":
                return Reply(200, self.manifests[int(i, 16)])
            if kind == 'bundles' and int(i, 16) in self.bundle_data and name == f"{int(i, 16):016X}.bundle":
                return Reply(200, self.bundle_data[int(i, 16)])
            return None
        if url == CONFIG:
            return Reply(200, self.client_config())
        if url.startswith('https://sieve.services.riotcdn.net/api/v1/products/lol/version-sets/'):
            platform = url.split('version-sets/')[1].split('?')[0]
            pl = {'EUW1': 'live', 'PBE1': 'pbe'}.get(platform)
            if pl not in self.published:
                return None
            return Reply(200, json.dumps({'releases': [{'release': {}, 'download': {'url': self.published[pl]['game'], 'scd_required': True}}]}).encode())
        return None

    def client_config(self):
        data = {}
        for pl, urls in self.published.items():
            conf = [{'id': i, 'patch_url': u} for i, u in (('NA', BASE + 'channels/public/releases/00000000000000FF.manifest'), ('PBE_TEST' if pl == 'pbe' else 'EUW2', BASE + 'channels/public/releases/00000000000000FD.manifest'), ('EUW' if pl == 'pbe' else 'PBE', BASE + 'channels/public/releases/00000000000000FC.manifest'), ('PBE' if pl == 'pbe' else 'EUW', urls['client']), ('KR', BASE + 'channels/public/releases/00000000000000FE.manifest'))]
            self_rng = self.rng
            self_rng.shuffle(conf)
            data[f"keystone.products.league_of_legends.patchlines.{pl}"] = {'platforms': {'mac': {'configurations': []}, 'win': {'configurations': conf}}}
        return json.dumps(data).encode()


def gen_files(rng, kind, version, n=None, prev=None):
    """Files of a release element, evolving from those of a previous release"""
    files = {}
    names = ['DATA/FINAL/Map1.wad.client', 'DATA/FINAL/Map1.en_US.wad.client', 'Plugins/rcp-be-x/assets.wad', 'a.dll', 'Data/b.bin', 'é/日本.txt', 'sub/deep/er/x.json', 'x y.txt', 'README']
    names += [f"f{i}" for i in range(6)] + [f"Dir{i}/G{j}.dat" for i in range(2) for j in range(3)]
    names += rng.sample(['readme', 'dir0/g0.dat', 'F1', 'dir1/G2.DAT', 'X Y.txt', 'F1.en_US', 'sub/Deep/er/x.json'], rng.choice([0, 2, 5]))     # names that differ in letter case only
    names += rng.sample(['Straße.txt', 'İce/ÀÉ.DAT', 'ŉ.bin', 'ΣΑΣ/ΟΔΟΣ.txt'], rng.choice([0, 0, 1, 2]))     # letters whose case is not simple
    if kind == 'game':
        # both elements of a release are extracted in the same directory
        names = ['g-' + n for n in names]
    rng.shuffle(names)
    pool = [rng.randbytes(rng.choice([1, 10, 100, 3000])) for _ in range(3)]
    for name in names[:rng.choice([0, 1, 3, 6, 12]) if n is None else n]:
        if prev and name in prev and rng.random() < .6 and not prev[name].get('link'):
            files[name] = {k: prev[name][k] for k in ('content', 'flags', 'link')}
            continue
        r = rng.random()
        content = b'' if r < .06 else rng.choice(pool) if r < .35 else rng.randbytes(rng.choice([1, 20, 700, 20000]))
        fl = rng.choice([[], [], [], [1], [2], [1, 2], [4], [3, 4], [5], [9], [1, 4, 9], [6], [7], [4, 7], [33], [64], [4, 41], [2, 33, 64]])
        files[name] = {'content': content, 'flags': fl, 'link': ''}
    if rng.random() < .4:
        files[rng.choice(['link1', 'Dir0/ln'] if kind == 'client' else ['g-link1', 'g-Dir0/ln'])] = {'content': b'', 'flags': rng.choice([[], [1]]), 'link': rng.choice(['README', '../x'])}
    if kind == 'client':
        form = rng.choice(["branch: 'Release/{v}'", 'game-branch: "{v}"', "  branch: Release/{v}", "branch: 'Releases/{v}'"])
        lines = ["# system", "rads:", "    solution: x", *rng.choice([[], ["old-branch: 'Release/1.1'"], ["last_branch: '1.2'", "# branch: '1.3'"]])] * rng.randrange(2) + [form.format(v=version)] + ["other: 'Release/1.1'", 'branchy: "3.3"'] * rng.randrange(2)
        files['system.yaml'] = {'content': ('\n'.join(lines) + '\n').encode(), 'flags': [], 'link': ''}
    else:
        files['content-metadata.json'] = {'content': json.dumps({'version': f"{version}.{rng.randrange(1, 999)}.{rng.randrange(1, 9999)}+branch.releases-{version}.content.release", 'x': '1.1.1'}).encode(), 'flags': [], 'link': ''}
    return files


def selected(files, langs):
    """Model of the language selection; flags as texts from FLAGS"""
    text = dict(FLAGS)
    out = {}
    for p, f in files.items():
        fl = [text[i] for i in f['flags']]
        if langs is True:
            ok = True
        elif langs is False:
            # a locale flag is two letters, an underscore, two letters
            ok = not any(len(x) == 5 and x[2] == '_' for x in fl)
        else:
            ls = [langs] if isinstance(langs, str) else list(langs)
            ls = [getattr(l, 'value', l).lower() for l in ls]
            ok = any(x.lower() in ls for x in fl)
        if ok:
            out[p] = f
    return out
