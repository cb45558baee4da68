"""RADS server simulator: solutions, projects, packages, with faults."""
import gzip
import zlib
from .net import Net, Reply
from .pe import exe

URL = 'http://l3cdn.riotgames.com/releases/live/'
URL_PBE = 'http://l3cdn.riotgames.com/releases/pbe/'
SLN = {'client': 'league_client_sln', 'game': 'lol_game_client_sln'}
MAIN = {'league_client_sln': ('league_client', 'system.yaml'), 'lol_game_client_sln': ('lol_game_client', 'League of Legends.exe')}
from .hashw import ALL_LANGS as LANGS


def system_yaml(rng, version):
    line = rng.choice([f"branch: 'Release/{version}'", f'    game-branch: "Release/{version}"', f"game-branch: Release/{version}", f"    branch: '{version}'", f'branch: "{version}"'])
    other = [f"branch_name: foo", "region: EUW", "  build_id: 12", f"# branch: x", "build_date: 'Release/1.1 x'", "parent-branch: 'Release/1.1'", "branches: '2.2'", "    last-game-branch: Release/1.2"]
    lines = rng.sample(other, rng.randrange(len(other)))
    lines.insert(rng.randrange(len(lines) + 1), line)
    return ('\n'.join(lines) + '\n').encode()


def compress(rng, data):
    if rng.random() < .8:
        return zlib.compress(data, rng.choice([0, 1, 9]))
    return gzip.compress(data, rng.choice([1, 9]))


class Rads:
    """projects: {(name, version): {'files': {extract path: content}, 'lines': [...], 'packages': {name: bytes}, 'gone': bool}}
    solutions: {(name, version): manifest text}; listings: {name: [versions]}"""

    def __init__(self, rng, base=URL):
        self.rng, self.base = rng, base
        self.projects, self.solutions, self.listings = {}, {}, {}
        self.stored = {}            # path -> content, for all versions
        self.faults = {}            # url -> function() -> Reply
        self.cut = None
        self.delay = None
        self.net = Net(self.serve_all)

    def serve_all(self, url):
        if url in self.faults:
            return self.faults[url]()
        r = self.serve(url)
        if r is not None and url.endswith(('manifest', 'releaselisting')):
            # servers don't always know the encoding of these texts
            t = self.rng.choice([None, None, 'application/octet-stream', 'text/plain', 'text/plain; charset=ISO-8859-1'])
            if t is not None:
                r.headers['content-type'] = t
        if r is not None and self.cut:
            r.cut = self.cut
        return r

    def serve(self, url):
        if not url.startswith(self.base):
            return None
        p = url[len(self.base):].replace('%20', ' ').split('/')
        if p[0] == 'solutions' and p[2] == 'releases':
            if p[3] == 'releaselisting' and len(p) == 4:
                return Reply(200, '\r\n'.join(self.listings.get(p[1], [])).encode() + (b'\r\n' if self.listings.get(p[1]) and self.rng.random() < .5 else b'')) if p[1] in self.listings else None
            if len(p) == 5 and p[4] == 'solutionmanifest':
                m = self.solutions.get((p[1], p[3]))
                return Reply(200, m) if m is not None else None
        if p[0] == 'projects' and p[2] == 'releases' and len(p) > 4:
            pr = self.projects.get((p[1], p[3]))
            if pr is None:
                return None
            if p[4] == 'releasemanifest':
                return Reply(200, pr['releasemanifest'])
            if p[4:6] == ['packages', 'files'] and len(p) == 7:
                if p[6] == 'packagemanifest':
                    return None if pr.get('gone') else Reply(200, pr['manifest'])
                b = pr['packages'].get(p[6])
                return None if b is None else Reply(200, b)
        return None

    def url(self, path):
        return self.base + path

    def add_project(self, name, version, contents, npackages=None, gaps=True):
        """contents: {path below files/: (content, compressed?, stored version)}"""
        rng = self.rng
        n = npackages or rng.choice([1, 1, 2, 3])
        pk = [f"BIN_0x{i:08x}" for i in range(n)]
        body = {p: bytearray() for p in pk}
        files, lines, where = {}, [], {}
        items = list(contents.items())
        rng.shuffle(items)
        for path, (content, comp, v) in items:
            p = rng.choice(pk)
            # a path names the same file in every version that lists it
            content = self.stored.setdefault(f"projects/{name}/releases/{v}/files/{path}", content)
            if gaps and rng.random() < .4:
                body[p] += rng.randbytes(rng.choice([1, 3, 64, 1000]))
            stored = compress(rng, content) if comp else content
            full = f"projects/{name}/releases/{v}/files/{path}"
            lines.append(f"/{full}{'.compressed' if comp else ''},{p},{len(body[p])},{len(stored)},{rng.choice([0, 5, 6, 22])}")
            body[p] += stored
            files[full] = content
            where[full] = p
        if gaps:
            for p in pk:
                if rng.random() < .3:
                    body[p] += rng.randbytes(rng.randrange(200))
        rng.shuffle(lines)
        nl = rng.choice(['\n', '\r\n'])
        text = f"PKG1{nl}" + ''.join(l + nl for l in lines)
        if lines and rng.random() < .3:
            text = text[:-len(nl)]
        self.projects[name, version] = {'files': files, 'where': where, 'manifest': text.encode(), 'packages': {p: bytes(b) for p, b in body.items()}, 'releasemanifest': b'RLSM' + rng.randbytes(30)}
        return files

    def add_solution(self, name, version, projects, langs, optional=()):
        """projects: {project: version}; langs: {code: [project]}"""
        rng = self.rng
        lines = ["RADS Solution Manifest", "1.0.0.0", name, version, str(len(projects))]
        for p, v in projects.items():
            lines += [p, v, '10' if p in optional else '0', '0']
        lines.append(str(len(langs)))
        for l, deps in langs.items():
            lines += [l, '0', str(len(deps))] + list(deps)
        nl = rng.choice(['\n', '\r\n'])
        self.solutions[name, version] = (nl.join(lines) + rng.choice(['', nl])).encode()


def gen_content(rng):
    k = rng.randrange(6)
    if k == 0:
        return b''
    if k == 1:
        return rng.randbytes(rng.randrange(1, 20))
    if k == 2:
        return bytes([rng.randrange(256)]) * rng.randrange(1, 4000)
    return rng.randbytes(rng.randrange(1, 3000))


def gen_contents(rng, version, n=8, prefix=''):
    out = {}
    for i in range(rng.randrange(0, n + 1)):
        path = prefix + rng.choice(['', 'DATA/', 'DATA/Menu/', 'a/b c/', 'Plugins/rcp-be/', 'files/']) + rng.choice(['File', 'x', 'été', 'a b']) + str(i) + rng.choice(['', '.txt', '.wad', '.compressed.bin', '.LUAOBJ'])
        out[path] = (gen_content(rng), rng.random() < .5, older(rng, version) if rng.random() < .4 else version)
    return out


def older(rng, version):
    t = [int(x) for x in version.split('.')]
    t[3] = rng.randrange(t[3] + 1)
    return '.'.join(map(str, t))


def main_project(rads, rng, sln, version, patch, n=4, present=True):
    """The project that holds the version file of a solution"""
    pname, fname = MAIN[sln]
    c = gen_contents(rng, version, n)
    if present:
        data = system_yaml(rng, patch) if fname == 'system.yaml' else exe(rng.choice([patch + '.1.2', patch + '.123.4567']), rng.randbytes(rng.randrange(50)))
        d, v = rng.choice(['', 'deploy/', 'RADS/']), version if rng.random() < .7 else older(rng, version)
        while f"projects/{pname}/releases/{v}/files/{d}{fname}" in rads.stored:
            d += rng.choice('abc') + '/'
        c[d + fname] = (data, rng.random() < .6, v)
        if rng.random() < .3:
            # similar names do not count
            c[rng.choice(['', 'deploy/']) + rng.choice(['old', 'my ', 'x_']) + fname] = (system_yaml(rng, '3.3') if fname == 'system.yaml' else exe('3.3.1.1'), rng.random() < .5, version)
    else:
        c.pop(fname, None)
    rads.add_project(pname, version, c)
    return pname
