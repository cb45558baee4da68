"""C37 RADS components are named, listed and ordered consistently"""
import os
from vf.core import Scenario
from vf.rads import Rads, LANGS, URL, MAIN, SLN, gen_contents, main_project
from vf.mem import tree, files_only
from cdtb.rads import (RadsStorage, RadsSolution, RadsSolutionVersion, RadsProject, RadsProjectVersion, RadsVersion, parse_rads_component)
from cdtb.storage import Patch

PROPERTY = 'C37'
RULE = "a case is one set of projects and solutions on a server and in a storage, with all the texts, listings and comparisons tried on it; distinct signature = (names and versions, texts or operations)"
ASSUMPTIONS = ["the server lists the releases of a project newest first and lists at least one", "versions are four numbers, written as such"]
NAMES = ['lol_game_client', 'league_client', 'lol_game_client_en_us', 'x', 'patch2', 'a_sln_b', 'Lol_X', 'p', 's', 'sln']
SLNS = ['league_client_sln', 'lol_game_client_sln', 'lol_air_client_config_sln', 'x_sln', '_sln']


def versions(rng, n=None):
    n = rng.choice([1, 2, 5]) if n is None else n
    vs = {(0, 0, rng.choice([0, 1, 2]), rng.choice([0, 1, 2, 9, 10, 11, 99, 100, 255])) for _ in range(n)}
    return ['.'.join(map(str, v)) for v in sorted(vs, reverse=True)]


def world(ctx, rng):
    srv = Rads(rng)
    projects = {n: versions(rng) for n in rng.sample(NAMES, rng.choice([1, 3, 5]))}
    solutions = {n: versions(rng) for n in rng.sample(SLNS, rng.choice([1, 2, 4]))}
    if rng.random() < .3:
        # a forced type: any name may be that of a solution
        solutions['other'] = versions(rng)
    if rng.random() < .3:
        projects['odd_sln'] = versions(rng)
    listings = {}
    for n, vs in projects.items():
        listings[f"{URL}projects/{n}/releases/releaselisting"] = vs
    for n, vs in solutions.items():
        vs = list(vs)
        if rng.random() < .5:
            rng.shuffle(vs)
        listings[f"{URL}solutions/{n}/releases/releaselisting"] = vs
    eol = rng.choice(['\r\n', '\n'])
    base_serve = srv.serve

    def serve(url):
        if url in listings:
            from vf.net import Reply
            return Reply(200, eol.join(listings[url]).encode() + (eol.encode() if rng.random() < .5 else b''))
        return base_serve(url)
    srv.serve = serve
    return srv, projects, solutions


def view(c):
    """(kind, name, version) of a component"""
    if isinstance(c, RadsProject):
        return 'project', c.name, None
    if isinstance(c, RadsProjectVersion):
        return 'project', c.project.name, str(c.version)
    if isinstance(c, RadsSolution):
        return 'solution', c.name, None
    if isinstance(c, RadsSolutionVersion):
        return 'solution', c.solution.name, str(c.version)
    if isinstance(c, Patch):
        return 'patch', None, str(c.version)
    return 'other', repr(c), None


def texts(ctx, rng, tier):
    """Component texts"""
    srv, projects, solutions = world(ctx, rng)
    st = RadsStorage(os.path.join(ctx.dir(), 'rads'))
    st.patch  # the patches are those of the storage
    asked = []
    for kind, table in (('projects', projects), ('solutions', solutions)):
        # the latest version is the one on the server, whatever is stored
        for n, vs in table.items():
            for v in rng.sample(vs, rng.randrange(len(vs) + 1)):
                os.makedirs(f"{st.path}/{kind}/{n}/releases/{v}")
    st.patch = lambda v, **kw: asked.append(v) or ('the patch', v)
    with srv.net.active():
        for kind, table, pre in (('project', projects, 'p:'), ('solution', solutions, 's:')):
            for name, vs in table.items():
                plain = 'solution' if name.endswith('_sln') else 'project'
                for prefix in [pre] + ([''] if plain == kind else []):
                    v = rng.choice(vs + ['0.0.0.77', '0.0.1.2', '10.0.0.1', '0.12.345.6789'])
                    for text, exp in ((f"{prefix}{name}", None), (f"{prefix}{name}=", vs[0]), (f"{prefix}{name}={v}", v)):
                        try:
                            got = parse_rads_component(st, text)
                        except ValueError as e:
                            ctx.violation('valid-rejected', f"{text!r} is rejected: {e}")
                        ctx.equal(view(got), (kind, name, exp), 'component', f"component {text!r}")
                        ctx.count('components: ' + kind)
                        ctx.nontrivial(text)
        for text, exp in (('patch=', None), ('patch=7.1', '7.1'), ('patch=main', 'main'), *((f'patch={x}', x) for x in rng.sample(['10.1', '4.20', '10.25', '9.24', '15.1', '26.10'], 2))):
            asked.clear()
            got = parse_rads_component(st, text)
            ctx.equal([None if v is None else str(v) for v in asked], [exp], 'patch', f"patch asked for by {text!r}")
            ctx.equal(got[0], 'the patch', 'patch', f"component {text!r}")
        for text in ('', '=', 'patch', 'x:y', 'q:name=0.0.0.1', 's:', 'p:', 'p:=0.0.0.1', 'a b', 'name=x', 'name=0.0.0.1x', 'name=0..1', 'name=.1', 'name=0.0.0.1.', 'na-me', 'name==', ' name', 'name =', 's:a:b', 'x/y', '../x', 'p:x/../y=0.0.0.1', 'name=0.0.0.1=2', 'sp:name'):
            try:
                got = parse_rads_component(st, text)
            except ValueError:
                ctx.count('components rejected')
            else:
                ctx.violation('invalid-accepted', f"{text!r} is accepted as {got!r}")


def listings(ctx, rng, tier):
    """What is on the server and what is in the storage"""
    srv, projects, solutions = world(ctx, rng)
    base = os.path.join(ctx.dir(), 'rads')
    st = RadsStorage(base)
    have = {'projects': set(), 'solutions': set()}
    stored = {}
    for kind, table in (('projects', projects), ('solutions', solutions)):
        os.makedirs(f"{base}/{kind}", exist_ok=True)
        for n, vs in table.items():
            r = rng.random()
            if r < .6:
                have[kind].add(n)
                keep = [v for v in vs if rng.random() < .6]
                stored[kind, n] = keep
                os.makedirs(f"{base}/{kind}/{n}/releases")
                for v in keep:
                    os.makedirs(f"{base}/{kind}/{n}/releases/{v}")
                if rng.random() < .3:
                    open(f"{base}/{kind}/{n}/releases/releaselisting", 'w').close()
            elif r < .7:
                os.makedirs(f"{base}/{kind}/{n}")       # nothing was ever stored there
            elif r < .8:
                open(f"{base}/{kind}/{n}", 'w').close()
            elif r < .9:
                os.makedirs(f"{base}/{kind}/{n}")
                open(f"{base}/{kind}/{n}/releases", 'w').close()      # what is there holds no release
                ctx.count('odd releases')
    for kind, got in (('projects', st.list_projects()), ('solutions', st.list_solutions())):
        ctx.equal(sorted(x.name for x in got), sorted(have[kind]), 'stored', f"{kind} of a storage")
        ctx.check(all(type(x) is (RadsProject if kind == 'projects' else RadsSolution) for x in got), 'stored', f"{kind} are {got}")
        ctx.count('storages listed')
    with srv.net.active():
        for n, vs in projects.items():
            p = RadsProject(st, n)
            got = p.versions()
            ctx.equal([str(v.version) for v in got], vs, 'versions', f"versions of project {n}")
            ctx.check(all(v.project == p and isinstance(v, RadsProjectVersion) for v in got), 'versions', f"versions of {n}: {got}")
        for n, vs in solutions.items():
            s = RadsSolution(st, n)
            got = s.versions()
            ctx.equal([str(v.version) for v in got], vs, 'versions', f"versions of solution {n}")
            ctx.check(all(v.solution == s and isinstance(v, RadsSolutionVersion) for v in got), 'versions', f"versions of {n}: {got}")
            m = len(srv.net.log)
            ctx.equal([str(v.version) for v in s.versions(stored=True)], [v for v in vs if v in stored.get(('solutions', n), ())], 'stored-versions', f"stored versions of {n}")
            ctx.equal(len(srv.net.log), m, 'requests', "requests for stored versions")
            ctx.count('version lists')
    ctx.nontrivial(tuple(sorted((k, tuple(v)) for k, v in {**projects, **solutions}.items())), tuple(sorted((k, len(v)) for k, v in stored.items())))


def order(ctx, rng, tier):
    """Equality, hashes and order"""
    st = RadsStorage(os.path.join(ctx.dir(), 'rads'))
    st2 = RadsStorage(os.path.join(ctx.dir(), 'rads'))
    names = rng.sample(NAMES + SLNS, 3)
    vs = versions(rng, 5)
    key = lambda v: tuple(map(int, v.split('.')))
    mk = {
        'p': lambda n, v: RadsProject(rng.choice([st, st2]), n), 's': lambda n, v: RadsSolution(rng.choice([st, st2]), n),
        'pv': lambda n, v: RadsProjectVersion(RadsProject(st, n), RadsVersion(v)), 'sv': lambda n, v: RadsSolutionVersion(RadsSolution(st, n), RadsVersion(v)),
    }
    objs = []
    for _ in range(9):
        k, n, v = rng.choice(list(mk)), rng.choice(names), rng.choice(vs)
        objs.append((k, n, v if 'v' in k else None, mk[k](n, v)))
    for a in objs:
        for b in objs:
            same = a[:3] == b[:3]
            ctx.equal(a[3] == b[3], same, 'equality', f"{a[3]!r} == {b[3]!r}")
            ctx.equal(a[3] != b[3], not same, 'equality', f"{a[3]!r} != {b[3]!r}")
            if same:
                ctx.equal(hash(a[3]), hash(b[3]), 'hash', f"hashes of equal {a[3]!r}")
            if a[0] == b[0]:
                exp = a[1] < b[1] or a[1] == b[1] and a[2] is not None and key(a[2]) > key(b[2])
                ctx.equal(a[3] < b[3], exp, 'order', f"{a[3]!r} < {b[3]!r}")
                ctx.equal(b[3] > a[3], exp, 'order', f"{b[3]!r} > {a[3]!r}")
            else:
                try:
                    a[3] < b[3]
                    ctx.violation('order', f"{a[3]!r} and {b[3]!r} can be ordered")
                except TypeError:
                    ctx.count('unordered pairs')
            ctx.count('pairs compared')
        ctx.check(a[3] != a[1] and a[3] != None and not a[3] == 3, 'equality', f"{a[3]!r} equals something else")     # noqa
    for k in mk:
        mine = [o for o in objs if o[0] == k]
        got = [o[:3] for o in sorted(mine, key=lambda o: o[3])]
        exp = sorted((o[:3] for o in mine), key=lambda o: (o[1], tuple(-x for x in key(o[2])) if o[2] else ()))
        ctx.equal(got, exp, 'order', "sorted")
        ctx.equal(len({o[3] for o in mine}), len({o[:3] for o in mine}), 'hash', "distinct objects in a set")
    # texts name what they come from
    for o in objs:
        text = str(o[3])
        ctx.check(o[1] in text and (o[2] is None or text.endswith('=' + o[2])), 'text', f"{o[:3]} is written {text!r}")
    ctx.nontrivial(tuple(o[:3] for o in objs))


def downloads(ctx, rng, tier):
    """Downloading a project or a solution is downloading each of its versions"""
    sln = rng.choice(list(SLN.values()))
    srv = Rads(rng)
    names = [MAIN[sln][0]] + rng.sample(['lol_shared', 'game_audio', 'x'], rng.choice([0, 1, 2]))
    langs = rng.sample(LANGS, rng.choice([0, 1, 2]))
    vs = versions(rng, rng.choice([1, 2, 3]))
    req, tables, pv = {}, {}, {}
    for v in vs:
        pv[v] = {n: v for n in names + [f"{names[0]}_{l}" for l in langs]}
        for n in pv[v]:
            if (n, v) not in srv.projects:
                if n == names[0]:
                    main_project(srv, rng, sln, v, '7.1', 3)
                else:
                    srv.add_project(n, v, gen_contents(rng, v, 4))
        tables[v] = {l: names + [f"{names[0]}_{l}"] for l in langs}
        srv.add_solution(sln, v, pv[v], tables[v], optional=[n for n in pv[v] if n not in names])
    srv.listings = {sln: rng.sample(vs, len(vs))}
    base_serve = srv.serve

    def serve(url):
        p = url[len(URL):].split('/')
        if p[0] == 'projects' and p[3:] == ['releaselisting']:
            from vf.net import Reply
            return Reply(200, '\r\n'.join(vs).encode())
        return base_serve(url)
    srv.serve = serve
    base = os.path.join(ctx.dir(), 'rads')
    st = RadsStorage(base)
    want = set()
    with srv.net.active():
        if rng.random() < .5:
            n = rng.choice(sorted({n for n, _ in srv.projects}))
            RadsProject(st, n).download()
            want = {(n, v) for v in vs}
            what = 'project'
        else:
            arg = rng.choice([True, False, langs[:1]])
            RadsSolution(st, sln).download(arg)
            for v in vs:
                ns = names if arg is False else set(pv[v]) if arg is True else [x for l in arg for x in tables[v][l]]
                want |= {(n, v) for n in ns}
            what = 'solution'
    files = {}
    for k in want:
        files.update(srv.projects[k]['files'])
    t = files_only(tree(base))
    bad = [p for p, c in files.items() if t.get(p) != c]
    ctx.check(not bad, 'download', f"{what}: files missing or wrong: {bad[:3]}")
    other = [p for p in t if p.startswith('projects/') and '/files/' in p and '/packages/' not in p and p not in files]
    ctx.check(not other, 'download-other', f"{what}: files of other versions: {other[:3]}")
    ctx.count('downloads: ' + what)
    ctx.count('files downloaded', len(files))
    ctx.nontrivial(what, tuple(vs), len(want), len(files))


SCENARIOS = [Scenario(texts, 150, 4000), Scenario(listings, 300, 8000), Scenario(order, 300, 8000), Scenario(downloads, 150, 4000)]
REQUIRED = {'components: project': 300, 'components: solution': 300, 'components rejected': 1000, 'storages listed': 300, 'version lists': 200, 'pairs compared': 5000,
            'unordered pairs': 1000, 'downloads: project': 30, 'downloads: solution': 30, 'files downloaded': 300}
