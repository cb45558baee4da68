"""C06 RADS language selection picks exactly the listed projects"""
import collections
import os
from vf.core import Scenario
from vf.rads import Rads, LANGS, URL, URL_PBE, MAIN, SLN, gen_contents, main_project
from vf.mem import run_cli, tree, files_only
from cdtb.data import Language
from cdtb.rads import RadsStorage, RadsSolution, RadsSolutionVersion, RadsVersion, RadsPatchElement

PROPERTY = 'C06'
RULE = "a case is one solution manifest seen through several selections and observers; distinct signature = (dependency table, selections)"
ASSUMPTIONS = ["a language that is not in the solution manifest is refused or selects nothing", "project names are unique in a manifest, dependency lists have no duplicates"]


def lang_args(rng, langs):
    """All languages are the default"""
    return {} if langs is True and rng.random() < .5 else {'langs': langs}


def gen_solution(rng, srv, sln, patch, with_files):
    """Returns version, {project: version}, required, {lang: [project]}"""
    version = f"0.0.{rng.randrange(3)}.{rng.randrange(256)}"
    names = [MAIN[sln][0]]
    langs = rng.sample(LANGS, rng.randrange(0, 5))
    extra = [f"{names[0]}_{l}" for l in langs if rng.random() < .85] + rng.sample(['lol_shared', 'game_audio', 'x', 'lol_air', 'sln'], rng.randrange(0, 4))
    names += extra
    rng.shuffle(names)
    projects = {n: f"0.0.{rng.randrange(3)}.{rng.randrange(256)}" if rng.random() < .7 else version for n in names}
    required = [n for n in names if n == MAIN[sln][0] or rng.random() < (.15 if '_' in n else .5)]
    table = {}
    for l in langs:
        k = rng.random()
        own = [n for n in names if n.endswith(l)]
        if k < .5:
            deps = required + [n for n in own if n not in required]
        elif k < .8:
            deps = rng.sample(names, rng.randrange(0, len(names) + 1))
        else:
            deps = own
        rng.shuffle(deps)
        table[l] = deps
    for n in names:
        if n == MAIN[sln][0]:
            main_project(srv, rng, sln, projects[n], patch, 3)
        elif with_files:
            srv.add_project(n, projects[n], gen_contents(rng, projects[n], 4))
    srv.add_solution(sln, version, projects, table, optional=[n for n in names if n not in required])
    return version, projects, required, table


def selections(rng, table):
    """(argument, codes or True or False)"""
    codes = list(table)
    out = [(True, True), (False, False)]
    for c in codes:
        out.append((Language(c), [c]))
        out.append((c, [c]))
    for _ in range(4):
        l = rng.choices(codes, k=rng.randrange(0, 4)) if codes else []
        form = rng.randrange(4)
        arg = [Language(c) for c in l] if form == 0 else list(l) if form == 1 else tuple(l) if form == 2 else [rng.choice([c, Language(c)]) for c in l]
        out.append((arg, l))
    return out


def exp_projects(sel, required, table):
    if sel is True:
        return set(required).union(*table.values())
    if sel is False:
        return set(required)
    return set().union(*(table[c] for c in sel)) if sel else set()


def selection(ctx, rng, tier):
    sln = rng.choice(list(SLN.values()))
    srv = Rads(rng)
    version, projects, required, table = gen_solution(rng, srv, sln, '7.1', False)
    st = RadsStorage(os.path.join(ctx.dir(), 'rads'))
    sv = RadsSolutionVersion(RadsSolution(st, sln), RadsVersion(version))
    with srv.net.active():
        for arg, sel in selections(rng, table):
            got = [(p.project.name, str(p.version)) for p in sv.projects(arg)]
            names = exp_projects(sel, required, table)
            ctx.check(len(got) == len(set(got)), 'duplicate', f"projects({arg!r}) has duplicates: {got}")
            ctx.equal(sorted(got), sorted((n, projects[n]) for n in names), 'projects', f"projects({arg!r}) of required {required}, {table}")
            ctx.count('selections')
            ctx.count('sel_code', isinstance(arg, str)); ctx.count('sel_list', isinstance(arg, (list, tuple)))
            ctx.count('proper', 0 < len(names) < len(projects))
        # a language that is not there selects nothing: refused, or ignored
        absent = [l for l in LANGS if l not in table]
        for code in (rng.sample(absent, 1) if absent else []) + [rng.choice(['fr', '', 'en-us', 'xx_xx', 'en_u', '_', 'None'])]:
            other = [rng.choice(list(table))] if table and rng.random() < .5 else []
            arg = rng.choice([code, [code]]) if not other else rng.sample([code, *other], 2)
            try:
                got = {p.project.name for p in sv.projects(arg)}
            except Exception:
                pass
            else:
                ctx.check(got <= exp_projects(other, required, table), 'absent-language', f"projects({arg!r}) of required {required}, {table}: {got}")
            ctx.count('sel_absent')
        ctx.equal([u for u in srv.net.urls() if 'solutionmanifest' not in u], [], 'requests', "requests for a selection")
        ctx.check(len(srv.net.log) == 1, 'manifest-again', f"solution manifest fetched {len(srv.net.log)} times")
    ctx.nontrivial(tuple(sorted((k, tuple(v)) for k, v in table.items())), tuple(sorted(projects.items())))


def observers(ctx, rng, tier):
    """Listed paths, downloads and the command line follow the selection"""
    el = rng.choice(list(SLN))
    sln = SLN[el]
    srv = Rads(rng)
    srv.cut = rng.choice([None, lambda n: rng.choice([1, 50, n])])
    version, projects, required, table = gen_solution(rng, srv, sln, '7.1', True)
    srv.listings = {s: [version] if s == sln else [] for s in SLN.values()}
    base = os.path.join(ctx.dir(), 'rads')
    st = RadsStorage(base)
    with srv.net.active():
        e = st.patch_element(el)
        ctx.check(e is not None and str(e.version) == '7.1', 'element', f"element is {e}")
        done = set()
        for arg, sel in rng.sample(selections(rng, table), 3):
            names = exp_projects(sel, required, table)
            files = {}
            for n in names:
                files.update(srv.projects[n, projects[n]]['files'])
            fs, rel, both = list(e.fspaths(**lang_args(rng, arg))), list(e.relpaths(**lang_args(rng, arg))), list(e.paths(**lang_args(rng, arg)))
            relof = lambda p: p.split('/', 5)[5].lower()
            ctx.equal(sorted(fs), sorted(os.path.join(base, p) for p in files), 'fspaths', f"fspaths({arg!r})")
            ctx.equal(sorted(rel), sorted(relof(p) for p in files), 'relpaths', f"relpaths({arg!r})")
            ctx.equal(sorted(both), sorted((os.path.join(base, p), relof(p)) for p in files), 'paths', f"paths({arg!r})")
            codes = [arg] if isinstance(arg, str) else arg
            cli = isinstance(arg, bool) or not isinstance(arg, Language) and all(isinstance(x, str) for x in codes)
            opts = ['--no-lang'] if arg is False else [] if arg is True else ['--lang', *codes] if cli else None
            if cli:
                out = run_cli(['files', '-s', f'rads:{base}', f'{el}=7.1', *opts])
                ctx.equal(sorted(out.splitlines()), sorted(fs), 'cli-files', f"files {opts}")
                ctx.count('cli')
            n = len(srv.net.log)
            if cli and rng.random() < .3:
                run_cli(['download', '-s', f'rads:{base}', f'{el}=7.1', *opts])
            else:
                e.download(**lang_args(rng, arg))
            urls = srv.net.urls(n)
            allowed = {f"projects/{p}/releases/{projects[p]}/" for p in names}
            for u in urls:
                path = u[len(URL):]
                ctx.check(any(path.startswith(a) for a in allowed), 'other-requests', f"download({arg!r}) requests {path}")
            dup = [u for u, c in collections.Counter(urls).items() if c > 1]
            ctx.equal(dup, [], 'requested-twice', f"download({arg!r})")
            done |= set(files)
            t = files_only(tree(base))
            for p in files:
                ctx.check(t.get(p) == files[p], 'file', f"download({arg!r}): {p} is missing or wrong")
            for p in t:
                if '/files/' in p and p.startswith('projects/'):
                    ctx.check(p in done or os.path.basename(p) == MAIN[sln][1], 'extra-file', f"download({arg!r}): {p} is not selected")
            ctx.count('files', len(files)); ctx.count('downloads')
            ctx.nontrivial(repr(arg), tuple(sorted(files)))


def refusal(ctx, rng, tier):
    """Manifests of something else are refused"""
    sln = rng.choice(list(SLN.values()))
    srv = Rads(rng)
    version, projects, required, table = gen_solution(rng, srv, sln, '7.1', False)
    text = srv.solutions[sln, version].decode()
    lines = text.splitlines()
    kind = rng.choice(['magic', 'format', 'name', 'version', 'html', 'empty'])
    if kind == 'magic':
        lines[0] = rng.choice(['RADS Solution manifest', 'RADS Project Manifest', ' ', '\ufeffx', 'RADS Solution Manifest '])
    elif kind == 'format':
        lines[1] = rng.choice(['1.0.0.1', '2.0.0.0', '1.0', '', '11.0.0.0'])
    elif kind == 'name':
        lines[2] = rng.choice([n for n in ('league_client_sln', 'lol_game_client_sln', 'x_sln', sln.upper(), sln + '2') if n != sln])
    elif kind == 'version':
        t = version.split('.')
        t[rng.randrange(4)] = '77'
        lines[3] = rng.choice(['.'.join(t), version + '.0', '.'.join(version.split('.')[:3]), version + '1'])
        if lines[3] == version:
            return
    elif kind == 'html':
        lines = ['<html>', '<body>not here</body>', '</html>']
    else:
        lines = []
    srv.solutions[sln, version] = '\n'.join(lines).encode()
    st = RadsStorage(os.path.join(ctx.dir(), 'rads'))
    sv = RadsSolutionVersion(RadsSolution(st, sln), RadsVersion(version))
    arg = rng.choice(selections(rng, table))[0]
    with srv.net.active():
        try:
            got = sv.projects(arg)
        except Exception:
            pass
        else:
            ctx.violation('accepted', f"manifest with a wrong {kind} is accepted: {lines[:5]} gives {got}")
    ctx.count('refused'); ctx.count('refused_' + kind)
    ctx.nontrivial(kind, tuple(lines[:5]))


SCENARIOS = [Scenario(selection, 900, 15000), Scenario(observers, 200, 4000), Scenario(refusal, 700, 6000)]
REQUIRED = {'selections': 5000, 'sel_code': 800, 'sel_list': 1500, 'sel_absent': 800, 'proper': 1500, 'downloads': 300, 'files': 800, 'cli': 80, 'refused': 500, 'refused_name': 40, 'refused_version': 40}
