"""C36 Common-path reduction links only what is fully unchanged"""
from vf.core import Scenario
from cdtb.export import reduce_common_paths

PROPERTY = 'C36'
RULE = "a case reduces one pair of path sets with one set of exclusions; distinct signature = (number of paths, extra previous paths, exclusions, length of the result, depth)"
ASSUMPTIONS = ["paths have no empty parts; no path of a set is a directory of another path of the same set, an excluded path is neither a given path nor a directory of one, as in any export"]

NAMES = ['a', 'b', 'c', 'ab', 'a-b', 'a.b', 'x', 'é', 'A', '0', 'cdragon', ' ']


def dirs_of(p):
    parts = p.split('/')
    return ['/'.join(parts[:i]) for i in range(1, len(parts))]


def add(paths, dirs, p):
    """Unless it conflicts with a file or directory of the same tree"""
    ds = dirs_of(p)
    if p in dirs or any(d in paths for d in ds):
        return False
    paths.add(p)
    dirs.update(ds)
    return True


def gen_tree(rng):
    names = rng.sample(NAMES, rng.choice([2, 2, 3, 5]))
    depth = rng.choice([1, 2, 3, 4, 6])
    n = rng.choice([0, 1, 2, 4, 8, 20, 60])
    paths, dirs = set(), set()
    for _ in range(n):
        d = rng.randrange(1, depth + 1)
        add(paths, dirs, '/'.join(rng.choice(names) for _ in range(d)))
    return names, depth, paths, dirs


def model(paths, prev, excl):
    """Shortest list: topmost entries below the root that only hold given paths of the
    previous tree, and no excluded one"""
    bad = set()
    for p in (set(prev) - set(paths)) | set(excl):
        bad.add(p)
        bad.update(dirs_of(p))
    out = set()
    for p in paths:
        for d in dirs_of(p) + [p]:
            if d not in bad or d == p:
                out.add(d)
                break
    return out


def run(ctx, rng, tier):
    names, depth, prev, pdirs = gen_tree(rng)
    prev_l = sorted(prev)
    how = rng.choice(['all', 'some', 'some', 'dirs'])
    if how == 'all':
        paths = set(prev)
    elif how == 'some':
        k = rng.choice([.1, .5, .9])
        paths = {p for p in prev_l if rng.random() < k}
    else:
        drop = {d for d in sorted(pdirs) if rng.random() < .3}
        paths = {p for p in prev_l if not any(d in drop for d in dirs_of(p))}
    dirs = {d for p in paths for d in dirs_of(p)}
    # excluded ones: changed files, present in the previous tree or not
    excl, all_, alld = set(), set(paths), set(dirs)
    for _ in range(rng.choice([0, 0, 1, 2, 5])):
        k = rng.random()
        rest = sorted(set(prev_l) - paths)
        if k < .4 and rest:
            p = rng.choice(rest)
        elif k < .8 and dirs:
            p = rng.choice(sorted(dirs)) + '/' + '/'.join(rng.choice(names) for _ in range(rng.choice([1, 1, 2])))
        else:
            p = '/'.join(rng.choice(names) for _ in range(rng.randrange(1, depth + 1)))
        if p not in paths and (p in excl or add(all_, alld, p)):
            excl.add(p)
    args = [list(paths), list(prev), list(excl)]
    for a in args:
        a.sort()
        rng.shuffle(a)
        if a and rng.random() < .2:
            a.append(rng.choice(a))     # a path exported by several archives
    as_set = rng.random() < .5
    got = list(reduce_common_paths(*[set(a) if as_set else a for a in args]))
    what = f"reduce_common_paths({args})"
    ctx.equal(len(got), len(set(got)), 'twice', f"{what}: entries listed twice: {sorted(got)}")
    # the rules, one by one
    for p in paths:
        cov = [g for g in got if p == g or p.startswith(g + '/')]
        ctx.equal(len(cov), 1, 'cover', f"{what}: entries that cover {p!r} ({cov})")
    for g in got:
        ctx.check(g != '', 'root', f"{what}: links the root")
        ctx.check(any(p == g or p.startswith(g + '/') for p in paths), 'useless', f"{what}: {g!r} covers nothing")
        for e in excl:
            ctx.check(e != g and not e.startswith(g + '/'), 'excluded', f"{what}: {g!r} holds the excluded {e!r}")
        for p in prev - paths:
            ctx.check(p != g and not p.startswith(g + '/'), 'foreign', f"{what}: {g!r} holds {p!r}, which is not given")
    want = model(paths, prev, excl)
    ctx.equal(sorted(got), sorted(want), 'shortest', what)
    if paths == prev and not excl:
        ctx.count('identical')
        ctx.equal(sorted(got), sorted({p.split('/')[0] for p in paths}), 'identical', what)
    ctx.count('paths', len(paths)); ctx.count('directories_linked', sum(g not in paths for g in got)); ctx.count('files_linked', sum(g in paths for g in got))
    ctx.count('excluded', len(excl)); ctx.count('excluded_in_given_dir', sum(any(d in dirs for d in dirs_of(e)) for e in excl)); ctx.count('excluded_in_prev', len(excl & prev))
    if paths:
        ctx.nontrivial(len(paths), len(prev - paths), len(excl), len(got), depth)


SCENARIOS = [Scenario(run, 6000, 400000)]
REQUIRED = {'identical': 500, 'paths': 9000, 'directories_linked': 2000, 'files_linked': 4000, 'excluded': 2000, 'excluded_in_given_dir': 400, 'excluded_in_prev': 300}
