"""C30 An incremental export shows the same tree as a full one"""
import os
import shutil
from vf.core import Scenario
from vf import patchgen
from vf.mem import run_cli, tree, files_only, diff_trees

PROPERTY = 'C30'
RULE = "a case exports one patch of a generated history against an earlier one, and in full; distinct signature = (versions, kinds of the changed, linked and new files, mode)"
ASSUMPTIONS = ["no two files of a patch are exported to the same path, or to a directory of another", "archive checksums differ for different contents"]

HISTORIES = [['9.5', '9.4'], ['9.5', '9.4', '9.3'], ['9.2', '9.1', '8.24', '8.23'], ['5.2', '5.1']]


def lines(b):
    return b.decode('utf-8').split('\n')[:-1]


def own(t):
    return {k: v for k, v in t.items() if not k.startswith('cdragon/') and k != 'cdragon'}


def content_state(w, v):
    """{exported path: (item, variant)} of the files that are exported as they should be"""
    out = {}
    for it, i in w.states[v].items():
        for p in w.outputs(it, i, v):
            out[p] = (it, i)
    return out


def equal(a, b):
    return a[0].variants[a[1]][0] == b[0].variants[b[1]][0]


def through_link(base, p):
    """Topmost link on the way to an exported file"""
    parts = p.split('/')
    for i in range(1, len(parts) + 1):
        q = '/'.join(parts[:i])
        if os.path.islink(os.path.join(base, q)):
            return q
    return None


def setup(ctx, rng, versions, v1=False):
    kw = {}
    if v1:
        kw['wad_versions'] = [(1, 0)] if rng.random() < .5 else [(1, 0), (2, 0), (3, 1)]
    w = patchgen.World(ctx, rng, versions, trade=True, **kw)
    w.make_states(p_same=rng.choice([.2, .6, .9, 1]), p_present=rng.choice([.5, .8, 1]))
    for v in reversed(versions):
        w.materialise(v)
    return w, w.publish(f"c30-{ctx.index}")


def output_dir(ctx, rng):
    """Output directory, possibly reached through a link from another depth"""
    out = ctx.dir('out')
    if rng.random() < .2:
        real = os.path.join(ctx.dir('disk'), 'a', 'b', 'exports')
        os.makedirs(real)
        os.rmdir(out)
        os.symlink(real if rng.random() < .5 else os.path.relpath(real, os.path.dirname(out)), out)
        ctx.count('linked_output')
    return out


def move_away(ctx, rng, out, v):
    """Move the export of a version to another place, with a link to it"""
    if rng.random() < .15:
        real = os.path.join(ctx.dir('disk2'), 'x', v)
        os.makedirs(os.path.dirname(real), exist_ok=True)
        os.rename(os.path.join(out, v), real)
        os.symlink(real, os.path.join(out, v))
        ctx.count('moved_export')


def linked(ctx, rng, tier):
    vs = patchgen.history(rng)
    v1 = rng.random() < .15
    w, s = setup(ctx, rng, vs, v1)
    out, full = output_dir(ctx, rng), ctx.dir('full')
    order = vs[::-1]
    done = [order[0]]
    run_cli(['export', '-s', s, '-o', out, '--full', order[0]])
    move_away(ctx, rng, out, order[0])
    for v in order[1:]:
        # against the patch before, or an older one
        prev = done[-1] if rng.random() < .8 else rng.choice(done)
        argv = ['export', '-s', s, '-o', out, '--symlinks', '--previous', prev, v]
        what = f"export of {v} with links to {prev}"
        if rng.random() < .15:
            # place chosen for this version: the export goes through a link
            real = os.path.join(ctx.dir('disk3'), 'p', 'q', 'r', v)
            os.makedirs(real)
            os.symlink(real, os.path.join(out, v))
            ctx.count('linked_version')
        run_cli(argv)
        run_cli(['export', '-s', s, '-o', full, '--full', v])
        base = os.path.join(out, v)
        got, want = files_only(tree(base, follow=True)), files_only(tree(os.path.join(full, v)))
        links_list = lines(got.pop('cdragon/files.links.txt')) if 'cdragon/files.links.txt' in got else []
        d = diff_trees(got, want)
        ctx.check(not d, 'tree', f"{what}: differs from a full export: {d}")
        real = tree(base)
        links = {k: x[1] for k, x in real.items() if isinstance(x, tuple) and x[0] == 'link'}
        ctx.check(not [k for k in real if k.startswith('cdragon') and k in links], 'cdragon', f"{what}: generated files are links")
        ctx.equal(links_list, sorted(links), 'list', f"{what}: list of links")
        st, pst = content_state(w, v), content_state(w, prev)
        roots = [os.path.realpath(os.path.join(out, x)) for x in done]
        for k, target in links.items():
            q = os.path.join(base, k)
            r = os.path.realpath(q)
            ctx.check(os.path.exists(q), 'dangling', f"{what}: {k} links to {target}, which does not exist")
            ctx.check(any(r.startswith(x + '/') for x in roots), 'target', f"{what}: {k} links to {target}, which is not in the export of an earlier patch")
            ctx.check(not os.path.isabs(target), 'absolute', f"{what}: {k} links to the absolute path {target}")
            ctx.check(r == os.path.realpath(os.path.join(out, prev, k)), 'target', f"{what}: {k} links to {target} instead of its place in {prev}")
            ctx.count('dir_links' if os.path.isdir(q) else 'file_links')
        for p, x in st.items():
            l = through_link(base, p)
            same = pst.get(p) == x
            if not same and p in pst and equal(pst[p], x):
                ctx.count('equal_variants')
            elif not same:
                ctx.check(l is None, 'changed-linked', f"{what}: {p} is {'changed' if p in pst else 'new'}, but {l} is a link")
                ctx.count('changed' if p in pst else 'new')
            elif not v1:
                ctx.check(l is not None, 'not-linked', f"{what}: {p} is unchanged, but a real file")
                ctx.count('linked')
        ctx.count('removed', len(set(pst) - set(st)))
        if st:
            ctx.nontrivial(v, prev, v1, tuple(sorted((it.kind, it.where[0], pst.get(p) == (it, i), p in pst) for p, (it, i) in st.items())))
        done.append(v)
    w.close()


def plain(ctx, rng, tier):
    """Without links: only new and changed files"""
    vs = patchgen.history(rng)
    w, s = setup(ctx, rng, vs)
    k = rng.randrange(len(vs) - 1)
    v, prev = vs[k], rng.choice(vs[k + 1:])
    out, full = ctx.dir('out'), ctx.dir('full')
    argv = ['export', '-s', s, '-o', out, '--previous', prev, v]
    if prev == vs[k + 1] and rng.random() < .5:
        argv = ['export', '-s', s, '-o', out, v]
        ctx.count('guessed_previous')
    run_cli(argv)
    run_cli(['export', '-s', s, '-o', full, '--full', v])
    got, want = files_only(tree(os.path.join(out, v))), files_only(tree(os.path.join(full, v)))
    st, pst = content_state(w, v), content_state(w, prev)
    gotf = own(got)
    exp = {p: want[p] for p, x in st.items() if pst.get(p) != x and not (p in pst and equal(pst[p], x) and p not in gotf)}
    what = f"export of {v} against {prev}"
    d = diff_trees(own(got), exp)
    ctx.check(not d, 'tree', f"{what} without links: new and changed files: {d}")
    for n in ('cdragon/files.exported.txt', 'cdragon/files.unknown.txt'):
        ctx.equal(got[n], want[n], 'list', f"{what}: {n}")
    ctx.check('cdragon/files.links.txt' not in got, 'list', f"{what}: list of links without links")
    ctx.equal(os.listdir(out), [v], 'dirs', f"{what}: directories")
    ctx.count('plain_changed', len(exp)); ctx.count('plain_unchanged', len(st) - len(exp))
    if st:
        ctx.nontrivial('plain', v, prev, tuple(sorted((it.kind, p in exp) for p, (it, i) in st.items())))
    w.close()


def update(ctx, rng, tier):
    """Several patches at once"""
    vs = patchgen.history(rng, n=3)
    w, s = setup(ctx, rng, vs)
    out, full = output_dir(ctx, rng), ctx.dir('full')
    present = [v for v in vs if rng.random() < .8] or vs[:1]
    for v in present:
        os.makedirs(os.path.join(out, v))
    first = rng.choice(present)
    run_cli(['export', '-s', s, '-o', out, '--symlinks', '--from', first])
    todo = [v for v in present if patchgen.ver(v) >= patchgen.ver(first)]
    for v in present:
        base = os.path.join(out, v)
        if v not in todo:
            ctx.equal(tree(base), {}, 'before-first', f"export from {first}: content of {v}")
            continue
        run_cli(['export', '-s', s, '-o', full, '--full', v])
        got, want = files_only(tree(base, follow=True)), files_only(tree(os.path.join(full, v)))
        got.pop('cdragon/files.links.txt', None)
        d = diff_trees(got, want)
        ctx.check(not d, 'tree', f"update of {present} from {first}: {v} differs from a full export: {d}")
        links = [k for k, x in tree(base).items() if isinstance(x, tuple) and x[0] == 'link']
        if v == todo[-1]:
            ctx.check(not links, 'first-linked', f"update of {present} from {first}: links in the first one, {v}")
        ctx.count('update_links', len(links)); ctx.count('updated')
    ctx.nontrivial('update', tuple(present), first, len(w.items))
    w.close()


SCENARIOS = [Scenario(linked, 220, 5000), Scenario(plain, 120, 2500), Scenario(update, 60, 1500)]
REQUIRED = {'subchunked': 60, 'changed': 150, 'new': 200, 'removed': 60, 'linked': 1000, 'dir_links': 500, 'file_links': 100, 'guessed_previous': 20, 'plain_changed': 150, 'plain_unchanged': 400, 'update_links': 80, 'updated': 50, 'linked_output': 25, 'moved_export': 15}
