"""C31 Re-exporting leaves exactly the current patch, nothing else"""
import os
import shutil
from vf.core import Scenario
from vf import patchgen, wadw
from vf.crash import child, pick_line
from vf.mem import run_cli, tree, files_only, diff_trees

PROPERTY = 'C31'
RULE = "a case exports a patch over what earlier exports (of other states of the patch, of other options, interrupted ones) and other programs left, and compares with an export into an empty directory; distinct signature = (options, what was there, kinds of files)"
ASSUMPTIONS = ["no two files of a patch are exported to the same path, or to a directory of another", "exports in full or with links: an export of only the changed files has a partial result by definition", "foreign files lie outside of the directory of generated lists"]


def snapshot(base):
    """Everything about a directory that a modification would change"""
    out = {}
    for d, ds, fs in os.walk(base):
        for n in ds + fs:
            p = os.path.join(d, n)
            st = os.lstat(p)
            rel = os.path.relpath(p, base)
            if os.path.islink(p):
                out[rel] = ('link', os.readlink(p), st.st_ino, st.st_mtime_ns)
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    out[rel] = (f.read(), st.st_ino, st.st_mtime_ns)
            else:
                out[rel] = ('dir', st.st_ino)
    return out


def mutate_state(w, rng, v):
    """Another state of the same patch"""
    st = {}
    for it in w.items:
        k = rng.random()
        if k < .5 and it in w.states[v]:
            st[it] = w.states[v][it]
        elif k < .8:
            st[it] = rng.randrange(len(it.variants))
    w.states[v] = w.settle(st)
    w.materialise(v)
    w.refresh()


def litter(ctx, rng, w, v, base):
    """Foreign files, at other places than, below, and above exported ones"""
    kinds = []
    exp = sorted(w.expected(v))
    for _ in range(rng.choice([1, 3, 6])):
        k = rng.choice(['file', 'dir', 'emptydir', 'beside', 'as_dir', 'as_file', 'link', 'dirlink', 'tmp', 'skn_dir', 'old_conv', 'gamefile', 'content'])
        p = rng.choice(exp) if exp else 'a'
        if k == 'file':
            q = rng.choice(['x.txt', 'game/x', 'plugins/rcp-fe-x/stuff.js', 'cdragon.txt', 'a/b/c/d', 'game.bak/y', '.x', '.git/HEAD', 'game/.hidden', 'cdragon.d/x', 'x/cdragon/files.txt', 'game/cdragon/tft/en_us.json', '..x', 'Thumbs.db'])
        elif k in ('dir', 'emptydir'):
            q = rng.choice(['some', 'game/dir', 'z/y', 'game/.svn']) + ('/file' if k == 'dir' else '')
        elif k == 'beside':
            q = p + rng.choice(['.bak', '~', '.json', '0'])
        elif k == 'as_dir':
            q = p + '/inside'       # a directory where a file goes
        elif k == 'as_file':
            q = os.path.dirname(p)  # a file where a directory goes
        elif k == 'tmp':
            q = os.path.join(os.path.dirname(p), f".{rng.getrandbits(64):016x}.tmp")
        elif k == 'skn_dir':
            s = [x for x in exp if x.endswith('.skn')]
            if not s:
                continue
            q = os.path.splitext(rng.choice(s))[0] + rng.choice(['/Old.obj', '/sub/x.obj', '/Body.obj'])
        elif k == 'old_conv':
            q = os.path.splitext(p)[0] + rng.choice(['.dds', '.png', '.tex', '.bin.json'])
        elif k == 'gamefile':
            q = 'game/' + w.name() + '.png'
        else:
            q = p
        q = os.path.normpath(q)
        if q in ('', '.') or q.split('/')[0] == 'cdragon':
            continue
        full = os.path.join(base, q)
        # litter is not written through links
        parts = q.split('/')
        if any(os.path.islink(os.path.join(base, *parts[:i])) or os.path.isfile(os.path.join(base, *parts[:i])) for i in range(1, len(parts))):
            continue
        try:
            if k == 'emptydir':
                os.makedirs(full, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if os.path.islink(full):
                    continue
                if os.path.isdir(full):
                    if k != 'as_file':
                        continue
                    shutil.rmtree(full)
                if k in ('link', 'dirlink'):
                    if os.path.lexists(full):
                        os.remove(full)
                    os.symlink(rng.choice(['nowhere', '.', 'no/where/x', os.path.basename(full)] + ([os.path.relpath(os.path.join(base, '..', 'other'), os.path.dirname(full))] if k == 'dirlink' else [])), full)
                else:
                    with open(full, 'wb') as f:
                        f.write(b'foreign' + rng.randbytes(3))
        except OSError:
            continue
        kinds.append(k)
        ctx.count('litter_' + k)
    return kinds


def export(ctx, rng, s, out, v, prev, mode, lazy=False):
    argv = ['export', '-s', s, '-o', out] + (['--lazy'] if lazy else [])
    argv += ['--full'] if mode == 'full' else ['--symlinks', '--previous', prev]
    run_cli(argv + [v])


def run(ctx, rng, tier):
    vs = patchgen.history(rng)
    w = patchgen.World(ctx, rng, vs, trade=True)
    w.make_states(p_same=rng.choice([.5, .8]), p_present=rng.choice([.5, .8, 1]))
    for v in reversed(vs):
        w.materialise(v)
    s = w.publish(f"c31-{ctx.index}")
    work, fresh = ctx.dir('work'), ctx.dir('fresh')
    k = rng.randrange(len(vs) - 1)
    v, prevs = vs[k], vs[k + 1:]
    # previous patches' exports
    for p in prevs[::-1]:
        older = vs[vs.index(p) + 1:]
        if older and rng.random() < .5:
            export(ctx, rng, s, work, p, older[0], 'links')
        else:
            export(ctx, rng, s, work, p, None, 'full')
    os.makedirs(os.path.join(work, 'other'))
    with open(os.path.join(work, 'other', 'o.txt'), 'w') as f:
        f.write('other')
    base = os.path.join(work, v)
    history = []
    final_state = w.states[v]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        mutate_state(w, rng, v)
        mode = rng.choice(['full', 'links', 'links', 'plain', 'kill', 'kill'])
        p = rng.choice(prevs)
        if mode == 'kill':
            m = rng.choice(['full', 'links'])
            fn = lambda: export(ctx, rng, s, work, v, p, m)
            shutil.copytree(work, os.path.join(ctx.case_dir, 'probe'), symlinks=True)
            r = child(lambda: export(ctx, rng, s, os.path.join(ctx.case_dir, 'probe'), v, p, m), os.path.join(ctx.case_dir, 'o'), record=True)
            shutil.rmtree(os.path.join(ctx.case_dir, 'probe'))
            if r['status'] != 'ok':
                ctx.violation('export-fails', f"export of {v} over {history} fails: {r['error']}", trace=r.get('trace'))
            r = child(fn, os.path.join(ctx.case_dir, 'o'), kill=pick_line(rng, r['events'], r['mutations']))
            history.append(f"{m} killed")
            ctx.count('killed')
        elif mode == 'plain':
            run_cli(['export', '-s', s, '-o', work, '--previous', p, v])
            history.append('plain')
        else:
            export(ctx, rng, s, work, v, p, mode)
            history.append(mode)
        if rng.random() < .4:
            history.append(tuple(litter(ctx, rng, w, v, base)))
    if rng.random() < .4:
        history.append(tuple(litter(ctx, rng, w, v, base)))
    if rng.random() < .8:
        w.states[v] = final_state
        w.materialise(v)
        w.refresh()
    mode, p = rng.choice(['full', 'links', 'links']), rng.choice(prevs)
    what = f"export of {v} ({mode}{'' if mode == 'full' else ' to ' + p}) over {history}"
    before = {x: snapshot(os.path.join(work, x)) for x in prevs + ['other']}
    shutil.rmtree(fresh)
    shutil.copytree(work, fresh, symlinks=True, ignore=lambda d, n: [v] if d == work else [])
    export(ctx, rng, s, work, v, p, mode)
    export(ctx, rng, s, fresh, v, p, mode)
    got, want = tree(base), tree(os.path.join(fresh, v))
    d = diff_trees(got, want)
    ctx.check(not d, 'tree', f"{what}: differs from an export into an empty directory: {d}")
    # twice
    export(ctx, rng, s, work, v, p, mode)
    d = diff_trees(tree(base), got)
    ctx.check(not d, 'twice', f"{what}: exporting again changes: {d}")
    for x in before:
        now = snapshot(os.path.join(work, x))
        bad = [q for q in sorted(set(now) | set(before[x])) if now.get(q) != before[x].get(q)]
        ctx.check(not bad, 'previous', f"{what}: changes {bad[:3]} of {x}")
    ctx.count('exports'); ctx.count(mode); ctx.count('over_' + ('something' if history else 'nothing'))
    ctx.count('links', sum(isinstance(x, tuple) and x[0] == 'link' for x in got.values()))
    ctx.count('traded', getattr(w, 'traded', 0))
    ctx.nontrivial(v, mode, tuple(map(str, history)), tuple(sorted((it.kind, i) for it, i in w.states[v].items())))
    w.close()


def lazy(ctx, rng, tier):
    vs = patchgen.history(rng)
    w = patchgen.World(ctx, rng, vs)
    w.make_states(p_same=.6, p_present=.9)
    for v in reversed(vs):
        w.materialise(v)
    s = w.publish(f"c31l-{ctx.index}")
    work = ctx.dir('work')
    v, p = vs[0], vs[1]
    mode = rng.choice(['full', 'full', 'links'])
    # 'main' has no order relative to numbered ones
    update = 'main' not in vs[:2] and rng.random() < .4
    if mode == 'links':
        export(ctx, rng, s, work, p, None, 'full')
    export(ctx, rng, s, work, v, p, mode)
    base = os.path.join(work, v)
    want = files_only(tree(base))
    exp = dict(want)
    kept, gone = {}, []
    groups = {}
    for it, i in w.states[v].items():
        if w.data and it in w.data.items:
            continue        # data is collected from these
        ps = [q for q in w.outputs(it, i, v) if isinstance(want.get(q), bytes)]
        if not ps or len(ps) != len(w.outputs(it, i, v)) or it.kind == 'skn' and len(ps) == 1:
            continue
        if any(q.endswith('/atlas_info.bin') for q in ps):
            continue        # without its conversion (language archives), never complete
        # keep all files of an item, with another content, or remove some of them
        k = rng.random()
        if k < .4:
            for q in ps:
                exp[q] = b'kept ' + rng.randbytes(4)
                with open(os.path.join(base, q), 'wb') as f:
                    f.write(exp[q])
                os.utime(os.path.join(base, q), ns=(10**18, 10**18))
                kept[q] = it
        elif k < .7:
            dropped = ps if rng.random() < .6 else rng.sample(ps, 1)
            for q in dropped:
                if q in ps[:1] and it.kind == 'skn' or it.kind != 'skn' or dropped is ps:
                    os.remove(os.path.join(base, q))
                    gone.append(q)
            if it.kind == 'skn' and dropped is ps:
                shutil.rmtree(os.path.join(base, os.path.splitext(it_path(w, it, v))[0]))
    st = {q: os.lstat(os.path.join(base, q)).st_mtime_ns for q in kept}
    if update:
        # of all patches since one; the one given is the base of the others, or exported in full if nothing precedes it
        run_cli(['export', '-s', s, '-o', work, '--lazy', *(['--symlinks'] if mode == 'links' else []), '--from', v if mode == 'full' else p])
        ctx.count('lazy_updates')
    else:
        export(ctx, rng, s, work, v, p, mode, lazy=True)
    what = f"lazy export of {v} ({mode}) with {len(gone)} files missing and {len(kept)} kept"
    d = diff_trees(files_only(tree(base)), exp)
    ctx.check(not d, 'lazy', f"{what}: {d}")
    for q in kept:
        ctx.check(os.lstat(os.path.join(base, q)).st_mtime_ns == st[q], 'lazy-touched', f"{what}: {q} was written")
    ctx.count('lazy_kept', len(kept)); ctx.count('lazy_added', len(gone))
    ctx.nontrivial('lazy', mode, tuple(sorted((kept[q].kind for q in kept))), len(gone))
    w.close()


def it_path(w, it, v):
    return w.export_path(it, v)


SCENARIOS = [Scenario(run, 250, 5000), Scenario(lazy, 100, 2500)]
REQUIRED = {'subchunked': 60, 'exports': 240, 'full': 40, 'links': 500, 'killed': 50, 'over_something': 120, 'traded': 400, 'lazy_kept': 150, 'lazy_added': 100, 'lazy_updates': 20, **{'litter_' + k: 8 for k in ('as_dir', 'as_file', 'beside', 'content', 'dir', 'dirlink', 'emptydir', 'file', 'gamefile', 'link', 'old_conv', 'tmp')}}
