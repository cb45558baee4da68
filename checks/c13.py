"""C13 A failed write never leaves a partial result"""
import errno
import os
import shutil
import threading
from vf.core import Scenario
from vf.crash import child
from vf import patchgen, wadw, sknw, env, gen
from vf.cdn import Cdn, gen_files
from vf.rads import Rads, SLN, MAIN, main_project, gen_contents
from vf.mem import tree, files_only, run_cli, diff_trees
from cdtb.tools import write_file_or_remove, write_dir_or_remove
from cdtb.patcher import PatcherStorage
from cdtb.rads import RadsStorage

PROPERTY = 'C13'
RULE = "a case either runs one generated plan of writes with injected failures, or one operation with files limited to several sizes and interrupted at several lines; distinct signature = (operation, kind of failure, place, outcome)"
ASSUMPTIONS = ["a single failure per run: no second failure while the first one is cleaned up", "deleting files keeps working when writing fails"]


class Weird(BaseException):
    pass


EXC = [OSError(28, 'No space left on device'), ValueError('bad'), KeyboardInterrupt(), SystemExit(3), MemoryError(), Weird(), UnicodeDecodeError('utf-8', b'x', 0, 1, 'y'), EOFError(), RuntimeError('x'), OSError(22, 'Invalid')]


def populate(rng, base):
    for _ in range(rng.choice([0, 2, 5])):
        p = os.path.join(base, *[rng.choice('abc') + 'd' for _ in range(rng.randrange(3))], f"f{rng.randrange(9)}")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.isdir(p):
            with open(p, 'wb') as f:
                f.write(rng.randbytes(rng.randrange(50)))


def write_plan(ctx, rng, f, binary, fail):
    """Write pieces; returns the whole content"""
    out = b'' if binary else ''
    n = rng.choice([0, 1, 2, 10])
    at = rng.randrange(n + 1)
    for i in range(n + 1):
        if fail is not None and i == at:
            raise fail
        if i < n:
            piece = rng.randbytes(rng.choice([0, 1, 100, 9000, 300000 if rng.random() < .1 else 5]))
            if not binary:
                piece = piece.hex() + '\n'
            f.write(piece)
            out += piece
    return out


def files(ctx, rng, tier):
    base = ctx.dir()
    populate(rng, base)
    os.makedirs(os.path.join(base, 'out'), exist_ok=True)
    os.makedirs(os.path.join(base, 'other'), exist_ok=True)
    with open(os.path.join(base, 'other', 'target'), 'w') as f:
        f.write('link target')
    for _ in range(6):
        binary = rng.random() < .7
        name = rng.choice(['x', 'a.b', 'é', 'name with space', 'y' * 250, '.hid', 'x.tmp', 'CON'])
        d = os.path.join(base, 'out', *rng.choice([[], [], ['n1'], ['n1', 'n2', 'n3']]))
        path = os.path.join(d, name)
        pre = rng.choice(['none', 'none', 'file', 'link', 'dangling', 'directory', 'parent_file', 'readonly'])
        try:
            if pre == 'parent_file':
                d = os.path.join(base, 'out', f"pf{rng.randrange(100)}")
                with open(d, 'w') as f:
                    f.write('parent')
                path = os.path.join(d, *rng.choice([[], ['sub']]), name)
            elif pre != 'none':
                os.makedirs(d, exist_ok=True)
                if os.path.lexists(path):
                    pre = 'kept'
                elif pre in ('file', 'readonly'):
                    with open(path, 'wb') as f:
                        f.write(rng.randbytes(rng.choice([0, 5, 200000])))
                    if pre == 'readonly':
                        os.chmod(path, 0o444)
                elif pre == 'directory':
                    os.makedirs(os.path.join(path, 'in'))
                else:
                    os.symlink(os.path.join(base, 'other', 'target' if pre == 'link' else 'nothing'), path)
        except OSError:
            continue
        fail = rng.choice(EXC) if rng.random() < .6 else None
        before = tree(base)
        rel = os.path.relpath(path, base)
        impossible = pre == 'parent_file' or os.path.isdir(path)
        what = f"write_file_or_remove({rel!r}, {'binary' if binary else 'text'}) over {pre}, producer {'raises ' + repr(fail) if fail else 'completes'}"
        raised, content = None, None
        try:
            with write_file_or_remove(path, binary) as f:
                if rng.random() < .3:
                    # another file of the same directory is written meanwhile
                    o = os.path.join(os.path.dirname(path), 'other' + str(rng.randrange(5)))
                    if not os.path.isdir(o):
                        with write_file_or_remove(o) as g:
                            g.write(b'other')
                        before[os.path.relpath(o, base)] = b'other'
                        ctx.count('nested')
                content = write_plan(ctx, rng, f, binary, fail)
        except BaseException as e:
            raised = e
        after = tree(base)
        if fail is not None and not isinstance(raised, OSError if impossible else type(fail)):
            ctx.check(raised is not None, 'swallowed', f"{what}: no error reported")
            ctx.check(impossible, 'other-error', f"{what}: reported {raised!r}")
        if fail is not None and not impossible:
            ctx.check(raised is fail, 'other-error', f"{what}: reported {raised!r}")
        if fail is None:
            ctx.check((raised is not None) == impossible, 'outcome', f"{what}: reported {raised!r}")
        new_dirs = {k for k, v in after.items() if v == ('dir',) and k not in before and rel.startswith(k + '/')}
        if raised is None:
            want = content if binary else content.encode()
            ctx.equal(after.get(rel) if not os.path.islink(path) else open(path, 'rb').read(), want, 'content', f"{what}: content")
        else:
            ctx.check(rel not in after or after[rel] == before.get(rel), 'partial', f"{what}: left {after.get(rel)!r:.80}")
        rest = lambda t: {k: v for k, v in t.items() if k != rel and k not in new_dirs}
        d = diff_trees(rest(after), rest(before))
        if pre == 'link' and not raised:
            # writing through the link would be a change of an unrelated file
            pass
        ctx.check(not d, 'unrelated', f"{what}: changes other files: {d}")
        ctx.count('file_failed' if raised else 'file_written'); ctx.count('over_' + pre)
        ctx.nontrivial(pre, binary, type(fail).__name__, len(name) > 200)


def dirs(ctx, rng, tier):
    base = ctx.dir()
    populate(rng, base)
    for _ in range(5):
        path = os.path.join(base, 'out', *rng.choice([[], ['n1'], ['n1', 'n2']]), rng.choice(['x', 'é b', 'y.obj']))
        pre = rng.choice(['none', 'none', 'empty', 'full', 'file'])
        if os.path.lexists(path):
            pre = 'kept'
        elif pre == 'file':
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w') as f:
                f.write('file')
        elif pre != 'none':
            os.makedirs(path)
            if pre == 'full':
                populate(rng, path)
        fail = rng.choice(EXC) if rng.random() < .6 else None
        before = tree(base)
        rel = os.path.relpath(path, base)
        impossible = os.path.isfile(path)
        what = f"write_dir_or_remove({rel!r}) over {pre}, producer {'raises ' + repr(fail) if fail else 'completes'}"
        wrote, raised = {}, None
        try:
            with write_dir_or_remove(path):
                n = rng.choice([0, 1, 4])
                at = rng.randrange(n + 1)
                for i in range(n + 1):
                    if fail is not None and i == at:
                        raise fail
                    if i < n:
                        sub = rng.choice(['p1', 'p2', 'sub/p3', 'sub/deep/p4'])
                        os.makedirs(os.path.dirname(os.path.join(path, sub)), exist_ok=True)
                        c = rng.randbytes(rng.randrange(40))
                        with open(os.path.join(path, sub), 'wb') as f:
                            f.write(c)
                        wrote[f"{rel}/{sub}"] = c
        except BaseException as e:
            raised = e
        after = tree(base)
        if fail is not None:
            ctx.check(raised is not None and (impossible or raised is fail), 'other-error', f"{what}: reported {raised!r}")
        else:
            ctx.check((raised is not None) == impossible, 'outcome', f"{what}: reported {raised!r}")
        if raised is None:
            ctx.check(after.get(rel) == ('dir',) and all(after.get(k) == v for k, v in wrote.items()), 'content', f"{what}: {diff_trees(wrote, {k: v for k, v in after.items() if k in wrote})}")
        elif not impossible:
            part = [k for k in after if (k == rel or k.startswith(rel + '/')) and after[k] != before.get(k)]
            ctx.check(not part and (rel not in after or pre != 'none'), 'partial', f"{what}: left {part or rel}")
        inside = lambda k: k == rel or k.startswith(rel + '/') or rel.startswith(k + '/')
        d = diff_trees({k: v for k, v in after.items() if not inside(k) or impossible}, {k: v for k, v in before.items() if not inside(k) or impossible})
        ctx.check(not d, 'unrelated', f"{what}: changes other files: {d}")
        ctx.count('dir_failed' if raised else 'dir_written')
        ctx.nontrivial(pre, type(fail).__name__, len(wrote))


def threads(ctx, rng, tier):
    """Several files of one directory written at once"""
    base = os.path.join(ctx.dir(), 'new', 'd')
    plans = [(f"file{i}", rng.randbytes(rng.choice([0, 10, 70000])), rng.random() < .4) for i in range(8)]
    barrier = threading.Barrier(8)
    got = {}

    def work(name, data, fail):
        try:
            barrier.wait(10)
            with write_file_or_remove(os.path.join(base, name)) as f:
                f.write(data[:len(data) // 2])
                barrier.wait(10)
                if fail:
                    raise Weird()
                f.write(data[len(data) // 2:])
            got[name] = 'ok'
        except Weird:
            got[name] = 'failed'
        except BaseException as e:
            got[name] = repr(e)
    ts = [threading.Thread(target=work, args=p) for p in plans]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.equal(got, {n: 'failed' if f else 'ok' for n, _, f in plans}, 'outcome', "results of 8 parallel writes")
    ctx.equal(files_only(tree(base)), {n: d for n, d, f in plans if not f}, 'content', "files of 8 parallel writes")
    ctx.count('parallel_writes', 8)
    ctx.nontrivial(tuple(f for _, _, f in plans))


# --- operations that write files

def op_patcher(ctx, rng, base):
    cdn = Cdn(rng)
    s = {k: gen_files(rng, k, '9.1', rng.choice([2, 4])) for k in ('client', 'game')}
    cdn.publish('live', *[cdn.add_manifest(s[k]) for k in ('client', 'game')])
    links = rng.random() < .5
    def storage():
        st = PatcherStorage(base, 'live')
        st.use_extract_symlinks = links
        return st
    with cdn.net.active():
        name = rng.choice(['client', 'game'])
        st = storage()
        list(st.patch_elements())
        def op():
            with cdn.net.active():
                storage().patch_element(name, stored=True).download(langs=True)
    return op, 32


def op_rads(ctx, rng, base):
    srv = Rads(rng)
    srv.cut = rng.choice([None, lambda n: rng.choice([1, 100, 3000, n])])
    for s in SLN.values():
        srv.listings[s] = []
    sln = SLN['game']
    v = '0.0.2.7'
    name = main_project(srv, rng, sln, v, '8.3', 5)
    srv.add_solution(sln, v, {name: v}, {})
    srv.listings[sln].append(v)
    def op():
        from cdtb.rads import RadsSolution, RadsSolutionVersion, RadsVersion
        with srv.net.active():
            RadsSolutionVersion(RadsSolution(RadsStorage(base), sln), RadsVersion(v)).download(True)
    return op, 0


def op_wad(ctx, rng, base):
    ps = gen.paths(rng, rng.choice([2, 5]))
    es = [wadw.entry(p, rng.randbytes(rng.choice([0, 10, 400, 9000])), rng.choice([wadw.STORED, wadw.GZIP, wadw.ZSTD])) for p in ps]
    if rng.random() < .5:
        es.append(wadw.entry(rng.getrandbits(64), b'\x89PNG\r\n\x1a\n' + rng.randbytes(300)))
    env.set_hashes('game', {wadw.path_hash(p): p for p in ps})
    w = wadw.write_file(os.path.join(ctx.dir('wad'), 'x.wad.client'), wadw.write_wad(rng, es, rng.choice(wadw.VERSIONS)))
    lazy = ['-L'] if 0 else []
    return (lambda: run_cli(['wad-extract', '-o', base] + lazy + [w]) and None), 0


def op_skn(ctx, rng, base):
    p = wadw.write_file(os.path.join(ctx.dir('skn'), 'm.skn'), sknw.gen(rng, names=['Body', 'Head', 'Wings', 'b c', 'UP'])['data'])
    return (lambda: run_cli(['skn-extract', '-o', base, p]) and None), 0


def op_export(ctx, rng, base):
    linked = rng.random() < .4
    vs = ['9.14', '9.13'] if linked else ['9.13']
    w = patchgen.World(ctx, rng, vs, n=rng.choice([4, 8]))
    w.make_states(p_present=1)
    for v in reversed(vs):
        w.materialise(v)
    s = w.publish(f"c13-{ctx.index}")
    if linked:
        run_cli(['export', '-s', s, '-o', base, '--full', '9.13'])
        return (lambda: run_cli(['export', '-s', s, '-o', base, '--symlinks', '--previous', '9.13', '9.14']) and None), 0
    return (lambda: run_cli(['export', '-s', s, '-o', base, '--full', '9.13']) and None), 0


OPS = {'patcher': op_patcher, 'rads': op_rads, 'wad': op_wad, 'skn': op_skn, 'export': op_export}


def operations(ctx, rng, tier):
    kind = rng.choice(['patcher', 'rads', 'wad', 'wad', 'skn', 'export', 'export'])
    root = ctx.dir()
    base, pre, out = os.path.join(root, 'run'), os.path.join(root, 'pre'), os.path.join(root, 'out')
    os.makedirs(base)
    op, extra = OPS[kind](ctx, rng, base)
    # a first run may have been done before
    again = rng.random() < .3 and kind in ('wad', 'skn', 'export')
    shutil.copytree(base, pre, symlinks=True)

    def run(**kw):
        r = child(op, out, **kw)
        if r['status'] in ('harness', 'crash', 'hang', 'killed'):
            raise RuntimeError(f"{r}")
        return r
    r = run(record=True)
    if r['status'] != 'ok':
        ctx.violation('operation-fails', f"{kind} fails without any fault: {r['error']}", trace=r.get('trace'))
    events = r['events']
    ref = files_only(tree(base))
    before = files_only(tree(pre))
    if again:
        shutil.rmtree(pre)
        shutil.copytree(base, pre, symlinks=True)
        for p, c in list(ref.items()):
            if isinstance(c, bytes) and p not in before and rng.random() < .7:
                with open(os.path.join(pre, p), 'wb') as f:
                    f.write(b'previous ' + c[:5000])
        before = files_only(tree(pre))
    links = len([p for p, c in ref.items() if isinstance(c, tuple) and p not in before])
    sizes = sorted({len(c) for p, c in ref.items() if isinstance(c, bytes)} - {0})
    from vf.crash import pick_line
    for _ in range(8):
        shutil.rmtree(base)
        shutil.copytree(pre, base, symlinks=True)
        if links and rng.random() < .2:
            how = {'links': rng.randint(1, links), 'errno': rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EPERM, errno.EROFS])}
        elif rng.random() < .5 and sizes:
            k = rng.choice(sizes)
            how = {'full': max(0, rng.choice([0, 1, k - 1, k // 2, k])) + extra}
            if rng.random() < .5:
                # an error of the device or of a network file system
                how['errno'] = rng.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT, errno.EACCES, errno.EROFS, errno.ESTALE, errno.ETIMEDOUT])
                ctx.count('device_errors')
                if rng.random() < .3:
                    how['full'] = -rng.randrange(1, len(sizes) + 2)
        else:
            how = {'interrupt': pick_line(rng, events, r.get('mutations', ()))}
        x = run(**how)
        got = files_only(tree(base))
        where = f"link {how['links']} fails with {errno.errorcode[how['errno']]}" if 'links' in how else f"files limited to {how['full']} bytes ({errno.errorcode[how.get('errno', errno.EFBIG)]})" if 'full' in how else f"interrupted at {x.get('at')}"
        what = f"{kind}, {where}{', over an earlier result' if again else ''}"
        alien = [p for p in got if p not in ref and p not in before]
        ctx.check(not alien, 'leftover', f"{what}: leaves {alien[:3]} ({x['status']} {x['error']})")
        bad = [p for p in got if got[p] != ref.get(p) and got[p] != before.get(p)]
        ctx.check(not bad, 'partial', f"{what}: {[(p, got[p] if isinstance(got[p], tuple) else len(got[p]), len(ref.get(p) or b'')) for p in bad[:3]]} incomplete ({x['status']} {x['error']})")
        complete = all(got.get(p) == ref[p] for p in ref)
        if x['status'] == 'ok':
            if 'full' in how or 'links' in how or x.get('at'):
                ctx.check(complete, 'unreported', f"{what}: no error reported, but {[p for p in ref if got.get(p) != ref[p]][:3]} missing or outdated")
            ctx.count('run_not_affected')
        else:
            ctx.count('run_failed'); ctx.count(f"{kind}_failed")
            if 'links' in how:
                ctx.count('link_failed'); ctx.count(f"{kind}_link_failed")
                ctx.check('Error' in x['error'] and 'KeyboardInterrupt' not in x['error'], 'error', f"{what}: {x['error']}")
            elif 'full' in how:
                ctx.count('disk_full')
                ctx.check('OSError' in x['error'] or 'BrokenProcessPool' in x['error'] or 'Error' in x['error'], 'error', f"{what}: {x['error']}")
            else:
                ctx.count('interrupted')
                ctx.check('KeyboardInterrupt' in x['error'], 'error', f"{what}: reported as {x['error']}")
            ctx.nontrivial(kind, x.get('at') or ('full', how.get('full'), how.get('errno')), len(got) < len(ref))


SCENARIOS = [Scenario(files, 400, 20000), Scenario(dirs, 150, 8000), Scenario(threads, 30, 800), Scenario(operations, 160, 4000)]
REQUIRED = {'file_failed': 500, 'file_written': 400, 'over_link': 100, 'over_readonly': 100, 'over_directory': 100, 'over_parent_file': 100, 'nested': 200, 'dir_failed': 250, 'dir_written': 150,
            'parallel_writes': 200, 'run_failed': 400, 'disk_full': 150, 'device_errors': 100, 'interrupted': 250, 'patcher_failed': 50, 'rads_failed': 50, 'wad_failed': 60, 'skn_failed': 30, 'export_failed': 80}
