"""C19 Hash lists survive saving, loading and updating"""
import email.utils
import json
import copy
import os
import subprocess
import sys
import time
import requests
from vf.core import Scenario, REPO, VERIF
from vf import crash, env, fsguard, mem, net
from vf.hashw import rhash, rpath
from cdtb.hashes import HashFile

PROPERTY = 'C19'
RULE = "a case is one history of a hash list (or of the directory of lists and the server's copies); distinct signature = (operations or states of the lists, format of the list, fault, outcome)"
ASSUMPTIONS = ["paths have no line break", "the server's dates are not in the future", "the locale's encoding is UTF-8"]
BASE = "https://raw.communitydragon.org/data/hashes/lol/"


def mapping(rng, width, n=None):
    n = (rng.choice([0, 1, 2, 8, 60]) if rng.random() < .98 else 3000) if n is None else n
    out = {}
    for _ in range(n):
        h = rhash(rng, width)
        out[h] = rpath(rng)
    if out and rng.random() < .2:
        # a text listed under several hashes
        out[rhash(rng, width)] = rng.choice(list(out.values()))
    return out


def expected_file(m, width):
    """Lines of a list; entries of equal path have no order"""
    return sorted((s, f"{h:0{width}x} {s}") for h, s in m.items())


def check_file(ctx, path, m, width):
    with open(path, 'rb') as f:
        data = f.read()
    text = data.decode('utf-8')
    lines = text.split('\n')
    ctx.equal(lines.pop(), '', 'format', "the last line of a saved list has no end")
    exp = expected_file(m, width)
    ctx.equal(sorted(lines), sorted(l for _, l in exp), 'format', "lines of the saved list")
    paths = [l.split(' ', 1)[1] for l in lines]
    ctx.equal(paths, [s for s, _ in exp], 'format', "the saved list is not sorted by path")
    ctx.count('lines checked', len(lines))


def foreign(rng, m, width):
    """The same list, as another program would write it"""
    items = list(m.items())
    rng.shuffle(items)
    style = rng.choice(['plain', 'crlf', 'open', 'upper', 'short'])
    eol = '\r\n' if style == 'crlf' else '\n'
    lines = []
    for h, s in items:
        t = f"{h:0{width}x}"
        if style == 'upper':
            t = t.upper()
        elif style == 'short':
            t = f"{h:x}"
        lines.append(f"{t} {s}")
    text = eol.join(lines)
    if style != 'open' and lines:
        text += eol
    return style, text.encode('utf-8')


def history(ctx, rng, tier):
    """A list is saved, loaded, changed on disk and in memory"""
    width = rng.choice([8, 16])
    path = os.path.join(ctx.dir(), rng.choice(['hashes.game.txt', 'hashes é.txt', 'h']))
    hf = HashFile(path, hash_size=width) if width != 16 or rng.random() < .5 else HashFile(path)
    if rng.random() < .3:
        # one of the standard lists, moved here
        kind = rng.choice(sorted(env.WIDTH))
        hf, width = copy.copy(env.hashfile(kind)), env.WIDTH[kind]
        hf.filename, hf.hashes = path, None
        ctx.count('standard lists')
    disk = None      # content of the list on disk
    cached = None    # what load() must return, None: nothing loaded yet
    ops = []
    for _ in range(rng.choice([2, 5, 12])):
        op = rng.choice(['load', 'load', 'force', 'save', 'add', 'change', 'drop', 'replace', 'delete', 'other', 'fresh'])
        if op in ('load', 'force'):
            if op == 'force' or cached is None:
                if disk is None:
                    try:
                        got = hf.load(force=True) if op == 'force' else hf.load()
                    except FileNotFoundError as e:
                        ctx.check(os.path.basename(path) in str(e), 'missing-report', f"the report does not name the missing list: {e}")
                        ctx.count('missing list reported')
                        ops.append('missing')
                        # what is left in memory is not specified
                        hf = HashFile(path, hash_size=width)
                        cached = None
                        continue
                    ctx.violation('missing-report', f"a missing list was loaded as {got!r}")
                got = hf.load(force=True) if op == 'force' else hf.load()
                ctx.equal(got, disk, 'load', "loaded list")
                cached = dict(disk)
                ctx.count('lists loaded')
            else:
                got = hf.load()
                ctx.equal(got, cached, 'cache', "a loaded list was not kept until forced")
                ctx.count('loads from memory')
            ctx.check(hf.load() is got, 'cache', "loading twice gives different mappings")
        elif op == 'save':
            if cached is None:
                hf.hashes = mapping(rng, width)
                cached = dict(hf.hashes)
            hf.save()
            disk = dict(cached)
            check_file(ctx, path, disk, width)
            again = HashFile(path, hash_size=width).load()
            ctx.equal(again, disk, 'roundtrip', "list loaded after saving it")
            ctx.equal(hf.load(), cached, 'save', "saving changed the list in memory")
            ctx.equal(os.listdir(os.path.dirname(path)), [os.path.basename(path)], 'leftover', "files next to the saved list")
            ctx.count('lists saved')
        elif op in ('add', 'change', 'drop') and cached is not None:
            d = hf.load()
            if op == 'add':
                for h, s in mapping(rng, width, rng.choice([1, 3])).items():
                    d[h] = s
                    cached[h] = s
            elif cached:
                h = rng.choice(sorted(cached))
                if op == 'change':
                    d[h] = cached[h] = rpath(rng)
                else:
                    del d[h], cached[h]
        elif op == 'replace':
            m = mapping(rng, width)
            style, data = foreign(rng, m, width)
            with open(path, 'wb') as f:
                f.write(data)
            disk = m
            ctx.count('list written by others')
            op += '-' + style
        elif op == 'delete' and disk is not None:
            os.remove(path)
            disk = None
        elif op == 'other':
            # another user of the same list, with its own memory
            if disk is not None:
                o = HashFile(path, hash_size=width)
                d = o.load()
                d[rhash(rng, width)] = rpath(rng)
                m = dict(d)
                o.save()
                disk = m
        elif op == 'fresh':
            hf = HashFile(path, hash_size=width)
            cached = None
        ops.append(op)
    ctx.nontrivial(width, tuple(ops), len(cached or ()), len(disk or ()))


def interrupted_save(ctx, rng, tier):
    """Saving is killed, interrupted or runs out of space: the list is the previous or the new one"""
    width = rng.choice([8, 16])
    d = ctx.dir()
    path = os.path.join(d, 'hashes.txt')
    link = rng.random() < .2
    target = path
    if link:
        target = os.path.join(ctx.dir('real'), 'list.txt')
        os.symlink(target, path)
    old = mapping(rng, width, rng.choice([1, 20, 400]))
    new = dict(old)
    new.update(mapping(rng, width, rng.choice([1, 20, 400])))
    hf = HashFile(path, hash_size=width)
    hf.hashes = old
    hf.save()
    size_old = os.path.getsize(path)
    hf.hashes = new
    hf.save()
    size_new = os.path.getsize(path)
    hf.hashes = old
    hf.save()
    if link:
        ctx.check(os.path.islink(path), 'save', "saving replaced a link to the list")
    hf.hashes = new
    out = os.path.join(ctx.dir('out'), 'r')
    how = rng.choice(['kill', 'interrupt', 'fsize', 'full'])
    if how in ('kill', 'interrupt'):
        r = crash.child(hf.save, out, record=True)
        ctx.equal(r['status'], 'ok', 'save', f"saving failed: {r.get('error')}")
        hf.hashes = old
        hf.save()
        hf.hashes = new
        n = crash.pick_line(rng, r['events'], r['mutations'])
        r = crash.child(hf.save, out, **{how: n})
    else:
        n = rng.choice([0, 1, rng.randrange(size_new), size_new - 1, size_old])
        r = crash.child(hf.save, out, **{how: n})
    ctx.count('saves ' + how + ': ' + r['status'])
    ctx.check(r['status'] in ('killed', 'error', 'ok'), 'save', f"saving ended as {r}")
    if r['status'] == 'error':
        ctx.equal(os.listdir(os.path.dirname(target)), [os.path.basename(target)], 'leftover', "files next to the list after a failed save")
    try:
        got = HashFile(path, hash_size=width).load()
    except FileNotFoundError:
        ctx.violation('partial', "the previous list is gone after an interrupted save")
    except ValueError as e:
        ctx.violation('partial', f"the list cannot be loaded after an interrupted save: {e}")
    ctx.check(got in (old, new), 'partial', f"after an interrupted save ({how} {n}), the list has {len(got)} entries; it had {len(old)}, {len(new)} were saved")
    check_file(ctx, path, got, width)
    # saving again works
    hf = HashFile(path, hash_size=width)
    hf.load()
    hf.hashes.update(new)
    hf.save()
    ctx.equal(HashFile(path, hash_size=width).load(), new, 'roundtrip', "list saved after an interrupted save")
    ctx.nontrivial('interrupted', how, r['status'], len(old), len(new), r.get('at'))


LISTS = sorted(env.HASH_NAMES.values())


def fetch(ctx, rng, tier):
    """fetch-hashes against a server, whatever is there, whatever fails"""
    os.environ['TZ'] = zone = rng.choice(['UTC', 'America/New_York', 'Asia/Tokyo', 'XST+11:30', 'XST-13', 'Europe/Paris'])
    time.tzset()
    now = int(time.time())
    remote, local, when = {}, {}, {}
    d, real = env.hash_dir, ctx.dir('real')
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    states = []
    for name in LISTS:
        w = 16 if name in ('hashes.game.txt', 'hashes.lcu.txt') or 'rst' in name else 8
        m = mapping(rng, w)
        remote[name] = (m, foreign(rng, m, w)[1])
        when[name] = now - rng.choice([10, 3600, 86400 * 40, rng.randrange(10, 10**8)])
        st = rng.choice(['missing', 'older', 'newer', 'same', 'older1', 'newer1'])
        states.append(st)
        if st != 'missing':
            data = foreign(rng, mapping(rng, w), w)[1]
            t = when[name] + {'older': -rng.choice([60, 7200, 10**6]), 'newer': rng.choice([9, 3600, 10**6]), 'same': 0, 'older1': -1, 'newer1': 1}[st]
            local[name] = data
            p = os.path.join(d, name)
            if rng.random() < .15:
                # kept elsewhere: the times that count are the ones of the list itself
                os.symlink(os.path.join(real, name), p)
                ctx.count('linked lists')
            with open(p, 'wb') as f:
                f.write(data)
            os.utime(p, (t, t))
    fault = rng.choice([None, None, 'head', 'get', 'connect', 'body', 'late', 'full', 'fsize', 'kill'])
    victim = rng.choice(LISTS)
    status = rng.choice([404, 403, 500, 503])
    active = [True]

    def handler(req):
        name = req.url[len(BASE):] if req.url.startswith(BASE) else None
        if name not in remote:
            if name is not None and name.startswith('hashes.') and name.endswith('.txt'):
                # lists that the tools do not use may be fetched as well
                return net.Reply(200, b'', {'last-modified': email.utils.formatdate(now - 100, usegmt=True)})
            return None
        head = req.method == 'HEAD'
        headers = {'Last-Modified': email.utils.formatdate(when[name], usegmt=True), 'Content-Type': 'text/plain'}
        body = remote[name][1]
        if active[0] and name == victim:
            if fault == 'head' and head or fault == 'get' and not head:
                return net.Reply(status, b'<html>error</html>', headers)
            if fault == 'connect':
                return net.Reply(fault=rng.choice([requests.exceptions.ConnectionError('injected'), requests.exceptions.Timeout('injected')]))
            if fault in ('body', 'late') and not head:
                return net.Reply(200, body, headers, cut=lambda n: 7, fail_at=rng.randrange(len(body) + 1) if fault == 'body' else len(body))
        return net.Reply(200, b'' if head else body, headers)
    handler.full = True

    def gets(log):
        out = []
        for e in log:
            if e['method'] == 'GET' and e['url'].startswith(BASE):
                n = e['url'][len(BASE):]
                if n in remote:
                    out.append(n)
        return out

    def run():
        mem.run_cli(['fetch-hashes'])

    server = net.Net(handler)
    needed = {n for n, st in zip(LISTS, states) if st in ('missing', 'older', 'older1')}
    failed = None
    with server.active():
        if fault in ('full', 'fsize', 'kill'):
            out = os.path.join(ctx.dir('out'), 'r')
            if fault == 'kill':
                r = crash.child(run, out, kill=rng.randrange(20, 800))
            else:
                limit = rng.choice([0, 1, max([1] + [len(remote[n][1]) for n in needed]) - 1, rng.randrange(2000)])
                # the result is written by the child as well
                r = crash.child(run, out, **{fault: limit})
            ctx.check(r['status'] in ('ok', 'error', 'killed'), 'fetch', f"fetching ended as {r}")
            if r['status'] != 'ok':
                failed = r['status']
        else:
            try:
                run()
            except requests.exceptions.RequestException as e:
                failed = type(e).__name__
                ctx.count('failed fetch reported')
    active[0] = False
    hit = fault in ('head', 'get', 'connect', 'body', 'late') and (fault in ('connect',) or (fault == 'head' and victim in local) or (fault in ('get', 'body', 'late') and victim in needed))
    if fault in ('head', 'get', 'connect', 'body', 'late'):
        ctx.check(bool(failed) == hit, 'fetch-report', f"fault {fault} for {victim}: fetching {'failed' if failed else 'succeeded'}")
    elif fault is None:
        ctx.check(not failed, 'fetch-report', f"fetching failed: {failed}")
    asked = gets(server.log)
    if fault not in ('full', 'fsize', 'kill'):
        ctx.equal(len(asked), len(set(asked)), 'fetch-twice', f"lists downloaded several times: {asked}")
        extra = set(asked) - needed
        ctx.check(not extra, 'fetch-needless', f"up to date lists were downloaded: {extra}", states=dict(zip(LISTS, states)))
        if not failed:
            ctx.equal(set(asked), needed, 'fetch-missing', "downloaded lists")
    write_fault = fault in ('full', 'fsize')
    for name, st in zip(LISTS, states):
        p = os.path.join(d, name)
        got = None
        if os.path.exists(p):
            with open(p, 'rb') as f:
                got = f.read()
        new, old = remote[name][1], local.get(name)
        if not failed:
            exp = [new if name in needed else old]
        elif name not in needed:
            exp = [old]
        elif name == victim and hit:
            exp = [old]
        elif write_fault:
            exp = [old, new, None]
        else:
            exp = [old, new]
        ctx.check(got in exp, 'fetch-content', f"{name} ({st}, fault {fault}): {'absent' if got is None else len(got)} bytes, it had {'none' if old is None else len(old)}, the server has {len(new)}")
        ctx.count('lists checked')
    if failed:
        ctx.count('failed fetches')
        # the next update completes it
        before = {n: open(os.path.join(d, n), 'rb').read() if os.path.exists(os.path.join(d, n)) else None for n in LISTS}
        n = len(server.log)
        with server.active():
            run()
        asked = set(gets(server.log[n:]))
        exp = {x for x in needed if before[x] is None or before[x] != remote[x][1]}
        may = {x for x in needed if before[x] == remote[x][1] and remote[x][1] == local.get(x)}
        ctx.check(exp <= asked <= exp | may, 'fetch-resume', f"lists downloaded after a failure: {sorted(asked)}, expected {sorted(exp)}")
    ctx.count('downloads', len(asked))
    for kind, name in env.HASH_NAMES.items():
        with open(os.path.join(d, name), 'rb') as f:
            data = f.read()
        if data == remote[name][1]:
            ctx.equal(env.hashfile(kind).load(force=True), remote[name][0], 'load', f"{name} loaded after the update")
            ctx.count('updated lists loaded')
    left = [x for x in os.listdir(d) if not (x.startswith('hashes.') and x.endswith('.txt')) and not (failed and x.endswith('.tmp'))]
    ctx.equal(left, [], 'leftover', "files left in the directory of lists")
    # nothing to do afterwards
    n = len(server.log)
    with server.active():
        run()
    ctx.equal(gets(server.log[n:]), [], 'fetch-needless', "lists downloaded although they were just updated")
    ctx.count('time zone ' + ('UTC' if zone == 'UTC' else 'other'))
    ctx.nontrivial('fetch', zone, tuple(states), fault, failed)


FETCHED = sorted(set(LISTS) | {'hashes.rst.txt'})
FETCH = """
import sys, json, os
sys.path.insert(0, %r); sys.path.insert(0, os.environ['VF_REPO'])
lists = json.load(sys.stdin)
import cdtb.__main__ as m
from vf import net
def handler(req):
    name = req.url.rsplit('/', 1)[1]
    if name not in lists and name.startswith('hashes.'):
        return net.Reply(200, b'', {'last-modified': 'Mon, 02 Jan 2023 10:00:00 GMT'})
    b = lists[name].encode('latin-1')
    return net.Reply(200, b'' if req.method == 'HEAD' else b, {'Last-Modified': 'Mon, 02 Jan 2023 10:00:00 GMT'})
handler.full = True
with net.Net(handler).active():
    m.main(['fetch-hashes'])
"""


def lookup(ctx, rng, tier):
    """Directory of the lists: documented order of environment variables"""
    d = ctx.dir()
    e = {k: v for k, v in os.environ.items() if k not in ('CDTB_HASHES_DIR', 'CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA')}
    e['HOME'] = d + '/home'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = REPO
    exp = d + '/home/.local/share/cdragon/data/hashes/lol'
    chosen = [v for v in ('CDTB_HASHES_DIR', 'CDRAGON_DATA', 'XDG_DATA_HOME', 'LOCALAPPDATA') if rng.random() < .4]
    for v in reversed(chosen):
        value = f"{d}/{rng.choice(['a', 'b c', 'é'])}-{v.lower()}"
        r = rng.random()
        if r < .2:
            value = ''
        elif r < .3 and v == 'XDG_DATA_HOME':
            # relative directories are not valid there
            value = 'relative'
        e[v] = value
        if value in ('', 'relative'):
            continue
        exp = {'CDTB_HASHES_DIR': value, 'CDRAGON_DATA': value + '/hashes/lol', 'XDG_DATA_HOME': value + '/cdragon/data/hashes/lol', 'LOCALAPPDATA': value + '/cdragon/data/hashes/lol'}[v]
    with fsguard.trusted():
        r = subprocess.run([sys.executable, '-c', "import cdtb.hashes, cdtb.binfile, cdtb.rstfile as r; print(cdtb.hashes.default_hash_dir); print(cdtb.hashes.hashfile_lcu.filename); print(cdtb.binfile.hashfile_bintypes.filename); print(r.hashfile_rst_xxh3.filename)"],
                           env=e, capture_output=True, text=True, timeout=60, cwd=d)
    ctx.equal(r.returncode, 0, 'lookup', f"import failed: {r.stderr[-300:]}")
    lines = r.stdout.splitlines()
    ctx.equal(lines, [exp, exp + '/hashes.lcu.txt', exp + '/hashes.bintypes.txt', exp + '/hashes.rst.xxh3.txt'], 'lookup', "directory of the lists", env={k: e.get(k) for k in chosen})
    ctx.count('directories looked up')
    if rng.random() < .5:
        # a first update makes the directory
        lists = {n: foreign(rng, mapping(rng, 8), 8)[1] for n in FETCHED}
        e2 = {**e, 'VF_REPO': REPO}
        with fsguard.trusted():
            r = subprocess.run([sys.executable, '-c', FETCH % VERIF], input=json.dumps({n: b.decode('latin-1') for n, b in lists.items()}), env=e2, capture_output=True, text=True, timeout=60, cwd=d)
        ctx.equal(r.returncode, 0, 'fetch', f"fetch-hashes into {exp}, which does not exist, failed: {r.stderr[-300:]}")
        got = {}
        for n in os.listdir(exp):
            with open(os.path.join(exp, n), 'rb') as f:
                got[n] = f.read()
        ctx.check(all(got.get(n) == lists[n] for n in LISTS), 'fetch-content', f"lists after a first update: {sorted(got)}")
        others = sorted({p.split(os.sep)[0] for p in os.listdir(d)} - {os.path.relpath(exp, d).split(os.sep)[0]})
        ctx.equal(others, [], 'leftover', "files made elsewhere by a first update")
        ctx.count('first updates')
    ctx.nontrivial('lookup', tuple(chosen), tuple(bool(e[v]) for v in chosen))


SCENARIOS = [
    Scenario(history, 1500, 30000),
    Scenario(interrupted_save, 250, 6000),
    Scenario(fetch, 400, 12000),
    Scenario(lookup, 32, 300),
]
REQUIRED = {'lists saved': 500, 'lists loaded': 500, 'loads from memory': 200, 'missing list reported': 100, 'list written by others': 300,
            'failed fetches': 80, 'downloads': 300, 'updated lists loaded': 500, 'directories looked up': 10, 'first updates': 6, 'time zone other': 100}
