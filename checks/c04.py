"""C04 Storage locations and options mean what they say"""
import contextlib
import json
import os
from vf.core import Scenario
from vf.cdn import Cdn, gen_files
from vf.mem import run_cli, Refused, MemStorage
from cdtb.storage import Storage
from cdtb.patcher import PatcherStorage
from cdtb.rads import RadsStorage

PROPERTY = 'C04'
RULE = "a case is one way to write a storage location with one option combination; distinct signature = (form, type, options, working directory relation)"
ASSUMPTIONS = ["POSIX paths"]
RADS_URLS = {'default': 'http://l3cdn.riotgames.com/releases/live/', 'kr': 'http://l3cdn.riotgames.com/KR_CBT/', 'pbe': 'http://l3cdn.riotgames.com/releases/pbe/'}


@contextlib.contextmanager
def cwd(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def gen_options(rng, type_):
    """(options, expected attributes) or (options, None) when they must be rejected"""
    o, exp = {}, {}
    if type_ == 'patcher':
        exp = {'patchline': 'live', 'use_extract_symlinks': True, 'clientconfig_data': None}
        if rng.random() < .5:
            o['patchline'] = exp['patchline'] = rng.choice(['live', 'pbe', 'foo'])
        if rng.random() < .5:
            o['use_extract_symlinks'] = exp['use_extract_symlinks'] = rng.random() < .4
        if rng.random() < .3:
            o['clientconfig_data'] = exp['clientconfig_data'] = rng.choice(['/x/y.json', 'https://example.com/z', 'rel.json'])
    elif type_ == 'rads':
        exp = {'url': RADS_URLS['default']}
        k = rng.randrange(5)
        if k == 1:
            o['url'] = exp['url'] = rng.choice(['http://example.com/a/', 'http://l3cdn.riotgames.com/releases/pbe/'])
        elif k == 2:
            o['cdn'] = rng.choice(list(RADS_URLS)); exp['url'] = RADS_URLS[o['cdn']]
        elif k == 3:
            o['cdn'] = rng.choice(list(RADS_URLS)); o['url'] = 'http://example.com/a/'; exp = None
        elif k == 4 and rng.random() < .5:
            o['cdn'] = rng.choice(['na', 'LIVE!', 'unknown', 'live']); exp = None
    return o, exp


CLASSES = {'patcher': PatcherStorage, 'rads': RadsStorage, 'vfmem': MemStorage}


def locations(ctx, rng, tier):
    base = ctx.dir()
    work = os.path.join(base, rng.choice(['w', 'w/x', '.']))
    os.makedirs(work, exist_ok=True)
    with cwd(work):
        type_ = rng.choice(['patcher', 'patcher', 'rads', 'rads', 'vfmem'])
        opts, exp = gen_options(rng, type_)
        form = rng.choice(['type:path', 'plain', 'conf-file', 'conf-file', 'conf-dir', 'conf-dir', 'layout-dir', 'empty-dir', 'unknown-type', 'conf-unknown', 'conf-notype', 'bad-json'])
        loc, where = None, None
        sub = os.path.join(base, rng.choice(['s', 's t', 's/deep', 'é', 'a:b', 'rads:x', 'cdn']))
        spell = lambda p: rng.choice([p, os.path.relpath(p), p + '/' if os.path.isdir(p) else p, os.path.join(os.path.dirname(p), '.', os.path.basename(p))])
        reject = False
        if form in ('type:path', 'unknown-type'):
            target = os.path.join(base, rng.choice(['store', 'a:b', 'x/y', 'patcher']))
            if rng.random() < .5:
                target = os.path.relpath(target)
            if form == 'unknown-type':
                type_, reject = rng.choice(['', 'Rads', 'cdn', 'patcher ', 'http']), True
            loc, where = f"{type_}:{target}", target
            opts, exp = {}, ({'patchline': 'live', 'use_extract_symlinks': True, 'clientconfig_data': None} if type_ == 'patcher' else {'url': RADS_URLS['default']} if type_ == 'rads' else {})
        elif form == 'plain':
            new = rng.choice(['new', 'new', 'cdn'])
            loc = where = os.path.relpath(os.path.join(base, new)) if rng.random() < .5 else os.path.join(base, new)
            type_, exp = 'patcher', {'patchline': 'live', 'use_extract_symlinks': True, 'clientconfig_data': None}
        elif form in ('layout-dir', 'empty-dir'):
            os.makedirs(sub)
            type_, exp = 'patcher', {'patchline': 'live', 'use_extract_symlinks': True, 'clientconfig_data': None}
            if form == 'layout-dir':
                os.makedirs(os.path.join(sub, 'channels', 'public'))
            else:
                reject = True
                for n in rng.sample(['cdtb', 'channels.txt', 'x', 'channel'], 2):
                    os.makedirs(os.path.join(sub, n))
                if rng.random() < .3:
                    open(os.path.join(sub, 'channels'), 'w').close()
            loc, where = spell(sub), sub
        else:
            os.makedirs(sub)
            name = 'cdtb.storage.conf' if form == 'conf-dir' else rng.choice(['my.conf', 'cdtb.storage.conf', 'x:y.json'])
            conf = dict(opts, type=type_)
            rel = rng.choice([None, '.', 'data', '../other', 'a/../b', os.path.join(base, 'abs'), 'é'])
            if rel is not None:
                conf['path'] = rel
            where = os.path.join(sub, rel or '.')
            if form == 'conf-unknown':
                conf['type'] = rng.choice(['Patcher', 'foo', '']); reject = True
            if form == 'conf-notype':
                del conf['type']; reject = True
            text = json.dumps(conf)
            if form == 'bad-json':
                text = text[:-1]; reject = True
            if rng.random() < .3:
                os.makedirs(os.path.join(sub, 'channels'))     # the configuration file has precedence
            f = os.path.join(sub, name)
            with open(f, 'w') as fo:
                fo.write(text)
            dir_ = form == 'conf-dir' or name == 'cdtb.storage.conf' and rng.random() < .3
            loc = spell(sub if dir_ else f)
        if exp is None:
            reject = True
        try:
            st = Storage.from_path(loc)
        except Exception as e:
            if not reject:
                raise
            st = None
        if reject:
            ctx.check(st is None, 'accepted', f"{form}: {loc!r} (options {opts}) is accepted as {st!r}")
            ctx.count('rejected')
            ctx.count('rejected_' + form)
        else:
            ctx.check(type(st) is CLASSES[type_], 'type', f"{form}: {loc!r} opens a {type(st).__name__}")
            got = (os.path.normpath(os.path.join(os.getcwd(), st.path)))
            ctx.equal(got, os.path.normpath(os.path.join(os.getcwd(), where)), 'location', f"{form}: location of {loc!r}")
            ctx.equal({k: getattr(st, k) for k in exp}, exp, 'options', f"{form}: options of {loc!r} with {opts}")
            p = os.path.normpath(os.path.join(os.getcwd(), st.fspath('a/b')))
            ctx.equal(p, os.path.join(got, 'a/b'), 'fspath', "path below the storage")
            ctx.count('opened'); ctx.count('opened_' + form)
        ctx.nontrivial(form, type_, tuple(sorted(opts.items())), os.path.isabs(loc))


def cli(ctx, rng, tier):
    """Command line: what is asked from the servers and where it is stored"""
    base = ctx.dir()
    cdn = Cdn(rng)
    for pl in ('live', 'pbe'):
        v = f"{rng.randrange(8, 14)}.{rng.randrange(1, 25)}"
        c, g = (gen_files(rng, k, v, 1) for k in ('client', 'game'))
        cdn.publish(pl, cdn.add_manifest(c), cdn.add_manifest(g))
        cdn.extra[f'https://example.com/{pl}'] = cdn.client_config()
        live_v = v if pl == 'live' else None
        if pl == 'live': version = v
    given = rng.choice([None, None, 'live', 'pbe', 'pbe'])
    form = rng.choice(['none', 'none', 'option', 'env', 'both', 'conf', 'conf', 'rads', 'mem'])
    confpl, expected_dir = None, None
    argv, env = [], None
    opt = rng.choice(['st', os.path.join(base, 'st'), 'patcher:st'])
    if form == 'none':
        expected_dir = 'cdn'
    elif form == 'option':
        argv, expected_dir = ['-s', opt], 'st'
    elif form == 'env':
        env, expected_dir = opt, 'st'
    elif form == 'both':
        env, argv, expected_dir = 'rads:other', ['-s', opt], 'st'
    elif form == 'conf':
        confpl = rng.choice([None, 'live', 'pbe'])
        conf = {'type': 'patcher', 'path': 'cs'}
        if confpl: conf['patchline'] = confpl
        # also in a directory named like the default location
        cdir, p = rng.choice([('cdir', 'cdir/c.json'), ('cdir', 'cdir'), ('cdn', 'cdn'), ('cdn', 'cdn'), ('cdn', os.path.join(base, 'cdn'))])
        os.makedirs(os.path.join(base, cdir))
        with open(os.path.join(base, cdir, 'c.json' if p.endswith('.json') else 'cdtb.storage.conf'), 'w') as f:
            json.dump(conf, f)
        expected_dir = cdir + '/cs'
        if rng.random() < .5: env = p
        else: argv = ['-s', p]
    else:
        argv = ['-s', 'rads:r' if form == 'rads' else 'vfmem:k']
    pl = given or confpl or 'live'
    refused = form in ('rads', 'mem') and given is not None
    if form in ('rads', 'mem') and not refused:
        return
    if given:
        argv += ['--patchline', given]
    rng.shuffle(argv) if not argv else None
    if env:
        os.environ['CDTB_STORAGE'] = env
    try:
        with cwd(base), cdn.net.active():
            try:
                out = run_cli(['versions', '-a', *argv, 'patch'])
                done = True
            except Refused:
                done = False
    finally:
        os.environ.pop('CDTB_STORAGE', None)
    ctx.equal(done, not refused, 'cli-refusal', f"{argv} env={env}")
    if refused:
        ctx.check(not cdn.net.log, 'cli-refused-asked', "a refused command sent requests")
        ctx.count('cli_refused')
        ctx.nontrivial(form, given)
        return
    asked = [u for u in cdn.net.urls() if 'version-sets' in u]
    ctx.check(asked and all(('PBE1' if pl == 'pbe' else 'EUW1') in u for u in asked), 'patchline-requests', f"{argv} env={env} conf={confpl}: asked {asked} for {pl}")
    rel = os.path.join(base, expected_dir, 'cdtb', 'releases')
    ctx.equal(sorted(os.listdir(rel)) if os.path.isdir(rel) else None, [pl], 'patchline-store', f"{argv} env={env} conf={confpl}: release directories below {expected_dir}")
    ctx.equal(out.strip(), 'main' if pl == 'pbe' else version, 'patchline-versions', f"{argv} env={env} conf={confpl}: versions printed")
    allowed = {expected_dir.split('/')[0]}
    ctx.check(set(os.listdir(base)) <= allowed, 'stray', f"unexpected files {os.listdir(base)}")
    ctx.count('cli_runs'); ctx.count(f'cli_{form}'); ctx.count('cli_patchline_given', given is not None)
    ctx.nontrivial(form, given, confpl, tuple(a for a in argv if 'vf-' not in a), env and 'env')


def config_data(ctx, rng, tier):
    """clientconfig_data: file or URL used instead of the configuration service"""
    base = ctx.dir()
    cdn = Cdn(rng)
    from vf.cdn import CONFIG
    urls = {}
    for pl in ('live', 'pbe'):
        v = "10.1"
        c, g = (cdn.add_manifest(gen_files(rng, k, v, 1)) for k in ('client', 'game'))
        cdn.publish(pl, c, g)
        urls[pl] = c
    body = cdn.client_config()
    # the regular service now says something else
    for pl in ('live', 'pbe'):
        cdn.published[pl]['client'] = cdn.add_manifest(gen_files(rng, 'client', '11.1', 1))
    other = {pl: cdn.published[pl]['client'] for pl in urls}
    pl = rng.choice(['live', 'pbe'])
    kind = rng.choice(['none', 'url', 'file'])
    conf = {'type': 'patcher', 'path': os.path.join(base, 's'), 'patchline': pl}
    if kind == 'url':
        conf['clientconfig_data'] = rng.choice(['https://example.com/cfg.json', 'http://example.com/cfg'])
        cdn.extra[conf['clientconfig_data']] = body
    elif kind == 'file':
        name = rng.choice(['c.json', 'http.json', 'https-config.json', 'http/c.json', 'lol.conf', 'a b.json'])
        os.makedirs(os.path.dirname(os.path.join(base, name)), exist_ok=True)
        with open(os.path.join(base, name), 'wb') as f:
            f.write(body)
        conf['clientconfig_data'] = rng.choice([name, os.path.join(base, name)])
    st = Storage.from_conf(conf)
    with cwd(base), cdn.net.active():
        list(st.patch_elements())
    rels = list(st.iter_releases())
    ctx.equal([r.data['client_patch_url'] for r in rels], [other[pl] if kind == 'none' else urls[pl]], 'config-data', f"client manifest recorded with {kind}")
    ctx.equal(CONFIG in cdn.net.urls(), kind == 'none', 'config-requests', f"configuration service used with {kind}")
    ctx.count('config_data'); ctx.nontrivial(kind, pl)


SCENARIOS = [Scenario(locations, 1500, 20000), Scenario(cli, 250, 4000), Scenario(config_data, 60, 600)]
REQUIRED = {'opened': 500, 'rejected': 300, 'opened_conf-dir': 80, 'opened_type:path': 60, 'opened_layout-dir': 30, 'rejected_unknown-type': 30, 'cli_runs': 120, 'cli_refused': 15, 'cli_patchline_given': 60, 'config_data': 50}
