"""C33 Export selects and names files by the published rules"""
import os
from vf.core import Scenario
from vf import patchgen
from vf.mem import run_cli, tree, files_only

PROPERTY = 'C33'
RULE = "a case exports one generated patch in full and compares files and lists with the rules; distinct signature = (kinds and containers of the files, unknown ones, version)"
ASSUMPTIONS = ["no two files of a patch are exported to the same path, or to a directory of another"]


def lines(b):
    return b.decode('utf-8').split('\n')[:-1]


def run(ctx, rng, tier):
    v = rng.choice(['9.1', '9.13', '8.24', '4.10', '9.14', '9.23', '10.1', '10.9', '13.13', '13.14', '14.3', '14.4', '14.14', '14.15', '15.1', '15.2', '16.3', 'main'])
    w = patchgen.World(ctx, rng, [v], unknown=rng.choice([0, .2, .5]))
    w.make_states(p_present=.95)
    w.materialise(v)
    s = w.publish(f"x{ctx.index}")
    out = ctx.dir('out')
    run_cli(['export', '-s', s, '-o', out, '--full', v])
    base = os.path.join(out, v)
    got = files_only(tree(base))
    want = w.expected(v)
    own = {k: x for k, x in got.items() if not k.startswith('cdragon/')}
    ctx.equal(sorted(os.listdir(out)), [v], 'dirs', "directories")
    missing, extra = sorted(set(want) - set(own)), sorted(set(own) - set(want))
    origin = lambda ps: [(p, [it for it in w.states[v] if p in w.outputs(it, w.states[v][it], v, claim=True)]) for p in ps[:4]]
    ctx.check(not missing, 'missing', f"not exported: {origin(missing)} (unexpected: {extra[:4]})")
    ctx.check(not extra, 'extra', f"should not be exported: {origin(extra)}")
    for p, spec in want.items():
        if spec:
            patchgen.same_content(ctx, own[p], spec, p)
    # lists
    gen = w.generated(v)
    ctx.equal(sorted(k for k in got if k.startswith('cdragon/')), sorted(['cdragon/files.exported.txt', 'cdragon/files.unknown.txt'] + list(gen)), 'lists', "generated files")
    for p, spec in gen.items():
        patchgen.same_content(ctx, got[p], spec, p)
    names = sorted({p for it in w.states[v] for p in w.listed(it, v)})
    ctx.equal(lines(got['cdragon/files.exported.txt']), names, 'list-exported', "list of exported files")
    unk = lines(got['cdragon/files.unknown.txt'])
    ctx.equal(sorted(set(unk)), [f"{h:016x}" for h in w.unknown_hashes(v)], 'list-unknown', "list of unknown hashes")
    ctx.check(unk == sorted(unk), 'list-unknown', "list of unknown hashes is not sorted")
    for it in w.states[v]:
        ctx.count(f"{it.where[0]}_{it.kind}" + ('' if it.known else '_unknown'))
        ctx.count('kept' if w.outputs(it, 0, v) else 'dropped')
        if it.where[0] == 'game' and it.where[1].count('.') > 2:
            ctx.count('language' if it.where[1].split('.')[-3][2:3] == '_' else 'no_language')
    ctx.count('files', len(want))
    ctx.nontrivial(v, tuple(sorted((it.kind, it.where, it.known) for it in w.states[v])))
    w.close()


SCENARIOS = [Scenario(run, 300, 6000)]
REQUIRED = {'subchunked': 60, 'files': 1000, 'kept': 800, 'dropped': 200, 'language': 60, 'no_language': 60, 'game_bin_unknown': 8, 'client_text_unknown': 4}
