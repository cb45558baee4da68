"""C02 Patch listings are complete, ordered and exact"""
from vf.core import Scenario
from checks import c05
from cdtb.storage import Storage, PatchElement, PatchVersion, Patch

PROPERTY = 'C02'
RULE = "a case is one history of elements with all its listings and lookups; non-trivial when it holds at least 2 elements; distinct signature = the history"
ASSUMPTIONS = ["the patch versions of each RADS solution never decrease (documented)", "patch versions never increase from newest to oldest, as documented for patch_elements()"]


class MemStorage(Storage):
    """A storage over an in-memory history: [(name, version, uid, stored)]"""

    def __init__(self, history):
        super().__init__('/nonexistent', 'http://invalid/')
        self.history = history
        self.asked = []

    def patch_elements(self, stored=False):
        self.asked.append(bool(stored))
        self.read = 0
        for name, version, uid, st in self.history:
            if stored and not st:
                continue
            self.read += 1
            e = PatchElement(name, version if version is None else PatchVersion(version))
            e.uid = uid
            yield e


def gen_history(rng):
    style = rng.randrange(8)
    if style == 0:
        versions = ['main'] * rng.randrange(0, 8)
    else:
        n = rng.choice([0, 1, 2, 3, 5, 8, 13])
        pool = sorted({(rng.choice([rng.randrange(1, 16), rng.randrange(1, 100)]), rng.randrange(1, 25)) for _ in range(n)}, reverse=True)
        if n and rng.random() < .5:
            s = rng.choice([rng.randrange(1, 14), 10, 20, rng.randrange(2, 99)])
            pool = [(s, i) for i in range(rng.randrange(9, 13), 7, -1)] + [(s - 1, i) for i in range(24, 24 - n % 4, -1)]
        versions = []
        for t in pool:
            versions += [f"{t[0]}.{t[1]}"] * rng.choice([1, 1, 2, 2, 3, 5])
    h = []
    only = rng.choice([None, None, None, 'game', 'client'])
    for i, v in enumerate(versions):
        h.append((only or rng.choice(['game', 'client']), v, i, rng.random() < .6))
    return h


def ref_patches(history, stored):
    """[(version, {name: uid})], newest first"""
    out = []
    for name, v, uid, st in history:
        if stored and not st:
            continue
        if not out or out[-1][0] != v:
            out.append((v, {}))
        out[-1][1].setdefault(name, uid)
    return out


def view(p):
    return (str(p.version), sorted((e.name, e.uid) for e in p.elements))


def rview(r):
    return (r[0], sorted(r[1].items()))


def histories(ctx, rng, tier):
    h = gen_history(rng)
    st = MemStorage(h)
    for stored in (False, True):
        ref = ref_patches(h, stored)
        got = [view(p) for p in st.patches(stored=stored)]
        ctx.equal(got, [rview(r) for r in ref], 'listing', f"patches(stored={stored}) of {h}")
        ctx.equal([(e.name, str(e.version), e.uid) for e in st.patch_elements(stored=stored)], [x[:3] for x in h if not stored or x[3]], 'elements', "element listing")
        known = [r[0] for r in ref]
        probes = list(known)
        for v in known[:6]:
            if v != 'main':
                a, b = v.split('.')
                probes += [f"{a}.{b}0", f"{a}.{int(b) + 1}", f"{int(a) + 1}.{b}", f"{a[0]}.{b}"]
        probes += ['main', '1.1', '99.9', None]
        for q in probes:
            forms = [q] if q is None else [q, PatchVersion(q)]
            for f in forms:
                exp = (ref[0] if ref else None) if q is None else next((r for r in ref if r[0] == q), None)
                p = st.patch(f, stored=stored)
                if exp is not None:
                    # versions are retrieved one after another: only the next patch shows that one is complete
                    i = next(i for i, r in enumerate(ref) if r is exp)
                    most = sum(1 for x in h if (x[3] or not stored) and x[1] in known[:i + 1]) + 1
                    ctx.check(st.read <= most, 'retrieved', f"patch({f!r}, stored={stored}) retrieves {st.read} elements instead of at most {most}")
                ctx.equal(None if p is None else view(p), None if exp is None else rview(exp), 'patch-lookup', f"patch({f!r}, stored={stored}) in {h}")
                ctx.count('lookups'); ctx.count('lookups_absent', exp is None)
                for name in ('game', 'client'):
                    exp = next((x for x in h if x[0] == name and (q is None or x[1] == q) and (x[3] or not stored)), None)
                    e = st.patch_element(name, f, stored=stored)
                    if exp is not None:
                        most = [x[2] for x in h if x[3] or not stored].index(exp[2]) + 1
                        ctx.check(st.read <= most, 'retrieved', f"patch_element({name}, {f!r}, stored={stored}) retrieves {st.read} elements instead of {most}")
                    ctx.equal(None if e is None else (e.name, str(e.version), e.uid), exp and exp[:3], 'element-lookup', f"patch_element({name}, {f!r}, stored={stored}) in {h}")
                    ctx.count('element_lookups')
        for p, r in zip(st.patches(stored=stored), ref):
            l = p.latest()
            ctx.equal(view(l), rview(r), 'latest', f"latest() of {r}")
        ctx.count('patches_listed', len(ref))
        if not ref: ctx.count('empty_listings')
    ctx.check(set(st.asked) == {False, True}, 'stored-flag', "the stored flag is not passed on")
    if len(h) > 1:
        ctx.nontrivial(tuple(h))


def relations(ctx, rng, tier):
    """Equality, hashing and order of patches and elements; _create refuses mixed versions"""
    h1, h2 = gen_history(rng), gen_history(rng)
    p1, p2 = list(MemStorage(h1).patches()), list(MemStorage(h2).patches())
    for a in p1[:12]:
        for b in p2[:12]:
            same = str(a.version) == str(b.version)
            ka, kb = PatchVersion(str(a.version)), PatchVersion(str(b.version))
            if 'main' not in (str(a.version), str(b.version)):      # not ordered relative to numbered ones
                ctx.check((a < b) is (ka > kb), 'patch-order', f"{a!r} < {b!r} (the newest patch comes first)")
            ctx.check((a == b) is same and (len({a, b}) == 1) is same, 'patch-eq', f"{a!r} / {b!r}")
            for x in a.elements:
                for y in b.elements:
                    s = same and x.name == y.name
                    ctx.check((x == y) is s and (len({x, y}) == 1) is s, 'element-eq', f"{x!r} / {y!r}")
            ctx.count('relations')
    # sorting patches puts the newest one first, as the listing does
    if p1 and str(p1[0].version) != 'main':
        sh = list(p1); rng.shuffle(sh)
        ctx.equal([str(p.version) for p in sorted(sh)], [str(p.version) for p in p1], 'patch-sort', "sorted patches")
        ctx.count('sorted')
        ctx.nontrivial(tuple(h1))


def rads(ctx, rng, tier):
    """The patches of a RADS storage, whose elements come from two independent solutions"""
    w = c05.World(ctx, rng)
    num = lambda v: [int(x) for x in v.split('.')]
    ref = {}
    for name, sln in c05.SLN.items():
        for release, patch, *_ in w.hist[sln]:
            patch = 'main' if w.pbe else patch
            if patch is not None:
                ref.setdefault(patch, {})[name] = release       # oldest first
    order = sorted(ref, key=(lambda v: 0) if w.pbe else num, reverse=True)
    sview = lambda p: (str(p.version), sorted((e.name, str(e.solution_version.version)) for e in p.elements))
    with w.srv.net.active():
        # stored releases are known after a first listing of all of them
        for stored in ([False, True] if not w.pbe else [False]):
            st = w.storage()
            got = [sview(p) for p in st.patches(stored=stored)]
            ctx.equal(got, [(v, sorted(ref[v].items())) for v in order], 'listing', f"RADS patches(stored={stored})")
            for v in [None] + order + ['1.1']:
                p = st.patch(v, stored=stored)
                x = (order[0] if order else None) if v is None else v if v in ref else None
                ctx.equal(p and sview(p), x and (x, sorted(ref[x].items())), 'patch-lookup', f"RADS patch({v!r}, stored={stored})")
                for name in c05.SLN:
                    x = next((o for o in order if name in ref[o]), None) if v is None else v if name in ref.get(v, ()) else None
                    e = st.patch_element(name, v, stored=stored)
                    ctx.equal(e and (e.name, str(e.version), str(e.solution_version.version)), x and (name, x, ref[x][name]), 'element-lookup', f"RADS patch_element({name}, {v!r}, stored={stored})")
    names = {n for r in ref.values() for n in r}
    ctx.count('rads_patches', len(ref))
    ctx.count('rads_seasons', len(names) == 2 and len({v.split('.')[0] for v in order}) > 1)
    if len(ref) > 1:
        ctx.nontrivial('rads', tuple((v, tuple(sorted(ref[v].items()))) for v in order))


SCENARIOS = [Scenario(histories, 500, 12000), Scenario(relations, 200, 4000), Scenario(rads, 100, 2000)]
REQUIRED = {'rads_patches': 100, 'rads_seasons': 20, 'lookups': 8000, 'lookups_absent': 2000, 'element_lookups': 10000, 'empty_listings': 20, 'relations': 2000, 'sorted': 50}
