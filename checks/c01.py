"""C01 Versions have one consistent numeric order"""
import operator
from vf.core import Scenario
from cdtb.storage import BaseVersion, PatchVersion
from cdtb.rads import RadsVersion

PROPERTY = 'C01'
RULE = "a case is non-trivial when it compares a pair of versions; distinct signature = (class, components of both)"
ASSUMPTIONS = ["canonical decimal components (no leading zeros, signs, blanks or underscores)"]
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}
REJECT = (ValueError, TypeError, AssertionError)


def comp(rng):
    return rng.choice([rng.randrange(0, 30), rng.randrange(0, 12), rng.randrange(0, 300), rng.choice([0, 1, 9, 10, 11, 19, 99, 100, 101, 999, 1000, 65535, 2**32])])


def rtuple(rng, n):
    return tuple(comp(rng) for _ in range(n))


def neighbour(rng, t):
    """A tuple close to t: same, one changed component, prefix, extension"""
    k = rng.randrange(6)
    t = list(t)
    if k == 0:
        return tuple(t)
    if k == 1 and len(t) > 1:
        return tuple(t[:-1])
    if k == 2:
        return tuple(t) + (rng.choice([0, 1, comp(rng)]),)
    i = rng.randrange(len(t))
    if k == 3:
        t[i] = max(0, t[i] + rng.choice([-1, 1]))
    elif k == 4:
        t[i] = t[i] * 10 + rng.randrange(10)
    else:
        t[i] = comp(rng)
    return tuple(t)


def make(cls, rng, t):
    return cls('.'.join(map(str, t))) if rng.random() < .5 else cls(t)


def pairs(ctx, rng, tier):
    """All operators on pairs of versions, built from strings or tuples"""
    for _ in range(60):
        cls = rng.choice([BaseVersion, PatchVersion, PatchVersion, RadsVersion])
        if cls is PatchVersion:
            ta = rtuple(rng, rng.choice([2, 2, 2, 3, 4])); tb = neighbour(rng, ta)
            while len(tb) < 2:
                tb += (comp(rng),)
        elif cls is RadsVersion:
            ta = rtuple(rng, 4); tb = neighbour(rng, ta)
            if len(tb) != 4:
                tb = ta
        else:
            ta = rtuple(rng, rng.randrange(1, 6)); tb = neighbour(rng, ta)
        a, b = make(cls, rng, ta), make(cls, rng, tb)
        ea, eb = (ta[:2], tb[:2]) if cls is PatchVersion else (ta, tb)
        for sym, op in OPS.items():
            got = op(a, b)
            ctx.check(got is op(ea, eb), 'order', f"{a!r} {sym} {b!r} is {got!r}", a=ta, b=tb)
        ctx.check(bool(hash(a) == hash(b)) or a != b, 'hash', f"{a!r} == {b!r} but hashes differ")
        ctx.equal(len({a, b}), 1 if ea == eb else 2, 'hash-set', f"set of {a!r}, {b!r}")
        sa, sb = '.'.join(map(str, ea)), '.'.join(map(str, eb))
        ctx.equal((a == sa, a != sa, sa == a, a == sb, a != sb, a == ea, a != ea, a == eb, a != eb),
                  (True, False, True, ea == eb, ea != eb, True, False, ea == eb, ea != eb), 'plain', f"{a!r} against {sa!r}, {sb!r}, {ea}, {eb}")
        ctx.check({a: 1}.get(sa) == 1 and {sa: 1}.get(a) == 1, 'hash-str', f"{a!r} not found under its string {sa!r}")
        ctx.check(not (a == None) and a != 3.5 and a != [1], 'foreign', f"{a!r} equals a foreign object")
        ctx.equal((str(a), tuple(a.t)), (sa, ea), 'text', f"text and components of {cls.__name__}({ta})")
        ctx.nontrivial(cls.__name__, ta, tb)
        ctx.count('pairs')
        if ea == eb: ctx.count('pairs_equal')
        if len(ea) != len(eb): ctx.count('pairs_prefix')
        if (sa < sb) != (ea < eb): ctx.count('pairs_text_order_differs')


def sorting(ctx, rng, tier):
    """Sorting many versions, maximum and set membership against tuples"""
    cls = rng.choice([BaseVersion, PatchVersion])
    ts = [rtuple(rng, 2 if cls is PatchVersion else rng.randrange(1, 5)) for _ in range(rng.randrange(1, 40))]
    ts += [neighbour(rng, t) for t in ts if len(neighbour(rng, t)) >= 2]
    if cls is PatchVersion:
        ts = [t[:2] for t in ts if len(t) >= 2]
    vs = [make(cls, rng, t) for t in ts]
    ctx.equal([v.t for v in sorted(vs)], sorted(ts), 'sort', "sorted versions")
    ctx.equal([v.t for v in sorted(vs, reverse=True)], sorted(ts, reverse=True), 'sort', "reverse sorted versions")
    ctx.equal(max(vs).t, max(ts), 'sort', "max"); ctx.equal(min(vs).t, min(ts), 'sort', "min")
    ctx.equal(len(set(vs)), len(set(ts)), 'hash-set', "number of distinct versions")
    ctx.nontrivial(cls.__name__, tuple(ts))
    ctx.count('sorted_lists')


def patch_form(ctx, rng, tier):
    """Truncation to two components, 'main', integer codes, rejections"""
    main = PatchVersion('main')
    for _ in range(30):
        t = rtuple(rng, rng.randrange(2, 6))
        v = make(PatchVersion, rng, t)
        ctx.equal((v.t, v.s), (t[:2], f"{t[0]}.{t[1]}"), 'truncate', f"PatchVersion of {t}")
        s, p = rng.randrange(1, 40), rng.choice([rng.randrange(1, 30), rng.randrange(0, 100), rng.randrange(98, 103), rng.randrange(0, 999)])
        w = make(PatchVersion, rng, (s, p))
        ctx.equal(w.as_int(), s * 100 + p, 'as-int', f"integer code of {s}.{p}")
        ctx.check(p > 99 or main.as_int() > w.as_int(), 'as-int', f"code of main not above {w!r}")
        ctx.check(not (main == v) and main != v and not (v == main) and v != main, 'main', f"main equals {v!r}")
        ctx.check(main != t[:2] and main != w.s, 'main', "main equals a plain version")
        ctx.nontrivial('form', t, s, p)
        ctx.count('patch_versions')
    ctx.check(main == PatchVersion('main') and main == 'main' and hash(main) == hash(PatchVersion('main')) and not (main != 'main'), 'main', "main differs from itself")
    ctx.check(len({main, PatchVersion('main')}) == 1 and str(main) == 'main', 'main', "main differs from itself")
    for op, exp in ((operator.lt, False), (operator.gt, False), (operator.le, True), (operator.ge, True)):
        ctx.check(op(main, PatchVersion('main')) is exp, 'main', "main is not ordered equal to itself")
    n = rng.randrange(1, 999)
    bad = ['', (), 'x', 'a.b', f'{n}.', f'.{n}', f'{n}..{n}', f'{n}.x', f'{n}.-', 'Main', 'mainly', f'main.{n}', f'{n},{n}', f'{n}.{n}.', None, n, float(n), [n, n]]
    for cls in (BaseVersion, PatchVersion, RadsVersion):
        lens = {BaseVersion: [], PatchVersion: [1], RadsVersion: [1, 2, 3, 5, 6]}[cls]
        more = []
        for k in lens:
            t = rtuple(rng, k)
            more += [t, '.'.join(map(str, t))]
        extra = ['main'] if cls is not PatchVersion else []
        for b in bad + more + extra:
            try:
                v = cls(b)
            except REJECT:
                ctx.count('rejected')
            else:
                ctx.violation('accepts-bad', f"{cls.__name__}({b!r}) is accepted as {v!r}")


SCENARIOS = [Scenario(pairs, 800, 20000), Scenario(sorting, 400, 8000), Scenario(patch_form, 300, 6000)]
REQUIRED = {'pairs': 20000, 'pairs_equal': 1000, 'pairs_prefix': 1000, 'pairs_text_order_differs': 1000, 'patch_versions': 5000, 'rejected': 5000}
