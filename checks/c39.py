"""C39 Text dumps of BIN files show everything they hold"""
import io
import os
import re
import xxhash
from vf.core import Scenario
from vf import binw, env
from vf.mem import run_cli
from cdtb.binfile import BinFile

PROPERTY = 'C39'
RULE = "a case is a generated BIN file whose text dump (library or bin-dump) is compared with an independent model of it, ignoring layout; distinct signature = (age class, version, plain or patch, types at each depth)"
ASSUMPTIONS = ["layout (white space and angle brackets) is free"]
xxh = lambda s: xxhash.xxh64_intdigest(s.lower())


class Dump:
    def __init__(self, names):
        self.n = binw.Names(names)

    def hashed(self, kind, h, quote):
        s = self.n.names.get(kind, {}).get(h)
        if s is None:
            return self.n.get(kind, h)
        return repr(s) if quote else s

    def bare(self, v, quote=True):
        """A value without its type"""
        t = v[0]
        if t in ('LIST', 'LIST2'):
            return self.typed(('LIST',) + tuple(v[1:]))
        if t in ('OPTION', 'MAP', 'STRUCT', 'EMBEDDED'):
            return self.typed(v)
        if t in ('HASH', 'PATH', 'LINK'):
            return self.hashed({'HASH': 'binhashes', 'PATH': 'game', 'LINK': 'binentries'}[t], v[1], quote)
        return repr(v[1]) if quote else str(v[1])

    def typed(self, v):
        t = v[0]
        if t in ('LIST', 'LIST2'):
            return f"{t}({v[1]})[{''.join(self.bare(x) for x in v[2])}]"
        if t == 'OPTION':
            return f"OPTION({v[1]})" + ('None' if v[2] is None else self.bare(v[2]))
        if t == 'MAP':
            return f"MAP({v[1]},{v[2]}){{" + ''.join(f"{self.bare(k, False)}={self.bare(x)}" for k, x in v[3]) + '}'
        if t in ('STRUCT', 'EMBEDDED'):
            if t == 'STRUCT' and not v[1]:
                return 'STRUCTNone'
            return f"{t}{self.hashed('bintypes', v[1], False)}{self.fields(v[2])}"
        return t + self.bare(v)

    def fields(self, fields):
        return '[' + ''.join(self.hashed('binfields', h, False) + self.typed(v) for h, v in fields) + ']'

    def file(self, m):
        """One line per top level part"""
        out = []
        if m['linked'] is not None:
            out.append('Linked:[' + ''.join(repr(s) for s in m['linked']) + ']')
        for h, t, f in m['entries']:
            out.append('BinEntry' + self.hashed('binentries', h, True) + self.hashed('bintypes', t, False) + self.fields(f))
        groups = {}
        for h, p, v in m['patches'] or []:
            groups.setdefault(h, []).append(p + self.typed(v))
        for h, l in groups.items():
            out.append('BinPatchEntry' + self.hashed('binentries', h, True) + '[' + ''.join(l) + ']')
        return out


def flat(s):
    return re.sub(r'[\s<>]+', '', s)


def dump(ctx, rng, tier):
    m = binw.gen_file(rng, xxh=xxh)
    for k, d in m['names'].items():
        env.set_hashes(k, d)
    parts = [flat(p) for p in Dump(m['names']).file(m)]
    if rng.random() < .5:
        p = os.path.join(ctx.dir(), rng.choice(['x.bin', 'a b.BIN', '-']) )
        with open(p, 'wb') as f:
            f.write(m['data'])
        argv = ['bin-dump']
        if m['age'] < 10000000:
            argv += [rng.choice(['-V', '--patch-version']), f"{m['age'] // 100}.{m['age'] % 100}"]
        text = run_cli(argv + [p])
        ctx.count('cli')
    else:
        out = io.StringIO()
        BinFile(io.BytesIO(m['data']), btype_version=m['age']).dump(out)
        text = out.getvalue()
        ctx.count('library')
    got = flat(text)
    pos = 0
    for i, p in enumerate(parts):
        q = pos + len(p)
        if got[pos:q] != p:
            j = next((k for k, (a, b) in enumerate(zip(got[pos:q], p)) if a != b), min(len(got) - pos, len(p)))
            ctx.violation('text', f"age {m['age']}: part {i} of {len(parts)} shows {got[pos + max(0, j - 40):pos + j + 40]!r} instead of {p[max(0, j - 40):j + 40]!r}")
        pos = q
        ctx.count('parts')
    ctx.check(pos == len(got), 'more', f"age {m['age']}: text after the last part: {got[pos:pos + 80]!r}")
    for l, n in (('linked', m['linked']), ('patched', m['patches'])):
        ctx.count(l, bool(n))
    from checks.c23 import observe
    observe(ctx, m)


SCENARIOS = [Scenario(dump, 600, 15000)]
REQUIRED = {'cli': 150, 'library': 150, 'parts': 800, 'linked': 50, 'patched': 40, **{'t_' + t: 20 for t in binw.SIMPLE + binw.NEW + ['PATH']}}
