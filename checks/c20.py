"""C20 Hash guessing only ever adds correct new paths"""
import contextlib
import io
import os
from vf.core import Scenario
from vf import env, hashw, mem, wadw
from vf.hashw import hash_of
from checks import c21, c22
from cdtb.hashes import HashFile, LcuHashGuesser, GameHashGuesser
from cdtb.wad import Wad

PROPERTY = 'C20'
RULE = "a case is a sequence of guessing methods on one list and set of archives, every change of the known and unknown hashes recorded; distinct signature = (methods in order, found per method, faults)"
ASSUMPTIONS = ["the given set of hashes is not shared with the caller afterwards"]


class Known(dict):
    """Hash list that records its changes"""
    log = None

    def _note(self, kind, k, v=None):
        if self.log is not None:
            self.log.append((kind, k, v))

    def __setitem__(self, k, v):
        self._note('set' if k not in self else 'change', k, v)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self._note('del', k)
        dict.__delitem__(self, k)

    def pop(self, k, *a):
        self._note('del', k)
        return dict.pop(self, k, *a)

    def popitem(self):
        k, v = dict.popitem(self)
        self._note('del', k)
        return k, v

    def clear(self):
        self._note('clear', None)
        dict.clear(self)

    def update(self, *a, **kw):
        for k, v in dict(*a, **kw).items():
            self[k] = v

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]


class Broken(io.StringIO):
    """Output that fails at the n-th write (closed pipe)"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def write(self, s):
        self.n -= 1
        if self.n < 0:
            raise BrokenPipeError(32, 'injected')
        return super().write(s)


def check_log(ctx, log, wanted, known0):
    """Each recorded change adds a correct path of a wanted hash, once"""
    seen = set()
    for kind, h, p in log:
        ctx.check(kind == 'set', 'changed', f"a known hash was changed: {kind} {h if h is None else hex(h)} {p!r}, it was {known0.get(h)!r}")
        ctx.check(isinstance(p, str), 'wrong', f"{h:#x} was listed as {p!r}")
        ctx.check(hash_of(p) == h, 'wrong', f"{p!r} was listed under {h:#x}, its hash is {hash_of(p):#x}")
        ctx.check(h in wanted, 'unwanted', f"{p!r} was added, its hash was not wanted")
        ctx.check(h not in seen, 'changed', f"{p!r} was added twice")
        seen.add(h)
    ctx.count('additions recorded', len(log))


def check_state(ctx, g, known0, wanted0, what, slack=0):
    """Conservation and correctness of known and unknown hashes"""
    known, unknown = g.known, set(g.unknown)
    lost = [h for h, p in known0.items() if known.get(h) != p]
    ctx.check(not lost, 'changed', f"{what}: {len(lost)} known hashes changed or lost, such as {known0[lost[0]] if lost else ''!r} now {known.get(lost[0]) if lost else ''!r}")
    added = {h: p for h, p in known.items() if h not in known0}
    bad = [(h, p) for h, p in added.items() if not isinstance(p, str) or hash_of(p) != h]
    ctx.check(not bad, 'wrong', f"{what}: listed under a wrong hash: {bad[:2]}")
    extra = [p for h, p in added.items() if h not in wanted0]
    ctx.check(not extra, 'unwanted', f"{what}: unwanted paths added: {extra[:3]}")
    twice = unknown & set(known)
    ctx.check(len(twice) <= slack, 'both', f"{what}: {len(twice)} hashes are known and unknown, such as {known[min(twice)] if twice else ''!r}")
    ctx.check(unknown <= wanted0, 'unwanted', f"{what}: hashes became wanted that were not: {sorted(unknown - wanted0)[:3]}")
    gone = wanted0 - unknown - set(known)
    ctx.check(len(gone) <= slack, 'lost', f"{what}: {len(gone)} wanted hashes were lost")
    ctx.count('states checked')
    ctx.count('additions observed', len(added))
    return added


CALLS = {
    'lcu': ['substitute_basenames', 'substitute_extensions', 'substitute_basename_words', 'add_basename_word', 'substitute_region_lang', 'substitute_plugin', 'substitute_numbers',
            'guess_patterns', 'guess_from_game_hashes', 'grep', 'given', 'text', 'single', 'known?'],
    'game': ['substitute_basenames', 'substitute_extensions', 'substitute_basename_words', 'add_basename_word', 'substitute_numbers', 'check_basename_prefixes', 'substitute_character',
             'substitute_skin_numbers', 'substitute_suffixes', 'substitute_lang', 'guess_skin_groups_bin', 'guess_characters_files', 'guess_shader_variants', 'guess_from_lcu_hashes',
             'grep', 'grep_data', 'given', 'text', 'single', 'known?'],
}


def candidates(rng, kind, known):
    """Paths close to known ones"""
    ps = list(known.values()) or ['x/y.z']
    words = hashw.wordlist(ps) or ['w']
    dirs = sorted(hashw.directories(ps))
    out = []
    for _ in range(rng.choice([0, 10, 60])):
        p = rng.choice(ps)
        v = rng.choice([lambda: hashw.v_numbers(rng, p, 100), lambda: hashw.v_word(rng, p, words), lambda: hashw.v_addword(rng, p, words),
                        lambda: hashw.splitext(p)[0] + hashw.splitext(rng.choice(ps))[1], lambda: hashw.join(rng.choice(dirs), hashw.split_dir(rng.choice(ps))[1]),
                        lambda: hashw.split_dir(p)[0] + rng.choice(['2x_', 'sd_', '']) + hashw.split_dir(p)[1],
                        lambda: hashw.game_path(rng) if kind == 'game' else hashw.lcu_path(rng), lambda: p.replace('annie', 'ahri').replace('skin01', 'skin02').replace('en_us', 'fr_fr')])()
        if v:
            r = rng.random()
            out.append(v if r < .85 else v.upper() if r < .9 else v.title())
            if r > .95:
                # a path in another letter case has another hash
                out += [v.upper(), v.lower()][:rng.choice([1, 2])]
    return out


def methods(ctx, rng, tier):
    """Random sequences of methods; the output may be closed in between"""
    kind = rng.choice(['lcu', 'game'])
    known = hashw.known_list(rng, kind, rng.choice([0, 1, 5, 30]))
    other = hashw.known_list(rng, 'game' if kind == 'lcu' else 'lcu', rng.choice([0, 10]))
    a = c22.Archive(rng)
    if kind == 'lcu':
        k, dirs = c22.lcu_dirs(rng)
        mentioned, _ = c22.lcu_content(rng, a, True, dirs)
        known.update(k)
    else:
        mentioned, _ = c22.game_content(rng, a, True)
    for h, p in a.known.items():
        if rng.random() < .8:
            known[h] = p
    ext = '.wad' if kind == 'lcu' else '.wad.client'
    path = os.path.join(ctx.dir(), 'a' + ext)
    a.write(path)
    cand = candidates(rng, kind, known) + rng.sample(mentioned, min(len(mentioned), rng.choice([0, 4, 20])))
    # a wrong list: entries whose path has another hash stay as they are
    for _ in range(rng.choice([0, 0, 2])):
        known[rng.getrandbits(64)] = rng.choice(cand or ['x'])
    wanted = {hash_of(p) for p in cand} | {rng.getrandbits(64) for _ in range(rng.choice([0, 5]))} | {hash_of(p) for p in rng.sample(sorted(known.values()), min(3, len(known)))}
    if rng.random() < .2:
        wanted.add(hash_of(''))
    env.set_hashes('game' if kind == 'lcu' else 'lcu', other)
    env.set_hashes(kind, {h: p for h, p in known.items()})
    hf = env.hashfile(kind)
    rec = Known(known)
    hf.hashes = rec
    cls = LcuHashGuesser if kind == 'lcu' else GameHashGuesser
    wads = None
    if rng.random() < .4:
        # wanted: the unknown files of archives
        b = c22.Archive(rng)
        for p in sorted(set(cand)):
            b.add(p, b'\x89PNG\r\n\x1a\n1234', known=False)
        p2 = os.path.join(ctx.dir(), 'b' + ext)
        b.write(p2)
        wads = [Wad(path, hashes=known), Wad(p2, hashes=known)]
        wanted = {e['hash'] for x in (a, b) for e in x.entries + ([x.toc] if x.toc else [])}
        g = cls.from_wads(wads)
    else:
        g = cls(rng.choice([set, list, tuple])(wanted))
    wanted0 = wanted - set(known)
    ctx.equal(set(g.unknown), wanted0, 'initial', "hashes that are unknown at first")
    rec.log = []
    done, faults, total = [], 0, 0
    before = check_state(ctx, g, known, wanted0, 'at first')
    for _ in range(rng.choice([1, 2, 4, 7])):
        call = rng.choice(CALLS[kind])
        if call == 'guess_skin_groups_bin' and sum('/skins/skin' in p for p in g.known.values()) > 40:
            continue
        if call == 'grep':
            w = Wad(path, hashes=known) if wads is None else wads[0]
            fn = lambda: (w.guess_extensions(), g.grep_wad(w))
        elif call == 'grep_data':
            data = c22.f_text(rng)[1]
            fn = lambda: g.grep_file(data=data)
        elif call == 'given':
            fn = lambda: g.check_iter(iter(cand[:20] + ['nothing']))
        elif call == 'text':
            fn = lambda: g.check_text_list(' \n'.join(cand[10:30]))
        elif call == 'single':
            fn = lambda: [g.check(p) for p in cand[:9]]
        elif call == 'known?':
            def fn():
                for p in cand[5:12] + list(known.values())[:3] + ['nothing']:
                    h = hash_of(p)
                    exp = h in g.unknown or h in g.known
                    ctx.equal(g.is_known(p), exp, 'is-known', f"is_known({p!r})")
                    ctx.count('is_known asked')
        elif call == 'substitute_basename_words' and kind == 'lcu':
            args = {'words': ['a', 'b', 'é', '50%'], **rng.choice([{}, {'nold': 2}, {'nnew': 2}, {'plugin': 'rcp-fe-lol-loot'}, {'fileext': '.png'}])}
            fn = lambda: g.substitute_basename_words(**args)
        elif call == 'substitute_numbers':
            args = {'nmax': rng.choice([10, 100, 300]), 'digits': rng.choice([None, None, 2, True])}
            fn = lambda: g.substitute_numbers(**args)
        else:
            fn = getattr(g, call)
        n0 = len(g.unknown)
        fault = rng.random() < .15
        out = Broken(rng.choice([0, 1, 2, 5, 9])) if fault else io.StringIO()
        failed = False
        try:
            with contextlib.redirect_stdout(out):
                fn()
        except BrokenPipeError:
            if not fault:
                raise
            failed = True
            faults += 1
            ctx.count('methods interrupted by closed output')
        added = check_state(ctx, g, known, wanted0, f"after {call}{' (interrupted)' if failed else ''}", slack=int(failed))
        ctx.check(before.items() <= added.items(), 'lost', f"{call}: a found path was lost")
        if g.known is rec:
            check_log(ctx, rec.log, wanted0, known)
        total = len(added)
        done.append((call, len(added) - len(before)))
        if failed:
            # the path being reported is in between
            before = added
            break
        ctx.equal(n0 - len(g.unknown), len(added) - len(before), 'lost', f"{call}: hashes that left the unknown ones, and found paths")
        before = added
        if rng.random() < .1:
            # another guesser using the same list, until it is saved
            g2 = cls({hash_of('another/path.x'), *wanted})
            gone = {p for p in added.values()} - set(g2.known.values())
            ctx.check(not gone, 'lost', f"another guesser does not know {len(gone)} paths found before, such as {sorted(gone)[:1]}")
            ctx.equal(set(g2.unknown), {hash_of('another/path.x'), *wanted} - set(g2.known), 'initial', "hashes that are unknown at first to another guesser")
            ctx.count('other guessers')
            ctx.equal(check_state(ctx, g, known, wanted0, f"after {call} and another guesser"), added, 'lost', "found paths once there is another guesser")
        if rng.random() < .1:
            # saving in between
            g.save()
            ctx.equal(HashFile(hf.filename).load(), {**known, **added}, 'saved', "list saved in between")
    ctx.count('methods run', len(done))
    ctx.count('paths found', total)
    g.save()
    saved = HashFile(hf.filename).load()
    ctx.equal(saved, {**known, **before}, 'saved', "saved list")
    k2 = 'game' if kind == 'lcu' else 'lcu'
    ctx.equal(HashFile(env.hashfile(k2).filename).load(), other, 'saved', "list of the other kind")
    ctx.equal(env.hashfile(k2).load(), other, 'saved', "list of the other kind, in memory")
    ctx.nontrivial(kind, tuple(done), faults, wads is not None)


def command(ctx, rng, tier):
    """hashes-guess: the saved lists are the previous ones and what was printed as found"""
    d = ctx.dir()
    known, own, paths, cand = {}, {'lcu': set(), 'game': set()}, [], {}
    k, dirs = c22.lcu_dirs(rng)
    for kind in ('lcu', 'game'):
        known[kind] = hashw.known_list(rng, kind, rng.choice([0, 2, 12]))
    known['lcu'].update(k)
    many = rng.random() < .15
    for i in range(rng.choice([1, 2, 3])):
        kind = rng.choice(['lcu', 'game'])
        a = c22.Archive(rng)
        if many:
            # a mention of each of many paths in one file
            ps = [f"assets/many/{rng.randrange(10**8)}.dds" for _ in range(rng.choice([101, 260]))]
            kind = 'game'
            a.add('data/many.txt', b''.join(b'"' + p.replace('assets', 'ASSETS').encode() + b'"' for p in ps))
            for p in ps:
                a.add(p, b'DDS 1234', known=False)
        ment, _ = c22.game_content(rng, a, True) if kind == 'game' else c22.lcu_content(rng, a, True, dirs)
        for h, p in a.known.items():
            known[kind][h] = p
        for p in ment[:8] + candidates(rng, kind, known[kind])[:15]:
            if hash_of(p) not in known[kind] and not p.endswith('.subchunktoc'):
                a.add(p, b'\x89PNG\r\n\x1a\n1234', known=False)
        p = os.path.join(d, f"{i}" + ('.wad.client' if kind == 'game' else '.wad'))
        a.write(p)
        paths.append(p)
        own[kind] |= {e['hash'] for e in a.entries + ([a.toc] if a.toc else [])}
    for kind in ('lcu', 'game'):
        env.set_hashes(kind, known[kind])
    files = {k: open(env.hashfile(k).filename, 'rb').read() for k in ('lcu', 'game')}
    names = ['grep', 'numbers', 'basenames', 'words', 'ext', 'regionlang', 'plugin', 'skin-num', 'character', 'prefixes']
    args = rng.choice([[], ['-m', 'grep'], ['-m', ','.join(rng.sample(names, rng.choice([1, 2, 4])))], ['-m', ', '.join(rng.sample(names, 3))]])
    if not args and sum(len(x) for x in known.values()) > 60:
        args = ['-m', 'grep,ext,skin-num,character,prefixes']
    if many and args and 'grep' not in args[1]:
        args = ['-m', 'grep']
    dry = rng.random() < .3
    cut = rng.random() < .15
    if dry:
        args = args + [rng.choice(['-n', '--dry-run'])]
    mode = 'dry' if dry else 'plain'
    try:
        if cut:
            import cdtb.__main__ as m
            n = rng.choice([0, 1, 3])
            with contextlib.redirect_stdout(Broken(n)), contextlib.redirect_stderr(mem._Err()):
                m.main(['hashes-guess', '-s', f"patcher:{d}", *args, *paths])
            out = None
            ctx.count('commands without output')
        else:
            out = mem.run_cli(['hashes-guess', '-s', f"patcher:{d}", *args, *paths])
    except BrokenPipeError:
        mode += '-cut'
        out = None
    printed = {}
    if out is not None:
        for l in out.splitlines():
            h, _, p = l.partition(' ')
            if len(h) == 16 and p and not l.startswith('found'):
                printed[int(h, 16)] = p
    total = 0
    for kind in ('lcu', 'game'):
        f = env.hashfile(kind).filename
        saved = HashFile(f).load()
        with open(f, 'rb') as fp:
            data = fp.read()
        added = {h: p for h, p in saved.items() if h not in known[kind]}
        total += len(added)
        ctx.check(all(saved.get(h) == p for h, p in known[kind].items()), 'saved', f"{kind}: entries of the list were changed or lost")
        bad = [p for h, p in added.items() if hash_of(p) != h or h not in own[kind]]
        ctx.check(not bad, 'wrong', f"{kind}: wrong or unwanted paths saved: {bad[:3]}")
        if dry:
            ctx.check(data == files[kind], 'dry-run', f"{kind}: the list was changed by a dry run")
        elif out is not None:
            exp = {h: p for h, p in printed.items() if h in own[kind] and h not in known[kind]}
            ctx.equal(added, exp, 'saved', f"{kind}: saved paths, and the printed ones")
        if not added:
            ctx.check(data == files[kind], 'untouched', f"{kind}: a list without new paths was changed")
            ctx.count('lists left alone')
    left = [x for x in os.listdir(env.hash_dir) if not x.endswith('.txt')]
    ctx.equal(left, [], 'leftover', "files left in the directory of lists")
    ctx.count('commands: ' + mode)
    if many and out is not None and len(printed) > 100:
        ctx.count('commands with many finds: ' + mode)
    ctx.count('paths saved by commands', total)
    ctx.nontrivial('command', tuple(args), len(printed), total, mode)


SCENARIOS = [
    Scenario(methods, 900, 25000),
    Scenario(command, 300, 8000),
]
REQUIRED = {'additions observed': 1000, 'states checked': 2000, 'methods run': 1500, 'paths found': 1000, 'methods interrupted by closed output': 10, 'is_known asked': 200, 'other guessers': 30,
            'commands: plain': 100, 'commands: dry': 50, 'paths saved by commands': 300, 'lists left alone': 50, 'commands with many finds: plain': 5, 'commands with many finds: dry': 2}
