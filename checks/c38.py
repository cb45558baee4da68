"""C38 Guessing at a terminal can be watched and interrupted"""
import contextlib
import gc
import io
import os
import re
import signal
import sys
import time
import tty
from vf.core import Scenario, REPO
from vf import crash, env, hashw
from vf.hashw import hash_of
from checks import c20
from cdtb.hashes import LcuHashGuesser, GameHashGuesser

PROPERTY = 'C38'
RULE = "a case is one guessing method run at a (pseudo) terminal with real SIGINT signals at chosen executed lines; distinct signature = (method, terminal or not, line of each signal, outcome)"
ASSUMPTIONS = ["no second interrupt arrives just when the method ends and the previous handling is being restored", "interrupts that arrive before the method starts trying candidates, or after it is done, are ordinary ones"]
METHODS = {
    'lcu': ['substitute_basenames', 'substitute_extensions', 'substitute_basename_words', 'add_basename_word', 'substitute_region_lang', 'substitute_plugin', 'substitute_numbers'],
    'game': ['substitute_basenames', 'substitute_extensions', 'substitute_basename_words', 'add_basename_word', 'substitute_numbers', 'check_basename_prefixes', 'substitute_character',
             'substitute_skin_numbers', 'substitute_suffixes', 'substitute_lang', 'guess_characters_files', 'guess_shader_variants'],
}
TOOL = 4


class Term(io.StringIO):
    """Standard error that is a terminal, or not"""

    def __init__(self, fd):
        super().__init__()
        self.fd = fd

    def fileno(self):
        return self.fd

    def isatty(self):
        return os.isatty(self.fd)


def observe(cls, known, wanted, call, fd, points, gap):
    """Runs a method with signals at the given points among the lines executed while interrupts are intercepted.
    Runs in a child process."""
    signal.signal(signal.SIGINT, signal.default_int_handler)
    kind = 'lcu' if cls is LcuHashGuesser else 'game'
    env.hashfile(kind).hashes = dict(known)
    g = cls(set(wanted))
    base = os.path.realpath(os.path.join(REPO, 'cdtb')) + os.sep
    mon = sys.monitoring
    default = signal.getsignal(signal.SIGINT)
    st = {'lines': 0, 'on': 0, 'at': [], 'sent': 0, 'times': []}
    known_files = {}

    def line(code, lineno):
        f = code.co_filename
        if f not in known_files:
            known_files[f] = os.path.realpath(f).startswith(base)
        if not known_files[f]:
            return mon.DISABLE
        st['lines'] += 1
        if signal.getsignal(signal.SIGINT) is default:
            return
        st['on'] += 1
        if st['sent'] < len(points) and st['on'] >= points[st['sent']]:
            mon.set_events(TOOL, mon.events.LINE | crash.BOUNDARIES)

    def boundary(code, *args):
        # where the interpreter handles signals
        if not known_files.get(code.co_filename) or signal.getsignal(signal.SIGINT) is default:
            return
        if st['sent'] < len(points) and st['on'] >= points[st['sent']]:
            mon.set_events(TOOL, mon.events.LINE)
            if st['sent'] and gap:
                time.sleep(gap)
            st['sent'] += 1
            st['times'].append(time.time())
            st['at'].append(f"{os.path.basename(code.co_filename)}:{sys._getframe(1).f_lineno}")
            st['last'] = st['on']
            signal.raise_signal(signal.SIGINT)
    mon.use_tool_id(TOOL, 'vfsig')
    mon.register_callback(TOOL, mon.events.LINE, line)
    for ev in crash.EVENTS:
        mon.register_callback(TOOL, ev, boundary)
    out, err = io.StringIO(), Term(fd)
    how = 'done'
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            mon.set_events(TOOL, mon.events.LINE)
            call(g)
    except KeyboardInterrupt:
        how = 'interrupted'
    finally:
        mon.set_events(TOOL, 0)
    gc.collect()
    return {'how': how, 'lines': st['lines'], 'on': st['on'], 'sent': st['sent'], 'last': st.get('last', 0), 'took': time.time() - st['times'][0] if st['times'] else 0, 'at': st['at'], 'restored': signal.getsignal(signal.SIGINT) is default,
            'known': dict(g.known), 'unknown': set(g.unknown), 'out': out.getvalue() + err.getvalue()}


PROGRESS = re.compile(r'^\s*\d{1,3}(\.\d+)?\s?%\s', re.M)


def interrupts(ctx, rng, tier):
    kind = rng.choice(['lcu', 'game'])
    known = hashw.known_list(rng, kind, rng.choice([8, 20, 30]))
    cand = c20.candidates(rng, kind, known) + c20.candidates(rng, kind, known)
    wanted = {hash_of(p) for p in cand} | {rng.getrandbits(64) for _ in range(5)}
    wanted0 = wanted - set(known)
    for k in ('lcu', 'game'):
        env.set_hashes(k, known if k == kind else {})
    cls = LcuHashGuesser if kind == 'lcu' else GameHashGuesser
    name = rng.choice(METHODS[kind])
    if name == 'substitute_basename_words' and kind == 'lcu':
        call = lambda g: g.substitute_basename_words(words=['a', 'b', 'c'])
    elif name == 'substitute_numbers':
        call = lambda g: g.substitute_numbers(nmax=20)
    else:
        call = lambda g: getattr(g, name)()
    term = rng.random() < .8
    if term:
        master, fd = os.openpty()
        tty.setraw(fd)
    else:
        master, fd = os.pipe()
    out = os.path.join(ctx.dir('out'), 'r')

    def run(points=(), gap=0):
        r = crash.child(lambda: observe(cls, known, wanted, call, fd, points, gap), out)
        ctx.equal(r['status'], 'ok', 'failed', f"{name} at {'a terminal' if term else 'no terminal'}, {len(points)} interrupts: {r.get('error')}")
        return r['value']

    try:
        full = run()
        ctx.equal(full['how'], 'done', 'failed', f"{name} without interrupts")
        ctx.check(full['restored'], 'restored', f"{name}: the handling of interrupts is not restored")
        new = {h: p for h, p in full['known'].items() if h not in known}
        if not term:
            ctx.equal(full['on'], 0, 'no-terminal', f"{name}: interrupts are intercepted without a terminal")
            ctx.count('runs without terminal')
            return
        if not full['on']:
            # nothing to try
            ctx.count('runs with nothing to try')
            return
        # one interrupt, or several that are far apart: the same result
        many = rng.random() < .02
        points = sorted({rng.choice([rng.randrange(1, full['on'] + 1), 1, full['on']]) for _ in range(2 if many else 1)})
        r = run(points, .7)
        ctx.equal(r['how'], 'done', 'stopped', f"{name}: {len(points)} separate interrupts at {r['at']} stopped it")
        ctx.equal(r['sent'], len(points), 'lost-lines', f"{name}: lines executed after an interrupt at {r['at']}")
        ctx.equal(r['known'], full['known'], 'result', f"{name}: known paths after an interrupt at {r['at']}")
        ctx.equal(r['unknown'], full['unknown'], 'result', f"{name}: unknown hashes after an interrupt at {r['at']}")
        ctx.check(r['restored'], 'restored', f"{name}: the handling of interrupts is not restored after an interrupt at {r['at']}")
        shown = len(PROGRESS.findall(r['out']))
        ctx.check(shown <= len(points), 'progress', f"{name}: progress shown {shown} times for {len(points)} interrupts")
        ctx.check(not PROGRESS.search(full['out']), 'progress', f"{name}: progress is shown without interrupt")
        pct = [float(x.strip().split('%')[0]) for x in (m.group(0) for m in PROGRESS.finditer(r['out']))]
        ctx.check(all(0 <= x <= 100 for x in pct) and pct == sorted(pct), 'progress', f"{name}: progress is shown as {pct}")
        ctx.count('progress shown', shown)
        # an interrupt at the start is answered
        r = run([1])
        if full['on'] > 400 and name in ('substitute_basenames', 'substitute_extensions', 'check_basename_prefixes', 'substitute_lang') and len(known) >= 8:
            ctx.check(PROGRESS.search(r['out']), 'progress', f"{name}: no progress is shown after an interrupt at the start", known=list(known.values()))
            ctx.count('interrupts at the start')
        # two in a row: stopped, nothing is lost
        p = rng.randrange(1, full['on'] + 1)
        q = min(full['on'], p + rng.choice([0, 1, 2, 5, 20]))
        # at once, or shortly after
        gap = rng.choice([0] * 4 + [.05, .12, .2])
        r = run([p, q], gap)
        if r['sent'] == 2 and (r['took'] < .35 or r['how'] == 'interrupted') and r['last'] < full['on'] - 10:
            # not while the previous handling is being restored
            ctx.check(r['restored'], 'restored', f"{name}: the handling of interrupts is not restored after two interrupts at {r['at']}")
            ctx.equal(r['how'], 'interrupted', 'not-stopped', f"{name}: two interrupts at {r['at']} (lines {p}, {q} of {full['on']})")
            added = {h: x for h, x in r['known'].items() if h not in known}
            ctx.check(all(new.get(h) == x for h, x in added.items()), 'result', f"{name}: wrong paths after two interrupts at {r['at']}")
            ctx.check(all(r['known'].get(h) == x for h, x in known.items()), 'result', f"{name}: known paths were lost after two interrupts at {r['at']}")
            lost = wanted0 - r['unknown'] - set(added)
            both = r['unknown'] & set(added)
            ctx.check(len(lost) + len(both) <= 1, 'result', f"{name}: {len(lost)} hashes lost, {len(both)} both known and unknown after two interrupts at {r['at']}")
            ctx.count('stopped by two interrupts')
        ctx.count('runs at a terminal')
        ctx.count('method: ' + name)
        ctx.nontrivial(name, tuple(r['at']), len(new), full['on'])
    finally:
        os.close(fd)
        os.close(master)


SCENARIOS = [Scenario(interrupts, 400, 12000)]
REQUIRED = {'runs at a terminal': 150, 'runs without terminal': 30, 'progress shown': 60, 'stopped by two interrupts': 80, 'interrupts at the start': 20}
