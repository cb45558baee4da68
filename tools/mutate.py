#!/usr/bin/env python3
"""Mutation sweep: which small changes of the code does no check notice?

  tools/mutate.py LINES_DIR OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--jobs 8] [--scale F]

LINES_DIR holds C??.lines, written by running each check with VF_DUMP_LINES.
Each mutant is made in a scratch copy of /repo; the checks that reach the line are run against it (VF_REPO).
"""
import argparse, ast, json, os, pickle, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Src:
    def __init__(self, text):
        self.text = text
        self.b = text.encode()
        self.starts = [0]
        for l in self.b.split(b'\n'):
            self.starts.append(self.starts[-1] + len(l) + 1)

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()


CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['//', '+'], ast.FloorDiv: ['*'], ast.Div: ['*'], ast.Mod: ['*'], ast.LShift: ['>>'], ast.RShift: ['<<'], ast.BitAnd: ['|'], ast.BitOr: ['&'], ast.BitXor: ['|'], ast.Pow: ['*']}
ATTR = {'lower': 'upper', 'update': 'union', 'append': 'insert', 'startswith': 'endswith', 'endswith': 'startswith', 'lstrip': 'strip', 'rstrip': 'strip', 'rpartition': 'partition', 'partition': 'rpartition',
        'rsplit': 'split', 'split': 'rsplit', 'min': 'max', 'isfile': 'exists', 'isdir': 'exists', 'exists': 'lexists', 'lexists': 'exists', 'islink': 'exists', 'difference': 'intersection', 'find': 'rfind', 'rfind': 'find',
        'search': 'match', 'match': 'search', 'fullmatch': 'match', 'items': 'keys', 'dirname': 'basename', 'intersection': 'union'}
NAME = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'sorted': 'list', 'reversed': 'list', 'True': 'False', 'False': 'True', 'set': 'list', 'IOError': 'KeyError', 'zip': 'list'}


def mutants(src):
    """(line, start, end, new text, what)"""
    tree = ast.parse(src.text)
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0].value)
    skip = set(docs)
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ('print', 'logging.getLogger') or f.startswith('logger.') or f.endswith('add_argument') or f.endswith('add_parser'):
                for c in ast.walk(n):
                    skip.add(c)
        if isinstance(n, ast.Raise):
            for c in ast.walk(n):
                if c is not n:
                    skip.add(c)
        if isinstance(n, ast.JoinedStr):
            for c in ast.walk(n):
                if c is not n:
                    skip.add(c)
        if isinstance(n, ast.If) and ast.unparse(n.test).startswith('__name__'):
            for c in ast.walk(n):
                skip.add(c)
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and n.value in skip:
            skip.add(n)
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, 'lineno'):
            continue
        a, b = src.span(n)
        t = src.get(n)
        def m(new, what, a=a, b=b, line=n.lineno):
            return (line, a, b, new, what)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            la, lb = src.span(n.left)
            ra, rb = src.span(n.comparators[0])
            for op in CMP.get(type(n.ops[0]), []):
                mid = src.b[lb:ra].decode()
                o = re.sub(r'(not\s+in|is\s+not|[<>=!]=|[<>]|\bin\b|\bis\b)', op, mid, count=1)
                if o != mid:
                    yield m(o, f'cmp {mid.strip()}->{op}', lb, ra)
        elif isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            for i in range(len(n.values) - 1):
                _, e = src.span(n.values[i])
                s, _ = src.span(n.values[i + 1])
                mid = src.b[e:s].decode()
                o = re.sub(r'\b(and|or)\b', op, mid, count=1)
                yield m(o, f'bool->{op}', e, s)
            for i, v in enumerate(n.values):
                # drop one operand
                keep = [src.get(x) for j, x in enumerate(n.values) if j != i]
                old = 'and' if isinstance(n.op, ast.And) else 'or'
                yield m('(' + f' {old} '.join('(' + k + ')' for k in keep) + ')', f'drop operand {i}')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield m('(' + src.get(n.operand) + ')', 'drop not')
        elif isinstance(n, ast.BinOp):
            _, e = src.span(n.left)
            s, _ = src.span(n.right)
            mid = src.b[e:s].decode()
            for op in BIN.get(type(n.op), []):
                if isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', None), str):
                    continue
                o = re.sub(r'(//|<<|>>|\*\*|[-+*/%&|^])', op, mid, count=1)
                if o != mid:
                    yield m(o, f'binop {mid.strip()}->{op}', e, s)
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                yield m(str(not n.value), 'bool const')
            elif isinstance(n.value, int):
                yield m(f'({t} + 1)', 'int+1')
                if n.value:
                    yield m(f'({t} - 1)', 'int-1')
            elif isinstance(n.value, str) and t and t[0] in '\'"' and len(n.value) > 0:
                yield m(repr(n.value[:-1] + ('~' if n.value[-1] != '~' else '^')), 'str')
            elif isinstance(n.value, bytes) and n.value:
                yield m(repr(n.value[:-1] + b'~'), 'bytes')
            elif isinstance(n.value, str) and t[:1] in 'rR':
                yield m('r' + repr(n.value[1:]) if '\\' not in n.value else t[0] + t[1] + '~' + t[2:], 'rstr')
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            new = ATTR.get(n.attr)
            if new and not (n.attr in ('append',)):
                yield m('.' + new, f'attr {n.attr}->{new}', src.span(n.value)[1], b)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAME:
            yield m(NAME[n.id], f'name {n.id}->{NAME[n.id]}')
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Constant):
            ta, tb = src.span(n.test)
            yield m('True', 'cond True', ta, tb)
            yield m('False', 'cond False', ta, tb)
        elif isinstance(n, ast.IfExp):
            yield m('(' + src.get(n.body) + ')', 'ifexp body')
            yield m('(' + src.get(n.orelse) + ')', 'ifexp else')
        elif isinstance(n, ast.Return) and n.value is not None:
            ra, rb = src.span(n.value)
            if t != 'return None':
                yield m('None', 'return None', ra, rb)
        elif isinstance(n, ast.Continue):
            yield m('pass', 'continue->pass')
            yield m('break', 'continue->break')
        elif isinstance(n, ast.Break):
            yield m('pass', 'break->pass')
            yield m('continue', 'break->continue')
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                yield m('(yield from ())', 'drop yield')
            else:
                yield m('pass', 'drop stmt')
        elif isinstance(n, ast.Call):
            for i, kw in enumerate(n.keywords):
                if kw.arg:
                    args = [src.get(x) for x in n.args] + [src.get(x) for j, x in enumerate(n.keywords) if j != i]
                    yield m(src.get(n.func) + '(' + ', '.join(args) + ')', f'drop kw {kw.arg}')
            if len(n.args) == 2 and not n.keywords and not any(isinstance(x, ast.Starred) for x in n.args):
                yield m(f"{src.get(n.func)}({src.get(n.args[1])}, {src.get(n.args[0])})", 'swap args')
            if len(n.args) == 1 and isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'rstrip', 'lstrip'):
                yield m(src.get(n.func.value), 'drop call')
            if not n.args and not n.keywords and isinstance(n.func, ast.Attribute) and n.func.attr in ('lower', 'strip', 'rstrip', 'copy'):
                yield m(src.get(n.func.value), 'drop call')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
            for part in ('lower', 'upper'):
                v = getattr(n.slice, part)
                if v is not None:
                    va, vb = src.span(v)
                    yield m('', f'drop slice {part}', va, vb)
        elif isinstance(n, ast.comprehension):
            pass
        elif isinstance(n, ast.ExceptHandler) and n.type is not None:
            ta, tb = src.span(n.type)
            yield m('ZeroDivisionError', 'except never', ta, tb)
            if isinstance(n.type, ast.Tuple):
                for i, x in enumerate(n.type.elts):
                    yield m('(' + ', '.join(src.get(y) for j, y in enumerate(n.type.elts) if j != i) + ',)', f'except drop {src.get(x)}', ta, tb)
    for n in ast.walk(tree):
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                a, b = src.span(i)
                yield (i.lineno, a, b, 'True', 'comp if True')


REL = {'arenadata': 'C35 C30', 'tftdata': 'C34 C30', 'binfile': 'C23 C24 C25 C39', 'data': 'C06 C09', 'export': 'C36 C33 C30 C31 C32 C17 C28 C29 C03', 'hashes': 'C22 C20 C19 C21 C38 C16', 'patcher': 'C08 C09 C10 C11 C12',
       'rads': 'C37 C05 C06 C07 C12', 'rstfile': 'C26 C34', 'sknfile': 'C27 C17', 'storage': 'C01 C02 C04 C03 C07 C13 C10 C11', 'tools': 'C26 C27 C25 C29 C34 C35 C23 C32 C13', 'wad': 'C14 C15 C16 C18 C17 C33',
       '__main__': 'C04 C03 C16 C20 C19 C27 C23 C33 C31 C39'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('lines'); ap.add_argument('out')
    ap.add_argument('--files'); ap.add_argument('--sample', type=int); ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--max-checks', type=int, default=40)
    ap.add_argument('--verif', default=V)
    ap.add_argument('--scale', default='8', help='amount of work per check; survivors are run again in full by hand')
    ap.add_argument('--skip', default='', help='kinds of mutants to leave out')
    args = ap.parse_args()
    reach, whole = {}, {}
    for f in sorted(os.listdir(args.lines)):
        m = re.match(r'.*?(C\d\d)\.lines$', f)
        if m:
            for fl, ln in pickle.load(open(os.path.join(args.lines, f), 'rb')):
                reach.setdefault((fl, ln), set()).add(m[1])
                whole.setdefault(fl, {}).setdefault(m[1], 0)
                whole[fl][m[1]] += 1
    work = []
    files = args.files.split(',') if args.files else sorted(f for f in os.listdir(REPO + '/cdtb') if f.endswith('.py') and f != '__init__.py')
    for f in files:
        text = open(f"{REPO}/cdtb/{f}").read()
        src = Src(text)
        tree = ast.parse(text)
        funcs = [(n.lineno, n.end_lineno) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.Lambda))]
        seen = set()
        for (line, a, b, new, what) in mutants(src):
            if (a, b, new) in seen:
                continue
            seen.add((a, b, new))
            mod = (src.b[:a] + new.encode() + src.b[b:]).decode()
            try:
                compile(mod, f, 'exec')
            except (SyntaxError, ValueError):
                continue
            infunc = any(x < line <= y or x == y == line for x, y in funcs)
            checks = set()
            if infunc:
                # lines of the statement around
                for d in range(0, 4):
                    checks |= reach.get((f, line - d), set()) if not checks else set()
            else:
                checks = set(whole.get(f, {}))
            work.append(dict(file=f, line=line, a=a, b=b, new=new, what=what, old=src.b[a:b].decode(), text=text.split('\n')[line - 1].strip(), checks=[c for c in REL[f[:-3]].split() if not infunc or c in checks] or sorted(checks)[:6], infunc=infunc))
    rng = random.Random(args.seed)
    done = set()
    if os.path.exists(args.out):
        for l in open(args.out):
            r = json.loads(l); done.add((r['file'], r['a'], r['b'], r['new']))
    if args.sample and args.sample < len(work):
        work = rng.sample(work, args.sample)
    work = [w for w in work if (w['file'], w['a'], w['b'], w['new']) not in done]
    work = [w for w in work if w['what'] not in args.skip.split(',')]
    rng.shuffle(work)
    print(len(work), 'mutants', flush=True)
    if args.jobs == 0: return
    out = open(args.out, 'a')

    def one(w):
        tmp = tempfile.mkdtemp(prefix='mut.', dir='/dev/shm')
        t = time.time()
        try:
            copy = tmp + '/repo'
            subprocess.run(['cp', '-a', '/repo', copy], check=True)
            p = f"{copy}/cdtb/{w['file']}"
            b = open(p, 'rb').read()
            open(p, 'wb').write(b[:w['a']] + w['new'].encode() + b[w['b']:])
            res, odd = None, []
            for c in w['checks'][:args.max_checks]:
                try:
                    r = subprocess.run([args.verif + '/check', c, '--workers', '1', '--scale', args.scale], cwd=args.verif, env=dict(os.environ, VF_REPO=copy, VF_OUT=tmp + '/out', VF_FAILFAST='1', VF_WALL='200', PYTHONDONTWRITEBYTECODE='1'),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=320)
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 124, 'TIMEOUT'
                if rc == 1 and 'VIOLATION' in o:
                    res = c
                    break
                if rc == 1 and 'Traceback' in o:
                    # cannot even be imported
                    res = 'import'
                    break
                if rc != 0:
                    odd.append([c, rc, o[-700:]])
            w = {k: w[k] for k in ('file', 'line', 'a', 'b', 'new', 'old', 'what', 'text', 'checks')}
            w.update(killed=res, odd=odd, t=round(time.time() - t, 1))
            return w
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    n = k = 0
    with ThreadPoolExecutor(args.jobs) as ex:
        for fut in as_completed([ex.submit(one, w) for w in work]):
            w = fut.result()
            out.write(json.dumps(w) + '\n'); out.flush()
            n += 1; k += bool(w['killed'])
            if n % 50 == 0:
                print(n, k, time.strftime('%H:%M:%S'), flush=True)


main()
