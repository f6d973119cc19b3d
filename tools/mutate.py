#!/usr/bin/env python3
"""Mutation campaign (run by hand, never by a check).

  mutate.py list                  count of the mutants of every file
  mutate.py run OUT [--every N] [--workers N] [--only SUBSTR] [--offset K]

Every mutant of the mapped files is put in a scratch copy of /repo and the
checks mapped to its file are run until one reports it.  Survivors which also
pass the stable tests are either equivalent or a gap.
"""
import warnings; warnings.simplefilter('ignore')
import argparse, ast, json, os, queue, shutil, subprocess, threading

MAP = {
    'beer/graph.py': 'C02 C01 C03 C04 C09',
    'beer/dists/': 'C14 C15 C19 C21',
    'beer/dists/jointnormal': 'C14 C21',
    'beer/models/normal.py': 'C15 C18',
    'beer/models/normalset.py': 'C15 C17',
    'beer/models/gamma.py': 'C15 C18',
    'beer/models/mixture.py': 'C16 C33 C18',
    'beer/models/mixtureset.py': 'C16 C33 C05',
    'beer/models/categorical.py': 'C19 C16',
    'beer/models/categoricalset.py': 'C19 C16',
    'beer/models/hmm.py': 'C05 C04 C10 C13',
    'beer/models/phoneloop.py': 'C07 C06 C33 C10',
    'beer/models/bigramphoneloop.py': 'C07 C06 C20',
    'beer/models/parameters.py': 'C13 C12 C16 C20 C21',
    'beer/models/basemodel.py': 'C13 C33 C12 C20 C18',
    'beer/models/modelset.py': 'C17 C33 C05',
    'beer/models/gsm.py': 'C21 C22',
    'beer/models/vae.py': 'C29',
    'beer/inference/': 'C13 C12 C11',
    'beer/features.py': 'C23',
    'beer/nnet/': 'C30 C28 C29',
    'beer/utils.py': 'C32 C31',
    'beer/cli/dataset.py': 'C24',
    'beer/cli/subcommands/features': 'C23 C24',
    'beer/cli/subcommands/dataset': 'C24',
    'beer/cli/subcommands/hmm/mk': 'C08 C09',
    'beer/cli/subcommands/hmm/mkali': 'C09',
    'beer/cli/subcommands/hmm/': 'C11 C10 C09 C08',
    'beer/cli/subcommands/hmm/decode': 'C10 C09',
    'beer/cli/subcommands/hmm/posteriors': 'C10',
    'beer/cli/subcommands/shmm': 'C22',
    'beer/cli/subcommands/hshmm': 'C22',
    'recipes/aud/utils/ter.py': 'C25',
    'recipes/aud/utils/score_boundaries.py': 'C25',
    'recipes/aud/utils/nmi.py': 'C25',
    'recipes/aud/utils/maptrans.py': 'C25',
    'recipes/aud/utils/maxoverlap_mapping.py': 'C25',
    'recipes/aud/utils/create_trans.py': 'C25',
}
SKIP = ('linearreg', 'lds.py', '/lm.py', 'marginalpldaset', 'vbi', 'vae-old')
SKIPFN = ('__repr__', '__str__', 'setup', 'parse_args', '__hash__')
REPO = '/repo'


def mapped(path):
    best = max((k for k in MAP if path.startswith(k)), key=len, default=None)
    return MAP[best].split() if best else None


def files():
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '*.py'],
                         capture_output=True, text=True).stdout.split()
    return [f for f in out if mapped(f) and not any(s in f for s in SKIP)
            and not f.endswith('__init__.py')]


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not',
       ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '*', ast.Pow: '*', ast.BitOr: '&', ast.BitAnd: '|'}
DROP = ('clone', 'detach', 'copy', 'contiguous', 'deepcopy', 'item', 'strip',
        't', 'exp', 'log', 'sqrt', 'sum', 'mean', 'float', 'abs', 'view',
        'sorted', 'set', 'list', 'reversed', 'softmax', 'squeeze')


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def text(self, n):
        s, e = self.span(n)
        return self.b[s:e].decode()

    def rep(self, n, new, kind):
        s, e = self.span(n)
        new = self.b[:s] + new.encode() + self.b[e:]
        self.out.append((n.lineno, kind, new.decode()))

    def visit_FunctionDef(self, n):
        if n.name in SKIPFN:
            return
        for c in n.args.defaults + n.args.kw_defaults:
            if c is not None:
                self.visit(c)
        for c in n.body:
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            self.visit(c)

    def visit_Raise(self, n):
        self.rep(n, 'pass', 'no raise')

    def visit_Assert(self, n):
        pass

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in CMP:
            self.rep(n, f'({self.text(n.left)} {CMP[type(n.ops[0])]} '
                     f'{self.text(n.comparators[0])})', 'compare')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant)
                and isinstance(n.left.value, str)):
            self.rep(n, f'(({self.text(n.left)}) {BIN[type(n.op)]} '
                     f'({self.text(n.right)}))', 'operator')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.rep(n, f'({self.text(n.operand)})', 'unary')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.rep(n, '(' + op.join(f'({self.text(v)})' for v in n.values) + ')',
                 'boolean')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.rep(n, str(not v), 'constant')
        elif isinstance(v, int):
            self.rep(n, str(v + 1), 'constant')
        elif isinstance(v, float):
            self.rep(n, str(v * 1.5 + .25), 'constant')

    def visit_JoinedStr(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Call):
            t = self.text(n)
            if not t.startswith(('logg', 'super', 'parser', 'print',
                                 'logging')):
                self.rep(n, 'pass', 'no call')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, f'{self.text(n.target)} = {self.text(n.value)}',
                 'no accumulation')
        self.rep(n, 'pass', 'no update')
        self.generic_visit(n)

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.rep(n, 'pass', 'no assignment')
        self.generic_visit(n)

    def visit_If(self, n):
        self.rep(n.test, 'True', 'if True')
        self.rep(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, f'({self.text(n.body)})', 'then')
        self.rep(n, f'({self.text(n.orelse)})', 'else')
        self.generic_visit(n)

    def visit_Continue(self, n):
        self.rep(n, 'pass', 'no continue')

    def visit_Break(self, n):
        self.rep(n, 'pass', 'no break')

    def visit_Call(self, n):
        t = self.text(n.func)
        if t.startswith(('logg', 'parser', 'print', 'super')):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in DROP:
            mod = self.text(n.func.value)
            if mod in ('torch', 'np', 'copy', 'math') and n.args:
                self.rep(n, f'({self.text(n.args[0])})', f'no {t}')
            elif mod not in ('torch', 'np', 'copy', 'math'):
                self.rep(n, f'({mod})', f'no {n.func.attr}')
        elif isinstance(n.func, ast.Name) and n.func.id in DROP and n.args:
            self.rep(n, f'({self.text(n.args[0])})', f'no {t}')
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                args = [self.text(a) for a in n.args] + \
                    [self.text(x) for x in n.keywords if x is not k]
                self.rep(n, f'{t}({", ".join(args)})', f'no {k.arg}')
        if len(n.args) == 2 and not n.keywords:
            self.rep(n, f'{t}({self.text(n.args[1])}, '
                     f'{self.text(n.args[0])})', 'swapped arguments')
        self.generic_visit(n)


def mutants(path):
    src = open(f'{REPO}/{path}').read()
    g = Gen(src)
    g.visit(ast.parse(src))
    out = []
    for line, kind, new in g.out:
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        out.append({'file': path, 'line': line, 'kind': kind, 'src': new})
    return out


def diffline(m):
    a = open(f'{REPO}/{m["file"]}').read().splitlines()
    b = m['src'].splitlines()
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
    return f'{a[i].strip()}  ==>  {b[i].strip()}'


def worker(k, q, out, lock, base):
    w = f'{base}/w{k}'
    shutil.copytree(REPO, f'{w}/repo', symlinks=True,
                    ignore=shutil.ignore_patterns('.git'))
    shutil.copytree('/verif', f'{w}/verif', ignore=shutil.ignore_patterns(
        '.git', 'seeded', 'evidence', 'replays'))
    env = dict(os.environ, BEER_REPO=f'{w}/repo')
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        p = f'{w}/repo/{m["file"]}'
        orig = open(p).read()
        open(p, 'w').write(m['src'])
        res = None
        try:
            for c in mapped(m['file']):
                try:
                    r = subprocess.run(
                        ['bash', f'{w}/verif/check.sh', c, '--jobs', '1'],
                        env=env, capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res = f'{c} timeout'
                    continue
                if r.returncode == 1:
                    res = c
                    break
                if r.returncode != 0:
                    res = f'{c} rc={r.returncode}'
                    break
        finally:
            open(p, 'w').write(orig)
        with lock:
            with open(out, 'a') as f:
                f.write(json.dumps({
                    'file': m['file'], 'line': m['line'], 'kind': m['kind'],
                    'diff': diffline(m), 'result': res}) + '\n')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd')
    ap.add_argument('out', nargs='?')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('--only-from')
    a = ap.parse_args()
    ms = [m for f in files() if a.only in f
          for m in mutants(f)[a.offset::a.every]]
    if a.cmd == 'retest':
        old = [json.loads(l) for l in open(a.only_from)]
        done = {(d['file'], d['kind'], d['diff']) for d in old
                if d['result'] is None}
        ms = [m for m in ms if (m['file'], m['kind'], diffline(m)) in done]
        print(len(ms), flush=True)
    if a.cmd == 'list':
        n = {}
        for m in ms:
            n[m['file']] = n.get(m['file'], 0) + 1
        for f, c in n.items():
            print(c, f, ' '.join(mapped(f)))
        print(len(ms))
        return
    import tempfile
    base = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
    # interleave the files
    ms.sort(key=lambda m: hash((m['file'], m['line'], m['kind'])) % 9973)
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, q, a.out, lock, base))
          for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    shutil.rmtree(base)


main()
