"""Abstract semantics of the `beer` commands: the content of every output file
is a term of the contents of the inputs. Used by the stand-in for `beer`
(executed by the real recipes) and by the reference pipelines.

The strong term includes the state of the optimizers, the weak one not."""
import os
try:                        # faster than hashlib
    from _sha1 import sha1
except ImportError:
    from hashlib import sha1


def canon(x):
    return [canon(y) for y in x] if isinstance(x, (list, tuple)) else x


def digest(*x):
    return sha1(repr(canon(x)).encode()).hexdigest()[:16]


# command -> roles of the arguments: r(ead), w(rite), u(pdate), d(irectory of
# outputs), v(alue), m(ap of files), M (written for each language as well),
# - (ignored)
# Positional arguments in order, then the options.
TABLE = {
    'hmm mkphones': ('rrw', {'--dataset': 'r'}),
    'hmm mkphoneloopgraph': ('rw', {}),
    'hmm mkdecodegraph': ('rrw', {}),
    'hmm mkphoneloop': ('rrw', {}),
    'hmm mkphoneloopbigram': ('rw', {}),
    'hmm mkaligraph': ('rd', {}),
    'hmm accumulate': ('rrw', {'--alis': 'z'}),
    'hmm update': ('rw', {'--optim-state': 'u'}),
    'hmm decode': ('rr', {'--alis': 'z', '--utts': '-'}),
    'hmm posteriors': ('rrd', {'--utts': '-'}),
    'shmm mksphoneloop': ('rrwww', {'--classes': 'r', '--posteriors': 'r'}),
    'shmm train': ('rrrwww', {'--optim-state': 'u', '--gpu': '-',
                              '--logging_rate': '-'}),
    'shmm init': ('rrrw', {}),
    'hshmm mksphoneloop': ('rmwwM', {'--classes': 'r', '--posteriors': 'r'}),
    'hshmm train': ('rrmwwM', {'--optim-state': 'u', '--gpu': '-',
                               '--logging_rate': '-'}),
    'hshmm init': ('vrrrrNw', {}),
    'features extract': ('r-d', {}),
    'features archive': ('Dw', {}),
    'dataset create': ('-rw', {}),
}
ROLES = {name: dict({f'#{i}': r for i, r in enumerate(pos)}, **opts)
         for name, (pos, opts) in TABLE.items()}


class Failure(Exception):
    pass


def read(path):
    'Terms of a file: (strong, weak, data).'
    try:
        with open(path, 'rb') as f:
            raw = f.read()
    except OSError as e:
        raise Failure(f'cannot read {path}') from e
    if raw.startswith(b'#T\n'):
        return eval(raw[3:])
    h = digest(raw.decode('latin1'))
    return h, h, None


def write(path, s, w, data=None):
    if path == '/dev/null':
        return
    with open(path, 'w') as f:
        f.write('#T\n' + repr((s, w, data)))


def read_zip(path):
    'An archive: terms of its members.'
    import zipfile
    try:
        with zipfile.ZipFile(path) as z:
            x = {n: eval(z.read(n)[3:]) for n in z.namelist()}
    except (OSError, SyntaxError, zipfile.BadZipFile) as e:
        raise Failure(f'cannot read {path}') from e
    return (digest(sorted((n, v[0]) for n, v in x.items())),
            digest(sorted((n, v[1]) for n, v in x.items())))


def parse(spec, argv):
    'argv (without the name of the program) -> command name, values.'
    argv = list(argv)
    while argv and argv[0].startswith('-'):
        opt = argv.pop(0)
        if opt in ('-s', '--seed'):
            argv.pop(0)
        elif opt not in ('-d', '--debug'):
            raise Failure(f'unknown option {opt}')
    name = ' '.join(argv[:2])
    if name not in spec:
        raise Failure(f'unknown command {name}')
    argv = argv[2:]
    cmd = spec[name]
    vals = dict(cmd['defaults'])
    pos = []
    while argv:
        x = argv.pop(0)
        if x in cmd['options']:
            dest, has, kind = cmd['options'][x]
            vals[dest] = conv(argv.pop(0), kind) if has else True
        elif x.startswith('-') and x != '-':
            raise Failure(f'unknown option {x} of {name}')
        else:
            pos.append(x)
    if len(pos) != len(cmd['args']):
        raise Failure(f'{name}: arguments {pos} for {cmd["args"]}')
    vals.update({f'#{i}': x for i, x in enumerate(pos)})
    return name, vals


def conv(x, kind):
    return {'float': float, 'int': int}.get(kind, str)(x)


def outputs(name, vals):
    return [vals[d] for d, r in ROLES[name].items()
            if r in ('w', 'M', 'N') and vals.get(d)]


def lines(text):
    return [x for x in text.split('\n') if x.strip()]


def execute(spec, argv, stdin, out):
    '''Execute a command; `out` receives the standard output. The outputs are
    written at the end, at once.'''
    name, vals = parse(spec, argv)
    roles = ROLES[name]
    S, W = [name], [name]
    langs = None
    for dest in sorted(vals):
        v, r = vals[dest], roles.get(dest, 'v')
        if r == '-':
            continue
        if v is None and r != 'u':
            S.append([dest, None])
            W.append([dest, None])
        elif r == 'v':
            S.append([dest, v])
            W.append([dest, v])
        elif r == 'r':
            s, w, _ = read(v)
            S.append([dest, s])
            W.append([dest, w])
        elif r == 'z':
            s, w = read_zip(v)
            S.append([dest, s])
            W.append([dest, w])
        elif r == 'u':
            s = read(v)[0] if v and os.path.isfile(v) else None
            S.append([dest, s])
        elif r == 'm':
            with open(v) as f:
                m = sorted((x.split()[1], x.split()[0])
                           for x in lines(f.read()))
            langs = [x for x, _ in m]
            if len(set(langs)) != len(langs):
                raise Failure(f'repeated language in {v}: {langs}')
            terms = [(x,) + read(p)[:2] for x, p in m]
            S.append([dest, [(x, s) for x, s, _ in terms]])
            W.append([dest, [(x, w) for x, _, w in terms]])
        elif r == 'D':
            names = sorted(os.listdir(v))
            terms = [(n,) + read(os.path.join(v, n))[:2] for n in names]
            S.append([(n, s) for n, s, _ in terms])
            W.append([(n, w) for n, _, w in terms])
    todo = []
    if name == 'hmm accumulate':
        utts = lines(stdin)
        data = {'utts': utts, 's': digest(*S), 'w': digest(*W)}
        todo.append((vals['#2'], digest(S, utts), digest(W, utts), data))
    elif name == 'hmm update':
        accs = []
        for p in lines(stdin):
            d = read(p)[2]
            if d is None:
                raise Failure(f'{p} is not an accumulator')
            accs += [(u, d['s'], d['w']) for u in d['utts']]
        if not accs:
            raise Failure('nothing to update from')
        accs.sort()
        S.append([(u, s) for u, s, _ in accs])
        W.append([(u, w) for u, _, w in accs])
        todo.append((vals['#1'], digest(*S), digest(*W), None))
    elif name == 'hmm decode':
        for u in lines(stdin):
            out(f'{u} {digest(W, u)}\n')
    elif name in ('hmm posteriors', 'hmm mkaligraph', 'features extract'):
        for line in lines(stdin):
            u = line.split()[0]
            todo.append((os.path.join(next(vals[d] for d, r in roles.items()
                                           if r == 'd'), u + '.npy'),
                         digest(S, line), digest(W, line), None))
    else:
        for p in outputs(name, vals):
            d = next(k for k in vals if vals[k] == p and k in roles)
            todo.append((p, digest(S, d), digest(W, d), None))
            r = roles[d]
            if r == 'M':
                todo += [(f'{p}_{x}', digest(S, d, x), digest(W, d, x), None)
                         for x in langs]
            if r == 'N':
                x = vals['#0']
                todo.append((f'{p}_{x}', digest(S, d, x), digest(W, d, x),
                             None))
    for dest, r in roles.items():
        if r == 'u' and vals.get(dest):
            todo.append((vals[dest], digest(S, dest), digest(W, dest), None))
    for p, *_ in todo:
        if not os.path.isdir(os.path.dirname(p) or '.'):
            raise Failure(f'no directory for {p}')
    for x in todo:
        write(*x)


def label(spec, argv):
    'Name of a command in a history: what it writes.'
    try:
        name, vals = parse(spec, argv)
    except Failure:
        return ' '.join(argv)
    outs = outputs(name, vals) + [vals[d] for d, r in ROLES[name].items()
                                  if r == 'd']
    return f'{name} > {" ".join(os.path.relpath(p) for p in outs)}'


def spec_of(parser):
    'Specification of the commands read from the real parser.'
    import argparse

    def subs(p):
        for a in p._actions:
            if isinstance(a, argparse._SubParsersAction):
                return a.choices
        return {}
    spec = {}
    for a, p in subs(parser).items():
        for b, q in subs(p).items():
            cmd = {'options': {}, 'args': [], 'defaults': {}}
            for act in q._actions:
                if isinstance(act, argparse._HelpAction):
                    continue
                kind = getattr(act.type, '__name__', 'str')
                if act.option_strings:
                    key = max(act.option_strings, key=len)
                    for o in act.option_strings:
                        cmd['options'][o] = (key, act.nargs != 0, kind)
                    d = act.default
                    cmd['defaults'][key] = None if d is argparse.SUPPRESS \
                        else d
                else:
                    cmd['args'].append(act.dest)
            spec[f'{a} {b}'] = cmd
    return spec
