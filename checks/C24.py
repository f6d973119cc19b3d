"""Archives of features and data sets: every utterance exactly once, under its
own name, with its own frames, whatever the history of accesses."""
import copy
import itertools
import os
import pickle
import random
import numpy as np
from mc import cli
from mc.core import tonp
from mc.graphs import gen

PROP = 'C24'
CHUNK = 8
BOUNDS = {
    'quick': 'every non-empty subset of 6 utterances (names with dots, the '
             'extension inside, spaces, non-ASCII) x 2 extensions; every '
             'history of <= 4 accesses (iterate, interleave two iterations, '
             'read, missing key, length, store and reload, copy) to a data '
             'set; every outcome of the shuffle of 1-4 utterances; 3 '
             'locations of the files',
    'thorough': 'histories of <= 5 accesses, shuffles of 5 utterances',
}
IDS = ['utt1', 'utt10', 'a.b-c_2', 'x.npy.y', 'fo o', 'é']
DIRS = ['[ab]', 'x*y', 'x?y', 'a b', 'é', '[!a]', 'x.npy', "it's", '{a,b}']
OPS = ['iter', 'half', 'get', 'missing', 'len', 'pickle', 'copy', 'stats']


def cases(tier):
    big = tier == 'thorough'
    for mask in range(1, 1 << len(IDS)):
        for ext in ('npy', 'fea'):
            yield {'k': 'archive', 'mask': mask, 'ext': ext}
    for first in itertools.product(range(len(OPS)), repeat=2):
        yield {'k': 'history', 'n': 5 if big else 4, 'first': list(first)}
    for n in range(1, 6 if big else 5):
        yield {'k': 'shuffle', 'n': n}
    for n in (7, 8, 20) + ((60,) if big else ()):
        yield {'k': 'many', 'n': n}
    for name in DIRS:
        yield {'k': 'dirs', 'name': name}
    for offset in (0, 300, -5000):
        for dtype in ('float64', 'float32', 'int16', 'int64'):
            yield {'k': 'offset', 'offset': offset, 'dtype': dtype}
    for where in ('relative', 'parent', 'absolute'):
        yield {'k': 'where', 'where': where}
    for n in range(1, 4):
        for sizes in itertools.product((0, 1, 2, 5), repeat=n):
            if any(sizes):
                yield {'k': 'sizes', 'sizes': list(sizes)}


def run(case, cx):
    globals()['run_' + case['k']](case, cx)


def feats(i, T=None, dim=3, dtype='float64'):
    T = 2 + i if T is None else T
    return np.array([[10 * gen(t, d, i) - 3 * d for d in range(dim)]
                     for t in range(T)]).reshape(T, dim).astype(dtype)


def archive(tmp, utts, ext='npy', extra=()):
    os.makedirs(f'{tmp}/fea')
    for u, x in utts.items():
        with open(f'{tmp}/fea/{u}.{ext}', 'wb') as f:
            np.save(f, x)
    for name in extra:
        with open(f'{tmp}/fea/{name}', 'w') as f:
            f.write('not features')
    args = [] if ext == 'npy' else ['-e', ext]
    cli.run('features', 'archive', *args, f'{tmp}/fea', f'{tmp}/arc.npz')
    return f'{tmp}/arc.npz'


def dataset(tmp, path=None):
    os.makedirs(f'{tmp}/data', exist_ok=True)
    cli.run('dataset', 'create', f'{tmp}/data', path or f'{tmp}/arc.npz',
            f'{tmp}/ds.pkl')
    return load(f'{tmp}/ds.pkl')


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def check_utt(cx, utt, uid, utts, what):
    cx.same(utt.id, uid, f'name, {what}')
    cx.same(str(utt.features.dtype), 'torch.float32', 'type of the features')
    cx.close(tonp(utt.features), utts[uid].astype(np.float32),
             f'features of {uid}, {what}', rtol=1e-6)


def check_all(cx, ds, utts, what):
    cx.same(len(ds), len(utts), f'number of utterances, {what}')
    seen = []
    for utt in ds.utterances(random_order=False):
        seen.append(utt.id)
        check_utt(cx, utt, utt.id, utts, what)
    cx.same(seen, sorted(utts), f'sorted utterances, {what}')
    cx.same(sorted(u.id for u in ds.utterances()), sorted(utts),
            f'utterances, {what}')
    for u in utts:
        check_utt(cx, ds[u], u, utts, what)
    allf = np.concatenate(list(utts.values())).astype(float)
    cx.same(ds.size, len(allf), f'number of frames, {what}')
    cx.close(tonp(ds.mean), allf.mean(0), f'mean, {what}', 1e-4, 1e-4)
    cx.close(tonp(ds.var), allf.var(0), f'variance, {what}', 1e-3, 1e-3)


def run_archive(case, cx):
    tmp = cx.tmpdir()
    utts = {u: feats(i, dtype=('float64', 'float32')[i % 2])
            for i, u in enumerate(IDS) if case['mask'] >> i & 1}
    archive(tmp, utts, case['ext'],
            ['README.txt', f'z.{case["ext"]}.bak', f'q{case["ext"]}'])
    ds = dataset(tmp)
    check_all(cx, ds, utts, str(case))
    # Creating them again replaces them.
    if case['mask'] % 7 == 1:
        del_ = sorted(utts)[-1]
        if len(utts) > 1:
            os.remove(f'{tmp}/fea/{del_}.{case["ext"]}')
            rest = {u: x for u, x in utts.items() if u != del_}
            args = [] if case['ext'] == 'npy' else ['-e', case['ext']]
            cli.run('features', 'archive', *args, f'{tmp}/fea',
                    f'{tmp}/arc.npz')
            check_all(cx, dataset(tmp), rest, f'{case} without {del_}')
    cx.step(2)
    cx.state(case['mask'], case['ext'])


def run_history(case, cx):
    tmp = cx.tmpdir()
    utts = {u: feats(i) for i, u in enumerate(IDS[:3])}
    archive(tmp, utts)
    first = dataset(tmp)
    order = sorted(utts)
    n = case['n'] - len(case['first'])
    for rest in itertools.product(range(len(OPS)), repeat=n):
        hist = [OPS[i] for i in case['first'] + list(rest)]
        ds = copy.deepcopy(first)
        pending = []
        for step, op in enumerate(hist):
            what = f'{hist[:step + 1]}'
            if op == 'iter':
                got = [u for u in ds.utterances(random_order=False)]
                cx.same([u.id for u in got], order, what)
                for u in got:
                    check_utt(cx, u, u.id, utts, what)
            elif op == 'half':
                it = ds.utterances(random_order=False)
                check_utt(cx, next(it), order[0], utts, what)
                pending.append(it)
            elif op == 'get':
                for u in order:
                    check_utt(cx, ds[u], u, utts, what)
            elif op == 'missing':
                cx.raises(KeyError, lambda: ds['nobody'], what)
            elif op == 'len':
                cx.same(len(ds), len(order), what)
            elif op == 'pickle':
                new = pickle.loads(pickle.dumps(ds))
                # The original keeps working.
                check_utt(cx, ds[order[1]], order[1], utts, what)
                ds = new
            elif op == 'copy':
                ds = copy.copy(ds) if step % 2 else copy.deepcopy(ds)
            elif op == 'stats':
                cx.same(ds.size, sum(map(len, utts.values())), what)
                cx.close(tonp(ds.mean), np.concatenate(
                    list(utts.values())).mean(0), what, 1e-4, 1e-4)
            cx.step()
        for it in pending:
            cx.same([u.id for u in it], order[1:],
                    f'rest of an iteration, {hist}')
        cx.state(tuple(hist))
    cx.trace()


def run_shuffle(case, cx):
    tmp = cx.tmpdir()
    utts = {f'u{i}': feats(i) for i in range(case['n'])}
    archive(tmp, utts)
    ds = dataset(tmp)
    old = random.shuffle
    outcomes = set()
    try:
        for perm in itertools.permutations(range(case['n'])):
            def shuffle(x, *_):
                x[:] = [x[i] for i in perm]
            random.shuffle = shuffle
            got = list(ds.utterances())
            cx.same(sorted(u.id for u in got), sorted(utts),
                    f'utterances shuffled by {perm}')
            for u in got:
                check_utt(cx, u, u.id, utts, f'shuffled by {perm}')
            outcomes.add(tuple(u.id for u in got))
            cx.step()
            cx.state(perm)
    finally:
        random.shuffle = old
    # Without the shuffle the order depends on the ids only.
    cx.same([u.id for u in ds.utterances(random_order=False)], sorted(utts),
            'sorted order')
    cx.trace()


def run_many(case, cx):
    tmp = cx.tmpdir()
    utts = {f'u{i}': feats(i, 1 + i % 3) for i in range(case['n'])}
    archive(tmp, utts)
    ds = dataset(tmp)
    for seed in range(6):
        random.seed(seed)
        check_all(cx, ds, utts, f'{case}, seed {seed}')
        cx.step()
    cx.state(case['n'])


def run_dirs(case, cx):
    tmp = f'{cx.tmpdir()}/{case["name"]}'
    # Directories which match the name taken as a pattern.
    for other in ('a', 'b', 'xzy'):
        os.makedirs(f'{cx.tmpdir()}/{other}/fea', exist_ok=True)
        np.save(f'{cx.tmpdir()}/{other}/fea/other.npy', feats(5))
    os.makedirs(tmp, exist_ok=True)
    utts = {u: feats(i) for i, u in enumerate(IDS)}
    archive(tmp, utts)
    check_all(cx, dataset(tmp), utts, str(case))
    cx.step()
    cx.state(case['name'])


def run_offset(case, cx):
    tmp = cx.tmpdir()
    utts = {f'u{i}': (feats(i, 40 + i) + case['offset']).astype(case['dtype'])
            for i in range(5)}
    archive(tmp, utts)
    ds = dataset(tmp)
    allf = np.concatenate(list(utts.values())).astype(float)
    cx.close(tonp(ds.mean), allf.mean(0), f'mean, {case}', 1e-5, 1e-5)
    cx.close(tonp(ds.var), allf.var(0), f'variance, {case}', 1e-4, 1e-4)
    cx.step()
    cx.state(str(case))


def run_where(case, cx):
    tmp = cx.tmpdir()
    utts = {u: feats(i) for i, u in enumerate(IDS[:3])}
    archive(tmp, utts)
    os.makedirs(f'{tmp}/w/z')
    here = os.getcwd()
    try:
        os.chdir(f'{tmp}/w')
        path = {'relative': os.path.relpath(f'{tmp}/arc.npz'),
                'parent': '../arc.npz',
                'absolute': f'{tmp}/arc.npz'}[case['where']]
        if case['where'] == 'relative':
            os.chdir(tmp)
            path = 'arc.npz'
        os.makedirs(f'{tmp}/data')
        cli.run('dataset', 'create', f'{tmp}/data', path, f'{tmp}/ds.pkl')
        for cwd in (tmp, f'{tmp}/w', f'{tmp}/w/z', '/'):
            os.chdir(cwd)
            check_all(cx, load(f'{tmp}/ds.pkl'), utts, f'{case} from {cwd}')
            cx.step()
    finally:
        os.chdir(here)
    cx.state(case['where'])
    cx.trace()


def run_sizes(case, cx):
    tmp = cx.tmpdir()
    utts = {f'u{i}': feats(i, T, dtype=('float32', 'float64')[i % 2])
            for i, T in enumerate(case['sizes'])}
    archive(tmp, utts)
    check_all(cx, dataset(tmp), utts, str(case))
    cx.step()
    cx.state(tuple(case['sizes']))
