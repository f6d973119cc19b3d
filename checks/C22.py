"""Subspace phone-loops from the command line: creation, training, storage,
adaptation, hierarchical subspaces; any history of commands."""
import contextlib
import itertools
import os
import pickle
import numpy as np
import torch
import beer
from mc import cli, phones as P
from mc.core import tonp
from mc.graphs import gen
from checks.C09 import make_model

PROP = 'C22'
CHUNK = 1
BOUNDS = {
    'quick': '4 configurations (group of the units first, second, alone) x '
             'all histories of <= 3 commands among {accumulate + update, '
             'train, train the embeddings only, refresh, initialize}, with '
             'and without classes (every assignment of 2-3 units to 2 '
             'classes); adaptation of the prior between 1-3 units; '
             'hierarchical subspaces: every subset of frozen parts x 2 '
             'optimizers, histories of 2 trainings; every choice of adapted and '
             'initial language for a new language; 4 bounds of the gradient; '
             'both orders of 2 languages',
    'thorough': 'histories of <= 4 commands',
}
ASSUMPTIONS = ['the Gaussian noise generator is replaced by a fixed table so '
               'that a run can be compared with its resumption']
SETS = [('speech', 'two'), ('silfirst', 'sil'), ('sillast', 'mixed'),
        ('shuffled', 'sil')]
OPS = ['acc', 'train', 'posts', 'refresh', 'init']


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for conf, units in SETS:
        for k in (1, 2):
            yield {'k': 'create', 'conf': conf, 'units': units, 'dim': k}
        for other in ('two', 'sil', 'mixed'):
            yield {'k': 'given', 'conf': conf, 'units': units, 'from': other}
        for first in OPS:
            yield {'k': 'history', 'conf': conf, 'units': units, 'n': n,
                   'first': first}
        yield {'k': 'resume', 'conf': conf, 'units': units}
        yield {'k': 'classes', 'conf': conf, 'units': units}
    for a in SETS:
        for b in SETS:
            if a[0] == b[0] or (a[0], b[0]) in (
                    ('speech', 'silfirst'), ('silfirst', 'speech')):
                yield {'k': 'prior', 'a': a, 'b': b}
    yield {'k': 'prior', 'a': ('sillast', 'mixed'), 'b': ('sillast', 'sil')}
    yield {'k': 'prior', 'a': ('sillast', 'sil'), 'b': ('sillast', 'mixed')}
    for mask in range(8):
        for opt in ('adam', 'sgd'):
            yield {'k': 'hierarchy', 'mask': mask, 'opt': opt}
    for target in ('two', 'sil'):
        for source in ('trained', 'created'):
            yield {'k': 'transfer', 'units': target, 'source': source}
    yield {'k': 'clip'}
    yield {'k': 'order'}


def run(case, cx):
    with noise():
        globals()['run_' + case['k']](case, cx)


@contextlib.contextmanager
def noise():
    def table(*size, dtype=None, device=None, **_):
        if len(size) == 1 and not isinstance(size[0], int):
            size = tuple(size[0])
        n = int(np.prod(size))
        v = np.array([3 * gen(i, n % 7, 5) - 1.5 for i in range(n)])
        return torch.tensor(v.reshape(size),
                            dtype=dtype or torch.get_default_dtype())
    old = torch.randn, torch.randn_like
    torch.randn = table
    torch.randn_like = lambda x, **k: table(*x.shape, dtype=x.dtype)
    try:
        yield
    finally:
        torch.randn, torch.randn_like = old


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def group_index(conf):
    return [g for g, *_ in P.CONFS[conf]].index('speech-unit')


def emissions(model, idx):
    return model.modelset.original_modelset.modelsets[idx]


def params_of(model):
    return [p for g in model.mean_field_factorization() for p in g]


def scores(em, X):
    return tonp(em.expected_log_likelihood(em.sufficient_statistics(X)))


def create(case, tmp, dim=2, extra=(), conf=None, units=None, name=''):
    conf, units = conf or case['conf'], units or case['units']
    d = f'{tmp}/c{name}'
    os.makedirs(d)
    make_model(conf, units, d, prior='dirichlet')
    cli.run('shmm', 'mksphoneloop', '-g', 'speech-unit', '-l', dim, *extra,
            f'{d}/hmm.yml', f'{d}/mdl', f'{d}/gsm', f'{d}/posts', f'{d}/sp',
            seed=2)
    return d


def units_of(em, nunits):
    S = len(em) // nunits
    return [em[i * S:(i + 1) * S] for i in range(nunits)]


def expected(gsm, posts):
    torch.set_default_dtype(torch.float32)
    return tonp(gsm.expected_pdfvecs(posts))


def unit_vectors(em, nunits):
    return np.array([np.concatenate(
        [tonp(p.natural_form()).reshape(-1) for p in params_of(u)])
        for u in units_of(em, nunits)])


def unit_stats(em, nunits):
    return np.array([np.concatenate(
        [tonp(p.stats).reshape(-1) for p in params_of(u)])
        for u in units_of(em, nunits)])


def snapshot(sp, conf):
    'Everything but the emissions of the units.'
    X = torch.tensor(P.features(4), dtype=torch.float32)
    idx = group_index(conf)
    sets = sp.modelset.original_modelset.modelsets
    return {
        'graph': [tonp(x) for x in (
            sp.graph.init_log_probs, sp.graph.final_log_probs,
            sp.graph.trans_log_probs)],
        'units': (list(sp.start_pdf.items()), list(sp.end_pdf.items())),
        'others': [scores(m, X) for i, m in enumerate(sets) if i != idx],
        'weights': tonp(sp.categorical.mean)}


def same_snapshot(cx, a, b, what):
    for x, y in zip(a['graph'] + a['others'] + [a['weights']],
                    b['graph'] + b['others'] + [b['weights']]):
        cx.close(x, y, f'graph, weights and other emissions, {what}',
                 rtol=1e-6)
    cx.same(a['units'], b['units'], f'units, {what}')


def state(gsm, posts):
    'All the numbers of the subspace.'
    out = {}
    for n, m in (('gsm', gsm), ('posts', posts)):
        for k, v in m.state_dict().items():
            # (the divergence of the means is that of the last objective)
            if k.endswith(('stats', 'kl_div')) or k.startswith('model.'):
                continue
            out[f'{n}.{k}'] = tonp(v).reshape(-1)
    return out


def run_create(case, cx):
    tmp = cx.tmpdir()
    conf, units, dim = case['conf'], case['units'], case['dim']
    d = create(case, tmp, dim)
    base, sp = load(f'{d}/mdl'), load(f'{d}/sp')
    gsm = load(f'{d}/gsm')
    posts, nunits, nstates, idx = load(f'{d}/posts')
    names = [u for u, g in P.UNITS[units] if g == 's']
    cx.same(idx, group_index(conf), 'group')
    cx.same(nunits, len(names), 'number of units')
    topo = P.CONFS[conf][idx][1]
    cx.same(nstates, max(b for _, b, _ in topo) - 1, 'states per unit')
    cx.same(tuple(posts.params.mean.shape), (nunits, dim), 'embeddings')
    cx.same(gsm.transform.in_dim, dim, 'dimension of the subspace')
    same_snapshot(cx, snapshot(base, conf), snapshot(sp, conf), 'creation')
    em = emissions(sp, idx)
    cx.close(unit_vectors(em, nunits), expected(gsm, posts),
             'initial parameters of the units', 1e-5, 1e-5)
    # Statistics of the emissions: those of the original model, shared by all
    # the components of a unit.
    for i, u in enumerate(units_of(em, nunits)):
        got = tonp(u.modelset.means_precisions.stats)
        cx.close(got, np.repeat(got[:1], len(got), 0),
                 f'statistics of the components of unit {i}')
        w = tonp(u.categoricalset.weights.stats)
        cx.close(w, np.repeat(w[:1], len(w), 0),
                 f'statistics of the weights of unit {i}')
        cx.step()
    cx.state(str(case))
    cx.trace()


def run_given(case, cx):
    'Creation from given embeddings, which are left as they are.'
    tmp = cx.tmpdir()
    a = create(case, tmp, conf='speech' if case['from'] == 'two'
               else 'silfirst', units=case['from'], name='a')
    cli.run('shmm', 'train', '-e', 2, f'{a}/gsm', f'{a}/posts', f'{a}/sp',
            f'{a}/gsm1', f'{a}/posts1', f'{a}/sp1', seed=1)
    with open(f'{a}/posts1', 'rb') as f:
        content = f.read()
    d = create(case, tmp, 2, ['-p', f'{a}/posts1'], name='b')
    with open(f'{a}/posts1', 'rb') as f:
        cx.check(f.read() == content, 'given embeddings modified')
    init, posts = load(f'{a}/posts1')[0], load(f'{d}/posts')[0]
    n = min(len(init), len(posts))
    for name in ('mean', 'log_diag_cov'):
        cx.close(tonp(getattr(posts.params, name))[:n],
                 tonp(getattr(init.params, name))[:n],
                 f'{name} of the given embeddings', rtol=1e-6)
    _, nunits, _, idx = load(f'{d}/posts')
    cx.same(len(posts), nunits, 'number of embeddings')
    cx.close(unit_vectors(emissions(load(f'{d}/sp'), idx), nunits),
             expected(load(f'{d}/gsm'), posts), 'parameters of the units',
             1e-4, 1e-4)
    cx.step(2)
    cx.state(str(case))
    cx.trace()


class Run:
    'A directory of models and the reference expectations of each command.'

    def __init__(self, case, cx, tmp):
        self.case, self.cx = case, cx
        self.d = create(case, tmp)
        utts = {f'utt{i}': P.features(14 + i, salt=i) for i in range(2)}
        self.ds = P.write_dataset(cli, self.d, utts)
        self.cur = tuple(f'{self.d}/{n}' for n in ('gsm', 'posts', 'sp'))
        self.n = 0
        self.conf = case['conf']

    def out(self):
        self.n += 1
        return tuple(f'{self.d}/{n}{self.n}' for n in ('gsm', 'posts', 'sp'))

    def read(self, paths=None):
        g, p, s = paths or self.cur
        gsm, sp = load(g), load(s)
        posts, nunits, nstates, idx = load(p)[:4]
        return gsm, posts, sp, emissions(sp, idx), nunits

    def do(self, op, what):
        cx = self.cx
        gsm0, posts0, sp0, em0, nunits = self.read()
        snap0, st0 = snapshot(sp0, self.conf), state(gsm0, posts0)
        vec0, stats0 = unit_vectors(em0, nunits), unit_stats(em0, nunits)
        if op == 'acc':
            out = self.out()[2]
            cli.run('hmm', 'accumulate', self.cur[2], self.ds,
                    f'{self.d}/acc{self.n}.pkl', stdin='utt0\nutt1\n')
            cli.run('hmm', 'update', self.cur[2], out,
                    stdin=f'{self.d}/acc{self.n}.pkl\n')
            self.cur = self.cur[:2] + (out,)
            gsm, posts, sp, em, _ = self.read()
            cx.close(unit_vectors(em, nunits), vec0,
                     f'parameters of the units, {what}')
            cx.close(unit_stats(em, nunits), self.statistics(sp0, nunits),
                     f'statistics of the units, {what}', 1e-3, 1e-3)
            return
        if op == 'init':
            out = self.out()[2]
            cli.run('shmm', 'init', *self.cur, out, seed=4)
            self.cur = self.cur[:2] + (out,)
        else:
            args = {'train': ['-e', 2], 'posts': ['-e', 2, '-p'],
                    'refresh': ['-e', 2, '-s', 0, '-c', 0]}[op]
            out = self.out()
            cli.run('shmm', 'train', *args, *self.cur, *out, seed=4)
            self.cur = out
        gsm, posts, sp, em, _ = self.read()
        st = state(gsm, posts)
        same_snapshot(cx, snap0, snapshot(sp, self.conf), what)
        cx.close(unit_stats(em, nunits), stats0,
                 f'statistics of the units, {what}')
        if op in ('refresh', 'init'):
            cx.close(unit_vectors(em, nunits), expected(gsm0, posts0),
                     f'parameters of the units, {what}', 1e-4, 1e-4)
        cx.same(sorted(st), sorted(st0), f'subspace, {what}')
        moved = set()
        for k in st:
            if not np.array_equal(st[k], st0[k]):
                moved.add(k.split('.')[0])
            if op in ('refresh', 'init') or (op == 'posts'
                                             and k.startswith('gsm.')):
                cx.close(st[k], st0[k], f'{k}, {what}', rtol=1e-6)
        if op == 'train':
            cx.same(moved, {'gsm', 'posts'}, f'trained parts, {what}')
        if op == 'posts':
            cx.same(moved, {'posts'}, f'trained parts, {what}')
        for x in st.values():
            cx.check(np.isfinite(x).all(), f'not finite, {what}')

    def statistics(self, sp, nunits):
        torch.set_default_dtype(torch.float32)
        elbo = beer.evidence_lower_bound(datasize=29)
        for i in range(2):
            elbo += beer.evidence_lower_bound(
                sp, torch.tensor(P.features(14 + i, salt=i),
                                 dtype=torch.float32), datasize=29)
        elbo.backward()
        idx = group_index(self.conf)
        return unit_stats(emissions(sp, idx), nunits)


def run_history(case, cx):
    for k in range(case['n']):
        for ops in itertools.product(OPS, repeat=k):
            # `refresh` and `init` do not change the next commands.
            if k > 1 and any(o in ('refresh', 'init') for o in ops[:-1]):
                continue
            if k < case['n'] - 1 and k > 0:
                continue
            r = Run(case, cx, os.path.join(cx.tmpdir(), '-'.join(ops) or '0'))
            hist = (case['first'],) + ops
            for i, op in enumerate(hist):
                r.do(op, f'{case["conf"]} after {hist[:i + 1]}')
                cx.step()
                cx.state(case['conf'], hist[:i + 1])
            cx.trace()


def run_resume(case, cx):
    'k epochs at once or one by one with the stored state of the optimizer.'
    for flags in ([], ['-p']):
        for split in ([4], [1, 3], [2, 2], [1, 1, 2], [1, 1, 1, 1]):
            r = Run(case, cx, f'{cx.tmpdir()}/{len(flags)}'
                    + ''.join(map(str, split)))
            for n in split:
                out = r.out()
                cli.run('shmm', 'train', *flags, '-e', n, '-n', 2, '-k', 2,
                        '-o', f'{r.d}/optim', *r.cur, *out, seed=7)
                r.cur = out
                cx.step()
            gsm, posts, _, em, nunits = r.read()
            st = state(gsm, posts)
            st['units'] = unit_vectors(em, nunits)
            if len(split) == 1:
                ref = st
            for k in ref:
                cx.close(st[k], ref[k], f'{k} when training {flags} in '
                         f'{split} epochs', 1e-4, 1e-5)
            cx.state(case['conf'], tuple(flags), tuple(split))
            cx.trace()


def run_classes(case, cx):
    names = [u for u, g in P.UNITS[case['units']] if g == 's']
    order = [u for u, *_ in P.ordered(case['conf'], case['units'])
             if u in names]
    for k, assign in enumerate(itertools.product('AB', repeat=len(names))):
        if len(set(assign)) < 2:
            continue
        tmp = f'{cx.tmpdir()}/{k}'
        os.makedirs(tmp)
        with open(f'{tmp}/classes', 'w') as f:
            for u, c in sorted(zip(names, assign), key=lambda x: x[::-1],
                               reverse=k % 2 == 0):
                f.write(f'{u} {c}\n')
        d = create(case, tmp, 2, ['-c', f'{tmp}/classes', '-d', 1])
        data = load(f'{d}/posts')
        cx.same(len(data), 5, 'embeddings with the classes')
        byname = dict(zip(names, assign))
        cx.same([int(x) for x in data[4]], ['AB'.index(byname[u])
                                            for u in order],
                f'classes of the units, {assign}')
        cx.same(len(load(f'{d}/gsm').modelset), 2, 'number of classes')
        base, sp = load(f'{d}/mdl'), load(f'{d}/sp')
        same_snapshot(cx, snapshot(base, case['conf']),
                      snapshot(sp, case['conf']), 'creation with classes')
        cli.run('shmm', 'train', '-e', 2, f'{d}/gsm', f'{d}/posts',
                f'{d}/sp', f'{d}/gsm1', f'{d}/posts1', f'{d}/sp1', seed=1)
        data1 = load(f'{d}/posts1')
        cx.same([int(x) for x in data1[4]], [int(x) for x in data[4]],
                'classes after training')
        cx.check(not np.array_equal(tonp(data1[0].params.mean),
                                    tonp(data[0].params.mean)),
                 'embeddings not trained')
        same_snapshot(cx, snapshot(base, case['conf']),
                      snapshot(load(f'{d}/sp1'), case['conf']),
                      'training with classes')
        # The embeddings only.
        cli.run('shmm', 'train', '-p', '-e', 2, f'{d}/gsm1', f'{d}/posts1',
                f'{d}/sp1', f'{d}/gsm2', f'{d}/posts2', f'{d}/sp2', seed=1)
        a = state(load(f'{d}/gsm1'), data1[0])
        b = state(load(f'{d}/gsm2'), load(f'{d}/posts2')[0])
        moved = sorted({x.split('.')[0] for x in a
                        if not np.array_equal(a[x], b[x])})
        cx.same(moved, ['posts'], 'parts trained with classes and -p')
        cx.step(3)
        cx.state(str(case), assign)
    cx.trace()


def run_prior(case, cx):
    tmp = cx.tmpdir()
    (ca, ua), (cb, ub) = case['a'], case['b']
    ra = Run({'conf': ca, 'units': ua}, cx, tmp + '/a')
    rb = Run({'conf': cb, 'units': ub}, cx, tmp + '/b')
    rb.do('train', 'training of the reference')
    for var in (1, .5, 4):
        out = ra.out()
        cli.run('shmm', 'setprior', '-v', var, *ra.cur, *rb.cur[:2], *out,
                seed=3)
        gsm, posts, sp, em, nunits = ra.read(out)
        gsm0, posts0, sp0, em0, _ = ra.read()
        gsmi, postsi, _, _, ni = rb.read()
        what = f'prior of variance {var} from {cb} ({ub}) to {ca} ({ua})'
        for n in ('weights', 'bias'):
            new, src = getattr(gsm.transform, n), getattr(gsmi.transform, n)
            for q in (new.prior, new.posterior):
                cx.close(q.params.mean, src.posterior.params.mean,
                         f'mean of the {n}, {what}', rtol=1e-6)
                cx.close(q.params.log_diag_cov, np.full(
                    tuple(q.params.mean.shape), np.log(var)),
                    f'variance of the {n}, {what}', rtol=1e-6, atol=1e-6)
            cx.check(new.posterior.params.mean.requires_grad
                     and not new.prior.params.mean.requires_grad,
                     f'trainable {n}, {what}')
        m = min(nunits, ni)
        cx.close(tonp(posts.params.mean)[:m], tonp(postsi.params.mean)[:m],
                 f'embeddings, {what}', rtol=1e-6)
        cx.close(tonp(posts.params.log_diag_cov)[:m],
                 tonp(postsi.params.log_diag_cov)[:m],
                 f'variance of the embeddings, {what}', rtol=1e-6)
        cx.same(len(posts), nunits, f'number of embeddings, {what}')
        # The others are drawn from the prior of the reference.
        if nunits > m:
            z = (tonp(posts.params.mean)[m:] - tonp(gsmi.latent_prior.mean)) \
                / np.sqrt(np.diag(tonp(gsmi.latent_prior.cov)))
            for size in (z.shape, z.shape[1:]):
                draws = tonp(torch.randn(*size)).reshape(-1, z.shape[1])
                close = np.allclose(z, draws, 1e-3, 1e-3)
                if close:
                    break
            cx.check(close, f'new embeddings {z.tolist()}, expected '
                            f'{draws.tolist()}, {what}')
        cx.close(gsm.latent_prior.mean, gsmi.latent_prior.mean,
                 f'prior of the embeddings, {what}', rtol=1e-6)
        cx.close(gsm.latent_prior.cov, gsmi.latent_prior.cov,
                 f'prior of the embeddings, {what}', rtol=1e-6)
        same_snapshot(cx, snapshot(sp0, ca), snapshot(sp, ca), what)
        cx.close(unit_vectors(em, nunits), expected(gsm, posts),
                 f'parameters of the units, {what}', 1e-4, 1e-4)
        cx.step()
        cx.state(what)
    # The result can be trained.
    ra.cur = out
    ra.do('train', 'training after setting the prior')
    cx.trace()


def run_hierarchy(case, cx):
    tmp = cx.tmpdir()
    langs = {'l1': ('speech', 'two'), 'l2': ('silfirst', 'sil')}
    dirs = {}
    with open(f'{tmp}/map', 'w') as f:
        for lang, (conf, units) in langs.items():
            dirs[lang] = f'{tmp}/{lang}'
            os.makedirs(dirs[lang])
            make_model(conf, units, dirs[lang], prior='dirichlet')
            f.write(f'{dirs[lang]}/mdl {lang}\n')
    cli.run('hshmm', 'mksphoneloop', '-g', 'speech-unit', '-l', 2, '-t', 3,
            f'{dirs["l1"]}/hmm.yml', f'{tmp}/map', f'{tmp}/gsm',
            f'{tmp}/posts', f'{tmp}/sp', seed=2)
    cur = [f'{tmp}/gsm', f'{tmp}/posts', f'{tmp}/sp']
    flags = [f for i, f in enumerate(['-p', '-a', '-b'])
             if case['mask'] >> i & 1]
    if case['opt'] == 'sgd':
        flags += ['--use-sgd', '-s', '1e-3']

    def read(paths):
        gsm, sp = load(paths[0]), load(paths[2])
        posts, units, nstates, _ = load(paths[1])
        parts = {'root': state_of(gsm['root'])}
        for lang in langs:
            g = gsm['langs'][lang]
            parts['lang ' + lang] = state_of(g.transform.latent_posterior)
            parts['units ' + lang] = state_of(posts[lang])
        return gsm, posts, sp, parts

    def check_files(paths, what):
        gsm, posts, sp, parts = read(paths)
        cx.same(list(sp), list(langs), f'languages, {what}')
        for lang, (conf, units) in langs.items():
            one = load(paths[2] + '_' + lang)
            same_snapshot(cx, snapshot(load(f'{dirs[lang]}/mdl'), conf),
                          snapshot(one, conf), f'{what}, {lang}')
            same_snapshot(cx, snapshot(sp[lang], conf), snapshot(one, conf),
                          f'{what}, {lang}')
            n = sum(g == 's' for _, g in P.UNITS[units])
            idx = group_index(conf)
            cx.same(tuple(posts[lang].params.mean.shape), (n, 3),
                    f'embeddings, {what}, {lang}')
            cx.close(unit_vectors(emissions(one, idx), n),
                     unit_vectors(emissions(sp[lang], idx), n),
                     f'units, {what}, {lang}')
        return gsm, posts, sp, parts
    gsm, posts, sp, _ = check_files(cur, 'creation')
    for lang, (conf, units) in langs.items():
        n = sum(g == 's' for _, g in P.UNITS[units])
        idx = group_index(conf)
        cx.close(unit_vectors(emissions(sp[lang], idx), n),
                 expected(gsm['langs'][lang], posts[lang]),
                 f'initial parameters of the units, {lang}', 1e-4, 1e-4)
    for it in (1, 2):
        with open(f'{tmp}/map{it}', 'w') as f:
            for lang in langs:
                f.write(f'{cur[2]}_{lang} {lang}\n')
        out = [f'{tmp}/{n}-{it}' for n in ('gsm', 'posts', 'sp')]
        cli.run('hshmm', 'train', *flags, '-e', 2, '-o', f'{tmp}/optim',
                cur[0], cur[1], f'{tmp}/map{it}', *out, seed=5)
        before = read(cur)[3]
        what = f'training {it} with {flags}'
        after = check_files(out, what)[3]
        for part, st in after.items():
            cx.same(sorted(st), sorted(before[part]), part)
            frozen = {'root': '-p', 'lang': '-a', 'unit': '-b'}[part[:4]] \
                in flags
            same = all(np.array_equal(st[k], before[part][k]) for k in st)
            cx.check(same == frozen, f'{part} was '
                     f'{"not " if same else ""}trained, {what}')
            for k, v in st.items():
                cx.check(np.isfinite(v).all(), f'{part} {k} not finite')
        cur = out
        cx.step()
        cx.state(case['mask'], case['opt'], it)
    if not flags:
        # The same epochs at once.
        out = [f'{tmp}/{n}-once' for n in ('gsm', 'posts', 'sp')]
        with open(f'{tmp}/map0', 'w') as f:
            for lang in langs:
                f.write(f'{tmp}/sp_{lang} {lang}\n')
        cli.run('hshmm', 'train', '-e', 4, f'{tmp}/gsm', f'{tmp}/posts',
                f'{tmp}/map0', *out, seed=5)
        a, b = read(out)[3], read(cur)[3]
        for part in a:
            for k in a[part]:
                cx.close(b[part][k], a[part][k], f'{part} {k} trained at '
                         'once or in two runs', 1e-4, 1e-5)
        cx.step()
    cx.trace()


LANGS = {'l1': ('speech', 'two'), 'l2': ('silfirst', 'sil')}


def hierarchy(tmp, langs, name, order=None, seed=2, data=False):
    'Hierarchical subspace of some languages.'
    with open(f'{tmp}/{name}-map', 'w') as f:
        for lang in order or langs:
            conf, units = langs[lang]
            d = f'{tmp}/{name}-{lang}'
            os.makedirs(d)
            make_model(conf, units, d, prior='dirichlet')
            if data:
                # Statistics of the language.
                salt = 5 * sorted(langs).index(lang)
                ds = P.write_dataset(cli, d, {'utt0': P.features(
                    14 + salt, salt=salt)})
                cli.run('hmm', 'accumulate', f'{d}/mdl', ds, f'{d}/acc',
                        stdin='utt0\n')
                cli.run('hmm', 'update', f'{d}/mdl', f'{d}/mdl',
                        stdin=f'{d}/acc\n')
            f.write(f'{d}/mdl {lang}\n')
    conf = f'{tmp}/{name}-{next(iter(langs))}/hmm.yml'
    cur = [f'{tmp}/{name}-{n}' for n in ('gsm', 'posts', 'sp')]
    cli.run('hshmm', 'mksphoneloop', '-g', 'speech-unit', '-l', 2, '-t', 3,
            conf, f'{tmp}/{name}-map', *cur, seed=seed)
    return cur


def htrain(tmp, cur, langs, name, *args, seed=5):
    with open(f'{tmp}/{name}-trainmap', 'w') as f:
        for lang in langs:
            f.write(f'{cur[2]}_{lang} {lang}\n')
    out = [f'{tmp}/{name}-{n}' for n in ('gsm', 'posts', 'sp')]
    cli.run('hshmm', 'train', *args, cur[0], cur[1],
            f'{tmp}/{name}-trainmap', *out, seed=seed)
    return out


def run_transfer(case, cx):
    'A new language starts from a hierarchy trained on others.'
    tmp = cx.tmpdir()
    src = hierarchy(tmp, LANGS, 'src')
    if case['source'] == 'trained':
        src = htrain(tmp, src, LANGS, 'trained', '-e', 3, '-s', .05)
    conf = 'speech' if case['units'] == 'two' else 'silfirst'
    idx = group_index(conf)
    for name in ('l3', 'l1'):
        new = hierarchy(tmp, {name: (conf, case['units'])}, 'new' + name)
        base = load(new[2])
        n = load(new[1])[0][name].params.mean.shape[0]
        for k, (adapt, init, same, (L, K)) in enumerate(itertools.product(
                (None, 'l1', 'l2'), (None, 'l1', 'l2'), (0, 1),
                ((1, 1), (2, 3)))):
            what = (f'{case} {name} adapt={adapt} init={init} same={same} '
                    f'samples={L, K}')
            args = ['--adapt-from', adapt] if adapt else []
            args += ['--init-from', init] if init else []
            args += ['--same'] if same else []
            args += ['--latent-nsamples', L, '--params-nsamples', K]
            out = [f'{tmp}/{name}-{k}-sp', f'{tmp}/{name}-{k}-gsm']
            cli.run('hshmm', 'init', *args, name, new[0], src[0], new[1],
                    new[2], *out, seed=8)
            old, tgt, got = load(src[0]), load(new[0]), load(out[1])
            posts = load(new[1])[0][name]
            lang = old['langs'][adapt] if adapt else tgt['langs'][name]
            used = old['langs'][init] if init else lang
            cx.same(sorted(got['langs']), [name], f'languages, {what}')
            pairs = [(state_of(got['root']), state_of(old['root'])),
                     (state_of(got['langs'][name].transform.latent_posterior),
                      state_of(lang.transform.latent_posterior)),
                     (state_of(got['langs'][name].latent_prior),
                      state_of(lang.latent_prior))]
            for a, b in pairs:
                cx.same(sorted(a), sorted(b), f'parts, {what}')
                for x in a:
                    cx.close(a[x], b[x], f'{x}, {what}', rtol=1e-6)
            used.transform.root_transform = old['root'].shared_transform
            torch.set_default_dtype(torch.float32)
            want = tonp(used.expected_pdfvecs(
                posts, latent_nsamples=L, params_nsamples=K))
            if same:
                want = np.repeat(want[:1], n, 0)
            sp, one = load(out[0]), load(f'{out[0]}_{name}')
            cx.same(list(sp), [name], f'models, {what}')
            for m in (sp[name], one):
                cx.close(unit_vectors(emissions(m, idx), n), want,
                         f'parameters of the units, {what}', 1e-4, 1e-4)
                same_snapshot(cx, snapshot(base[name], conf),
                              snapshot(m, conf), what)
            cx.step()
            cx.state(what)
            if k % 7 == 0:
                # The result is trained, without the common subspace.
                end = htrain(tmp, [out[1], new[1], out[0]], [name],
                             f'{name}-{k}-end', '-p', '-e', 2)
                fin = load(end[0])
                for x, v in state_of(fin['root']).items():
                    cx.close(v, state_of(old['root'])[x],
                             f'common subspace, training after {what}',
                             rtol=1e-6)
                cx.check(not np.array_equal(
                    tonp(load(end[1])[0][name].params.mean),
                    tonp(posts.params.mean)),
                    f'embeddings not trained after {what}')
                cx.step()
    cx.trace()


def flat_state(paths, langs):
    gsm, posts = load(paths[0]), load(paths[1])[0]
    out = {f'root {k}': v for k, v in state_of(
        gsm['root'].shared_transform).items()}
    for lang in langs:
        for n, m in (('lang', gsm['langs'][lang].transform.latent_posterior),
                     ('units', posts[lang])):
            out.update({f'{n} {lang} {k}': v
                        for k, v in state_of(m).items()})
    return out


def run_clip(case, cx):
    'The norm of the whole gradient is bounded, not its direction.'
    tmp = cx.tmpdir()
    cur = hierarchy(tmp, LANGS, 'c')
    start = flat_state(cur, LANGS)

    def move(name, *args):
        out = htrain(tmp, cur, LANGS, name, '-e', 1, '--use-sgd', '-s', 1e-3,
                     *args)
        st = flat_state(out, LANGS)
        return np.concatenate([(st[k] - start[k]).reshape(-1)
                               for k in sorted(start)]).astype(float)
    full = move('full')
    norm = np.linalg.norm(full)
    cx.check(norm > 0, 'no gradient')
    for i, ratio in enumerate((.5, .1, .9, 2.)):
        got = move(f'clip{i}', '--clip-grad', ratio * norm / 1e-3)
        want = full * min(1., ratio)
        cx.check(np.linalg.norm(got - want) < 1e-2 * np.linalg.norm(want),
                 f'step of norm {np.linalg.norm(got)} when the gradient is '
                 f'limited to {ratio} of its norm {norm}')
        cx.step()
        cx.state(ratio)
    cx.trace()


def run_order(case, cx):
    'The order of the languages in the list does not matter.'
    tmp = cx.tmpdir()
    langs = dict(LANGS, l0=('sillast', 'sil'))
    cur = hierarchy(tmp, {k: langs[k] for k in ('l1', 'l2')}, 'o',
                    data=True)
    ref = None
    for k, order in enumerate(itertools.permutations(('l1', 'l2'))):
        out = htrain(tmp, cur, order, f'o{k}', '-e', 3)
        st = flat_state(out, order)
        sp = load(out[2])
        for lang in order:
            conf, units = langs[lang]
            n = sum(g == 's' for _, g in P.UNITS[units])
            st['vectors ' + lang] = unit_vectors(
                emissions(sp[lang], group_index(conf)), n)
        ref = ref or st
        cx.same(sorted(st), sorted(ref), 'parts')
        for x in ref:
            cx.close(st[x], ref[x], f'{x} with the languages {order}', 1e-4,
                     1e-5)
        cx.step()
        cx.state(order)
    cx.trace()


def state_of(m):
    return {k: tonp(v) for k, v in m.state_dict().items()
            if not k.endswith('stats')}
