"""The optimizer: which parameters a step updates, over all the histories of
steps, resets and save/restore."""
import copy
import io
import itertools
import pickle
import numpy as np
import torch
from scipy.special import digamma
import beer
from beer import dists
from mc.graphs import gen

PROP = 'C12'
CHUNK = 8
BOUNDS = {
    'quick': '8 layouts of mean-field groups (0-3 groups, 1-2 parameters), all '
             'the histories of <= 4 operations among {new statistics A/B, '
             'reset, step, save/restore in a new optimizer through the disk, '
             'pickle of the model, save and roll back}; generic optimizer '
             'combined with gradient descent: histories of <= 4 operations',
    'thorough': 'histories of <= 5 operations',
}
LAYOUTS = [[1], [1, 1], [2, 1], [1, 1, 1], [2, 2], [1, 2, 1], [3], []]
OPS = ['A', 'B', 'zero', 'step', 'disk', 'pickle', 'rollback']


def cases(tier):
    n = 5 if tier == 'thorough' else 4
    for lay in range(len(LAYOUTS)):
        for lr in (1., .5, 1.2):
            for k in range(1, n + 1):
                for ops in itertools.product(OPS, repeat=k):
                    # The effect is seen at a step.
                    if k > 1 and ops[-1] != 'step':
                        continue
                    yield {'k': 'cjg', 'lay': lay, 'lr': lr, 'ops': list(ops)}
    for k in range(1, n + 1):
        for ops in itertools.product(['A', 'init', 'step', 'disk'], repeat=k):
            for which in ('both', 'cjg', 'std'):
                yield {'k': 'generic', 'which': which, 'ops': list(ops)}


def param(i):
    prior = np.array([1 + 2 * gen(i, j, 1) for j in range(3)])
    post = np.array([1 + 4 * gen(i, j, 2) for j in range(3)])
    p = beer.ConjugateBayesianParameter(
        dists.Dirichlet.from_std_parameters(torch.tensor(prior)),
        dists.Dirichlet.from_std_parameters(torch.tensor(post)))
    return p, prior, post


def stats(i, which):
    c = np.array([3 * gen(i, j, 9 + ord(which)) for j in range(3)])
    nat = c.copy()
    nat[-1] = c.sum()           # statistics of the natural form
    return c, torch.tensor(nat)


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    (run_cjg if case['k'] == 'cjg' else run_generic)(case, cx)


def run_cjg(case, cx):
    layout, lr = LAYOUTS[case['lay']], case['lr']
    groups, ref, i = [], [], 0
    for size in layout:
        groups.append([])
        for _ in range(size):
            p, prior, post = param(i)
            groups[-1].append(p)
            ref.append({'prior': prior, 'post': post, 'stats': np.zeros(3),
                        'g': len(groups) - 1})
            i += 1
    optim = beer.VBConjugateOptimizer((iter(g) for g in groups), lr)
    optim.init_step()
    count, saved = 0, None
    params = [p for g in groups for p in g]
    for n, op in enumerate(case['ops']):
        if op in 'AB':
            for k, p in enumerate(params):
                c, nat = stats(k, op)
                p.store_stats(nat)
                ref[k]['stats'] = c
        elif op == 'zero':
            optim.init_step()
            for r in ref:
                r['stats'] = np.zeros(3)
        elif op == 'step':
            optim.step()
            if layout:
                g = count % len(layout)
                for r in ref:
                    if r['g'] == g:
                        r['post'] = (1 - lr) * r['post'] + \
                            lr * (r['prior'] + r['stats'])
            count += 1
        elif op == 'disk':
            f = io.BytesIO()
            torch.save(optim.state_dict(), f)
            optim = beer.VBConjugateOptimizer(groups, .123)
            optim.load_state_dict(torch.load(io.BytesIO(f.getvalue())))
        elif op == 'pickle':
            groups = pickle.loads(pickle.dumps(groups))
            params = [p for g in groups for p in g]
            state = optim.state_dict()
            optim = beer.VBConjugateOptimizer(groups, .123)
            optim.load_state_dict(state)
        elif op == 'rollback':
            # The state saved before is restored (the parameters are kept).
            if saved is None:
                saved = (copy.deepcopy(optim.state_dict()), count)
            else:
                optim.load_state_dict(saved[0])
                count = saved[1]
        cx.step()
        for k, p in enumerate(params):
            cx.close(p.posterior.params.concentrations, ref[k]['post'],
                     f'posterior of the parameter {k} after {case["ops"][:n + 1]}')
            cx.close(p.prior.params.concentrations, ref[k]['prior'],
                     f'prior of the parameter {k} after {case["ops"][:n + 1]}')
        cx.state(case['lay'], count % max(1, len(layout)),
                 [np.round(r['post'], 8).tolist() for r in ref])
    cx.label('steps' if count else 'no step')
    cx.trace()


def run_generic(case, cx):
    p, prior, post = param(0)
    w = torch.nn.Parameter(torch.tensor([1., -2.]))
    use_c, use_s = case['which'] != 'std', case['which'] != 'cjg'
    refp, refw, st, grad, vel = post, np.array([1., -2.]), np.zeros(3), None, 0.

    def make():
        return beer.VBOptimizer(
            beer.VBConjugateOptimizer([[p], []], .5) if use_c else None,
            torch.optim.SGD([w], lr=.1, momentum=.9) if use_s else None)
    optim, count, vel = make(), 0, None
    for n, op in enumerate(case['ops']):
        if op == 'A':
            c, nat = stats(0, 'A')
            p.store_stats(nat)
            st = c
            (w ** 2).sum().backward()
            grad = (0. if grad is None else grad) + 2 * refw
        elif op == 'init':
            optim.init_step()
            if use_c:
                st = np.zeros(3)
            if use_s:
                grad = None
        elif op == 'step':
            optim.step()
            if use_c:
                if count % 2 == 0:
                    refp = .5 * refp + .5 * (prior + st)
                count += 1
            if use_s and grad is not None:
                vel = grad if vel is None else .9 * vel + grad
                refw = refw - .1 * vel
        else:
            f = io.BytesIO()
            torch.save(optim.state_dict(), f)
            optim = make()
            optim.load_state_dict(torch.load(io.BytesIO(f.getvalue())))
        cx.step()
        cx.close(p.posterior.params.concentrations, refp,
                 f'conjugate parameter after {case["ops"][:n + 1]}')
        cx.close(w, refw, f'other parameter after {case["ops"][:n + 1]}')
        cx.state(case['which'], np.round(refp, 8).tolist(),
                 np.round(refw, 8).tolist())
    cx.label('generic')
    cx.trace()
