"""Networks described by a configuration compute what it says."""
import itertools
import numpy as np
import torch
import yaml
from beer import nnet
from mc.graphs import gen

PROP = 'C30'
CHUNK = 16
BOUNDS = {
    'quick': 'every block of 1-3 elements out of 9, with 4 residual '
             'connections; every network of 1-3 blocks out of 12; every '
             'sequence of 2-4 dimensions in 1-3 with 4 residual connections; '
             'every '
             'element x 4 spacings; merges of 2-3 elements',
    'thorough': 'blocks of 4 elements',
}
ASSUMPTIONS = ['an element with several transforms (`|`) takes as many '
               'inputs']
D = 3
ELEMENTS = {
    'Linear:in_features=3;out_features=3': ('linear', True),
    'Linear:in_features=3;out_features=3;bias=False': ('linear', False),
    'Tanh': ('f', np.tanh),
    'LeakyReLU:negative_slope=0.3': ('f', lambda x: np.where(x > 0, x, .3 * x)),
    'ELU:alpha=0.7': ('f', lambda x: np.where(x > 0, x, .7 * np.expm1(x))),
    'IdentityLayer': ('f', lambda x: x),
    'TransposeLayer': ('f', lambda x: x.T),
    'ReshapeLayer:shape=(-1,)': ('f', lambda x: x.reshape(-1)),
    'ReshapeLayer:shape=(-1,3)': ('f', lambda x: x.reshape(-1, 3)),
}
NAMES = list(ELEMENTS)
RES = [None, 'IdentityLayer', NAMES[0], 'ELU:alpha=0.7']
BLOCKS = [((0,), None), ((0, 2), None), ((1,), 1), ((2,), 2), ((3, 0), 3),
          ((5,), None), ((6,), None), ((0, 2, 1), 1), ((7, 8), None),
          ((4,), 2), ((6, 2), None), ((1, 4), 3)]
SPACES = ['{}', ' {} ', '\t{}\n']


def cases(tier):
    for n in range(1, 5 if tier == 'thorough' else 4):
        for els in itertools.product(range(len(NAMES)), repeat=n):
            yield {'k': 'block', 'els': els}
    for n in (1, 2, 3):
        for first in range(len(BLOCKS)):
            yield {'k': 'net', 'n': n, 'first': first}
    for k in (1, 2, 3):
        for dims in itertools.product((1, 2, 3), repeat=k + 1):
            yield {'k': 'dims', 'dims': dims}
    yield {'k': 'element'}
    yield {'k': 'merge'}
    yield {'k': 'error'}


def params(module):
    out = []
    for k, (n, p) in enumerate(module.named_parameters()):
        v = np.array([2 * gen(i, k, 17) - 1 for i in range(p.numel())]
                     ).reshape(p.shape)
        with torch.no_grad():
            p.copy_(torch.tensor(v))
        out.append(v)
    return out


def apply(name, x, ps):
    kind, f = ELEMENTS[name]
    if kind == 'f':
        return f(x)
    W = ps.pop(0)
    x = x @ W.T
    return x + ps.pop(0) if f else x


def block_ref(names, res, x, ps):
    h = x
    for n in names:
        h = apply(n, h, ps)
    if res is not None:
        h = h + apply(res, x, ps)
    return h


def net_ref(blocks, x, ps):
    for names, res in blocks:
        x = block_ref(names, res, x, ps)
    assert not ps
    return x


def valid(blocks, x):
    'The definition itself applies to the input.'
    ps = []
    for names, res in blocks:
        for n in names + ([res] if res else []):
            if ELEMENTS[n][0] == 'linear':
                ps.append(np.ones((D, D)))
                if ELEMENTS[n][1]:
                    ps.append(np.ones(D))
    try:
        for names, res in blocks:
            h = x
            for n in names:
                h = chk(n, h, ps)
            if res is not None:
                r = chk(res, x, ps)
                if r.shape != h.shape:
                    return False
                h = h + r
            x = h
    except ValueError:
        return False
    return True


def chk(n, x, ps):
    if ELEMENTS[n][0] == 'linear' and x.shape[-1] != D:
        raise ValueError
    if n == 'TransposeLayer' and x.ndim > 2:
        raise ValueError
    return apply(n, x, ps)


def conf(blocks, variant):
    out = []
    for names, res in blocks:
        b = {'block_structure': [SPACES[(variant + i) % len(SPACES)].format(n)
                                 for i, n in enumerate(names)]}
        if res is not None:
            b['residual'] = res
        elif variant % 2:
            b['residual'] = None
        out.append(b)
    return yaml.safe_load(yaml.safe_dump({'nnet_structure': out}))


def compare(blocks, cx, variant=0):
    done = 0
    for rows in (3, 2, 6):
        x = np.array([[3 * gen(t, i, 5) - 1.5 for i in range(D)]
                      for t in range(rows)])
        if not valid(blocks, x):
            continue
        net = nnet.create(conf(blocks, variant))
        ps = params(net)
        t = torch.tensor(x)
        got = net(t)
        want = net_ref(blocks, x, ps)
        cx.same(list(got.shape), list(want.shape), f'shape: {blocks}')
        cx.close(got, want, f'{blocks} rows={rows}')
        cx.close(t, x, f'input changed: {blocks}')
        cx.step()
        done += 1
    return done


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)


def run_block(case, cx):
    names = [NAMES[i] for i in case['els']]
    for v, res in enumerate(RES):
        if compare([(names, res)], cx, v + len(names)):
            cx.state(str(case['els']), str(res))
            cx.label(f'{len(names)} elements')
    cx.trace()


def run_net(case, cx):
    for rest in itertools.product(range(len(BLOCKS)), repeat=case['n'] - 1):
        idx = (case['first'], *rest)
        blocks = [([NAMES[i] for i in BLOCKS[b][0]],
                   None if BLOCKS[b][1] is None else RES[BLOCKS[b][1]])
                  for b in idx]
        if compare(blocks, cx, sum(idx)):
            cx.state('net', *idx)
            cx.trace()
    cx.label(f'{case["n"]} blocks')


def run_dims(case, cx):
    'Blocks which change the dimension of the data.'
    dims = case['dims']
    steps = list(zip(dims[:-1], dims[1:]))
    for mid in (1, 2, 4):
        for res in itertools.product((None, 'linear', 'nobias', 'identity'),
                                     repeat=len(steps)):
            if any(r == 'identity' and a != b
                   for r, (a, b) in zip(res, steps)):
                continue
            blocks = []
            for r, (a, b) in zip(res, steps):
                blk = {'block_structure': [
                    f'Linear:in_features={a};out_features={mid}', 'Tanh',
                    f'Linear:in_features={mid};out_features={b};bias=False']}
                if r is not None:
                    blk['residual'] = {
                        'identity': 'IdentityLayer',
                        'linear': f'Linear:in_features={a};out_features={b}',
                        'nobias': f'Linear:in_features={a};out_features={b};'
                                  'bias=False'}[r]
                blocks.append(blk)
            net = nnet.create({'nnet_structure': blocks})
            ps = params(net)
            for rows in (1, 3):
                x = np.array([[3 * gen(t, i, 5) - 1.5
                               for i in range(dims[0])] for t in range(rows)])
                left, h = list(ps), x
                for r in res:
                    y = np.tanh(h @ left.pop(0).T + left.pop(0)) \
                        @ left.pop(0).T
                    if r == 'identity':
                        y = y + h
                    elif r is not None:
                        y = y + h @ left.pop(0).T
                        if r == 'linear':
                            y = y + left.pop(0)
                    h = y
                assert not left
                cx.close(net(torch.tensor(x)), h, f'dimensions {dims}, hidden '
                         f'{mid}, residual connections {res}, {rows} rows')
                cx.step()
            cx.state(dims, mid, res)
    cx.trace()
    cx.label('dimensions')


def run_element(case, cx):
    for name in NAMES:
        for pad in SPACES + ['spread']:
            s = pad.format(name) if pad != 'spread' else \
                ' '.join(name.replace(';', ' ; ').replace('=', ' = ')
                         .replace(':', ' : ').split(' '))
            m = nnet.create_nnet_element(s)
            cx.check(isinstance(m, torch.nn.Module), f'{s!r}')
            ps = params(m)
            x = np.array([[3 * gen(t, i, 5) - 1.5 for i in range(D)]
                          for t in range(3)])
            cx.close(m(torch.tensor(x)), apply(name, x, ps), f'{s!r}')
            cx.state(s)
            cx.step()
    for text, attrs in (
            ('Linear:in_features=2;out_features=5',
             {'in_features': 2, 'out_features': 5}),
            ('Dropout:p=0.25', {'p': .25}),
            ('Conv2d:in_channels=1;out_channels=2;kernel_size=(3,2)',
             {'in_channels': 1, 'out_channels': 2, 'kernel_size': (3, 2)}),
            ('Conv1d:in_channels=1;out_channels=2;kernel_size=3;stride=2',
             {'kernel_size': (3,), 'stride': (2,)}),
            ('BatchNorm1d:num_features=4;affine=False',
             {'num_features': 4, 'affine': False}),
            ('Softmax:dim=1', {'dim': 1}),
            ('GELU:approximate="tanh"', {'approximate': 'tanh'})):
        m = nnet.create_nnet_element(text)
        cx.same(type(m).__name__, text.split(':')[0], text)
        for k, v in attrs.items():
            cx.same(getattr(m, k), v, f'{text} {k}')
        cx.step()
    cx.trace()
    cx.label('elements')


def run_merge(case, cx):
    names = [n for n in NAMES if 'Transpose' not in n and '(-1,)' not in n]
    for k in (2, 3):
        for els in itertools.product(names, repeat=k):
            m = nnet.create_nnet_element('|'.join(els))
            ps = params(m)
            xs = [np.array([[3 * gen(t, i, 5 + j) - 1.5 for i in range(D)]
                            for t in range(3)]) for j in range(k)]
            ts = [torch.tensor(x) for x in xs]
            got = m(*ts)
            want = sum(apply(n, x, ps) for n, x in zip(els, xs))
            cx.close(got, want, f'merge {els}')
            for t, x in zip(ts, xs):
                cx.close(t, x, f'input changed by the merge {els}')
            cx.close(m(*ts), want, f'merge {els} again')
            cx.state(*els)
            cx.step()
    cx.trace()
    cx.label('merges')


def run_error(case, cx):
    for bad in ('NoSuchLayer', 'linear', 'NoSuchLayer:a=1',
                'Tanh|NoSuchLayer'):
        cx.raises(ValueError, lambda: nnet.create_nnet_element(bad),
                  f'{bad}')
        cx.raises(ValueError, lambda: nnet.create(
            {'nnet_structure': [{'block_structure': ['Tanh', bad]}]}),
            f'{bad}')
        cx.step()
    cx.trace()
    cx.label('errors')
