"""Stateless exploration of the outcomes of nondeterministic choices: the
function is executed once for every combination of the choices it makes."""


class Chooser:
    def __init__(self, prefix=()):
        self.prefix, self.taken, self.arity = list(prefix), [], []

    def __call__(self, n):
        'One of 0..n-1.'
        i = len(self.taken)
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(k)
        self.arity.append(n)
        return k

    def next(self):
        'Prefix of the next execution (depth first) or None.'
        for i in reversed(range(len(self.taken))):
            if self.taken[i] + 1 < self.arity[i]:
                return self.taken[:i] + [self.taken[i] + 1]
        return None


def explore(fn, limit=None):
    """Call fn(chooser) for every execution; returns how many (None for the
    limit: all of them)."""
    prefix, n = [], 0
    while prefix is not None:
        ch = Chooser(prefix)
        fn(ch)
        n += 1
        if limit is not None and n >= limit:
            return n
        prefix = ch.next()
    return n


class random_source:
    """Replace the module `random` (and the integer draws of torch and numpy)
    by the choices of the explorer."""

    def __init__(self, ch):
        self.ch = ch

    def __enter__(self):
        import random
        import numpy as np
        import torch
        ch = self.ch

        def choices(population, weights=None, *, cum_weights=None, k=1):
            population = list(population)
            if not population:
                raise IndexError('Cannot choose from an empty population')
            ok = [i for i in range(len(population))
                  if weights is None or weights[i] > 0]
            return [population[ok[ch(len(ok))]] for _ in range(k)]

        def choice(seq):
            seq = list(seq)
            if not seq:
                raise IndexError('Cannot choose from an empty sequence')
            return seq[ch(len(seq))]

        def randrange(start, stop=None, step=1):
            r = range(start) if stop is None else range(start, stop, step)
            if not len(r):
                raise ValueError('empty range for randrange()')
            return r[ch(len(r))]

        def t_randint(*a, **kw):
            size = kw.pop('size', None)
            a = list(a)
            if size is None:
                size = a.pop()
            low, high = (a + [kw.get('high')])[:2] if len(a) > 1 or \
                'high' in kw else (0, a[0])
            n = 1
            for s in size:
                n *= s
            return torch.tensor([randrange(int(low), int(high))
                                 for _ in range(n)]).reshape(tuple(size))

        def n_randint(low, high=None, size=None, dtype=int):
            lo, hi = (0, low) if high is None else (low, high)
            if size is None:
                return randrange(int(lo), int(hi))
            n = int(np.prod(size))
            return np.array([randrange(int(lo), int(hi))
                             for _ in range(n)]).reshape(size)

        self.old = [(m, a, getattr(m, a)) for m, a in (
            (random, 'choices'), (random, 'choice'), (random, 'randrange'),
            (random, 'randint'), (torch, 'randint'),
            (np.random, 'randint'), )]
        random.choices, random.choice = choices, choice
        random.randrange = randrange
        random.randint = lambda a, b: randrange(a, b + 1)
        torch.randint = t_randint
        np.random.randint = n_randint
        return self

    def __exit__(self, *exc):
        for m, a, v in self.old:
            setattr(m, a, v)
