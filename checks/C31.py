"""Reservation of a GPU for every behaviour of the machine: which GPUs are
busy at every query and which allocations succeed."""
import itertools
import os
import subprocess
import time
import torch
from beer import utils
from mc.choice import explore

PROP = 'C31'
CHUNK = 1
BOUNDS = {
    'quick': '0-3 GPUs (4 numberings), 0-3 attempts (2 with 3 GPUs); every '
             'set of busy GPUs at every query and every outcome of every '
             'allocation; with and without a logger',
    'thorough': '3 attempts with 3 GPUs, 4 attempts with 2 GPUs',
}
ASSUMPTIONS = ['nvidia-smi, the allocation and the clock are replaced by the '
               'explorer']
NUMBERINGS = [list, lambda n: list(reversed(list(n))),
              lambda n: [i + 3 for i in n], lambda n: [5 * i + 1 for i in n]]


def cases(tier):
    big = tier == 'thorough'
    for G, R, num in itertools.product(range(4), range(5), range(4)):
        top = {0: 4, 1: 4, 2: 4 if big else 3, 3: 3 if big else 2}[G]
        if R <= top and (num == 0 or G * R <= 4):
            for logger in (False, True):
                yield {'G': G, 'R': R, 'num': num, 'logger': logger}
    yield {'G': 2, 'R': 2, 'num': 0, 'logger': False, 'broken': True}


class Logger:
    def __getattr__(self, name):
        return lambda *a, **kw: None


class World:
    def __init__(self, case, ch):
        self.case, self.ch = case, ch
        self.ids = NUMBERINGS[case['num']](range(case['G']))
        self.uuids = [f'GPU-{7 * i + 3:04x}-{i}' for i in self.ids]
        self.events, self.busy = [], set()

    def run(self, cmd, *args, **kw):
        text = cmd if isinstance(cmd, str) else ' '.join(cmd)
        if self.case.get('broken') and self.ch(2):
            self.events.append(('error', ))
            raise subprocess.CalledProcessError(9, cmd)
        if 'query-compute-apps' in text:
            k = self.ch(2 ** len(self.ids))
            self.busy = {u for i, u in enumerate(self.uuids) if k >> i & 1}
            self.events.append(('query', frozenset(self.busy)))
            # a GPU is listed once for each of its processes
            out = ''.join(f'{u}\n' * (1 + i % 2)
                          for i, u in enumerate(self.uuids) if u in self.busy)
        else:
            out = ''.join(f'{u}, {i}\n' for u, i in zip(self.uuids, self.ids))
        return subprocess.CompletedProcess(cmd, 0, out, '')

    def alloc(self, old):
        def f(*a, device=None, **kw):
            if device is None or torch.device(device).type != 'cuda':
                return old(*a, device=device, **kw)
            ok = bool(self.ch(2))
            self.events.append(
                ('alloc', os.environ.get('CUDA_VISIBLE_DEVICES'), ok))
            if not ok:
                raise RuntimeError('CUDA error: all CUDA-capable devices are '
                                   'busy or unavailable')
            return old(*a, **kw)
        return f

    def sleep(self, t):
        self.events.append(('sleep', t))

    def __enter__(self):
        self.saved = dict(os.environ)
        self.olds = [(m, a, getattr(m, a)) for m, a in (
            (subprocess, 'run'), (time, 'sleep'), (torch, 'zeros'),
            (torch, 'ones'), (torch, 'empty'), (torch, 'tensor'))]
        subprocess.run, time.sleep = self.run, self.sleep
        for _, a, old in self.olds[2:]:
            setattr(torch, a, self.alloc(old))
        os.environ.pop('CUDA_VISIBLE_DEVICES', None)
        return self

    def __exit__(self, *exc):
        for m, a, v in self.olds:
            setattr(m, a, v)
        self.env = os.environ.get('CUDA_VISIBLE_DEVICES')
        os.environ.clear()
        os.environ.update(self.saved)


def run(case, cx):
    def one(ch):
        err = got = None
        with World(case, ch) as w:
            try:
                got = utils.reserve_gpu(
                    case['R'], Logger() if case['logger'] else None, 7)
            except utils.NoGPUAvailable as e:
                err = 'none'
            except subprocess.CalledProcessError as e:
                err = 'error'
        what = f'{case} choices={ch.taken} events={w.events}'
        cx.step(len(w.events))
        cx.state(str(case), *ch.taken)
        cx.trace()
        uuid = dict(zip(map(str, w.ids), w.uuids))
        queries = [e for e in w.events if e[0] == 'query']
        cx.check(len(queries) <= case['R'], f'too many attempts: {what}')
        # never allocate on a GPU seen busy
        busy, tried, rounds = None, [], []
        for e in w.events:
            if e[0] == 'query':
                busy, tried = e[1], []
                rounds.append((busy, tried))
            elif e[0] == 'alloc':
                cx.check(e[1] in uuid and busy is not None
                         and uuid[e[1]] not in busy,
                         f'allocation on a busy or unknown GPU: {what}')
                tried.append(uuid[e[1]])
        done = [e for e in w.events if e[0] == 'alloc' and e[2]]
        cx.check(len(done) <= 1, f'several GPUs reserved: {what}')
        for k, (busy, tried) in enumerate(rounds):
            if not (done and k == len(rounds) - 1) and err != 'error':
                cx.same(sorted(tried), sorted(set(w.uuids) - busy),
                        f'free GPUs not tried: {what}')
        if ('error', ) in w.events:
            cx.same(err, 'error', f'error of nvidia-smi hidden: {what}')
            return
        if done:
            cx.same(got, int(done[0][1]), f'reserved GPU: {what}')
            cx.same(w.env, str(got), f'visible GPU: {what}')
            cx.same(w.events[-1], done[0], f'after the reservation: {what}')
        else:
            cx.same(err, 'none', f'no GPU but no error: {what}')
            cx.same(len(queries), case['R'], f'attempts: {what}')
        # waits between the attempts
        for i, e in enumerate(w.events):
            if e[0] == 'query' and i and any(
                    x[0] == 'query' for x in w.events[:i]):
                prev = max(j for j, x in enumerate(w.events[:i])
                           if x[0] == 'query')
                naps = [x for x in w.events[prev:i] if x[0] == 'sleep']
                cx.same(sum(x[1] for x in naps), 7,
                        f'wait between the attempts: {what}')
        cx.label('reserved' if done else 'none')

    explore(one)
