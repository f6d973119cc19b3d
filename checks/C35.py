"""Commands killed, or whose disk is full, at any point of the writing of
their results."""
import os
import pickle
import resource
import shutil
import signal
import sys
import zipfile
import numpy as np
import torch
from mc import cli, phones as P
from mc.core import tonp
from checks.C09 import make_model

PROP = 'C35'
CHUNK = 1
BOUNDS = {
    'quick': 'every command writing files (20 scenarios, writing over the '
             'result of a previous run or not): killed before each of its '
             'operations on files (creation, renaming, removal), and killed '
             'or failing when a file reaches each of 16 sizes from 0 to the '
             'one of the largest result; then executed again; results behind '
             'symbolic links',
    'thorough': '200 sizes',
}
ASSUMPTIONS = [
    'the operating system replaces a file atomically (rename)',
    'a process is killed when it writes beyond a size (RLIMIT_FSIZE), which '
    'leaves the file cut at this size, or between two operations on files',
    'commands writing one file per utterance in a directory are executed '
    'again by the recipes: only the result of this second run is checked '
    '(numpy does not report a full disk)',
]

# name -> (arguments, standard input, outputs, seed); {i}: inputs, {o}: outputs
SCENARIOS = {
    'mkphones': ('hmm mkphones -D 2 {i}/hmm.yml {i}/units {o}/a', '', 'a', 3),
    'mkphoneloopgraph': ('hmm mkphoneloopgraph {i}/units {o}/a', '', 'a', 0),
    'mkdecodegraph': ('hmm mkdecodegraph {i}/plg {i}/hmms {o}/a', '', 'a', 0),
    'mkphoneloop': ('hmm mkphoneloop {i}/dg {i}/hmms {o}/a', '', 'a', 0),
    'mkphoneloopbigram': ('hmm mkphoneloopbigram {i}/mdl {o}/a', '', 'a', 0),
    'mkaligraph': ('hmm mkaligraph {i}/hmms {o}', 'utt0 au1 au2\nutt1 au2\n',
                   '*', 0),
    'posteriors': ('hmm posteriors {i}/mdl {i}/ds.pkl {o}', '', '*', 0),
    'extract': ('features extract {i}/fea.yml {i}/scp {o}', '', '*', 0),
    'archive': ('features archive {i}/ds.feadir {o}/a', '', 'a', 0),
    'dataset': ('dataset create {i}/ds.data {i}/ds.npz {o}/a', '', 'a', 0),
    'train': ('hmm train -e 2 -b 2 {i}/mdl {i}/ds.pkl {o}/a', '', 'a', 1),
    'accumulate': ('hmm accumulate {i}/mdl {i}/ds.pkl {o}/a', 'utt0\nutt1\n',
                   'a', 0),
    'update': ('hmm update {i}/mdl {o}/a', '{i}/acc\n', 'a', 0),
    'update-state': ('hmm update -o {o}/optim {i}/mdl {o}/a', '{i}/acc\n',
                     'a', 0),
    'mksphoneloop': ('shmm mksphoneloop -g speech-unit -l 2 {i}/hmm.yml '
                     '{i}/mdl {o}/a {o}/b {o}/c', '', 'abc', 2),
    'sinit': ('shmm init {i}/gsm {i}/posts {i}/sp {o}/a', '', 'a', 4),
    'setprior': ('shmm setprior {i}/gsm {i}/posts {i}/sp {i}/gsm {i}/posts '
                 '{o}/a {o}/b {o}/c', '', 'abc', 3),
    'strain': ('shmm train -e 2 -o {o}/optim {i}/gsm {i}/posts {i}/sp {o}/a '
               '{o}/b {o}/c', '', 'abc', 4),
    'mkhsphoneloop': ('hshmm mksphoneloop -g speech-unit -l 2 -t 3 '
                      '{i}/hmm.yml {i}/map {o}/a {o}/b {o}/c', '',
                      ['a', 'b', 'c', 'c_l1', 'c_l2'], 2),
    'hstrain': ('hshmm train -e 2 {i}/hgsm {i}/hposts {i}/hmap {o}/a {o}/b '
                '{o}/c', '', ['a', 'b', 'c', 'c_l1', 'c_l2'], 5),
}


def cases(tier):
    for name in SCENARIOS:
        for old in (False, True):
            yield {'s': name, 'old': old,
                   'n': 200 if tier == 'thorough' else 16}


def inputs(d, name):
    os.makedirs(d)
    make_model('speech', 'two', d, prior='dirichlet')
    utts = {f'utt{i}': P.features(14 + i, salt=i) for i in range(2)}
    P.write_dataset(cli, d, utts)
    if name.startswith('update'):
        cli.run('hmm', 'accumulate', f'{d}/mdl', f'{d}/ds.pkl', f'{d}/acc',
                stdin='utt0\nutt1\n')
    if name in ('sinit', 'setprior', 'strain'):
        cli.run('shmm', 'mksphoneloop', '-g', 'speech-unit', '-l', 2,
                f'{d}/hmm.yml', f'{d}/mdl', f'{d}/gsm', f'{d}/posts',
                f'{d}/sp', seed=2)
    if name in ('mkhsphoneloop', 'hstrain'):
        with open(f'{d}/map', 'w') as f:
            f.write(f'{d}/mdl l1\n{d}/mdl l2\n')
    if name == 'hstrain':
        cli.run('hshmm', 'mksphoneloop', '-g', 'speech-unit', '-l', 2, '-t',
                3, f'{d}/hmm.yml', f'{d}/map', f'{d}/hgsm', f'{d}/hposts',
                f'{d}/hsp', seed=2)
        with open(f'{d}/hmap', 'w') as f:
            f.write(f'{d}/hsp_l1 l1\n{d}/hsp_l2 l2\n')


def content(path):
    'Raises an exception when the file is not complete.'
    if zipfile.is_zipfile(path):
        try:
            state = torch.load(path)
            return repr(sorted(state))
        except RuntimeError:
            pass
        with zipfile.ZipFile(path) as z:
            assert z.testzip() is None
            return sorted((n, z.getinfo(n).file_size) for n in z.namelist())
    with open(path, 'rb') as f:
        head = f.read(6)
    if head == b'\x93NUMPY':
        x = np.load(path, allow_pickle=True)
        return repr(x.shape) if x.dtype == object else x.tolist()
    with open(path, 'rb') as f:
        obj = pickle.load(f)
        assert not f.read(1)
    return fingerprint(obj)


def fingerprint(obj):
    if isinstance(obj, torch.nn.Module):
        return [(k, tonp(v).reshape(-1).tolist())
                for k, v in sorted(obj.state_dict().items())]
    if isinstance(obj, (list, tuple)):
        return [fingerprint(x) for x in obj]
    if isinstance(obj, dict):
        return sorted(([fingerprint(k), fingerprint(v)]
                       for k, v in obj.items()), key=repr)
    if isinstance(obj, (torch.Tensor, np.ndarray)):
        return np.round(tonp(obj), 6).tolist()
    if isinstance(obj, (str, int, float)):
        return obj
    if type(obj).__module__.startswith('beer.inference'):
        return [fingerprint(v) for v in vars(obj).values()]
    return type(obj).__name__


def spawn(args, stdin, seed, how, k):
    '''Run the command in a process killed ("kill") or failing ("full") when a
    file reaches k bytes, or killed before its k-th operation on files
    ("ops"). Returns (status, number of operations).'''
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            torch.set_num_threads(1)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            count = [0]
            if how == 'ops':
                def hook(event, a):
                    if event == 'open' and not (
                            isinstance(a[2], int)
                            and a[2] & (os.O_WRONLY | os.O_RDWR)):
                        return
                    if event not in ('open', 'os.rename', 'os.remove',
                                     'os.truncate', 'os.link', 'os.symlink'):
                        return
                    if event == 'open' and a[0] == os.devnull:
                        return
                    if count[0] == k:
                        os.kill(os.getpid(), signal.SIGKILL)
                    count[0] += 1
                sys.addaudithook(hook)
            else:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL
                              if how == 'kill' else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, k))
            try:
                cli.run(*args, stdin=stdin, seed=seed)
                code = 0
            except BaseException:           # noqa: B036
                code = 3
            os.write(w, str(count[0]).encode())
        finally:
            os._exit(code)
    os.close(w)
    out = os.read(r, 100)
    os.close(r)
    status = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
    return status, int(out or 0)


def run(case, cx):
    tmp = cx.tmpdir()
    name = case['s']
    d = f'{tmp}/in'
    if name == 'extract':
        wav(d)
    else:
        inputs(d, name)
    argv, stdin, outs, seed = SCENARIOS[name]

    def fill(o):
        return (argv.format(i=d, o=o).split(), stdin.format(i=d))
    # Complete run.
    ref = f'{tmp}/ref'
    os.makedirs(ref)
    args, sin = fill(ref)
    cli.run(*args, stdin=sin, seed=seed)
    want = {f: content(f'{ref}/{f}') for f in sorted(os.listdir(ref))}
    single = outs != '*'
    if single:
        cx.same(sorted(set(outs) - set(want)), [], f'results of {name}')
    size = max(os.path.getsize(f'{ref}/{f}') for f in want)
    cx.step()
    stale = {}
    if case['old']:
        # Another result, from a previous run.
        for f in want:
            if f != 'optim':
                stale[f] = b'previous ' + f.encode()

    def start(o):
        os.makedirs(o)
        for f, data in stale.items():
            with open(f'{o}/{f}', 'wb') as s:
                s.write(data)

    def crash(how, k):
        o = f'{tmp}/{how}-{k}'
        start(o)
        args, sin = fill(o)
        status, n = spawn(args, sin, seed, how, k)
        what = f'{name} {how} {k} (old: {case["old"]})'
        cx.step()
        cx.state(name, case['old'], how, k)
        if status == 0 and how == 'full' and not single:
            pass    # numpy does not report a disk full
        elif status == 0:
            for f in want:
                if f != 'optim':
                    cx.check(content(f'{o}/{f}') == want[f], f'result {f} '
                             f'of a successful command, {what}')
        else:
            cx.check(status in ((-signal.SIGXFSZ, -signal.SIGKILL)
                                if how != 'full' else (3,)),
                     f'status {status}, {what}')
            for f in want if single else ():
                path = f'{o}/{f}'
                if not os.path.exists(path):
                    cx.check(not case['old'] or f == 'optim',
                             f'previous {f} removed, {what}')
                    continue
                if f == 'optim':
                    try:
                        content(path)
                    except Exception as e:
                        cx.fail(f'incomplete {f}: {e!r}, {what}')
                    continue
                with open(path, 'rb') as s:
                    same = case['old'] and s.read() == stale[f]
                if same:
                    continue
                try:
                    got = content(path)
                except Exception as e:
                    cx.fail(f'incomplete {f}: {e!r}, {what}')
                    continue
                cx.check(got == want[f], f'another {f}, {what}')
            # Executed again.
            if 'optim' in want:
                # The state belongs to another step.
                start(o + 'r')
                for f in os.listdir(o):
                    if f != 'optim':
                        shutil.copy(f'{o}/{f}', f'{o}r/{f}')
                shutil.rmtree(o)
                o += 'r'
                args, sin = fill(o)
            cli.run(*args, stdin=sin, seed=seed)
            for f in want:
                cx.check(content(f'{o}/{f}') == want[f] or f == 'optim',
                         f'{f} of the second run, {what}')
            for f in set(os.listdir(o)) - set(want):
                cx.check(not f.endswith(('.npy', '.npz', '.mdl', '.pkl'))
                         and f.startswith('.'), f'{f} remains, {what}')
            cx.step()
        shutil.rmtree(o)
        return status, n

    if single:
        # Results stored elsewhere, through symbolic links.
        o, there = f'{tmp}/links', f'{tmp}/elsewhere'
        start(there)
        os.makedirs(o)
        for f in want:
            os.symlink(f'{there}/{f}' if case['old'] else f'../elsewhere/{f}',
                       f'{o}/{f}')
        args, sin = fill(o)
        cli.run(*args, stdin=sin, seed=seed)
        for f in want:
            cx.check(os.path.islink(f'{o}/{f}'), f'link {f} replaced, {name}')
            cx.check(os.path.isfile(f'{there}/{f}')
                     and (f == 'optim' or content(f'{there}/{f}') == want[f]),
                     f'target of the link {f}, {name}')
        cx.step()
        cx.label('link')
    k = 0
    while crash('ops', k)[0] != 0:
        k += 1
    cx.check(k > 0, f'{name} writes without any operation')
    points = sorted({round(i * size / case['n']) for i in range(case['n'])}
                    | {1, size - 1})
    killed = 0
    for k in points:
        for how in ('kill', 'full'):
            killed += crash(how, k)[0] != 0
    cx.check(killed > 0, f'{name}: never interrupted')
    cx.label(name)
    cx.trace()


def wav(d):
    import wave
    os.makedirs(d)
    with open(f'{d}/fea.yml', 'w') as f:
        f.write('srate: 8000\ncutoff_hfreq: 4000\nnfilters: 5\n'
                'apply_dct: false\nadd_energy: false\n'
                'apply_deltas: false\n')
    with open(f'{d}/scp', 'w') as scp:
        for u in range(2):
            x = (8000 * np.sin(np.arange(900 + 80 * u) / 9.)).astype('<i2')
            with wave.open(f'{d}/u{u}.wav', 'wb') as w:
                w.setnchannels(1)
                w.setsampwidth(2)
                w.setframerate(8000)
                w.writeframes(x.tobytes())
            scp.write(f'u{u} {d}/u{u}.wav\n')
