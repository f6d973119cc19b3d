"""Features: spectrum, filter banks, derivatives, and their extraction from
the command line for every combination of the settings."""
import itertools
import os
import numpy as np
import yaml
from scipy.io import wavfile
from beer import features as F
from mc import cli
from mc.graphs import gen

PROP = 'C23'
CHUNK = 8
BOUNDS = {
    'quick': 'spectrum: every unit impulse and pair of impulses of every '
             'signal of 1-4 frames (frames of 4-11 samples) x 3 pre-emphasis '
             'x 5 sample types; filter banks: 1-40 filters x 4 FFT lengths x '
             '3 sampling rates x 4 bands x 2 scales x aligned or not; '
             'derivatives: every impulse of 1-6 frames x all the windows in '
             '{1,2,3}^<=3; extraction: all 24 combinations of the steps x 4 '
             'sampling rates x 4 settings, all orders of 3 utterances, 4 ways to give '
             'them',
    'thorough': 'signals of up to 7 frames, 1-100 filters x 6 FFT lengths, '
                'derivatives up to 9 frames with windows up to 4',
}


def cases(tier):
    big = tier == 'thorough'
    for srate, flen, frate in ((400, .025, .01), (400, .01, .01),
                               (800, .01, .005), (400, .02, .03),
                               # Fractional numbers of samples.
                               (441, .025, .01), (555, .0123, .0065)):
        for n in range(1, 8 if big else 5):
            for extra in range(int(srate * frate)):
                for pre in (0., .97, 1.):
                    yield {'k': 'spectrum', 'srate': srate, 'flen': flen,
                           'frate': frate, 'n': n, 'extra': extra,
                           'pre': pre}
    ffts = (16, 64, 128, 256, 512, 1024) if big else (16, 64, 256, 512)
    for nf in range(1, 101 if big else 41):
        for fft in ffts:
            yield {'k': 'filters', 'n': nf, 'fft': fft}
    for T in range(1, 10 if big else 7):
        for k in range(4):
            yield {'k': 'deltas', 'T': T, 'order': k,
                   'max': 4 if big else 3}
    for T in (30, 64, 101):
        yield {'k': 'long', 'T': T}
    yield {'k': 'scales'}
    for srate in (8000, 16000, 11025, 22050):
        for flags in itertools.product((0, 1), repeat=5):
            if flags[2] and not flags[0]:
                continue        # the cosine transform is that of the filters
            yield {'k': 'extract', 'srate': srate, 'flags': list(flags)}
    for perm in itertools.permutations(range(3)):
        for how in ('list', 'stdin', 'command', 'mixed'):
            yield {'k': 'order', 'perm': list(perm), 'how': how}
    for key in ('defaults', 'rate', 'unknown', 'show'):
        yield {'k': 'conf', 'what': key}


def run(case, cx):
    globals()['run_' + case['k']](case, cx)


# Reference.

def frames_of(x, flen, frate):
    n = (len(x) - flen) // frate + 1
    return np.array([[x[i * frate + j] for j in range(flen)]
                     for i in range(n)]).reshape(n, flen)


def hamming(n):
    return np.array([.54 - .46 * np.cos(2 * np.pi * i / (n - 1))
                     for i in range(n)])


def magnitude(frames):
    n = frames.shape[1]
    fft = 1
    while fft <= n:
        fft *= 2
    k, t = np.meshgrid(np.arange(fft // 2), np.arange(n))
    arg = -2 * np.pi * k * t / fft
    re, im = frames @ np.cos(arg), frames @ np.sin(arg)
    return np.sqrt(re ** 2 + im ** 2), fft


def ref_mspec(x, flen, frate, preemph, srate):
    x = np.asarray(x, dtype=float)
    x = x - x.mean()
    fr = frames_of(x, int(srate * flen), int(srate * frate))
    prev = np.hstack([fr[:, :1], fr[:, :-1]])
    return magnitude((fr - preemph * prev) * hamming(fr.shape[1]))


def centers(n, fft, srate, low, high, scale, inverse):
    pts = np.linspace(scale(low), scale(high), n + 2)
    return fft * inverse(pts) / srate


def triangle(a, c, b, nbins):
    out = np.zeros(nbins)
    for f in range(nbins):
        if f == c:
            out[f] = 1.
        elif a <= f < c:
            out[f] = (f - a) / (c - a)
        elif c < f <= b:
            out[f] = (b - f) / (b - c)
    return out


def floors(x):
    'Possible values of the floor of a number known up to rounding.'
    return sorted({np.floor(x - 1e-7), np.floor(x + 1e-7)})


def ref_fbank(n, fft, srate, low, high, pick):
    'Candidate of the aligned filters.'
    c = [floors(x)[pick] for x in centers(n, fft, srate, low, high, F.hz2mel,
                                           F.mel2hz)]
    return np.array([triangle(c[i], c[i + 1], c[i + 2], fft // 2)
                     for i in range(n)])


def ref_deltas(fea, winlens):
    out = [fea]
    for w in winlens:
        T = len(fea)
        d = np.zeros_like(fea)
        den = 2. * sum(k * k for k in range(-w, w + 1))
        for t in range(T):
            for k in range(-w, w + 1):
                d[t] += k * fea[min(max(t + k, 0), T - 1)] / den
        out.append(d)
        fea = d
    return np.hstack(out)


# Checks.

def run_spectrum(case, cx):
    srate, flen, frate, pre = (case[k] for k in
                               ('srate', 'flen', 'frate', 'pre'))
    fl, fr = int(srate * flen), int(srate * frate)
    N = fl + (case['n'] - 1) * fr + case['extra']
    sigs = []
    for i in range(N):
        s = np.zeros(N)
        s[i] = 3
        sigs.append(s)
        for j in range(i + 1, N):
            s = np.zeros(N)
            s[i], s[j] = 2, -5
            sigs.append(s)
    generic = np.array([int(200 * gen(t, N, 3)) - 80 for t in range(N)])
    sigs.append(generic.astype(float))
    kw = dict(flen=flen, frate=frate, preemph=pre, srate=srate)
    for s in sigs:
        s0 = s.copy()
        got, fft = F.short_term_mspec(s, **kw)
        want, rfft = ref_mspec(s, flen, frate, pre, srate)
        cx.same(fft, rfft, 'length of the FFT')
        cx.close(got, want, f'spectrum of {s}', rtol=1e-6, atol=1e-6)
        cx.check((s == s0).all(), 'signal modified')
        cx.step()
    for dt in ('int16', 'int32', 'float32', 'float64', 'int64'):
        s = generic.astype(dt)
        big = np.zeros(2 * N, dtype=dt)
        big[::2] = s
        want = ref_mspec(s, flen, frate, pre, srate)[0]
        for x in (s, big[::2]):
            cx.close(F.short_term_mspec(x, **kw)[0], want,
                     f'spectrum of {dt}', rtol=1e-3, atol=1e-3)
            lib = F.fbank(x, flen=flen, frate=frate, hifreq=srate / 2,
                          lowfreq=0, nfilters=3, preemph=pre, srate=srate)
            cx.close(lib, lib_fbank(s, flen, frate, srate, pre, 3),
                     f'filter bank features of {dt}', rtol=1e-3, atol=1e-3)
            cx.step(2)
    cx.state(str(case))


def lib_fbank(x, flen, frate, srate, pre, n):
    x = np.asarray(x, dtype=float)
    x = x - pre * np.r_[x[0], x[:-1]]
    fr = frames_of(x, int(srate * flen), int(srate * frate))
    mag, fft = magnitude(fr * hamming(fr.shape[1]))
    return np.log(1 + mag @ actual(n, fft, srate, 0, srate / 2).T)


def actual(n, fft, srate, low, high):
    'Filters, checked separately.'
    return F.create_fbank(n, fft, srate=srate, lowfreq=low, highfreq=high)


def run_filters(case, cx):
    n, fft = case['n'], case['fft']
    scales = {'mel': (F.hz2mel, F.mel2hz), 'bark': (F.hz2bark, F.bark2hz)}
    for srate in (8000, 16000, 11025):
        for low, high in ((0, None), (20, srate / 2), (100, 3500),
                          (300, srate / 2 - 100)):
            for name, (sc, inv) in scales.items():
                for align in (True, False):
                    got = F.create_fbank(
                        n, fft, srate, low, high, hz2scale=sc,
                        scale2hz=inv, align_filt_center=align)
                    what = (f'{n} filters, fft {fft}, rate {srate}, '
                            f'[{low}, {high}], {name}, aligned {align}')
                    cx.same(got.shape, (n, fft // 2), what)
                    c = centers(n, fft, srate, low, high or srate / 2, sc,
                                inv)
                    check_filters(cx, got, c, align, fft // 2, what)
                    cx.step()
    cx.state(n, fft)


def check_filters(cx, got, c, align, nbins, what):
    cands = [floors(x) if align else [x] for x in c]
    for i in range(len(got)):
        ok = False
        for a, m, b in itertools.product(*cands[i:i + 3]):
            ok = ok or np.allclose(got[i], triangle(a, m, b, nbins),
                                   rtol=1e-6, atol=1e-6)
        if not ok and not align:
            # Rounding around the bounds of the filter.
            want = triangle(*c[i:i + 3], nbins)
            near = np.min(np.abs(c[i:i + 3][:, None] - np.arange(nbins)), 0)
            ok = np.allclose(np.where(near < 1e-6, want, got[i]), want,
                             rtol=1e-6, atol=1e-6)
        cx.check(ok, f'filter {i}: {what}: {got[i]}')


def run_deltas(case, cx):
    T = case['T']
    ws = range(1, case['max'] + 1)
    for winlens in itertools.product(ws, repeat=case['order']):
        feas = []
        for t in range(T):
            x = np.zeros((T, 2))
            x[t, t % 2] = 1.
            feas.append(x)
        feas.append(np.array([[gen(t, d, 7) for d in range(3)]
                              for t in range(T)]))
        for x in feas:
            x0 = x.copy()
            cx.close(F.add_deltas(x, winlens), ref_deltas(x, winlens),
                     f'derivatives {winlens} of {x}', atol=1e-12)
            cx.check((x == x0).all(), 'features modified')
            cx.step()
        cx.state(T, winlens)
    if case['order'] == 2:
        x = feas[-1]
        cx.close(F.add_deltas(x), ref_deltas(x, (2, 2)),
                 'default derivatives', atol=1e-12)


def run_long(case, cx):
    T = case['T']
    x = np.array([[gen(t, d, 7) for d in range(3)] for t in range(T)])
    for winlens in ((), (1,), (2,), (2, 2), (3, 1), (9, 4)):
        for y in (x, x[::-1], x * 1e3):
            cx.close(F.add_deltas(y, winlens), ref_deltas(y, winlens),
                     f'derivatives {winlens} of {T} frames', atol=1e-9)
            cx.step()
        cx.state(T, winlens)
    # Signals of many frames.
    for srate in (8000, 16000):
        s = np.array([1000 * gen(t, T, 3) for t in range(T * srate // 100)])
        for pre in (.5, .97, .99, 1.):
            kw = dict(flen=.025, frate=.01, preemph=pre, srate=srate)
            cx.close(F.short_term_mspec(s, **kw)[0],
                     ref_mspec(s, .025, .01, pre, srate)[0],
                     f'spectrum of {T} frames', 1e-6, 1e-6)
            cx.step()


def run_scales(case, cx):
    hz = np.linspace(0, 8000, 161)
    cx.close(F.hz2mel(hz), 1127 * np.log(1 + hz / 700), 'mel')
    cx.close(F.mel2hz(F.hz2mel(hz)), hz, 'inverse mel', atol=1e-8)
    cx.close(F.hz2bark(hz), 29.81 * hz / (1960 + hz) - .53, 'bark')
    cx.close(F.bark2hz(F.hz2bark(hz)), hz, 'inverse bark', atol=1e-8)
    cx.step(4)
    cx.state('scales')


# Command line.
NAMES = ('apply_fbank', 'apply_deltas', 'apply_dct', 'utt_mnorm',
         'add_energy')
FULL = {'srate': 16000, 'preemph': .97, 'window_len': .025,
        'framerate': .01, 'apply_fbank': True, 'nfilters': 26,
        'cutoff_hfreq': 8000, 'cutoff_lfreq': 20, 'apply_deltas': True,
        'delta_order': 2, 'delta_winlen': 2, 'apply_dct': True,
        'n_dct_coeff': 13, 'lifter_coeff': 22, 'utt_mnorm': False,
        'add_energy': True}


def wave(i, srate, n=None):
    n = n or srate // 20 + 37 * i
    return np.array([3000 * np.sin(.01 * (i + 1) * t) + 900 * gen(t, i, 3)
                     for t in range(n)]).astype(np.int16)


def ref_extract(x, c, pick):
    mag, fft = ref_mspec(x, c['window_len'], c['framerate'], c['preemph'],
                         c['srate'])
    if c['apply_fbank']:
        mag = mag @ ref_fbank(c['nfilters'], fft, c['srate'],
                              c['cutoff_lfreq'],
                              min(c['cutoff_hfreq'], c['srate'] / 2), pick).T
    logs = np.log(1e-6 + mag)
    norm = np.sqrt(2. / c['nfilters'])
    fea = logs
    if c['apply_dct']:
        N = logs.shape[1]
        cols = []
        for m in range(1, c['n_dct_coeff'] + 1):
            base = np.cos(m * np.pi / N * (np.arange(N) + .5))
            lift = 1 + c['lifter_coeff'] / 2 * np.sin(
                np.pi * m / c['lifter_coeff'])
            cols.append(logs @ base * norm * lift)
        fea = np.stack(cols, 1)
    if c['add_energy']:
        fea = np.hstack([logs.sum(1, keepdims=True) * norm, fea])
    if c['apply_deltas']:
        fea = ref_deltas(fea, [c['delta_winlen']] * c['delta_order'])
    if c['utt_mnorm']:
        fea = fea - fea.mean(0)
    return fea


def extract(tmp, conf, lines, stdin=False):
    'Run the program in a process of its own (settings are global).'
    os.makedirs(f'{tmp}/out', exist_ok=True)
    with open(f'{tmp}/conf.yml', 'w') as f:
        yaml.safe_dump(conf, f)
    with open(f'{tmp}/wavs', 'w') as f:
        f.write(''.join(lines))
    pid = os.fork()
    if not pid:
        code = 3
        try:
            cli.run('features', 'extract', f'{tmp}/conf.yml',
                    '-' if stdin else f'{tmp}/wavs', f'{tmp}/out',
                    stdin=''.join(lines))
            code = 0
        except BaseException as e:
            with open(f'{tmp}/error', 'w') as f:
                f.write(repr(e))
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    err = ''
    if os.path.exists(f'{tmp}/error'):
        with open(f'{tmp}/error') as f:
            err = f.read()
    return status, err


def compare(cx, tmp, utts, conf, what):
    cx.same(sorted(os.listdir(f'{tmp}/out')),
            sorted(u + '.npy' for u in utts), f'files, {what}')
    for u, x in utts.items():
        got = np.load(f'{tmp}/out/{u}.npy')
        want = ref_extract(x, conf, 0)
        if got.shape == want.shape and not np.allclose(got, want, 1e-5, 1e-5):
            want = ref_extract(x, conf, -1)
        cx.same(got.shape, want.shape, f'shape of the features, {what}')
        cx.close(got, want, f'features, {what}', 1e-5, 1e-5)


def run_extract(case, cx):
    conf = dict(FULL, srate=case['srate'])
    conf.update({k: bool(v) for k, v in zip(NAMES, case['flags'])})
    for i, more in enumerate((
            {}, {'nfilters': 11, 'n_dct_coeff': 5, 'delta_winlen': 1,
                 'preemph': 0., 'cutoff_lfreq': 133, 'cutoff_hfreq': 3700,
                 'lifter_coeff': 9},
            {'delta_order': 1, 'delta_winlen': 3, 'window_len': .02,
             'framerate': .005},
            {'nfilters': 20, 'n_dct_coeff': 15, 'lifter_coeff': 6,
             'cutoff_hfreq': 5000})):
        tmp = f'{cx.tmpdir()}/{i}'
        os.makedirs(tmp)
        c = dict(conf, **more)
        utts = {'a': wave(0, c['srate']), 'b': wave(1, c['srate'])}
        lines = []
        for u, x in utts.items():
            wavfile.write(f'{tmp}/{u}.wav', c['srate'], x)
            lines.append(f'{u} {tmp}/{u}.wav\n')
        status, err = extract(tmp, c, lines)
        cx.check(status == 0, f'extraction failed: {err}: {c}')
        compare(cx, tmp, utts, c, str(c))
        cx.step()
        cx.state(str(case), i)
    cx.trace()


def run_order(case, cx):
    tmp = cx.tmpdir()
    utts = {f'u.{i}-x': wave(i, 16000, 400 + 160 * i) for i in range(3)}
    lines = []
    for i in case['perm']:
        u = f'u.{i}-x'
        path = f'{tmp}/my {i}.wav'
        wavfile.write(path, 16000, utts[u])
        if case['how'] == 'command' or (case['how'] == 'mixed' and i):
            lines.append(f"{u}  cat '{path}' |\n" if i % 2 else
                         f"{u} (cat '{path}' | tee /dev/null) | cat - |\n")
        else:
            lines.append(f'{u} {path}\n')
    status, err = extract(tmp, FULL, lines, case['how'] == 'stdin')
    cx.check(status == 0, f'extraction failed: {err}')
    compare(cx, tmp, utts, FULL, str(case))
    cx.step()
    cx.state(str(case))
    cx.trace()


def run_conf(case, cx):
    tmp, what = cx.tmpdir(), case['what']
    x = wave(0, 16000)
    wavfile.write(f'{tmp}/a.wav', 16000, x)
    lines = [f'a {tmp}/a.wav\n']
    if what == 'defaults':
        for key in [None] + sorted(FULL):
            conf = {'utt_mnorm': False} if key is None else {key: FULL[key]}
            status, err = extract(tmp, conf, lines)
            cx.check(status == 0, f'extraction failed: {err}')
            compare(cx, tmp, {'a': x}, FULL, f'defaults but {key}')
            cx.step()
    elif what == 'rate':
        status, _ = extract(tmp, {'srate': 8000}, lines)
        cx.check(status != 0, 'wrong sampling rate accepted')
        cx.same(os.listdir(f'{tmp}/out'), [], 'features of the wrong rate')
    elif what == 'unknown':
        for key in ('nfilter', 'SRATE', 'foo'):
            status, _ = extract(tmp, {key: 1}, lines)
            cx.check(status != 0, f'unknown setting {key} accepted')
            cx.same(os.listdir(f'{tmp}/out'), [], 'features')
    else:
        out = cli.run('features', 'extract', '--show-default-conf')
        conf = yaml.safe_load(out)
        status, err = extract(tmp, conf, lines)
        cx.check(status == 0, f'default settings refused: {err}')
        compare(cx, tmp, {'a': x}, FULL, 'shown default settings')
    cx.step()
    cx.state(what)
    cx.trace()
