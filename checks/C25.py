"""Scoring and transcription tools of the recipes against brute-force
references, on every short input."""
import itertools
import math
from collections import Counter
import yaml
from mc import cli

PROP = 'C25'
CHUNK = 1
D = 'recipes/aud/utils/'
# Tokens of several characters, some being prefixes of others.
A, B, C, E = 'k', 'kk', 'kkk', 'kl'
BOUNDS = {
    'quick': 'token error rate: all pairs of sequences of <= 3 tokens over 3 '
             'symbols (single) and <= 4 (in files of many utterances), '
             'mappings and repetitions; boundaries: all pairs of '
             'segmentations of 7 frames x 6 tolerances (alone, and over '
             'several utterances with a mapping); all 3x3 count tables '
             'over {0,1,3}; all pairs of alignments of 5 frames over 2 units '
             'and 2 phones; all the sequences of <= 4 tokens for the '
             'conversions; the tokens are prefixes of one another',
    'thorough': 'boundaries of 9 frames, error rate of <= 5 tokens',
}


def cases(tier):
    big = tier == 'thorough'
    for i in range(40):
        yield {'k': 'ter', 'ref': i}
    for n in ((4, 5) if big else (4,)):
        for ch in range(16):
            yield {'k': 'ters', 'n': n, 'chunk': ch}
    for d in range(6):
        for ch in range(16):
            yield {'k': 'bounds', 'T': 9 if big else 7, 'delta': d,
                   'chunk': ch}
    for ch in range(8):
        yield {'k': 'nmi', 'chunk': ch}
        yield {'k': 'overlap', 'chunk': ch}
    for name in ('ali2trans', 'maptrans', 'entropy', 'lang', 'phones',
                 'prefix', 'convert', 'score', 'boundsmap'):
        yield {'k': name}


def run(case, cx):
    globals()['run_' + case['k']](case, cx)
    cx.trace()
    cx.label(case['k'])


def seqs(n, syms=(A, B, C), low=0):
    return [s for k in range(low, n + 1)
            for s in itertools.product(syms, repeat=k)]


def write(path, trans):
    'trans: list of (utterance, tokens)'
    with open(path, 'w') as f:
        for u, t in trans:
            f.write(' '.join((u,) + tuple(t)) + '\n')
    return path


def edit(r, h):
    'Smallest number of edits, by breadth-first search over positions.'
    seen, cur, n = set(), {(0, 0)}, 0
    while True:
        todo, cur2 = list(cur), set()
        while todo:
            i, j = todo.pop()
            if (i, j) in seen:
                continue
            seen.add((i, j))
            if i == len(r) and j == len(h):
                return n
            if i < len(r) and j < len(h) and r[i] == h[j]:
                todo.append((i + 1, j + 1))
            if i < len(r) and j < len(h):
                cur2.add((i + 1, j + 1))
            if i < len(r):
                cur2.add((i + 1, j))
            if j < len(h):
                cur2.add((i, j + 1))
        cur, n = cur2, n + 1


def merge(s):
    return [x for i, x in enumerate(s) if i == 0 or s[i - 1] != x]


def last(out):
    return out.strip().split('\n')[-1]


def run_ter(case, cx):
    tmp = cx.tmpdir()
    all_ = seqs(3)
    r = all_[case['ref']]
    maps = {A: 'xx', B: 'xx', C: 'yx'}
    with open(f'{tmp}/map', 'w') as f:
        f.write(f'{A} xx\n{B} xx\n\n{C} yx\n')
    with open(f'{tmp}/map2', 'w') as f:
        f.write(f'{A} xx\n{B}\n{C} yx\n')
    variants = [([], lambda s: s), (['--no-repeat'], merge),
                (['--mapping', f'{tmp}/map'], lambda s: [maps[x] for x in s]),
                (['--mapping', f'{tmp}/map2', '--no-repeat'],
                 lambda s: merge([maps[x] for x in s if x != B]))]
    write(f'{tmp}/ref', [('u1', r)])
    for h in all_:
        write(f'{tmp}/hyp', [('u0', (A, B)), ('u1', h)])
        for opts, f in variants:
            rr, hh = f(list(r)), f(list(h))
            if not rr:
                continue
            out = cli.script(D + 'ter.py', *opts, f'{tmp}/ref', f'{tmp}/hyp')
            cx.same(last(out), f'{100 * edit(rr, hh) / len(rr):.2f}',
                    f'error rate {opts} of {h} against {r}')
            cx.step()
        cx.state(r, h)


def run_ters(case, cx):
    tmp = cx.tmpdir()
    all_ = seqs(case['n'])
    for i, r in enumerate(all_):
        if i % 16 != case['chunk'] or len(r) < case['n']:
            continue
        write(f'{tmp}/ref', [(f'u{j}', r) for j in range(len(all_))])
        write(f'{tmp}/hyp', [(f'u{j}', h) for j, h in
                             reversed(list(enumerate(all_)))])
        out = cli.script(D + 'ter.py', f'{tmp}/ref', f'{tmp}/hyp')
        err = sum(edit(r, h) for h in all_)
        cx.same(last(out), f'{100 * err / (len(r) * len(all_)):.2f}',
                f'error rate of {len(all_)} utterances against {r}')
        cx.step(len(all_))
        cx.state(r)


def segmentation(mask, T):
    out, sym = [A], 0
    for t in range(1, T):
        if mask >> (t - 1) & 1:
            sym += 1
        out.append((A, B, C)[sym % 3])
    return out


def bounds(seq):
    return [t for t in range(1, len(seq)) if seq[t] != seq[t - 1]]


def matching(r, h, d):
    'Largest number of boundaries matched one to one.'
    used, n = set(), 0
    for b in h:
        for c in r:
            if c not in used and abs(b - c) <= d:
                used.add(c)
                n += 1
                break
    return n


def run_bounds(case, cx):
    tmp, T, d = cx.tmpdir(), case['T'], case['delta']
    masks = 1 << (T - 1)
    for i in range(masks):
        if i % 16 != case['chunk']:
            continue
        ref = segmentation(i, T)
        rb = bounds(ref)
        write(f'{tmp}/ref', [('u', ref)])
        for j in range(masks):
            if T > 7 and (i * 31 + j) % 4:
                continue
            hyp = segmentation(j, T)
            hb = bounds(hyp)
            write(f'{tmp}/hyp', [('u', hyp)])
            out = cli.script(D + 'score_boundaries.py', '-d', d,
                             f'{tmp}/ref', f'{tmp}/hyp')
            got = [float(x) for x in last(out).split(',')]
            # Hits from the recall and the precision.
            best = matching(rb, hb, d)
            hits = got[0] * len(rb) / 100 if rb else 0.
            k = round(hits)
            what = f'{rb} against {hb} with tolerance {d}: {got}'
            gaps = [b - a for x in (rb, hb) for a, b in zip(x, x[1:])]
            if d == 0 or rb == hb or all(g > 2 * d for g in gaps):
                cx.check(k == best, what + f', {best} hits')
            else:
                cx.check(best / 2 <= k <= best, what + f', {best} hits')
            rec = k / len(rb) if rb else 0.
            prec = k / len(hb) if hb else 0.
            f = 2 * rec * prec / (rec + prec) if rec + prec else 0.
            cx.close(got, [100 * rec, 100 * prec, 100 * f], what, atol=.0051)
            cx.step()
        cx.state(i, d)


def run_boundsmap(case, cx):
    'Boundaries of several utterances, the units being mapped.'
    tmp = cx.tmpdir()
    units = (A, B, C, E)    # C is not in the mapping
    words = list(itertools.product(units, repeat=3))
    for n, mapping in enumerate(({}, {A: 'xx', B: 'xx', E: 'yx'},
                                 {A: 'xx', B: 'yx', E: 'xx'},
                                 {A: C, B: E, E: C})):
        with open(f'{tmp}/map', 'w') as f:
            f.write(''.join(f'{a} {b}\n' for a, b in mapping.items())
                    + 'three tokens here\n\n')

        def mapped(s):
            return [mapping.get(x, ('oov', x)) for x in s]
        for shift in range(16):
            ref = [(f'u{i}', w) for i, w in enumerate(words)]
            hyp = [(f'u{i}', words[(i * 5 + shift * 7) % len(words)])
                   for i in range(len(words))][::-1]
            write(f'{tmp}/ref', ref)
            write(f'{tmp}/hyp', hyp)
            use = ['--mapping', f'{tmp}/map'] if mapping else []
            hits = nr = nh = 0
            h = dict(hyp)
            for u, w in ref:
                f = mapped if mapping else list
                rb, hb = bounds(f(w)), bounds(f(h[u]))
                hits += len(set(rb) & set(hb))
                nr, nh = nr + len(rb), nh + len(hb)
            out = cli.script(D + 'score_boundaries.py', '-d', 0, *use,
                             f'{tmp}/ref', f'{tmp}/hyp')
            got = [float(x) for x in last(out).split(',')]
            rec, prec = hits / nr, hits / nh
            f = 2 * rec * prec / (rec + prec) if hits else 0.
            cx.close(got, [100 * rec, 100 * prec, 100 * f],
                     f'boundaries of {len(words)} utterances, {mapping}',
                     atol=.0051)
            cx.step(len(words))
            cx.state(n, shift)
    cx.label('mapping of the boundaries')


def entropy(ps):
    return -sum(p * math.log2(p) for p in ps if p > 0)


def run_nmi(case, cx):
    tmp = cx.tmpdir()
    for n, vals in enumerate(itertools.product((0, 1, 3), repeat=6)):
        if n % 8 != case['chunk']:
            continue
        for shape in ((2, 3), (3, 2)):
            tab = [vals[i * shape[1]:(i + 1) * shape[1]]
                   for i in range(shape[0])]
            tot = sum(vals)
            rows = [sum(r) / tot for r in tab] if tot else []
            cols = [sum(r[j] for r in tab) / tot
                    for j in range(shape[1])] if tot else []
            if not tot or entropy(rows) == 0 or entropy(cols) == 0:
                continue
            counts = {f'au{i}': {f'p{j}': c for j, c in enumerate(r) if c}
                      for i, r in enumerate(tab) if any(r)}
            with open(f'{tmp}/c.yml', 'w') as f:
                yaml.safe_dump(counts, f)
            hx, hy = entropy(rows), entropy(cols)
            mi = hx + hy - entropy([c / tot for r in tab for c in r])
            for opts, want in (([], 200 * mi / (hx + hy)),
                               (['--old'], 100 * mi / hy)):
                out = cli.script(D + 'nmi.py', *opts, f'{tmp}/c.yml')
                cx.close(float(last(out)), want, f'{opts} of {tab}',
                         atol=.0051)
                cx.step()
            cx.same(out.split('\n')[0], f'# units: {len(counts)}', 'units')
        cx.state(vals)


def run_overlap(case, cx):
    tmp = cx.tmpdir()
    for n, (ref, hyp) in enumerate(itertools.product(
            itertools.product(('ph', 'phh'), repeat=5),
            itertools.product((A, B), repeat=5))):
        if n % 8 != case['chunk']:
            continue
        r2, h2 = ref[:3], hyp[2:]
        write(f'{tmp}/ref', [('u', ref), ('v', r2)])
        write(f'{tmp}/hyp', [('v', h2), ('u', hyp)])
        cli.script(D + 'maxoverlap_mapping.py', '--counts', f'{tmp}/c.yml',
                   f'{tmp}/ref', f'{tmp}/hyp', f'{tmp}/map')
        want = {}
        for r, h in list(zip(ref, hyp)) + list(zip(r2, h2)):
            want.setdefault(h, Counter())[r] += 1
        with open(f'{tmp}/c.yml') as f:
            cx.same(yaml.safe_load(f), {h: dict(c) for h, c in want.items()},
                    f'counts of {ref} {hyp}')
        with open(f'{tmp}/map') as f:
            got = [line.split() for line in f]
        cx.same(sorted(x for x, _ in got), sorted(want), 'mapped units')
        for h, r in got:
            cx.check(want[h][r] == max(want[h].values()),
                     f'{h} mapped to {r}: {want[h]}')
        cx.step()
        cx.state(ref, hyp)


def run_ali2trans(case, cx):
    tmp = cx.tmpdir()
    all_ = seqs(4)
    write(f'{tmp}/ali', [(f'u{i}', s) for i, s in enumerate(all_)])
    out = cli.script(D + 'ali2trans.py', f'{tmp}/ali').split('\n')
    cx.same(out[:-1], [' '.join([f'u{i}'] + merge(s))
                       for i, s in enumerate(all_)], 'transcriptions')
    cx.step(len(all_))
    for s in all_:
        cx.state(s)


def run_maptrans(case, cx):
    tmp = cx.tmpdir()
    all_ = seqs(4)
    with open(f'{tmp}/map', 'w') as f:
        f.write(f'{A}  x1\n{B} y1\n')
    for unk in ('', '<unk>'):
        for i, s in enumerate(all_):
            write(f'{tmp}/t', [('u', s)])
            args = (['--unk', unk] if unk else []) + [f'{tmp}/map',
                                                      f'{tmp}/t']
            if C in s and not unk:
                cx.raises(KeyError, lambda: cli.script(
                    D + 'maptrans.py', *args), f'unknown token in {s}')
            else:
                out = cli.script(D + 'maptrans.py', *args).strip().split()
                m = {A: 'x1', B: 'y1', C: unk}
                cx.same(out, ['u'] + [m[x] for x in s], f'mapping of {s}')
            cx.step()
            cx.state(unk, s)


def run_entropy(case, cx):
    tmp = cx.tmpdir()
    for s in seqs(4, low=1):
        for more in ((), (A, A, B)):
            write(f'{tmp}/t', [('u', s), ('v', more)])
            out = last(cli.script(D + 'entropy_rate.py', f'{tmp}/t'))
            c = Counter(merge(s) + merge(more))
            n = sum(c.values())
            h = entropy([x / n for x in c.values()])
            got = [float(x) for x in out.split(',')]
            cx.close(got, [h, 2 ** h], f'entropy of {s}', atol=.0051)
            cx.step()
        cx.state(s)


def run_lang(case, cx):
    for n in range(0, 30):
        want = [f'au{i} speech-unit' for i in range(1, n + 1)]
        for opts in ([], ['--non-speech-unit']):
            out = cli.script(D + 'prepare_lang_aud.py', *opts, n)
            cx.same(out.split('\n')[:-1], (['sil non-speech-unit']
                                           if opts else []) + want, 'units')
            cx.step()
        cx.state(n)


def run_phones(case, cx):
    tmp = cx.tmpdir()
    with open(f'{tmp}/lex', 'w') as f:
        f.write(f'{A} p1 p2\n{B}  p3\n')
    lex = {A: ['p1', 'p2'], B: ['p3']}
    all_ = seqs(4)
    write(f'{tmp}/t', [(f'u{i}', s) for i, s in enumerate(all_)])
    for opts in ([], ['--add-sil']):
        out = cli.script(D + 'prepare_phone_trans.py', *opts, f'{tmp}/lex',
                         f'{tmp}/t').split('\n')[:-1]
        want = []
        for i, s in enumerate(all_):
            if C in s:
                continue
            ph = [p for w in s for p in lex[w]]
            want.append([f'u{i}'] + (['sil'] + ph + ['sil']
                                     if opts else ph))
        cx.same([x.split() for x in out], want, f'transcriptions {opts}')
        cx.step(len(all_))
    for s in all_:
        cx.state(s)


def run_prefix(case, cx):
    tmp = cx.tmpdir()
    all_ = seqs(4)
    write(f'{tmp}/t', [(f'u{i}', s) for i, s in enumerate(all_)])
    for ex in ('', A, f'{A},{C}'):
        opts = ['-e', ex] if ex else []
        out = cli.script(D + 'add_prefix.py', *opts, f'{tmp}/t', 'FR_')
        keep = ex.split(',')
        cx.same([x.split() for x in out.split('\n')[:-1]],
                [[f'u{i}'] + [x if x in keep else 'FR_' + x for x in s]
                 for i, s in enumerate(all_)], f'prefix {opts}')
        cx.step(len(all_))
    cx.state('prefix')


def run_convert(case, cx):
    tmp = cx.tmpdir()
    for n, cuts in enumerate(itertools.product((1, 2, 3), repeat=3)):
        t, lines, want = 0, [], []
        for i, c in enumerate(cuts):
            lines.append(f'{t} {t + c - 1} {7 * i}\n')
            want += [f'au{7 * i}'] * c
            t += c
        with open(f'{tmp}/u{n}.algn', 'w') as f:
            f.write(''.join(lines))
        out = cli.script(D + 'convert_align.py', tmp, stdin=f'u{n}\n')
        cx.same(out.split(), [f'u{n}'] + want, f'alignment {cuts}')
        cx.step()
        cx.state(cuts)


def run_score(case, cx):
    'Several utterances: the counts are summed.'
    tmp = cx.tmpdir()
    T = 5
    pairs = list(itertools.product(range(16), repeat=2))
    for d in (0, 1):
        for a in range(0, len(pairs), 3):
            three = pairs[a:a + 3]
            refs = [(f'u{i}', segmentation(p, T))
                    for i, (p, _) in enumerate(three)]
            hyps = [(f'u{i}', segmentation(q, T))
                    for i, (_, q) in enumerate(three)]
            write(f'{tmp}/r', refs)
            write(f'{tmp}/h', hyps[::-1])
            got = [float(x) for x in last(cli.script(
                D + 'score_boundaries.py', '-d', d, f'{tmp}/r',
                f'{tmp}/h')).split(',')]
            one = []
            for r, h in zip(refs, hyps):
                write(f'{tmp}/r1', [r])
                write(f'{tmp}/h1', [h])
                s = [float(x) for x in last(cli.script(
                    D + 'score_boundaries.py', '-d', d, f'{tmp}/r1',
                    f'{tmp}/h1')).split(',')]
                one.append(round(s[0] * len(bounds(r[1])) / 100))
            nr = sum(len(bounds(r)) for _, r in refs)
            nh = sum(len(bounds(h)) for _, h in hyps)
            rec = sum(one) / nr if nr else 0.
            prec = sum(one) / nh if nh else 0.
            f = 2 * rec * prec / (rec + prec) if rec + prec else 0.
            cx.close(got, [100 * rec, 100 * prec, 100 * f],
                     f'{refs} {hyps}', atol=.0051)
            cx.step()
            cx.state(d, a)
    cx.trace()
