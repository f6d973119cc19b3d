"""Alignment graphs of the transcriptions and their use when decoding and
accumulating statistics."""
import itertools
import os
import pickle
import zipfile
import numpy as np
import torch
from mc import cli, phones as P, paths as D
from mc.graphs import gen

PROP = 'C09'
CHUNK = 1
BOUNDS = {
    'quick': '6 sets of units x all the transcriptions of 1-3 units: the '
             'compiled graph; x 3 lengths: forced decoding (sequence and per '
             'frame); accumulation with the archive, with and without '
             'alignment graph in one job; names which concatenate to '
             'another name',
    'thorough': 'transcriptions of 1-4 units',
}
ASSUMPTIONS = ['alignment archive built as the recipe does (zip of the files)']
SETS = [('speech', 'two'), ('silfirst', 'sil'), ('sillast', 'sil'),
        ('shuffled', 'sil'), ('raw', 'one'),
        ('short', 'sil')]


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for conf, units in SETS:
        for L in range(1, n + 1):
            if L == 4:
                for u, _ in P.UNITS[units]:
                    yield {'conf': conf, 'units': units, 'len': L, 'first': u}
            else:
                yield {'conf': conf, 'units': units, 'len': L, 'first': None}
    # Names which are the concatenation of other names.
    yield {'conf': 'silfirst', 'units': 'affix', 'len': 12, 'first': None}


def make_model(conf, units, tmp, seed=3, prior='dirichlet2'):
    cpath, upath = P.write(conf, units, tmp)
    cli.run('hmm', 'mkphones', '-D', 2, cpath, upath, f'{tmp}/hmms', seed=seed)
    cli.run('hmm', 'mkphoneloopgraph', upath, f'{tmp}/plg')
    cli.run('hmm', 'mkdecodegraph', f'{tmp}/plg', f'{tmp}/hmms', f'{tmp}/dg')
    cli.run('hmm', 'mkphoneloop', '--weights-prior', prior, f'{tmp}/dg',
            f'{tmp}/hmms', f'{tmp}/mdl')
    with open(f'{tmp}/mdl', 'rb') as f:
        return pickle.load(f)


def llhs_of(model, X):
    X = torch.tensor(X).float()
    ms = model.modelset
    st = ms.sufficient_statistics(X)
    return ms.expected_log_likelihood(
        st, range(len(ms))).detach().numpy().astype(float)


def archive(path, src):
    with zipfile.ZipFile(path, 'w') as f:
        for name in sorted(os.listdir(src)):
            f.write(os.path.join(src, name), arcname=name)


def run(case, cx):
    tmp = cx.tmpdir()
    conf, units, L = case['conf'], case['units'], case['len']
    model = make_model(conf, units, tmp)
    refs = P.unit_refs(conf, units)
    names = [u for u, _ in P.UNITS[units]]
    seqs = [s for n in ((1, 2) if L == 12 else (L,))
            for s in itertools.product(names, repeat=n)
            if case['first'] in (None, s[0])]
    # An utterance id per transcription and length.
    lengths = (0, 1, 3)
    lines, graphs = [], {}
    for i, seq in enumerate(seqs):
        graphs[seq] = P.linear(seq, refs).compiled()
        for k in lengths:
            lines.append(f'utt{i}-{k} ' + ' '.join(seq))
    os.makedirs(f'{tmp}/ali')
    lines.insert(1, 'notranscription')
    cli.run('hmm', 'mkaligraph', f'{tmp}/hmms', f'{tmp}/ali',
            stdin='\n'.join(lines) + '\n')
    cx.step(len(lines))
    cx.same(sorted(os.listdir(f'{tmp}/ali')),
            sorted(f'utt{i}-{k}.npy' for i in range(len(seqs))
                   for k in lengths), 'alignment graphs written')
    archive(f'{tmp}/alis.npz', f'{tmp}/ali')
    alis = np.load(f'{tmp}/alis.npz', allow_pickle=True)
    utts, minlen = {}, {}
    for i, seq in enumerate(seqs):
        g = alis[f'utt{i}-0'][0]
        init, final, trans, pdf, _ = graphs[seq]
        where = f'transcription {seq}'
        cx.same(list(g.pdf_id_mapping), pdf, f'emissions, {where}')
        cx.close(g.init_log_probs.exp(), init, f'initial, {where}', 1e-5, 1e-6)
        cx.close(g.final_log_probs.exp(), final, f'final, {where}', 1e-5, 1e-6)
        cx.close(g.trans_log_probs.exp(), trans, f'transitions, {where}',
                 1e-5, 1e-6)
        cx.state(conf, seq)
        cx.trace()
        # Shortest path of the graph.
        d, m = init > 0, 1
        while not (d & (final > 0)).any():
            d = (trans[d] > 0).any(axis=0)
            m += 1
        for k in lengths:
            utts[f'utt{i}-{k}'] = P.features(m + k, salt=3 * i + k)
    free = ['zz-free', 'aa-free', 'utt-free', 'utt9-free']
    for i, u in enumerate(free):
        utts[u] = P.features(5 + i, salt=77 + i)
    ds = P.write_dataset(cli, tmp, utts)
    starts = {s: u for u, s in model.start_pdf.items()}
    # Utterances without alignment before, between and after the others.
    ids = ['zz-free', 'missing'] + sorted(k for k in utts if k not in free)
    ids[3:3] = ['aa-free']
    ids[len(ids) // 2:len(ids) // 2] = ['utt-free']
    ids.append('utt9-free')
    for per_frame in (False, True):
        args = ['--per-frame'] if per_frame else []
        out = cli.run('hmm', 'decode', '-a', f'{tmp}/alis.npz', '-u', '-',
                      *args, f'{tmp}/mdl', ds,
                      stdin=''.join(f'{u}\n' for u in ids))
        cx.step(len(ids))
        got = [line.split() for line in out.splitlines()]
        cx.same([x[0] for x in got], [u for u in ids if u != 'missing'],
                'utterances decoded')
        for uid, *hyp in got:
            where = f'{uid} per_frame={per_frame}'
            if uid in free:
                g = model.graph
                init, final, trans = [x.exp().numpy().astype(float) for x in
                                      (g.init_log_probs, g.final_log_probs,
                                       g.trans_log_probs)]
                pdf = list(range(len(init)))
            else:
                seq = seqs[int(uid[3:].split('-')[0])]
                init, final, trans, pdf, _ = graphs[seq]
            ll = llhs_of(model, utts[uid])[:, pdf]
            ok = {tuple(D.units_of([pdf[s] for s in x], starts, per_frame))
                  for x in D.best(init, final, trans, ll)[0]}
            if uid not in free and not per_frame \
                    and conf not in ('raw', 'short'):
                cx.same(ok, {seq}, f'reference transcription of {where}')
                cx.same(tuple(hyp), seq, f'forced alignment of {where}')
            cx.check(tuple(hyp) in ok,
                     f'decoding {where}: got {hyp}, expected {ok}')
            cx.label('per-frame' if per_frame else 'sequence')
    # Statistics accumulated with the alignment graphs.
    for uid in [u for u in ids[2:] if u not in free][::3]:
        seq = seqs[int(uid[3:].split('-')[0])]
        init, final, trans, pdf, _ = graphs[seq]
        cli.run('hmm', 'accumulate', '-a', f'{tmp}/alis.npz', f'{tmp}/mdl', ds,
                f'{tmp}/elbo', stdin=f'{uid}\n')
        cx.step()
        with open(f'{tmp}/elbo', 'rb') as f:
            elbo, n = pickle.load(f)
        cx.same(n, 1, 'number of utterances')
        ll = llhs_of(model, utts[uid])[:, pdf]
        post = D.posteriors(init, final, trans, ll)[0]
        occ = np.zeros(len(model.modelset))
        np.add.at(occ, pdf, post.sum(axis=0))
        got = occupancy(model, elbo)
        cx.close(got, occ, f'occupancies of {uid} {seq}', 1e-3, 1e-3)
        cx.label('accumulate')
    # Several utterances in one job, with and without alignment graph.
    some = [u for u in ids[2:] if u not in free][::4]
    for lst in ([some[0], 'zz-free'], ['zz-free', some[-1], 'aa-free', some[0],
                                       'missing', 'utt-free', 'utt9-free']):
        cli.run('hmm', 'accumulate', '-a', f'{tmp}/alis.npz', f'{tmp}/mdl', ds,
                f'{tmp}/elbo', stdin=''.join(f'{u}\n' for u in lst))
        cx.step()
        with open(f'{tmp}/elbo', 'rb') as f:
            elbo, n = pickle.load(f)
        cx.same(n, len(lst) - ('missing' in lst), 'number of utterances')
        occ = np.zeros(len(model.modelset))
        for uid in lst:
            if uid == 'missing':
                continue
            if uid in free:
                g = model.graph
                init, final, trans = [x.exp().numpy().astype(float) for x in
                                      (g.init_log_probs, g.final_log_probs,
                                       g.trans_log_probs)]
                pdf = list(range(len(init)))
            else:
                init, final, trans, pdf, _ = graphs[
                    seqs[int(uid[3:].split('-')[0])]]
            ll = llhs_of(model, utts[uid])[:, pdf]
            post = D.posteriors(init, final, trans, ll)[0]
            np.add.at(occ, pdf, post.sum(axis=0))
        cx.close(occupancy(model, elbo), occ, f'occupancies of {lst}', 2e-3,
                 2e-3)
        cx.label('accumulate-mixed')


def occupancy(model, elbo):
    'Expected number of frames of each emission, from the mixture weights.'
    elbo.sync(model)
    for p in model.bayesian_parameters():
        p.zero_stats()
    scale = elbo._minibatchsize / elbo._datasize
    elbo.backward()
    out = []
    for sub in model.modelset.original_modelset.modelsets:
        for p in sub.categoricalset.bayesian_parameters():
            st = p.stats.detach().numpy()
            out.extend((st[..., -1] * scale).reshape(-1).tolist())
    return np.array(out)
