"""Graph editing: exploration of the sequences of operations (replace a state
by a sub-graph, normalize, add a state/arc) on small graphs, compared after
every step with the substitution of weighted languages."""

import itertools
import torch
from mc.graphs import RefGraph, build, gen, read
from beer.graph import Graph

PROP = 'C02'
CHUNK = 4
BOUNDS = {
    'quick': '10 top graphs x 6 sub-graphs, all operation sequences up to '
             'length 2 (+ normalize), languages up to 5 emissions, forward '
             'and backward arc iteration of every state',
    'thorough': 'as quick with sequences of length 3 and 6 emissions',
}
ASSUMPTIONS = ['at most one arc between two states',
               'no cycle of non-emitting states']


def _w(arcs, salt):
    return {a: gen(i, salt) for i, a in enumerate(arcs)}


TOPS = {
    'line': (['S', 'a', 'F'], [('S', 'a'), ('a', 'F')]),
    'two': (['S', 'a', 'b', 'F'], [('S', 'a'), ('a', 'b'), ('b', 'F')]),
    'loop': (['S', 'a', 'b', 'F'], [('S', 'a'), ('S', 'b'), ('a', 'F'),
                                    ('b', 'F'), ('a', 'b'), ('b', 'a')]),
    'self': (['S', 'a', 'F'], [('S', 'a'), ('a', 'a'), ('a', 'F')]),
    'eps': (['S', 'a', 'b', 'x', 'F'],
            [('S', 'a'), ('S', 'b'), ('a', 'x'), ('b', 'x'), ('x', 'F'),
             ('x', 'a'), ('x', 'b')]),
    'start': (['a', 'b', 'F'], [('a', 'b'), ('b', 'F'), ('b', 'b')]),
    'end': (['S', 'b', 'a'], [('S', 'b'), ('b', 'a'), ('S', 'a')]),
    # The start is the end as well.
    'alone': (['a'], []),
    'again': (['a'], [('a', 'a')]),
    'round': (['a', 'b'], [('a', 'b'), ('b', 'a'), ('b', 'b')]),
}
SAME = ('alone', 'again', 'round')
SUBS = {
    'one': ([('s', None), ('p', 10), ('f', None)],
            [('s', 'p'), ('p', 'p'), ('p', 'f')]),
    'lr3': ([('s', None), ('p', 11), ('q', 12), ('r', 13), ('f', None)],
            [('s', 'p'), ('p', 'p'), ('p', 'q'), ('q', 'q'), ('q', 'r'),
             ('r', 'r'), ('r', 'f')]),
    'skip': ([('f', None), ('q', 22), ('p', 0), ('s', None)],
             [('s', 'p'), ('s', 'q'), ('p', 'q'), ('p', 'f'), ('q', 'f')]),
    'emitends': ([('p', 31), ('q', 32)], [('p', 'q'), ('p', 'p')]),
    'single': ([('p', 41)], [('p', 'p')]),
    'back': ([('s', None), ('p', 51), ('q', 52), ('f', None)],
             [('s', 'p'), ('p', 'q'), ('q', 'p'), ('q', 'f')]),
}
ENDS = {'emitends': ('p', 'q'), 'single': ('p', 'p')}


def sub_ref(name):
    states, arcs = SUBS[name]
    s, f = ENDS.get(name, ('s', 'f'))
    return RefGraph(states, _w(arcs, 1 + len(name)), s, f)


def top_ref(name):
    names, arcs = TOPS[name]
    pdf = {'a': 1, 'b': 2}
    return RefGraph([(n, pdf.get(n)) for n in names], _w(arcs, 3), names[0],
                    names[0 if name in SAME else -1])


OPS = [('replace', who, sub) for who in 'ab' for sub in SUBS] + \
      [('normalize',), ('extend',)]


def cases(tier):
    depth = 3 if tier == 'thorough' else 2
    for top in TOPS:
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                reps = [o[1] for o in ops if o[0] == 'replace']
                if len(set(reps)) < len(reps):
                    continue
                if any(r not in TOPS[top][0] for r in reps):
                    continue
                yield {'top': top, 'ops': [list(o) for o in ops]}


def pdf_language(ref, maxlen):
    lang = {}
    for seq, w in ref.language(maxlen).items():
        key = tuple(ref.pdf[s] for s in seq)
        lang[key] = lang.get(key, 0.) + w
    return lang


def ref_replace(ref, old, sub, tag):
    'Substitution on the reference graph: by redirection of the arcs.'
    ren = {s: f'{tag}.{s}' for s in sub.order}
    arcs = {(ren[a], ren[b]): w for (a, b), w in sub.arcs.items()}
    entry, leave = ren[sub.start], ren[sub.end]
    for (a, b), w in ref.arcs.items():
        key = (leave if a == old else a, entry if b == old else b)
        if key in arcs:
            return None      # two arcs between the same states
        arcs[key] = w
    states = [(s, ref.pdf[s]) for s in ref.order if s != old] + \
        [(ren[s], sub.pdf[s]) for s in sub.order]
    return RefGraph(states, arcs,
                    entry if ref.start == old else ref.start,
                    leave if ref.end == old else ref.end)


def substitute(lang, old_pdf, sublang, maxlen):
    'The same substitution on the languages (independent of the graphs).'
    out = {}
    for seq, w in lang.items():
        parts = [{(): w}]
        for sym in seq:
            nxt = {}
            options = sublang if sym == old_pdf else {(sym,): 1.}
            for pre, v in parts[-1].items():
                for add, u in options.items():
                    if len(pre) + len(add) <= maxlen:
                        key = pre + add
                        nxt[key] = nxt.get(key, 0.) + v * u
            parts.append(nxt)
        for key, v in parts[-1].items():
            out[key] = out.get(key, 0.) + v
    return out


def compare_lang(cx, got, want, what):
    cx.same(sorted(map(repr, got)), sorted(map(repr, want)),
            f'{what}: accepted sequences')
    for k in want:
        if abs(got[k] - want[k]) > 1e-9 * max(1e-3, abs(want[k])):
            cx.fail(f'{what}: weight of {k}: {got[k]!r}, expected {want[k]!r}')


def consistency(cx, g):
    'The different iterators over the graph agree.'
    allarcs = {(a.start, a.end): a.weight for a in g.arcs()}
    states = list(g.states())
    cx.check(len(set(states)) == len(states), 'a state is listed twice')
    out, inc = {}, {}
    for s in states:
        cx.same(g.state_from_id(s).id, s, 'id of a state')
        for a in g.arcs(s):
            cx.same(a.start, s, 'outgoing arc')
            out[(a.start, a.end)] = a.weight
        for a in g.arcs(s, incoming=True):
            cx.same(a.end, s, 'incoming arc')
            inc[(a.start, a.end)] = a.weight
        cx.step(2)
    cx.same(out, allarcs, 'outgoing arcs of all the states')
    cx.same(inc, allarcs, 'incoming arcs of all the states')
    cx.check(g.start_state in states and g.end_state in states,
             'the start/end state is not in the graph')


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    maxlen = 6 if cx.tier == 'thorough' else 5
    ref = top_ref(case['top'])
    g, ids = build(Graph, ref)
    consistency(cx, g)
    cx.state(case['top'])
    subs = {}
    for i, op in enumerate(case['ops']):
        before_lang = pdf_language(read(g), maxlen)
        known = set(g.states())
        if op[0] == 'replace':
            old, name = op[1], op[2]
            sub = sub_ref(name)
            # The same sub-graph object is used for all the replacements.
            if name not in subs:
                subs[name] = build(Graph, sub)[0]
            subg = subs[name]
            new = ref_replace(ref, old, sub, f'{i}')
            if new is None or new.has_eps_cycle():
                cx.label('skipped: parallel arcs or non-emitting cycle')
                return
            subbefore = read(subg)
            g.replace_state(ids.pop(old), subg)
            cx.step()
            subafter = read(subg)
            cx.same((subafter.pdf, subafter.arcs, subafter.start,
                     subafter.end), (subbefore.pdf, subbefore.arcs,
                                     subbefore.start, subbefore.end),
                    'sub-graph after the replacement')
            want = substitute(before_lang, ref.pdf[old],
                              pdf_language(sub, maxlen), maxlen)
            compare_lang(cx, pdf_language(read(g), maxlen), want,
                         f'step {i} {op} (substitution of the language)')
            ref = new
        elif op[0] == 'normalize':
            g.normalize()
            cx.step()
            tot = {}
            for (a, b), w in ref.arcs.items():
                tot[a] = tot.get(a, 0.) + w
            ref = RefGraph([(s, ref.pdf[s]) for s in ref.order],
                           {k: w / tot[k[0]] for k, w in ref.arcs.items()},
                           ref.start, ref.end)
        else:
            # A new alternative path from the start to the end.
            sid = g.add_state(pdf_id=77)
            cx.check(sid not in known, 'the id of a new state is in use')
            g.add_arc(g.start_state, sid, .25)
            g.add_arc(sid, g.end_state, .5)
            cx.step(3)
            name = f'n{i}'
            ref = RefGraph([(s, ref.pdf[s]) for s in ref.order] + [(name, 77)],
                           {**ref.arcs, (ref.start, name): .25,
                            (name, ref.end): .5}, ref.start, ref.end)
            ids[name] = sid
        consistency(cx, g)
        real = read(g)
        cx.same((len(real.order), len(real.arcs)),
                (len(ref.order), len(ref.arcs)),
                f'step {i} {op}: number of states and arcs')
        lang = pdf_language(ref, maxlen)
        compare_lang(cx, pdf_language(real, maxlen), lang, f'step {i} {op}')
        cx.state(case['top'], sorted((k, round(v, 9)) for k, v in lang.items()))
    # Sub-graphs keep their creation order: the pdfs of a unit stay together.
    emit = [real.pdf[s] for s in real.order if real.pdf[s] is not None]
    cx.same(emit, [ref.pdf[s] for s in ref.order if ref.pdf[s] is not None],
            'order of the emitting states')
    if not ref.has_eps_cycle() and ref.forward_eps(ref.start) and \
            ref.backward_eps(ref.end) and ref.pdf[ref.start] is None and \
            ref.pdf[ref.end] is None and case['ops'][-1][0] == 'normalize':
        cg = g.compile()
        cx.step()
        init, final, trans, pdf, _ = ref.compiled()
        if (trans.diagonal() < 1).all():
            cx.close(cg.init_log_probs.exp(), init, 'compiled: initial')
            cx.close(cg.final_log_probs.exp(), final, 'compiled: final')
            cx.close(cg.trans_log_probs.exp(), trans, 'compiled: transitions')
            cx.label('compiled')
    cx.label('ok')
    cx.trace()
