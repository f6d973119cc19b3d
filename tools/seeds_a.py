from seed import make
make('c01-diag-alias', 'C01', 'beer/graph.py',
 [("diag = trans_probs[dim, dim].clone()", "diag = trans_probs[dim, dim]")],
 'a state with a self-loop and outgoing probabilities which do not sum to one',
 'the self-loop probability read after the in-place rescaling of its row',
 '''
import torch
from beer.graph import Graph
g = Graph()
s, a, b, f = g.add_state(), g.add_state(0), g.add_state(1), g.add_state()
g.start_state, g.end_state = s, f
g.add_arc(s, a)
g.add_arc(a, a, .5)
g.add_arc(a, b, .25)
g.add_arc(a, f, .25)
g.add_arc(b, b, .75)
g.add_arc(b, f, .25)
t = g.compile().trans_log_probs.exp()
assert abs(t[0, 0] - .5) < 1e-5 and abs(t[0, 1] - .5) < 1e-5, t
''')
make('c03-clamped-transitions', 'C03', 'beer/graph.py',
 [("            log_A = self.trans_log_probs\n            log_xi",
   "            log_A = self.trans_log_probs.clamp(min=-1e4)\n            log_xi")],
 'a forbidden transition towards a state whose likelihood is far above the others',
 'forbidden transitions get a posterior when the emission strongly favours them',
 '''
import torch
from beer.graph import CompiledGraph
inf = float('inf')
cg = CompiledGraph(torch.tensor([0., -inf]), torch.tensor([0., -inf]),
                   torch.tensor([[.5, 0.], [.5, .5]]).log())
llhs = torch.tensor([[0., 0.], [-30000., 0.], [0., 0.]])
(post, xi), _ = cg.posteriors(llhs, trans_posteriors=True)
assert torch.allclose(xi[0], torch.tensor([[1., 0.], [0., 0.]])), xi
''')
make('c04-final-ignored', 'C04', 'beer/graph.py',
 [("path = [torch.argmax(omega + self.final_log_probs)]",
   "path = [torch.argmax(omega)]")],
 'a sequence whose best prefix ends in a non final state',
 'decoded path ending in a state where the sequence is not allowed to end',
 '''
import torch
from beer.graph import CompiledGraph
inf = float('inf')
cg = CompiledGraph(torch.tensor([0., -inf]), torch.tensor([-inf, 0.]),
                   torch.tensor([[.9, .1], [0., 1.]]).log())
path = cg.best_path(torch.tensor([[0., 0.], [0., -1.], [0., -1.]]))
assert int(path[-1]) == 1, path
''')
make('c02-normalize-incoming', 'C02', 'beer/graph.py',
 [("""        for state_id in self.states():
            sum_out_weights = 0.
            for arc in self.arcs(state_id):
                sum_out_weights += arc.weight
            for arc in self.arcs(state_id):
                arc.weight /= sum_out_weights
""", """        for state_id in self.states():
            arcs = [arc for arc in self.arcs(state_id) if arc.end != state_id]
            loops = [arc for arc in self.arcs(state_id) if arc.end == state_id]
            sum_out_weights = sum(arc.weight for arc in arcs)
            residual = 1. - sum(arc.weight for arc in loops)
            for arc in arcs:
                arc.weight *= residual / sum_out_weights
""")],
 'a state with a self-loop whose outgoing weights do not already sum to one',
 'the self-loop is not rescaled with the other arcs',
 '''
from beer.graph import Graph
g = Graph()
s, a, f = g.add_state(), g.add_state(0), g.add_state()
g.start_state, g.end_state = s, f
g.add_arc(s, a)
g.add_arc(a, a, 3.)
g.add_arc(a, f, 1.)
g.normalize()
w = {(x.start, x.end): x.weight for x in g.arcs()}
assert abs(w[(a, a)] - .75) < 1e-9 and abs(w[(a, f)] - .25) < 1e-9, w
''')
