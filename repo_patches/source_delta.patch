From b8b13eb5af7f0157887c200ba3ac5a7e2692394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 01/75] fix: weight of the paths through non-emitting states
 when compiling a graph

---
 beer/graph.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index f5457f2..5a984b7 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -154,33 +154,36 @@ class Graph:
         del self._states[old_state_id]
 
     def find_next_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight) for arc in self.arcs(start_state)]
-        visited = set([start_state])
+        # Every path through the non-emitting states contributes to the
+        # weight. A path never goes twice through the same state.
+        to_explore = [(arc, init_weight, (start_state,))
+                      for arc in self.arcs(start_state)]
+        weights = OrderedDict()
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
+            weight = weight * arc.weight
             pdf_id = self._states[arc.end].pdf_id
             if pdf_id is not None:
-                yield arc.end, weight * arc.weight
-            else:
-                if arc.end not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.end)]
-                    visited.add(arc.end)
+                weights[arc.end] = weights.get(arc.end, 0.) + weight
+            elif arc.end not in visited:
+                to_explore += [(next_arc, weight, (*visited, arc.end))
+                               for next_arc in self.arcs(arc.end)]
+        yield from weights.items()
 
     def find_previous_pdf_ids(self, start_state, init_weight=1.0):
-        to_explore = [(arc, init_weight)
+        to_explore = [(arc, init_weight, (start_state,))
                       for arc in self.arcs(start_state, incoming=True)]
-        visited = set([start_state])
+        weights = OrderedDict()
         while to_explore:
-            arc, weight = to_explore.pop()
+            arc, weight, visited = to_explore.pop()
+            weight = weight * arc.weight
             pdf_id = self._states[arc.start].pdf_id
             if pdf_id is not None:
-                yield arc.start, weight * arc.weight
-            else:
-                if arc.start not in visited:
-                    to_explore += [(arc, arc.weight * weight)
-                                    for arc in self.arcs(arc.start, incoming=True)]
-                    visited.add(arc.start)
+                weights[arc.start] = weights.get(arc.start, 0.) + weight
+            elif arc.start not in visited:
+                to_explore += [(prev_arc, weight, (*visited, arc.start))
+                               for prev_arc in self.arcs(arc.start, incoming=True)]
+        yield from weights.items()
 
     def compile(self):
         'Compile the graph.'
-- 
2.43.0


From 9d67c0823a463b6ed71a9a277cbd4c7e71cf0241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:56 +0000
Subject: [PATCH 02/75] fix: replace a state having a self-loop or being the
 start/end state of the graph

---
 beer/graph.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/beer/graph.py b/beer/graph.py
index 5a984b7..b6624c0 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -137,12 +137,20 @@ class Graph:
         # Connect the unit graph to the main graph.
         to_delete = []
         new_arcs = []
-        for arc in self.arcs(old_state_id):
-            to_delete.append(arc)
-            new_arcs.append((new_states[graph.end_state], arc.end, arc.weight))
-        for arc in self.arcs(old_state_id, incoming=True):
+        for arc in self.arcs():
+            if old_state_id not in (arc.start, arc.end):
+                continue
             to_delete.append(arc)
-            new_arcs.append((arc.start, new_states[graph.start_state], arc.weight))
+            start, end = arc.start, arc.end
+            if start == old_state_id:
+                start = new_states[graph.end_state]
+            if end == old_state_id:
+                end = new_states[graph.start_state]
+            new_arcs.append((start, end, arc.weight))
+        if self.start_state == old_state_id:
+            self.start_state = new_states[graph.start_state]
+        if self.end_state == old_state_id:
+            self.end_state = new_states[graph.end_state]
 
         # Add the new arcs.
         for start, end, weight in new_arcs:
-- 
2.43.0


From 855541e31aa4a19b97c01e6ff3ee929c242cdd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 03/75] fix: full covariance models with recent versions of
 pytorch (torch.cholesky/symeig were removed)

---
 beer/dists/normal.py        | 6 +++---
 beer/dists/normalwishart.py | 4 ++--
 beer/utils.py               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index e1279ef..351ce59 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -83,7 +83,7 @@ class NormalFullCovariance(ExponentialFamily):
         prec = nparams[:, dim: dim * (dim + 1)].reshape(-1, dim, dim)
 
         # Log determinant of all the covariance matrix.
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
 
         # Quadratic term of the log-normalizer: -.5 * mu^T S mu
@@ -153,7 +153,7 @@ class NormalFullCovariance(ExponentialFamily):
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
 
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1)
         prec = cov.inverse()
         Sm = torch.matmul(prec, mean[:, :, None]).view(-1, dim)
@@ -168,7 +168,7 @@ class NormalFullCovariance(ExponentialFamily):
         if len(size) <= 1:
             mean = mean.view(1, -1)
             cov = cov.view(1, dim, dim)
-        L = torch.cholesky(cov, upper=False)
+        L = torch.linalg.cholesky(cov)
         noise = torch.randn(mean.shape[0], nsamples, mean.shape[1],
                             dtype=mean.dtype, device=mean.device)
         retval = mean[:, None, :] + torch.matmul(noise, L.permute(0, 2, 1))
diff --git a/beer/dists/normalwishart.py b/beer/dists/normalwishart.py
index e2edbb6..e233f73 100644
--- a/beer/dists/normalwishart.py
+++ b/beer/dists/normalwishart.py
@@ -192,7 +192,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         mean_quad = mean[:, :, None] * mean[:, None, :]
@@ -226,7 +226,7 @@ class NormalWishart(ExponentialFamily):
             scale_matrix, dof = scale_matrix.view(1, dim, dim), dof.view(1, 1)
 
         idxs = torch.arange(1, dim + 1, dtype=mean.dtype, device=mean.device)
-        L = torch.cholesky(scale_matrix, upper=False)
+        L = torch.linalg.cholesky(scale_matrix)
         logdet = 2 * torch.log(L[:, range(dim), range(dim)]).sum(dim=-1,
                                                                  keepdim=True)
         return (.5 * dof * logdet + .5 * dof * dim * math.log(2) \
diff --git a/beer/utils.py b/beer/utils.py
index b84e66c..d498d93 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -149,7 +149,7 @@ def make_symposdef(mat, eval_threshold=1e-1):
 
     '''
     sym_mat = symmetrize_matrix(mat)
-    evals, evecs = torch.symeig(sym_mat, eigenvectors=True)
+    evals, evecs = torch.linalg.eigh(sym_mat)
 
     threshold = torch.tensor(eval_threshold, dtype=sym_mat.dtype,
                              device=sym_mat.device)
-- 
2.43.0


From db0faad333d86d94fc7c9a4a960940d283cea150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 04/75] fix: filter bank with recent versions of numpy
 (np.float was removed)

---
 beer/features.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/features.py b/beer/features.py
index 232b3a0..27524fc 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -31,7 +31,7 @@ def bark2hz(bark):
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
     slopes = 1. / (center - start), 1./ (end - center)
-    retval = np.zeros_like(freqs).astype(np.float)
+    retval = np.zeros_like(freqs).astype(float)
     idxs = np.logical_and(freqs >= start, freqs <= center)
     retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
                                slopes[0] * (freqs[idxs][-1] - start),
-- 
2.43.0


From f976a5589bd4c5197985ab58322c6ed99dfd4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 05/75] fix: HMM training with a given/Viterbi path indexed the
 frames with the states

---
 beer/models/hmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 6c5dd2c..9010a49 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -55,7 +55,7 @@ class HMM(DiscreteLatentModel):
                 retval = posts, trans_posts
             else:
                 retval = posts
-            llh = pc_llhs[path].sum()
+            llh = pc_llhs[torch.arange(len(path)), path].sum()
         else:
             retval, llh = inference_graph.posteriors(pc_llhs,
                                                 trans_posteriors=trans_posteriors)
-- 
2.43.0


From c30162d83f72817b18b5a420cbbd9f5e5404c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 06/75] fix: apply the acoustic scale to the log-likelihood
 when computing the HMM posteriors

---
 beer/models/hmm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 9010a49..0dff5cb 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -116,7 +116,7 @@ class HMM(DiscreteLatentModel):
     def posteriors(self, data, inference_graph=None, scale=1.0):
         if inference_graph is None:
             inference_graph = self.graph
-        stats = self.modelset.sufficient_statistics(data) * scale
-        pc_llhs = self._pc_llhs(stats, inference_graph)
+        stats = self.sufficient_statistics(data)
+        pc_llhs = scale * self._pc_llhs(stats, inference_graph)
         return self._inference(pc_llhs, inference_graph)[0]
 
-- 
2.43.0


From 2e7c0e7823d92fa70f1f2ace152842ad990e6948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 07/75] fix: mixture posteriors relied on a non-existing
 attribute

---
 beer/models/mixture.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index dbebdab..a743696 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -108,8 +108,9 @@ class Mixture(DiscreteLatentModel):
 
     def posteriors(self, data):
         stats = self.modelset.sufficient_statistics(data)
-        log_weights = self.weights.expected_natural_parameters().view(1, -1)
+        tensorconf = {'dtype': stats.dtype, 'device': stats.device}
+        log_weights = self._log_weights(tensorconf).view(1, -1)
         per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
-        per_component_exp_llh += log_weights
+        per_component_exp_llh = per_component_exp_llh + log_weights
         lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
         return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))
-- 
2.43.0


From 9c539c59e387f31ac69557cbb18e90ee4abe2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 08/75] fix: length of the Gamma distribution

---
 beer/dists/gamma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 1227181..733a141 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -86,7 +86,7 @@ class Gamma(ExponentialFamily):
     _std_params_cls = GammaStdParams
 
     def __len__(self):
-        paramshape = self.params.mean.shape
+        paramshape = self.params.shape.shape
         return 1 if len(paramshape) <= 1 else paramshape[0]
 
     @property
-- 
2.43.0


From 295d5505c23fedcdb3f05f33605a0ef68983de6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 09/75] fix: entropy of the exponential family members

---
 beer/dists/basedist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/basedist.py b/beer/dists/basedist.py
index 147e003..a8bf933 100644
--- a/beer/dists/basedist.py
+++ b/beer/dists/basedist.py
@@ -268,5 +268,5 @@ def entropy(pdf):
     nparams = pdf.natural_parameters()
     exp_stats = pdf.expected_sufficient_statistics()
     lnorm = pdf.log_norm()
-    return torch.sum(exp_stats * nparams1, dim=-1) - lnorm
+    return lnorm - torch.sum(exp_stats * nparams, dim=-1)
 
-- 
2.43.0


From 00402fec1f35c7ac7fa36292731b085fc911da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 10/75] fix: pdf-vectors of the isotropic Normal likelihood

---
 beer/dists/isonormalgamma.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 82e5388..7aecf2e 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -33,7 +33,7 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
     def pdfvectors_from_rvectors(rvecs):
         dim = rvecs.shape[-1] - 1
         mean = rvecs[:, :dim]
-        log_precision = rvecs[:, -2:-1]
+        log_precision = rvecs[:, -1:]
         precision = torch.exp(log_precision)
         return torch.cat([
             precision * mean,
@@ -47,11 +47,11 @@ class IsotropicNormalLikelihood(ConjugateLikelihood):
         size = pdfvec.shape
         if len(size) == 1:
             pdfvec = pdfvec.view(1, -1)
-        precision = pdfvec[:, -3]
+        precision = pdfvec[:, -3:-2]
         mean = pdfvec[:, :-3] / precision
         if len(size) == 1:
             return mean.view(-1), precision.view(-1)
-        return mean.view(-1, dim), precision.view(-1, dim)
+        return mean, precision
 
     def __call__(self, pdfvecs, stats):
         if len(pdfvecs.shape) == 1:
-- 
2.43.0


From 72b56f098d6443c45a8193d3db74e65c303c521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 11/75] fix: report unknown types of covariance matrix

---
 beer/models/normal.py    | 2 +-
 beer/models/normalset.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index 2c63439..bdc2ac9 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -91,7 +91,7 @@ class Normal(Model):
             :any:`Normal`
 
         '''
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
diff --git a/beer/models/normalset.py b/beer/models/normalset.py
index f1ac5cd..0729a0a 100644
--- a/beer/models/normalset.py
+++ b/beer/models/normalset.py
@@ -89,7 +89,7 @@ class NormalSet(ModelSet):
                           'supported anymore. The argument will be ignored.',
                           DeprecationWarning, stacklevel=2)
 
-        if cov_type not in cov_type:
+        if cov_type not in _default_param:
             raise UnknownCovarianceType('Unknown covariance type: ' \
                                         f'"{cov_type}"')
 
-- 
2.43.0


From a0e8d2198ac32156bf42ef934dd6abd9b7f6ef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 12/75] fix: open, negative and non-unit slices of a set of
 mixtures

---
 beer/models/mixtureset.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 1a7fb39..347e5ed 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -120,13 +120,14 @@ class MixtureSet(ModelSet):
     def __getitem__(self, key):
         ncpm = self.n_comp_per_mixture
         if isinstance(key, int):
+            key = range(len(self))[key]
             s = slice(key * ncpm, (key + 1) * ncpm)
             return Mixture(self.categoricalset[key], self.modelset[s])
         if isinstance(key, slice):
-            start = 0 if key.start is None else key.start * ncpm
-            stop = len(self) if key.stop is None else key.stop * ncpm
-            step = 1 if key.step is None else key.step * ncpm
-            new_s = slice(start, stop, step)
+            start, stop, step = key.indices(len(self))
+            if step != 1:
+                raise IndexError(f'Unsupported slice step: {step}')
+            new_s = slice(start * ncpm, stop * ncpm)
             return self.__class__(self.categoricalset[key],
                                   self.modelset[new_s])
         raise IndexError(f'Unsupported index: {key}')
-- 
2.43.0


From a982b99182005ebb2a5a7ea2162b839dfc0cc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 13/75] fix: natural form of a view of a subspace parameter

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index b5a3f32..8bac50b 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -397,7 +397,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
 
     def natural_form(self):
-        self.pdfvec
+        return self.pdfvec
 
     def kl_div_posterior_prior(self):
         return self.param.kl_div_posterior_prior()
-- 
2.43.0


From a288d7c37f03230dd93ca42a7105e02d92008aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 14/75] fix: training the bigram phone-loop with alignment
 graphs

---
 beer/models/phoneloop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index ad82538..255dba3 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -187,5 +187,7 @@ class BigramPhoneLoop(HMM):
         else:
             fake_stats = torch.zeros_like(self.categoricalset.mean,
                                           requires_grad=False)
-            retval.update(self.categoricalset.accumulate(fake_stats[None, :]))
+            retval.update(
+                self.categoricalset.accumulate_from_jointresps(fake_stats[None])
+            )
         return retval
-- 
2.43.0


From a7046cef4f69423520b99b48c98daf40329c130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:15 +0000
Subject: [PATCH 15/75] fix: expected log-likelihood of the Gamma model

---
 beer/dists/gamma.py  | 2 +-
 beer/models/gamma.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/beer/dists/gamma.py b/beer/dists/gamma.py
index 733a141..fdafbee 100644
--- a/beer/dists/gamma.py
+++ b/beer/dists/gamma.py
@@ -22,7 +22,7 @@ class GammaLikelihood(ConjugateLikelihood):
     def sufficient_statistics(data):
         dim, dtype, device = data.shape[1], data.dtype, data.device
         return torch.cat([
-            -data,
+            data,
             data.log(),
             torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
         ], dim=-1)
diff --git a/beer/models/gamma.py b/beer/models/gamma.py
index c9bb059..ba657e4 100644
--- a/beer/models/gamma.py
+++ b/beer/models/gamma.py
@@ -67,17 +67,17 @@ class Gamma(Model):
 
     def expected_log_likelihood(self, stats):
         nparams = self.rate.natural_form()
-        dim = nparams.shape[-1]
+        dim = nparams.shape[-1] // 2
         rate = nparams[:dim]
         log_rate = nparams[dim:]
         lnorm = torch.lgamma(self.shape) - self.shape * log_rate
-        lnorm = lnorm.sum(dim=-1, keepdims=True)
+        lnorm = lnorm.sum(dim=-1, keepdim=True)
         final_nparams = torch.cat([
             -rate, 
             (self.shape - 1), 
             -lnorm,
         ], dim=-1)
-        return self.rate.likelihood_fn(nparams, stats)
+        return self.rate.likelihood_fn(final_nparams, stats)
 
     def accumulate(self, stats):
         dim = stats.shape[-1] // 2
-- 
2.43.0


From 4b61c61642b5f86c907900eabb50bca14c976fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:15 +0000
Subject: [PATCH 16/75] fix: natural/expectation parameterization of the Normal
 distributions

---
 beer/dists/normal.py     |  4 ++--
 beer/dists/normaldiag.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 351ce59..8bfa09c 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -41,8 +41,8 @@ class NormalFullCovarianceStdParams(torch.nn.Module):
 
         np1 = natural_params[:, :dim]
         np2 = natural_params[:, dim: dim * (dim + 1)]
-        cov = np2.inverse()
-        mean = cov * np1
+        cov = np2.reshape(-1, dim, dim).inverse()
+        mean = torch.matmul(cov, np1[:, :, None])
 
         if len(npsize) == 1:
             return cls(mean.view(-1), cov.view(dim, dim))
diff --git a/beer/dists/normaldiag.py b/beer/dists/normaldiag.py
index 8c55cde..370fee1 100644
--- a/beer/dists/normaldiag.py
+++ b/beer/dists/normaldiag.py
@@ -57,10 +57,10 @@ class NormalDiagonalCovarianceStdParams(torch.nn.Module):
 
     @classmethod
     def from_natural_parameters(cls, natural_params):
-        dim = (len(natural_params)) // 2
-        np1 = natural_params[:dim]
-        np2 = natural_params[dim:2 * dim]
-        diag_cov = 1. / (-2 * np2)
+        dim = natural_params.shape[-1] // 2
+        np1 = natural_params[..., :dim]
+        np2 = natural_params[..., dim:2 * dim]
+        diag_cov = 1. / np2
         mean = diag_cov * np1
         return cls(mean, diag_cov)
 
@@ -101,7 +101,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         if pdfwise:
             return torch.sum(nparams * stats, dim=-1) - lnorm \
                    + log_basemeasure
-        retval = nparams @ stats.t() - lnorm + log_basemeasure
+        retval = nparams @ stats.t() - lnorm[:, None] + log_basemeasure
         if len(size) <= 1:
             return retval.reshape(-1)
         return retval
@@ -134,7 +134,7 @@ class NormalDiagonalCovariance(ExponentialFamily):
         return torch.cat([
             self.params.mean,
             -.5 * (self.params.diag_cov + self.params.mean ** 2)
-        ])
+        ], dim=-1)
 
     def expected_value(self):
         return self.params.mean
-- 
2.43.0


From 2bedf8a7399a2817f4e7cf167a94399959a40aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 17/75] fix: skip the utterances missing from the dataset

---
 beer/cli/subcommands/hmm/accumulate.py | 2 +-
 beer/cli/subcommands/hmm/decode.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 3aeb481..4718bd0 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -42,7 +42,7 @@ def main(args, logger):
         try:
             utt = dataset[uttid]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttid} in {args.dataset}')
             continue
         aligraph = None
         if alis:
diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 60f10ec..8fa942d 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -67,7 +67,7 @@ def main(args, logger):
         try:
             utt = dataset[uttname]
         except KeyError:
-            logger.warning(f'no utterance {utt} in {args.dataset}')
+            logger.warning(f'no utterance {uttname} in {args.dataset}')
             continue
 
         aligraph = None
-- 
2.43.0


From 19a34d2c394123efe9ed0dbce82ded35d5eeede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 18/75] fix: load the alignment graphs when decoding

---
 beer/cli/subcommands/hmm/decode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/decode.py b/beer/cli/subcommands/hmm/decode.py
index 8fa942d..45ad3a3 100644
--- a/beer/cli/subcommands/hmm/decode.py
+++ b/beer/cli/subcommands/hmm/decode.py
@@ -51,7 +51,7 @@ def main(args, logger):
     alis = None
     if args.alis:
         logger.debug('loading alignment graphs')
-        alis = np.load(args.alis)
+        alis = np.load(args.alis, allow_pickle=True)
 
     if args.utts:
         if args.utts == '-':
-- 
2.43.0


From dc2a50212f3e3e4cee3d8e913652d8f5be13fbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 19/75] fix: include the last state of a unit in the unit
 posteriors

---
 beer/cli/subcommands/hmm/posteriors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/posteriors.py b/beer/cli/subcommands/hmm/posteriors.py
index db3edb3..35798b5 100644
--- a/beer/cli/subcommands/hmm/posteriors.py
+++ b/beer/cli/subcommands/hmm/posteriors.py
@@ -31,7 +31,7 @@ def state2phone(posts, start_pdf, end_pdf):
     retval = np.zeros((len(posts), len(start_pdf)))
     for i, unit in enumerate(start_pdf):
         start, end = start_pdf[unit], end_pdf[unit]
-        retval[:, i] = posts[:, start:end].sum(axis=-1)
+        retval[:, i] = posts[:, start:end + 1].sum(axis=-1)
     return retval
 
 
-- 
2.43.0


From 70392deadc28702d692757f0a49e32a3fd11aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:44 +0000
Subject: [PATCH 20/75] fix: single machine HMM training (missing optimizer,
 batch with all the utterances)

---
 beer/cli/subcommands/hmm/train.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index f36fbdf..6c3ec04 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -31,26 +31,37 @@ def main(args, logger):
         dataset = pickle.load(f)
 
     logger.debug('create the optimizer')
-    optim = beer.BayesianModelOptimizer(model.mean_field_factorization(),
-                                        lrate=args.lrate)
+    optim = beer.VBConjugateOptimizer(
+        model.conjugate_bayesian_parameters(keepgroups=True),
+        lrate=args.lrate
+    )
+
+    n_utts = len(dataset)
+    batch_size = args.batch_size if args.batch_size > 0 else n_utts
+    n_batches = -(-n_utts // batch_size)
 
     for epoch in range(1, args.epochs + 1):
         elbo = beer.evidence_lower_bound(datasize=dataset.size)
         optim.init_step()
+        count = 0
         for i, utt in enumerate(dataset.utterances(), start=1):
             logger.debug(f'processing utterance: {utt.id}')
             elbo += beer.evidence_lower_bound(model, utt.features,
                                               datasize=dataset.size)
 
-            # Update the model after N utterances.
-            if i % args.batch_size == 0:
+            count += 1
+
+            # Update the model after N utterances (the last batch may be
+            # smaller).
+            if i % batch_size == 0 or i == n_utts:
                 elbo.backward()
                 optim.step()
                 logger.info(f'{"epoch=" + str(epoch):<20}  ' \
-                            f'{"batch=" + str(i // args.batch_size) + "/" + str(int(len(dataset) / args.batch_size)):<20} ' \
-                            f'{"ELBO=" + str(round(float(elbo) / (args.batch_size * dataset.size), 3)):<20}')
+                            f'{"batch=" + str(-(-i // batch_size)) + "/" + str(n_batches):<20} ' \
+                            f'{"ELBO=" + str(round(float(elbo) / (count * dataset.size), 3)):<20}')
                 elbo = beer.evidence_lower_bound(datasize=dataset.size)
                 optim.init_step()
+                count = 0
 
     logger.debug('save the model on disk...')
     with open(args.out, 'wb') as f:
-- 
2.43.0


From 5778b6049062d1d7369c9b9c18c9edb63ee4ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:23 +0000
Subject: [PATCH 21/75] fix: training of a stored subspace model (pdf-vectors
 kept the computation graph)

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 8bac50b..7d914c7 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -446,7 +446,7 @@ def _update_params(params, pdfvecs):
     for param in params:
         totdim = param.stats.numel()
         shape = param.stats.shape
-        param.pdfvec = pdfvecs[idx: idx + totdim].reshape(shape)
+        param.pdfvec = pdfvecs[idx: idx + totdim].detach().reshape(shape)
         idx += totdim
 
 # Update the models given a set of pdf-vectors.
-- 
2.43.0


From d8c6d7e46661e4259c66dc69df9d0f25b80d50a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 22/75] fix: bigram phone-loop used the transposed weights

---
 beer/models/categoricalset.py | 2 +-
 beer/models/phoneloop.py      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 26fba4a..297367d 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -298,7 +298,7 @@ class SBCategoricalSet(Model):
 
     def expected_log_likelihood(self, stats):
         log_prob, _ = self._log_prob()
-        return stats @ log_prob[:, self.reverse_ordering]
+        return stats @ log_prob[:, self.reverse_ordering].t()
 
     def accumulate(self, stats):
         raise NotImplementedError 
diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 255dba3..04d9d7a 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -148,7 +148,8 @@ class BigramPhoneLoop(HMM):
                       'requires_grad': False}
         data = torch.eye(len(self.start_pdf), **tensorconf)
         stats = self.categoricalset.sufficient_statistics(data)
-        log_weights = self.categoricalset.expected_log_likelihood(stats)
+        # Log-probability of each unit (column) given the previous one (row).
+        log_weights = self.categoricalset.expected_log_likelihood(stats).t()
         start_idxs = [value for value in self.start_pdf.values()]
         for i, end_idx in enumerate(self.end_pdf.values()):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
-- 
2.43.0


From a5f0fa479218b8c974ae93b1cf4ddf77bf4a7029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:43 +0000
Subject: [PATCH 23/75] fix: default prior of mkphoneloopbigram was not one of
 the choices

---
 beer/cli/subcommands/hmm/mkphoneloopbigram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 00fa5f0..7b9bf8b 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -25,7 +25,7 @@ priors = {
 
 
 def setup(parser):
-    parser.add_argument('--weights-prior', default='gamma_dirichlet_process',
+    parser.add_argument('--weights-prior', default='dirichlet2',
                         choices=[key for key in priors],
                         help='type of prior over the phone weights')
     parser.add_argument('phoneloop', help='unigram phone loop')
-- 
2.43.0


From 0cef92b9d68dfd6a6cc9c29754a42d36fc836c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:38 +0000
Subject: [PATCH 24/75] fix: mkphones crashed when a group of the configuration
 has no unit

---
 beer/cli/subcommands/hmm/mkphones.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beer/cli/subcommands/hmm/mkphones.py b/beer/cli/subcommands/hmm/mkphones.py
index df84e89..1f4ac68 100644
--- a/beer/cli/subcommands/hmm/mkphones.py
+++ b/beer/cli/subcommands/hmm/mkphones.py
@@ -100,6 +100,9 @@ def main(args, logger):
     pdfs = []
     units = {}
     for group in grouped_unitnames:
+        # A group of the configuration may have no unit.
+        if not grouped_unitnames[group]: continue
+
         logger.debug(f'creating HMM for group "{group}"')
         tot_emitting_states = 0
         for name in grouped_unitnames[group]:
-- 
2.43.0


From 8e4beb7dc0c43d969afee6d7ec14a624bf464ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:54 +0000
Subject: [PATCH 25/75] fix: hmm accumulate failed when none of the utterances
 is in the dataset

---
 beer/cli/subcommands/hmm/accumulate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 4718bd0..651e977 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -62,7 +62,9 @@ def main(args, logger):
     with open(args.out, 'wb') as f:
         pickle.dump((elbo, count), f)
 
-    logger.info(f'accumulated ELBO over {count} utterances: {float(elbo) / (count * dataset.size) :.3f}.')
+    # No average to report if none of the utterances is in the dataset.
+    avg = float(elbo) / (count * dataset.size) if count > 0 else 0.
+    logger.info(f'accumulated ELBO over {count} utterances: {avg:.3f}.')
 
 if __name__ == "__main__":
     main()
-- 
2.43.0


From 5792fe412be049505e6ae56ec43c065f45ed637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 26/75] fix: missing constant in the log-normalizer of the
 Normal-Gamma distributions

---
 beer/dists/isonormalgamma.py | 3 ++-
 beer/dists/normalgamma.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/dists/isonormalgamma.py b/beer/dists/isonormalgamma.py
index 7aecf2e..c75d45d 100644
--- a/beer/dists/isonormalgamma.py
+++ b/beer/dists/isonormalgamma.py
@@ -165,7 +165,8 @@ class IsotropicNormalGamma(ExponentialFamily):
             self.params.shape, self.params.rate
         dim = mean.shape[-1]
         return (torch.lgamma(shape) - shape * rate.log() \
-                - .5 * dim * scale.log()).sum(dim=-1)
+                - .5 * dim * scale.log() \
+                + .5 * dim * math.log(2 * math.pi)).sum(dim=-1)
 
     # TODO
     def sample(self, nsamples):
diff --git a/beer/dists/normalgamma.py b/beer/dists/normalgamma.py
index f1cf45c..91a74a5 100644
--- a/beer/dists/normalgamma.py
+++ b/beer/dists/normalgamma.py
@@ -154,7 +154,8 @@ class NormalGamma(ExponentialFamily):
         dim = rates.shape[-1]
         return (dim * torch.lgamma(shape) \
             - shape * rates.log().sum(dim=-1, keepdim=True) \
-            - .5 * dim * scale.log()).sum(dim=-1)
+            - .5 * dim * scale.log() \
+            + .5 * dim * math.log(2 * math.pi)).sum(dim=-1)
 
     # TODO
     def sample(self, nsamples):
-- 
2.43.0


From c4f038e55ffaa32f2e4e50a036ce559ac3d390fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:36 +0000
Subject: [PATCH 27/75] fix: density of a single Normal with full covariance
 matrix

---
 beer/dists/normal.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beer/dists/normal.py b/beer/dists/normal.py
index 8bfa09c..9470b02 100644
--- a/beer/dists/normal.py
+++ b/beer/dists/normal.py
@@ -76,6 +76,7 @@ class NormalFullCovariance(ExponentialFamily):
         dim = self.dim
         if len(size) <= 1:
             mean = mean.view(1, -1)
+            cov = cov.view(1, dim, dim)
             nparams = nparams.view(1, -1)
 
         # Get the precision matrix from the natural parameters not
-- 
2.43.0


From 6e5ac74b076c6e4bd2c8e94266bc80c051d0bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 28/75] fix: Normal created with a scalar covariance

---
 beer/models/normal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/normal.py b/beer/models/normal.py
index bdc2ac9..038d8f4 100644
--- a/beer/models/normal.py
+++ b/beer/models/normal.py
@@ -21,7 +21,7 @@ class UnknownCovarianceType(Exception): pass
 # Return a full covariance matrix whether the user has specified a
 # scalar, a diagonal or a full matrix.
 def _full_cov(cov, dim, tensorconf):
-    if len(cov.shape) == 1 and cov.shape[0] == 1:
+    if len(cov.shape) == 0 or (len(cov.shape) == 1 and cov.shape[0] == 1):
         return cov * torch.eye(dim, **tensorconf)
     elif len(cov.shape) == 1:
         return cov.diag()
-- 
2.43.0


From 8c17ddeeb81c5a6ba4566aafa436028f1148f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:00 +0000
Subject: [PATCH 29/75] fix: weights of the components missing in the ELBO of a
 labeled mixture

---
 beer/models/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixture.py b/beer/models/mixture.py
index a743696..471c848 100644
--- a/beer/models/mixture.py
+++ b/beer/models/mixture.py
@@ -84,7 +84,8 @@ class Mixture(DiscreteLatentModel):
         else:
             resps = onehot(labels, len(self.modelset),
                             dtype=log_weights.dtype, device=log_weights.device)
-            local_kl_div = 0.
+            # KL divergence of a deterministic assignment.
+            local_kl_div = -torch.sum(resps * log_weights, dim=-1)
 
         # Store the responsibilites to accumulate the statistics.
         self.cache['resps'] = resps
-- 
2.43.0


From 14033890fe60e7b75a9c6c4540e9d510e9635ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:09 +0000
Subject: [PATCH 30/75] fix: prior of the hierarchical stick-breaking set when
 the root is re-ordered

---
 beer/models/categoricalset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/beer/models/categoricalset.py b/beer/models/categoricalset.py
index 297367d..b69030a 100644
--- a/beer/models/categoricalset.py
+++ b/beer/models/categoricalset.py
@@ -170,7 +170,10 @@ def _default_set_sb_param(n_components, root_sb_categorical, prior_strength):
     params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2,
                         **tensorconf)
     params[:, :, 0] = prior_strength * mean
-    params[:, :, 1] = prior_strength * (1 - mean.cumsum(dim=0))
+    ordering = root_sb_categorical.ordering
+    residual = 1 - mean[ordering].cumsum(dim=0)
+    params[:, :, 1] = prior_strength \
+            * residual[root_sb_categorical.reverse_ordering]
     params = params.reshape(-1, 2)
     prior = Dirichlet.from_std_parameters(params)
     post = root_sb_categorical.stickbreaking.posterior
@@ -251,7 +254,8 @@ class SBCategoricalSet(Model):
                             len(self.root_sb_categorical.stickbreaking), 2,
                             **tensorconf)
         params[:, :, 0] = self.concentration * mean
-        params[:, :, 1] = self.concentration * (1 - mean.cumsum(dim=0))
+        residual = 1 - mean[self.ordering].cumsum(dim=0)
+        params[:, :, 1] = self.concentration * residual[self.reverse_ordering]
         params = params.reshape(-1, 2)
         self.stickbreaking.prior = Dirichlet.from_std_parameters(params)
 
-- 
2.43.0


From 30ba034bbd6601315fd622f1965e63982b268dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:29 +0000
Subject: [PATCH 31/75] fix: subspace model of units having a single Normal per
 state

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 7d914c7..1eb2784 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -433,7 +433,7 @@ def _pdfvecs(params, rvecs):
         dim = lhf.sufficient_statistics_dim(zero_stats=False)
         npdfs = len(param)
         totdim = dim * npdfs
-        param_rvecs = rvecs[:, idx: idx + totdim].reshape(-1, dim)
+        param_rvecs = rvecs[:, idx: idx + totdim].reshape(len(rvecs) * npdfs, dim)
         pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
         totdim_with_zerostats = npdfs * pdfvec.shape[-1]
         idx += totdim
-- 
2.43.0


From 93f49661a66d56a27e7687e0885d4b61bf791242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:11 +0000
Subject: [PATCH 32/75] fix: indexing a view of a subspace parameter

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index 1eb2784..ca4d513 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -403,7 +403,7 @@ class SubspaceBayesianParameterView(ConjugateBayesianParameter):
         return self.param.kl_div_posterior_prior()
 
     def __getitem__(self, key):
-        return SubspaceBayesianParameterView(key, self.param)
+        return SubspaceBayesianParameterView(key, self)
 
 
 ########################################################################
-- 
2.43.0


From 5c0abc2ddac49f49653c47bee42d1953925d5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:42 +0000
Subject: [PATCH 33/75] fix: posteriors given to initialize a subspace
 phone-loop were erased

---
 beer/cli/subcommands/shmm/mksphoneloop.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index a9b610c..6add9d4 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -158,8 +158,13 @@ def main(args, logger):
         gsm = beer.GSM.create(tpl, args.latent_dim, latent_prior)
         latent_posts = gsm.new_latent_posteriors(len(units))
         if args.posteriors:
-            with open(args.posteriors, 'wb') as f:
+            with open(args.posteriors, 'rb') as f:
                 init_posts = pickle.load(f)[0]
+            ninit = min(len(latent_posts), len(init_posts))
+            latent_posts.params.mean.data[:ninit] = \
+                init_posts.params.mean.data[:ninit]
+            latent_posts.params.log_diag_cov.data[:ninit] = \
+                init_posts.params.log_diag_cov.data[:ninit]
         pdfvecs = gsm.expected_pdfvecs(latent_posts)
         gsm.update_models(units, pdfvecs)
     else:
-- 
2.43.0


From 056035138352e03ee5f938cb80a96c5c95054f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 34/75] fix: filters narrower than the resolution of the
 spectrum were undefined

---
 beer/features.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/beer/features.py b/beer/features.py
index 27524fc..a6e4773 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -30,16 +30,12 @@ def bark2hz(bark):
 
 def __triangle(center, start, end, freqs):
     'Create triangular filter.'
-    slopes = 1. / (center - start), 1./ (end - center)
     retval = np.zeros_like(freqs).astype(float)
-    idxs = np.logical_and(freqs >= start, freqs <= center)
-    retval[idxs] = np.linspace(slopes[0] * (freqs[idxs][0] - start),
-                               slopes[0] * (freqs[idxs][-1] - start),
-                               len(freqs[idxs]))
-    idxs = np.logical_and(freqs >= center, freqs <= end)
-    retval[idxs] = np.linspace(slopes[1] * (end - freqs[idxs][0]),
-                               slopes[1] * (end - freqs[idxs][-1]),
-                               len(freqs[idxs]))
+    idxs = np.logical_and(freqs >= start, freqs < center)
+    retval[idxs] = (freqs[idxs] - start) / (center - start)
+    idxs = np.logical_and(freqs > center, freqs <= end)
+    retval[idxs] = (end - freqs[idxs]) / (end - center)
+    retval[freqs == center] = 1.
     return retval
 
 
-- 
2.43.0


From 0830a05aef5fbfb5b0536067e65aff9b8fab4d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 35/75] fix: sampling rate ignored by the filter bank of the
 features

---
 beer/cli/subcommands/features/extract.py | 4 +++-
 beer/features.py                         | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/features/extract.py b/beer/cli/subcommands/features/extract.py
index 02c591b..be1cbfa 100644
--- a/beer/cli/subcommands/features/extract.py
+++ b/beer/cli/subcommands/features/extract.py
@@ -117,9 +117,11 @@ def main(args, logger):
         # Filter bank.
         if feaconf['apply_fbank']:
             logger.debug(f'applying filter bank (F={feaconf["nfilters"]})')
+            hfreq = min(feaconf['cutoff_hfreq'], feaconf['srate'] / 2)
             fbank = beer.features.create_fbank(feaconf['nfilters'], fft_len,
+                                               srate=feaconf['srate'],
                                                lowfreq=feaconf['cutoff_lfreq'],
-                                               highfreq=feaconf['cutoff_hfreq'])
+                                               highfreq=hfreq)
             melspec = melspec @ fbank.T
 
         # Take the logarithm of the magnitude spectrum.
diff --git a/beer/features.py b/beer/features.py
index a6e4773..c262245 100644
--- a/beer/features.py
+++ b/beer/features.py
@@ -194,7 +194,8 @@ def fbank(signal, flen=0.025, frate=0.01, hifreq=8000, lowfreq=20, nfilters=26,
     magspec = np.abs(np.fft.rfft(frames, n=fft_len, axis=-1)[:, :-1])
 
     # Filtering.
-    filters = create_fbank(nfilters, fft_len, lowfreq=lowfreq, highfreq=hifreq)
+    filters = create_fbank(nfilters, fft_len, srate=srate, lowfreq=lowfreq,
+                           highfreq=min(hifreq, srate / 2))
     melspec = magspec @ filters.T
 
     return np.log(melspec + 1)
-- 
2.43.0


From 2dd81609d37c0d1a7297864913f4ee0414527df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:55 +0000
Subject: [PATCH 36/75] fix: name of the utterances in the archive of features

---
 beer/cli/subcommands/features/archive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beer/cli/subcommands/features/archive.py b/beer/cli/subcommands/features/archive.py
index 0122773..4f30a6e 100644
--- a/beer/cli/subcommands/features/archive.py
+++ b/beer/cli/subcommands/features/archive.py
@@ -18,9 +18,10 @@ def setup(parser):
 def main(args, logger):
     counts = 0
     with ZipFile(args.out, 'w') as f:
-        for path in glob.glob(os.path.join(args.feadir, '*' + args.extension)):
+        ext = '.' + args.extension
+        for path in glob.glob(os.path.join(glob.escape(args.feadir), '*' + ext)):
             logger.debug(f'adding {path} to the archive')
-            arcname = os.path.basename(path).replace('.' + args.extension, '')
+            arcname = os.path.basename(path)[:-len(ext)]
             f.write(path, arcname=arcname)
             counts += 1
     logger.info(f'created archive from {counts} features files')
-- 
2.43.0


From 3d4260f045d21edb596c23b400585ed428b79377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 37/75] fix: scoring the boundaries of an utterance made of a
 single unit

---
 recipes/aud/utils/score_boundaries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/score_boundaries.py b/recipes/aud/utils/score_boundaries.py
index f4c2afb..570de4e 100644
--- a/recipes/aud/utils/score_boundaries.py
+++ b/recipes/aud/utils/score_boundaries.py
@@ -30,6 +30,8 @@ def boundaries(utt):
 
 def get_hits(ref_bounds_, hyp_bounds, delta=1):
     hits = 0
+    if len(ref_bounds_) == 0:
+        return hits
     ref_bounds = copy.deepcopy(ref_bounds_)
     for b in hyp_bounds:
         diff = np.abs(b - ref_bounds)
-- 
2.43.0


From 579ae3c7204dc235c6aa1b6ff729a605d6644293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 38/75] fix: parallel submission reports the failure of the
 jobs

---
 recipes/aud/utils/parallel/submit_parallel.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/parallel/submit_parallel.sh b/recipes/aud/utils/parallel/submit_parallel.sh
index 4987ea8..71fe8e1 100755
--- a/recipes/aud/utils/parallel/submit_parallel.sh
+++ b/recipes/aud/utils/parallel/submit_parallel.sh
@@ -24,6 +24,7 @@ utils/parallel/split.sh $list $njobs $outdir/split
 # Submit the jobs
 utils/parallel/$parallel_env/parallel.sh $name "$opts" $outdir/split "$cmd" \
     $outdir/log 2>&1 > $outdir/log/parallel.log
+status=$?
 
 # Check if something went wrong.
 nerrors=$(cat $outdir/log/* | grep ERROR | wc -l)
@@ -32,4 +33,5 @@ if [ ! "$nwarnings" = "0" ] || [ ! "$nerrors" = "0" ]; then
     echo "<!> parallel jobs finished with $nwarnings warnings and $nerrors" \
          "errors (see $outdir/log/*) <!>"
 fi
+exit $status
 
-- 
2.43.0


From ce8993c0f8c8edb9470ce8e4a522eabb5460ffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 39/75] fix: splitting a list removes the chunks of an earlier
 split

---
 recipes/aud/utils/parallel/split.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/recipes/aud/utils/parallel/split.sh b/recipes/aud/utils/parallel/split.sh
index ded7940..c50cfec 100755
--- a/recipes/aud/utils/parallel/split.sh
+++ b/recipes/aud/utils/parallel/split.sh
@@ -17,6 +17,8 @@ mkdir -p $split_dir
 nsuff=${#n_split}
 cp $list $split_dir/list
 pushd $split_dir > /dev/null
+# Chunks of an interrupted run may remain.
+rm -f x*
 split --numeric-suffixes=1 -a $nsuff -n l/$n_split ./list
 rm list
 popd > /dev/null
-- 
2.43.0


From 2e38ebf330072cfec847a135fe3cb3997dbd5799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 40/75] fix: extraction of features stops when the archive
 fails

---
 recipes/aud/steps/extract_features.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/aud/steps/extract_features.sh b/recipes/aud/steps/extract_features.sh
index 9f0283f..c2c9780 100755
--- a/recipes/aud/steps/extract_features.sh
+++ b/recipes/aud/steps/extract_features.sh
@@ -72,7 +72,8 @@ if [ ! -f $feadir/${feaname}.npz ]; then
         $feadir || exit 1
 
     # Put all the features files into a single archive.
-    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz
+    beer features archive $feadir/${feaname}_tmp $feadir/${feaname}.npz \
+        || exit 1
 
     # We don't need the original features anymore as they are stored in
     # the archive.
-- 
2.43.0


From 3bf38ae85f7ffe35579352766262a6999a725ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:35 +0000
Subject: [PATCH 41/75] fix: decoding recipes ignore the leftovers of an
 interrupted run

---
 recipes/aud/steps/align.sh  | 6 +++++-
 recipes/aud/steps/decode.sh | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/steps/align.sh b/recipes/aud/steps/align.sh
index eba2d8d..a209695 100755
--- a/recipes/aud/steps/align.sh
+++ b/recipes/aud/steps/align.sh
@@ -60,6 +60,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Outputs of an interrupted run may remain.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode --per-frame -a $alis -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
@@ -71,7 +74,8 @@ if [ ! -f $outdir/trans ]; then
         "$cmd" \
         $outdir || exit 1
 
-    cat $outdir/trans_* | sort > $outdir/trans || exit 1
+    cat $outdir/trans_* | sort > $outdir/trans.tmp || exit 1
+    mv $outdir/trans.tmp $outdir/trans || exit 1
 else
     echo "data already aligned"
 fi
diff --git a/recipes/aud/steps/decode.sh b/recipes/aud/steps/decode.sh
index a17f940..ab69f1c 100755
--- a/recipes/aud/steps/decode.sh
+++ b/recipes/aud/steps/decode.sh
@@ -65,6 +65,9 @@ mkdir -p $outdir
 if [ ! -f $outdir/trans ]; then
     echo "decoding $dataset dataset..."
 
+    # Outputs of an interrupted run may remain.
+    rm -f $outdir/trans_*
+
     cmd="beer hmm decode $per_frame -s $acoustic_scale --utts - \
          $model $dataset >$outdir/trans_JOBID"
     utils/parallel/submit_parallel.sh \
@@ -76,7 +79,8 @@ if [ ! -f $outdir/trans ]; then
         "$cmd" \
         $outdir || exit 1
 
-    cat $outdir/trans_* | sort > $outdir/trans || exit 1
+    cat $outdir/trans_* | sort > $outdir/trans.tmp || exit 1
+    mv $outdir/trans.tmp $outdir/trans || exit 1
 else
     echo "Data already decoded. Skipping."
 fi
-- 
2.43.0


From 3afc4d9f64859a571be7084e764264d022f17ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:36 +0000
Subject: [PATCH 42/75] fix: training recipes stop when the update of the model
 fails

---
 recipes/aud/steps/aud.sh                 | 1 +
 recipes/aud/steps/aud_bigram.sh          | 1 +
 recipes/aud/steps/hsubspace_aud.sh       | 1 +
 recipes/aud/steps/hsubspace_monophone.sh | 1 +
 recipes/aud/steps/monophone.sh           | 1 +
 recipes/aud/steps/subspace_aud.sh        | 1 +
 recipes/aud/steps/subspace_monophone.sh  | 1 +
 7 files changed, 7 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index f8a8aff..085e467 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 . path.sh
+set -o pipefail
 
 acoustic_scale=1.
 seed=1
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 0f66137..9da2292 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 . path.sh
+set -o pipefail
 
 acoustic_scale=1.
 prior=gamma_dirichlet_process
diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index 8467708..a0d8f99 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 . path.sh
+set -o pipefail
 set -e
 
 echo "$0 $@"
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index af56d49..77bde42 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 . path.sh
+set -o pipefail
 set -e
 
 echo "$0 $@"
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 320db1b..f5fbf79 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -1,6 +1,7 @@
 #!/usr/bin/env bash
 
 . path.sh
+set -o pipefail
 
 prior=gamma_dirichlet_process
 parallel_env=sge
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index ad51a17..ae57dd9 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -3,6 +3,7 @@
 set -e
 
 . path.sh
+set -o pipefail
 
 prior=gamma_dirichlet_process
 concentration=50
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index a9bd2ee..f5a094d 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -3,6 +3,7 @@
 set -e
 
 . path.sh
+set -o pipefail
 
 gsm_latent_dim=10
 gsm_init_epochs=15000
-- 
2.43.0


From aab6e461e01695491771e8da76c528258323fdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:36 +0000
Subject: [PATCH 43/75] fix: training recipes do not reuse the statistics of an
 interrupted run

---
 recipes/aud/steps/aud.sh                 | 3 +++
 recipes/aud/steps/aud_bigram.sh          | 3 +++
 recipes/aud/steps/hsubspace_aud.sh       | 2 ++
 recipes/aud/steps/hsubspace_monophone.sh | 2 ++
 recipes/aud/steps/monophone.sh           | 3 +++
 recipes/aud/steps/subspace_aud.sh        | 3 +++
 recipes/aud/steps/subspace_monophone.sh  | 3 +++
 7 files changed, 19 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index 085e467..fca538c 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -109,6 +109,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run may remain.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer -s $seed  hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 9da2292..79ee045 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -92,6 +92,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run may remain.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate -s $acoustic_scale \
              $outdir/$mdl $dataset \
diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index a0d8f99..ed4ada9 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -186,6 +186,8 @@ if [ ! -f $outdir/final.mdl ]; then
 
         # Accumulate the statistics in parallel.
 	if [ ! -f $outdir/epoch${epoch}/.done.acc ]; then
+            # Statistics of an interrupted run may remain.
+            rm -f $outdir/epoch${epoch}/*pkl
             cmd="beer hmm accumulate ${alis} $outdir/${mdl}_${language} \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
             utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 77bde42..3a9a90e 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -216,6 +216,8 @@ if [ ! -f $outdir/final.mdl ]; then
 		alis=""
 	    fi
 	    if [ ! -f $outdir/epoch${epoch}/$lang/.done.acc ]; then
+		# Statistics of an interrupted run may remain.
+		rm -f $outdir/epoch${epoch}/$lang/*pkl
 		cmd="beer hmm accumulate ${alis} $outdir/${mdl}_${lang} \
                     	  ${datasets_arr[$lang]} $outdir/epoch${epoch}/$lang/elbo_JOBID.pkl"
 		utils/parallel/submit_parallel.sh \
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index f5fbf79..049fb9f 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -125,6 +125,9 @@ if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run may remain.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate --alis $outdir/alis.npz $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index ae57dd9..19fa04a 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -151,6 +151,9 @@ if [ ! -f $outdir/final.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run may remain.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate ${alis} $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index f5a094d..8b7b937 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -136,6 +136,9 @@ if [ ! -f $outdir/final.mdl ]; then
     while [ $((++epoch)) -le $epochs ]; do
         echo "epoch: $epoch"
 
+        # Statistics of an interrupted run may remain.
+        rm -f $outdir/epoch${epoch}/*pkl
+
         # Accumulate the statistics in parallel.
         cmd="beer hmm accumulate ${alis} $outdir/$mdl \
                 $dataset $outdir/epoch${epoch}/elbo_JOBID.pkl"
-- 
2.43.0


From fc6564fb68eaa5be5c350dcb66e1529bec082f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:27 +0000
Subject: [PATCH 44/75] fix: interrupted extension of a training left the old
 final model

---
 recipes/aud/steps/aud.sh        | 3 +++
 recipes/aud/steps/aud_bigram.sh | 3 +++
 recipes/aud/steps/monophone.sh  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/recipes/aud/steps/aud.sh b/recipes/aud/steps/aud.sh
index fca538c..50aa877 100755
--- a/recipes/aud/steps/aud.sh
+++ b/recipes/aud/steps/aud.sh
@@ -95,6 +95,9 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # The final model of a shorter training is out of date.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/aud_bigram.sh b/recipes/aud/steps/aud_bigram.sh
index 79ee045..cafe5ed 100755
--- a/recipes/aud/steps/aud_bigram.sh
+++ b/recipes/aud/steps/aud_bigram.sh
@@ -78,6 +78,9 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # The final model of a shorter training is out of date.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
diff --git a/recipes/aud/steps/monophone.sh b/recipes/aud/steps/monophone.sh
index 049fb9f..13fc901 100755
--- a/recipes/aud/steps/monophone.sh
+++ b/recipes/aud/steps/monophone.sh
@@ -111,6 +111,9 @@ fi
 
 # Training.
 if [ ! -f $outdir/final.mdl ] || [ ! -f $outdir/${epochs}.mdl ]; then
+    # The final model of a shorter training is out of date.
+    rm -f $outdir/final.mdl
+
     # Retrieve the last model.
     mdl=$(find $outdir -name "[0-9]*mdl" -exec basename {} \; | \
         sort -t '.' -k 1 -g | tail -1)
-- 
2.43.0


From bf8a8be4a85472ead854e1e27491941b1ccccf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:27 +0000
Subject: [PATCH 45/75] fix: subspace recipes mark the training complete after
 the last copy

---
 recipes/aud/steps/hsubspace_aud.sh       | 3 ++-
 recipes/aud/steps/hsubspace_monophone.sh | 3 ++-
 recipes/aud/steps/subspace_aud.sh        | 3 ++-
 recipes/aud/steps/subspace_monophone.sh  | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/steps/hsubspace_aud.sh b/recipes/aud/steps/hsubspace_aud.sh
index ed4ada9..0315561 100755
--- a/recipes/aud/steps/hsubspace_aud.sh
+++ b/recipes/aud/steps/hsubspace_aud.sh
@@ -252,12 +252,13 @@ if [ ! -f $outdir/final.mdl ]; then
         posts=units_posts_${epoch}.pkl
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    # The training is complete when "final.mdl" exists.
     cp $outdir/$hgsm $outdir/hgsm_final.mdl
     cp $outdir/$posts $outdir/units_posts_final.pkl
     for lang in $language; do
 	cp $outdir/${mdl}_${lang} $outdir/final_${lang}.mdl
     done
+    cp $outdir/$mdl $outdir/final.mdl
 else
     echo "hierarchical subspace phone-loop already trained"
 fi
diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 3a9a90e..8263944 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -279,12 +279,13 @@ if [ ! -f $outdir/final.mdl ]; then
 	fi
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    # The training is complete when "final.mdl" exists.
     cp $outdir/$hgsm $outdir/hgsm_final.mdl
     cp $outdir/$posts $outdir/units_posts_final.pkl
     for lang in $langs; do
 	cp $outdir/${mdl}_${lang} $outdir/final_${lang}.mdl
     done
+    cp $outdir/$mdl $outdir/final.mdl
 else
     echo "hierarchical subspace phone-loop already trained"
 fi
diff --git a/recipes/aud/steps/subspace_aud.sh b/recipes/aud/steps/subspace_aud.sh
index 19fa04a..c2ad803 100755
--- a/recipes/aud/steps/subspace_aud.sh
+++ b/recipes/aud/steps/subspace_aud.sh
@@ -203,9 +203,10 @@ if [ ! -f $outdir/final.mdl ]; then
         posts=units_posts_${epoch}.pkl
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    # The training is complete when "final.mdl" exists.
     cp $outdir/$gsm $outdir/gsm_final.mdl
     cp $outdir/$posts $outdir/units_posts_final.pkl
+    cp $outdir/$mdl $outdir/final.mdl
 else
     echo "subspace phone-loop already trained"
 fi
diff --git a/recipes/aud/steps/subspace_monophone.sh b/recipes/aud/steps/subspace_monophone.sh
index 8b7b937..fcb9bfb 100755
--- a/recipes/aud/steps/subspace_monophone.sh
+++ b/recipes/aud/steps/subspace_monophone.sh
@@ -187,9 +187,10 @@ if [ ! -f $outdir/final.mdl ]; then
         posts=units_posts_${epoch}.pkl
     done
 
-    cp $outdir/$mdl $outdir/final.mdl
+    # The training is complete when "final.mdl" exists.
     cp $outdir/$gsm $outdir/gsm_final.mdl
     cp $outdir/$posts $outdir/units_posts_final.pkl
+    cp $outdir/$mdl $outdir/final.mdl
 else
     echo "subspace phone-loop already trained"
 fi
-- 
2.43.0


From 26a242f0e392796befed995c52f612077d5a3671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 46/75] fix: concurrent updates of the languages shared the
 optimizer's state

---
 recipes/aud/steps/hsubspace_monophone.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index 8263944..f476e73 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -235,7 +235,7 @@ if [ ! -f $outdir/final.mdl ]; then
 	for lang in $langs; do
             # Update the model' parameters.
             find $outdir/epoch${epoch}/$lang -name '*pkl' | \
-		beer hmm update -o $outdir/optim_state.pth $outdir/${mdl}_${lang} \
+		beer hmm update -o $outdir/optim_state_${lang}.pth $outdir/${mdl}_${lang} \
                      $outdir/${lang}_tmp.mdl 2>&1 | tee -a $outdir/training_${lang}.log && \
 		echo "$outdir/${lang}_tmp.mdl $lang" >> $outdir/${epoch}_sphoneloop_to_lang.txt || exit 1 &
 	done
-- 
2.43.0


From 84f0eb2ea3ea8e3f6f002e4db6f5552ecfd12c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:13 +0000
Subject: [PATCH 47/75] fix: multilingual recipe stops when the jobs of a
 language fail

---
 recipes/aud/steps/hsubspace_monophone.sh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/steps/hsubspace_monophone.sh b/recipes/aud/steps/hsubspace_monophone.sh
index f476e73..696bd1c 100755
--- a/recipes/aud/steps/hsubspace_monophone.sh
+++ b/recipes/aud/steps/hsubspace_monophone.sh
@@ -208,6 +208,7 @@ if [ ! -f $outdir/final.mdl ]; then
 
         # Accumulate the statistics in parallel.
 	[ -f $outdir/${epoch}_sphoneloop_to_lang.txt ] && rm $outdir/${epoch}_sphoneloop_to_lang.txt
+	pids=""
 	for lang in $langs; do
 	    hmmdir_=${hmmdirs_arr[$lang]}
 	    if [ -f ${hmmdir_}/alis.npz ]; then
@@ -228,18 +229,25 @@ if [ ! -f $outdir/final.mdl ]; then
 		    "${datadirs_arr[$lang]}/uttids" \
 		    "$cmd" \
 		    $outdir/epoch${epoch}/$lang && touch $outdir/epoch${epoch}/$lang/.done.acc || exit 1 &
+		pids="$pids $!"
 	    fi
 	done
-	wait
+	status=0
+	for pid in $pids; do wait $pid || status=1; done
+	[ $status -eq 0 ] || exit 1
 	
+	pids=""
 	for lang in $langs; do
             # Update the model' parameters.
             find $outdir/epoch${epoch}/$lang -name '*pkl' | \
 		beer hmm update -o $outdir/optim_state_${lang}.pth $outdir/${mdl}_${lang} \
                      $outdir/${lang}_tmp.mdl 2>&1 | tee -a $outdir/training_${lang}.log && \
 		echo "$outdir/${lang}_tmp.mdl $lang" >> $outdir/${epoch}_sphoneloop_to_lang.txt || exit 1 &
+	    pids="$pids $!"
 	done
-	wait
+	status=0
+	for pid in $pids; do wait $pid || status=1; done
+	[ $status -eq 0 ] || exit 1
 
         if [ $epoch -eq $epochs ]; then
             train_epochs=$gsm_smoothing_epochs
-- 
2.43.0


From c53308e35e54c06562c9bde5cda3987e2dbed1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 48/75] fix: objective of the VAE multiplied by the number of
 frames

The expected log-likelihood had the shape [N, 1] and was broadcast
against the KL-divergence of each frame [N].
---
 beer/models/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index eba1a7f..053c6bf 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -81,7 +81,7 @@ class VAE(Model):
         pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
         r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
         llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
-        llh = llh.reshape(len(data), nsamples, -1).mean(dim=1)
+        llh = llh.reshape(len(data), nsamples).mean(dim=1)
         
         return llh_weight * llh - kl_weight * local_kl_div
 
-- 
2.43.0


From 3715fe84ff6a44e158269430abe7bf5870d59bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 49/75] fix: auto-regressive network of dimension 1

---
 beer/nnet/arnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/arnet.py b/beer/nnet/arnet.py
index 215fe14..300d18b 100644
--- a/beer/nnet/arnet.py
+++ b/beer/nnet/arnet.py
@@ -107,7 +107,8 @@ def AutoRegressiveNetwork(dim_in, flow_params_dim, depth, width, activation):
     ordering = range(dim_in)
     layer_connections = []
     for i in range(depth):
-        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
+        layer_connections.append(random.choices(range(0, max(1, dim_in - 1)),
+                                                k=width))
     arch = []
     previous_ordering = ordering
     previous_dim = dim_in
-- 
2.43.0


From ead2efe60a1c7f92dfa7b9967e0cca3f1229fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 50/75] fix: density of the mean of an inverse auto-regressive
 flow

The constant of the Normal was missing.
---
 beer/nnet/problayers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/nnet/problayers.py b/beer/nnet/problayers.py
index ba18f4b..9a2f18a 100644
--- a/beer/nnet/problayers.py
+++ b/beer/nnet/problayers.py
@@ -182,7 +182,8 @@ class InverseAutoRegressiveFlow(ProbabilisticLayer):
         dim = means.shape[-1]
         if use_mean:
             flow = means
-            llhs = torch.zeros_like(means[:, 0])
+            llhs = torch.full_like(means[:, 0],
+                                   -.5 * dim * math.log(2 * math.pi))
         else:
             dtype, device = means.dtype, means.device
             noise = torch.randn(*means.shape, dtype=dtype, device=device)
-- 
2.43.0


From 8f963cd2d1519ae3edfc72603f92eed6fbaab480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 51/75] fix: merging transforms modified their first input

---
 beer/nnet/neuralnetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/nnet/neuralnetwork.py b/beer/nnet/neuralnetwork.py
index aab4f82..872201a 100644
--- a/beer/nnet/neuralnetwork.py
+++ b/beer/nnet/neuralnetwork.py
@@ -63,7 +63,7 @@ class MergeTransform(torch.nn.Module):
     def forward(self, *inputs):
         retval = self.transforms[0](inputs[0])
         for input_data, transform in zip(inputs[1:], self.transforms[1:]):
-            retval += transform(input_data)
+            retval = retval + transform(input_data)
         return retval
 
 
-- 
2.43.0


From 463b7ee4cdb7367061b3af5efb5fe798ae820035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 52/75] fix: rows of the jacobians accumulated

---
 beer/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index d498d93..05e3e5a 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -197,9 +197,9 @@ def jacobians(outputs, inputs):
     dim, dtype, device = len(outputs), outputs.dtype, outputs.device
     jac_matrices = [torch.zeros(dim, len(tensor.view(-1)), dtype=dtype,
                     device=device) for tensor in inputs]
-    for input_tensor in inputs:
-        input_tensor.grad = None
     for i in range(dim):
+        for input_tensor in inputs:
+            input_tensor.grad = None
         autograd.backward(outputs[i], retain_graph=True)
         for j, in_tensor in enumerate(inputs):
             jac_matrices[j][i, :] = in_tensor.grad.view(-1)
-- 
2.43.0


From b7bb5a9384594e66b01c83a3d582cdd6c15b19d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 53/75] fix: reserving a GPU without a logger

---
 beer/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beer/utils.py b/beer/utils.py
index 05e3e5a..53421da 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -60,7 +60,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
         active_gpus = get_active_gpus()
         for gpu, gpu_idx in gpus.items():
             if gpu not in active_gpus:
-                logger.debug(f'trying to reserve gpu {gpu_idx}')
+                if logger is not None:
+                    logger.debug(f'trying to reserve gpu {gpu_idx}')
                 os.environ['CUDA_VISIBLE_DEVICES'] = str(gpu_idx)
                 # Reserve the GPU by allocating some dummy data.
                 try:
@@ -72,7 +73,8 @@ def reserve_gpu(max_retry=12, logger=None, wait_time=10):
             if gpu_reserved:
                 break
         else:
-            logger.debug(f'waiting {wait_time} seconds...')
+            if logger is not None:
+                logger.debug(f'waiting {wait_time} seconds...')
             time.sleep(wait_time)
         count += 1
 
-- 
2.43.0


From e224c32d360683fc9d1cb543242e7cab9c7a2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:29 +0000
Subject: [PATCH 54/75] fix: logsumexp of a vector

---
 beer/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/utils.py b/beer/utils.py
index 53421da..025fe2a 100644
--- a/beer/utils.py
+++ b/beer/utils.py
@@ -122,7 +122,7 @@ def logsumexp(tensor, dim=0):
          )
     new_size = list(tensor.size())
     del new_size[dim]
-    return retval.view(*new_size)
+    return retval.view(new_size)
 
 
 def symmetrize_matrix(mat):
-- 
2.43.0


From 6c2472563060e2f53f4df1f55496a126c2b4c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:40 +0000
Subject: [PATCH 55/75] fix: objective of the VAE with a Normal prior

The Normal returns its expected log-likelihood with the shape [N, 1]
which was broadcast against the entropy of each frame [N].
---
 beer/models/vae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/vae.py b/beer/models/vae.py
index 053c6bf..6c75930 100644
--- a/beer/models/vae.py
+++ b/beer/models/vae.py
@@ -73,7 +73,7 @@ class VAE(Model):
         s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
         s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
         self.cache['prior_stats'] = s_samples
-        xent = -self.prior.expected_log_likelihood(s_samples)
+        xent = -self.prior.expected_log_likelihood(s_samples).view(-1)
         local_kl_div = xent - ent
         
         # Approximate the expected log-likelihood with the
-- 
2.43.0


From 50745190dfc19bddbcdb855b7e78f18bf496d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 56/75] fix: let the gradient go through the mixtures of a
 mixture set

---
 beer/models/mixtureset.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index 347e5ed..bbb6118 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -4,7 +4,6 @@ from .parameters import ConjugateBayesianParameter
 from .modelset import ModelSet
 from .mixture import Mixture
 from .categoricalset import CategoricalSet
-from ..utils import logsumexp
 
 __all__ = ['MixtureSet']
 
@@ -89,9 +88,9 @@ class MixtureSet(ModelSet):
         pc_exp_llhs = pc_exp_llhs.reshape(-1, len(self), self.n_comp_per_mixture)
         w_pc_exp_llhs = pc_exp_llhs + log_weights[None]
 
-        # Responsibilities.
-        log_norm = logsumexp(w_pc_exp_llhs.detach(), dim=-1)
-        log_resps = w_pc_exp_llhs.detach() - log_norm[:, :, None]
+        # Responsibilities. Only the returned value is differentiable.
+        log_norm = torch.logsumexp(w_pc_exp_llhs, dim=-1)
+        log_resps = (w_pc_exp_llhs - log_norm[:, :, None]).detach()
         resps = log_resps.exp()
         self.cache['resps'] = resps
 
-- 
2.43.0


From ec7548cd28cfd01b5d4de1614969d90496c7b3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:49 +0000
Subject: [PATCH 57/75] fix: overflow of the parameters of a categorical
 likelihood

---
 beer/dists/dirichlet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/dists/dirichlet.py b/beer/dists/dirichlet.py
index 8350099..782e88b 100644
--- a/beer/dists/dirichlet.py
+++ b/beer/dists/dirichlet.py
@@ -34,7 +34,7 @@ class CategoricalLikelihood(ConjugateLikelihood):
         retval = torch.zeros_like(pdfvec, requires_grad=False)
         lnorm = CategoricalLikelihood.log_norm(pdfvec[:, :-1])
         remainder = (-lnorm).exp()
-        retval[:, :-1] = pdfvec[:, :-1].exp() * remainder[:, None]
+        retval[:, :-1] = (pdfvec[:, :-1] - lnorm[:, None]).exp()
         retval[:, -1] = remainder
         if len(size) == 1:
             return retval.view(-1)
-- 
2.43.0


From 7ef7d4d4abd388393b847b08bfeb9a065e887cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 58/75] fix: vector of the accumulated statistics of several
 parameters

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index c190832..865a09f 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -82,7 +82,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for param in self.bayesian_parameters():
             post_nparams = param.posterior.natural_parameters()
             prior_nparams = param.prior.natural_parameters()
-            acc_stats.append(post_nparams - prior_nparams)
+            acc_stats.append((post_nparams - prior_nparams).reshape(-1))
         return torch.cat(acc_stats)
 
     @staticmethod
-- 
2.43.0


From a762eee33f15eddd170f3119cb688d62c28409dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:52 +0000
Subject: [PATCH 59/75] fix: replace the parameters of the sets of a joint
 model set

---
 beer/models/basemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/basemodel.py b/beer/models/basemodel.py
index 865a09f..2ad3c24 100644
--- a/beer/models/basemodel.py
+++ b/beer/models/basemodel.py
@@ -90,7 +90,7 @@ class Model(torch.nn.Module, metaclass=abc.ABCMeta):
         for name, child in module.named_children():
             if child in paramsmap:
                 module.add_module(name, paramsmap[child])
-            elif isinstance(child, Model):
+            elif isinstance(child, (Model, torch.nn.ModuleList)):
                 Model._replace_params(child, paramsmap)
 
     def replace_parameters(self, paramsmap):
-- 
2.43.0


From aeed1d8632bdbdf7fc0fcfe62c5a9c598440cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:57 +0000
Subject: [PATCH 60/75] fix: precision of the weights of a set of mixtures

---
 beer/models/mixtureset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beer/models/mixtureset.py b/beer/models/mixtureset.py
index bbb6118..b4cc23d 100644
--- a/beer/models/mixtureset.py
+++ b/beer/models/mixtureset.py
@@ -45,7 +45,8 @@ class MixtureSet(ModelSet):
         dtype, device = tensor.dtype, tensor.device
 
         ncomp_per_mixture = len(modelset) // size
-        weights = torch.ones(size, ncomp_per_mixture) / ncomp_per_mixture
+        weights = torch.ones(size, ncomp_per_mixture, dtype=dtype, device=device)
+        weights /= ncomp_per_mixture
         categoricalset = CategoricalSet.create(weights, prior_strength)
         return cls(categoricalset, modelset)
 
-- 
2.43.0


From 467ba4d4462624e3e715bc2fe933917bc71c29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:57 +0000
Subject: [PATCH 61/75] fix: phone-loop with emissions and graph of different
 precisions

---
 beer/models/phoneloop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beer/models/phoneloop.py b/beer/models/phoneloop.py
index 04d9d7a..d463c63 100644
--- a/beer/models/phoneloop.py
+++ b/beer/models/phoneloop.py
@@ -62,7 +62,7 @@ class PhoneLoop(HMM):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
             residual_log_prob = (1 - loop_prob).log()
             self.graph.trans_log_probs[end_idx, start_idxs] = \
-                    residual_log_prob + log_weights
+                    (residual_log_prob + log_weights).to(self.graph.trans_log_probs)
 
     ####################################################################
     # Model interface.
@@ -155,7 +155,7 @@ class BigramPhoneLoop(HMM):
             loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
             residual_log_prob = (1 - loop_prob).log()
             self.graph.trans_log_probs[end_idx, start_idxs] = \
-                    residual_log_prob + log_weights[i]
+                    (residual_log_prob + log_weights[i]).to(self.graph.trans_log_probs)
 
     ####################################################################
     # Model interface.
-- 
2.43.0


From a07645592b80cbefa05e011b027fe61c7236fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:43 +0000
Subject: [PATCH 62/75] fix: write the results of the commands atomically

A command which is killed (or whose disk is full) left an incomplete file
under the name of its result; the recipes then took it for a complete one
("already created") and failed or went on with it.
---
 beer/cli/output.py                            | 34 +++++++++++++++++++
 beer/cli/subcommands/dataset/create.py        |  3 +-
 beer/cli/subcommands/features/archive.py      |  4 ++-
 beer/cli/subcommands/hmm/accumulate.py        |  4 ++-
 beer/cli/subcommands/hmm/mkdecodegraph.py     |  4 ++-
 beer/cli/subcommands/hmm/mkphoneloop.py       |  4 ++-
 beer/cli/subcommands/hmm/mkphoneloopbigram.py |  4 ++-
 beer/cli/subcommands/hmm/mkphoneloopgraph.py  |  4 ++-
 beer/cli/subcommands/hmm/mkphones.py          |  4 ++-
 beer/cli/subcommands/hmm/train.py             |  4 ++-
 beer/cli/subcommands/hmm/update.py            |  7 ++--
 beer/cli/subcommands/hshmm/init.py            |  8 +++--
 beer/cli/subcommands/hshmm/mksphoneloop.py    | 10 +++---
 beer/cli/subcommands/hshmm/train.py           | 13 ++++---
 beer/cli/subcommands/shmm/init.py             |  4 ++-
 beer/cli/subcommands/shmm/mksphoneloop.py     |  8 +++--
 beer/cli/subcommands/shmm/setprior.py         |  8 +++--
 beer/cli/subcommands/shmm/train.py            | 11 +++---
 18 files changed, 104 insertions(+), 34 deletions(-)
 create mode 100644 beer/cli/output.py

diff --git a/beer/cli/output.py b/beer/cli/output.py
new file mode 100644
index 0000000..1b54471
--- /dev/null
+++ b/beer/cli/output.py
@@ -0,0 +1,34 @@
+
+'Files written by the commands'
+
+import contextlib
+import os
+
+
+@contextlib.contextmanager
+def open_output(path):
+    '''Open a (binary) file for writing. The file appears under its name
+    only when it is completely written: a command which is interrupted
+    never leaves an incomplete file that would be taken for its result.
+
+    Args:
+        path (str): path of the file to write.
+
+    '''
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # Not a regular file (/dev/stdout, named pipe, ...).
+        with open(path, 'wb') as f:
+            yield f
+        return
+
+    dirname, name = os.path.split(path)
+    tmppath = os.path.join(dirname, f'.{name}.{os.getpid()}.tmp')
+    try:
+        with open(tmppath, 'wb') as f:
+            yield f
+        os.replace(tmppath, path)
+    except BaseException:
+        if os.path.exists(tmppath):
+            os.remove(tmppath)
+        raise
diff --git a/beer/cli/subcommands/dataset/create.py b/beer/cli/subcommands/dataset/create.py
index e1121f7..80e4da8 100644
--- a/beer/cli/subcommands/dataset/create.py
+++ b/beer/cli/subcommands/dataset/create.py
@@ -9,6 +9,7 @@ import numpy as np
 import torch
 
 from ...dataset import Dataset
+from ...output import open_output
 
 
 def accumulate(feature_file):
@@ -52,7 +53,7 @@ def main(args, logger):
     dataset = Dataset(os.path.abspath(args.features), mean, var, size)
 
     logger.debug('saving the dataset on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump(dataset, f)
 
     logger.info(f'created dataset with {len(dataset)} utterances '\
diff --git a/beer/cli/subcommands/features/archive.py b/beer/cli/subcommands/features/archive.py
index 4f30a6e..cd16d26 100644
--- a/beer/cli/subcommands/features/archive.py
+++ b/beer/cli/subcommands/features/archive.py
@@ -7,6 +7,8 @@ import os
 import pickle
 from zipfile import ZipFile
 
+from ...output import open_output
+
 
 def setup(parser):
     parser.add_argument('-e', '--extension', default='npy',
@@ -17,7 +19,7 @@ def setup(parser):
 
 def main(args, logger):
     counts = 0
-    with ZipFile(args.out, 'w') as f:
+    with open_output(args.out) as out, ZipFile(out, 'w') as f:
         ext = '.' + args.extension
         for path in glob.glob(os.path.join(glob.escape(args.feadir), '*' + ext)):
             logger.debug(f'adding {path} to the archive')
diff --git a/beer/cli/subcommands/hmm/accumulate.py b/beer/cli/subcommands/hmm/accumulate.py
index 651e977..f6095d3 100644
--- a/beer/cli/subcommands/hmm/accumulate.py
+++ b/beer/cli/subcommands/hmm/accumulate.py
@@ -9,6 +9,8 @@ import numpy as np
 
 import beer
 
+from ...output import open_output
+
 
 def setup(parser):
     parser.add_argument('-a', '--alis', help='alignment graphs in a "npz" '
@@ -59,7 +61,7 @@ def main(args, logger):
         count += 1
 
     logger.debug('saving the accumulated ELBO...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump((elbo, count), f)
 
     # No average to report if none of the utterances is in the dataset.
diff --git a/beer/cli/subcommands/hmm/mkdecodegraph.py b/beer/cli/subcommands/hmm/mkdecodegraph.py
index ccad021..c4254df 100644
--- a/beer/cli/subcommands/hmm/mkdecodegraph.py
+++ b/beer/cli/subcommands/hmm/mkdecodegraph.py
@@ -7,6 +7,8 @@ import sys
 
 import beer
 
+from ...output import open_output
+
 
 def get_first_emitting_state_pdf(graph):
     state_ids = [pdf_id for pdf_id, _ in
@@ -59,7 +61,7 @@ def main(args, logger):
         end_pdf[phone] = get_last_emitting_state_pdf(hmm)
 
     logger.debug('saving the decoding graph on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump((graph, start_pdf, end_pdf), f)
 
     logger.info('created decoding graph. ' \
diff --git a/beer/cli/subcommands/hmm/mkphoneloop.py b/beer/cli/subcommands/hmm/mkphoneloop.py
index 679df10..daa2197 100644
--- a/beer/cli/subcommands/hmm/mkphoneloop.py
+++ b/beer/cli/subcommands/hmm/mkphoneloop.py
@@ -8,6 +8,8 @@ import sys
 import torch
 import beer
 
+from ...output import open_output
+
 
 def build_categorical(size, concentration = 1):
     mean = torch.ones(size) / size
@@ -78,7 +80,7 @@ def main(args, logger):
     ploop = model_cls.create(cgraph, start_pdf, end_pdf, emissions, categorical)
 
     logger.debug('saving the model on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump(ploop, f)
 
     logger.info('successfully created a phone-loop model with ' \
diff --git a/beer/cli/subcommands/hmm/mkphoneloopbigram.py b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
index 7b9bf8b..46b0d63 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopbigram.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopbigram.py
@@ -8,6 +8,8 @@ import sys
 import torch
 import beer
 
+from ...output import open_output
+
 
 def build_categorical_2g(size, unigram):
     mean = torch.ones(size, size) / size
@@ -45,7 +47,7 @@ def main(args, logger):
                                          categoricalset)
 
     logger.debug('saving the model on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump(ploop2, f)
 
     logger.info('successfully created a bigram phone-loop model with ' \
diff --git a/beer/cli/subcommands/hmm/mkphoneloopgraph.py b/beer/cli/subcommands/hmm/mkphoneloopgraph.py
index bc5db51..5cd5caa 100644
--- a/beer/cli/subcommands/hmm/mkphoneloopgraph.py
+++ b/beer/cli/subcommands/hmm/mkphoneloopgraph.py
@@ -7,6 +7,8 @@ import sys
 
 import beer
 
+from ...output import open_output
+
 START_SYM = '\<s\>'
 END_SYM = '\</s\>'
 PIVOT_SYM = '#1'
@@ -77,7 +79,7 @@ def main(args, logger):
     graph.normalize()
 
     logger.debug('saving the graph on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump(graph, f)
 
     logger.info('created phone-loop graph. ' \
diff --git a/beer/cli/subcommands/hmm/mkphones.py b/beer/cli/subcommands/hmm/mkphones.py
index 1f4ac68..4f1dfcb 100644
--- a/beer/cli/subcommands/hmm/mkphones.py
+++ b/beer/cli/subcommands/hmm/mkphones.py
@@ -9,6 +9,8 @@ import yaml
 
 import beer
 
+from ...output import open_output
+
 
 def parse_topology(topology):
     state_ids = set()
@@ -116,7 +118,7 @@ def main(args, logger):
     emissions = beer.JointModelSet(pdfs)
 
     logger.debug('saving the HMMs on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump((units, emissions), f)
 
     logger.info(f'created {len(units)} HMMs for a total of {len(emissions)}' \
diff --git a/beer/cli/subcommands/hmm/train.py b/beer/cli/subcommands/hmm/train.py
index 6c3ec04..92380ec 100644
--- a/beer/cli/subcommands/hmm/train.py
+++ b/beer/cli/subcommands/hmm/train.py
@@ -7,6 +7,8 @@ import sys
 
 import beer
 
+from ...output import open_output
+
 
 def setup(parser):
     parser.add_argument('-b', '--batch-size', type=int, default=-1,
@@ -64,7 +66,7 @@ def main(args, logger):
                 count = 0
 
     logger.debug('save the model on disk...')
-    with open(args.out, 'wb') as f:
+    with open_output(args.out) as f:
         pickle.dump(model, f)
 
     logger.info(f'finished training after {args.epochs} epochs. ' \
diff --git a/beer/cli/subcommands/hmm/update.py b/beer/cli/subcommands/hmm/update.py
index a1f8d61..75c76dd 100644
--- a/beer/cli/subcommands/hmm/update.py
+++ b/beer/cli/subcommands/hmm/update.py
@@ -9,6 +9,8 @@ import sys
 import torch
 import beer
 
+from ...output import open_output
+
 
 def setup(parser):
     parser.add_argument('-l', '--learning-rate', default=1., type=float,
@@ -62,12 +64,13 @@ def main(args, logger):
     optim.step()
 
     logger.debug('saving the new model')
-    with open(args.out_model, 'wb') as f:
+    with open_output(args.out_model) as f:
         pickle.dump(model, f)
 
     if args.optim_state:
         logger.debug(f'saving the optimizer state to: {args.optim_state}')
-        torch.save(optim.state_dict(), args.optim_state)
+        with open_output(args.optim_state) as f:
+            torch.save(optim.state_dict(), f)
 
     logger.info(f'accumulated ELBO={float(elbo)/(nutts * elbo._datasize):.3f}')
 
diff --git a/beer/cli/subcommands/hshmm/init.py b/beer/cli/subcommands/hshmm/init.py
index 15f32d6..53cb8d6 100644
--- a/beer/cli/subcommands/hshmm/init.py
+++ b/beer/cli/subcommands/hshmm/init.py
@@ -11,6 +11,8 @@ import torch
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -85,14 +87,14 @@ def main(args, logger):
 
         
     logger.debug('saving the subspace phoneloop')
-    with open(args.out_sploop, 'wb') as f:
+    with open_output(args.out_sploop) as f:
         pickle.dump(sploop, f)
 
     for lang, ploop in sploop.items():
-        with open(args.out_sploop + '_' + lang, 'wb') as f:
+        with open_output(args.out_sploop + '_' + lang) as f:
             pickle.dump(ploop, f)
 
-    with open(args.out_gsm, 'wb') as f:
+    with open_output(args.out_gsm) as f:
         pickle.dump(gsm, f)
 
 
diff --git a/beer/cli/subcommands/hshmm/mksphoneloop.py b/beer/cli/subcommands/hshmm/mksphoneloop.py
index f05dfe9..5454279 100644
--- a/beer/cli/subcommands/hshmm/mksphoneloop.py
+++ b/beer/cli/subcommands/hshmm/mksphoneloop.py
@@ -11,6 +11,8 @@ import yaml
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -190,20 +192,20 @@ def main(args, logger):
            'params_dim': _transform.out_dim,
     }
     logger.debug('saving the GSM')
-    with open(args.gsm, 'wb') as f:
+    with open_output(args.gsm) as f:
         pickle.dump(gsm, f)
 
     logger.debug('saving the units posterior')
-    with open(args.posts, 'wb') as f:
+    with open_output(args.posts) as f:
         pickle.dump((posts_dict, units_dict, nstates, groupidx), f)
 
     logger.debug('saving the subspace phoneloop')
     ploop = phoneloops_dict
-    with open(args.sploop, 'wb') as f:
+    with open_output(args.sploop) as f:
         pickle.dump(ploop, f)
 
     for lang, ploop in phoneloops_dict.items():
-        with open(args.sploop + '_' + lang, 'wb') as f:
+        with open_output(args.sploop + '_' + lang) as f:
             pickle.dump(ploop, f)
 
     lens = [len(x) for x in units_dict.values()]
diff --git a/beer/cli/subcommands/hshmm/train.py b/beer/cli/subcommands/hshmm/train.py
index 1b65f9c..5e8b76f 100644
--- a/beer/cli/subcommands/hshmm/train.py
+++ b/beer/cli/subcommands/hshmm/train.py
@@ -10,6 +10,8 @@ import torch
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -186,24 +188,25 @@ def main(args, logger):
     logger.debug('saving the HGSM')
     gsm['root'] = root_gsm
     gsm['langs'] = gsms_dict
-    with open(args.out_gsm, 'wb') as f:
+    with open_output(args.out_gsm) as f:
         pickle.dump(gsm, f)
 
     logger.debug('saving the units posterior')
-    with open(args.out_posts, 'wb') as f:
+    with open_output(args.out_posts) as f:
         pickle.dump((posts_dict, units_dict, nstates, groupidx), f)
 
     logger.debug('saving the subspace phoneloop')
     sploop = phoneloops_dict
-    with open(args.out_sploop, 'wb') as f:
+    with open_output(args.out_sploop) as f:
         pickle.dump(sploop, f)
     for lang, sploop in phoneloops_dict.items():
-        with open(args.out_sploop + '_' + lang, 'wb') as f:
+        with open_output(args.out_sploop + '_' + lang) as f:
             pickle.dump(sploop, f)
 
     if args.optim_state:
         logger.debug(f'saving the optimizer state to: {args.optim_state}')
-        torch.save(optim.state_dict(), args.optim_state)
+        with open_output(args.optim_state) as f:
+            torch.save(optim.state_dict(), f)
 
 
 if __name__ == "__main__":
diff --git a/beer/cli/subcommands/shmm/init.py b/beer/cli/subcommands/shmm/init.py
index e22efd9..c661138 100644
--- a/beer/cli/subcommands/shmm/init.py
+++ b/beer/cli/subcommands/shmm/init.py
@@ -11,6 +11,8 @@ import torch
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -48,7 +50,7 @@ def main(args, logger):
     gsm.update_models(units, pdfvecs)
 
     logger.debug('saving the subspace phoneloop')
-    with open(args.out_sploop, 'wb') as f:
+    with open_output(args.out_sploop) as f:
         pickle.dump(sploop, f)
 
 
diff --git a/beer/cli/subcommands/shmm/mksphoneloop.py b/beer/cli/subcommands/shmm/mksphoneloop.py
index 6add9d4..51ecd9b 100644
--- a/beer/cli/subcommands/shmm/mksphoneloop.py
+++ b/beer/cli/subcommands/shmm/mksphoneloop.py
@@ -11,6 +11,8 @@ import yaml
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -181,18 +183,18 @@ def main(args, logger):
         gsm = beer.Mixture.create(gsmset)
 
     logger.debug('saving the GSM')
-    with open(args.gsm, 'wb') as f:
+    with open_output(args.gsm) as f:
         pickle.dump(gsm, f)
 
     logger.debug('saving the units posterior')
-    with open(args.posts, 'wb') as f:
+    with open_output(args.posts) as f:
         if labels is None:
             pickle.dump((latent_posts, nunits, nstates, groupidx), f)
         else:
             pickle.dump((latent_posts, nunits, nstates, groupidx, labels), f)
 
     logger.debug('saving the subspace phoneloop')
-    with open(args.sploop, 'wb') as f:
+    with open_output(args.sploop) as f:
         pickle.dump(ploop, f)
 
     logger.info(f'created {nunits} subspace HMMs (latent dim: {args.latent_dim})')
diff --git a/beer/cli/subcommands/shmm/setprior.py b/beer/cli/subcommands/shmm/setprior.py
index 56f9e74..c25b8e8 100644
--- a/beer/cli/subcommands/shmm/setprior.py
+++ b/beer/cli/subcommands/shmm/setprior.py
@@ -11,6 +11,8 @@ import torch
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -107,15 +109,15 @@ def main(args, logger):
     gsm.latent_prior = gsm_init.latent_prior
 
     logger.debug('saving the GSM')
-    with open(args.out_gsm, 'wb') as f:
+    with open_output(args.out_gsm) as f:
         pickle.dump(gsm, f)
 
     logger.debug('saving the units posterior')
-    with open(args.out_posts, 'wb') as f:
+    with open_output(args.out_posts) as f:
         pickle.dump((latent_posts, nunits, nstates, groupidx), f)
 
     logger.debug('saving the subspace phoneloop')
-    with open(args.out_sploop, 'wb') as f:
+    with open_output(args.out_sploop) as f:
         pickle.dump(sploop, f)
 
 
diff --git a/beer/cli/subcommands/shmm/train.py b/beer/cli/subcommands/shmm/train.py
index e952564..5468b19 100644
--- a/beer/cli/subcommands/shmm/train.py
+++ b/beer/cli/subcommands/shmm/train.py
@@ -10,6 +10,8 @@ import torch
 
 import beer
 
+from ...output import open_output
+
 
 # Create a view of the emissions (aka modelset) for each units.
 def iterate_units(modelset, nunits, nstates):
@@ -129,23 +131,24 @@ def main(args, logger):
             labels = labels.cpu()
 
     logger.debug('saving the GSM')
-    with open(args.out_gsm, 'wb') as f:
+    with open_output(args.out_gsm) as f:
         pickle.dump(gsm, f)
 
     logger.debug('saving the units posterior')
-    with open(args.out_posts, 'wb') as f:
+    with open_output(args.out_posts) as f:
         if labels is None:
             pickle.dump((latent_posts, nunits, nstates, groupidx), f)
         else:
             pickle.dump((latent_posts, nunits, nstates, groupidx, labels), f)
 
     logger.debug('saving the subspace phoneloop')
-    with open(args.out_sploop, 'wb') as f:
+    with open_output(args.out_sploop) as f:
         pickle.dump(sploop, f)
 
     if args.optim_state:
         logger.debug(f'saving the optimizer state to: {args.optim_state}')
-        torch.save(optim.state_dict(), args.optim_state)
+        with open_output(args.optim_state) as f:
+            torch.save(optim.state_dict(), f)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 0fe981ae1fb3f9ff8e081da434f51bb08c46c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:54 +0000
Subject: [PATCH 63/75] fix: transitions of an earlier call used with an
 inference graph

When the likelihood was evaluated without an alignment graph and not
accumulated (or the call failed), the statistics of the next call with an
alignment graph used the posteriors of the transitions of the first.
---
 beer/models/hmm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index 0dff5cb..beaf441 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -84,6 +84,8 @@ class HMM(DiscreteLatentModel):
             self.cache['resps'], self.cache['trans_resps'] = all_resps
         else:
             self.cache['resps'] = all_resps
+            # Nothing remains of a previous call.
+            self.cache.pop('trans_resps', None)
         exp_llh = (pc_llhs * self.cache['resps']).sum(dim=-1)
         self.cache['scale'] = scale
 
-- 
2.43.0


From 8b6fd20f4c8766c37816db2b15c65a8c09fbcefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 64/75] fix: scores of the units left incomplete or computed
 with another mapping

A failing or interrupted program left an empty or incomplete score which was
then taken for the result; the failure of the mapping was ignored; and the
mapping given by the user (--au-mapping) was never used.
---
 recipes/aud/steps/score_aud.sh | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/recipes/aud/steps/score_aud.sh b/recipes/aud/steps/score_aud.sh
index fbdbe95..6eebd70 100755
--- a/recipes/aud/steps/score_aud.sh
+++ b/recipes/aud/steps/score_aud.sh
@@ -36,42 +36,56 @@ outdir=$3
 mkdir -p $outdir
 
 
-if [ ! -f $oudir/au_phone_counts.yml ]; then
+# Write the output of a command in a file. The file is created only when the
+# command succeeds: an interrupted or failing run does not leave an incomplete
+# score.
+write_score() {
+    local out=$1
+    shift
+    "$@" > $out.tmp && mv $out.tmp $out
+}
+
+
+if [ ! -f $outdir/au_phone ] || [ ! -f $outdir/au_phone_counts.yml ]; then
     echo "creating a mapping acoustic unit -> phone"
     python utils/maxoverlap_mapping.py $ref_ali $hyp_ali \
-        --counts $outdir/au_phone_counts.yml $outdir/au_phone
-    au_mapping=$outdir/au_phone
+        --counts $outdir/au_phone_counts.yml.tmp $outdir/au_phone.tmp || exit 1
+    mv $outdir/au_phone_counts.yml.tmp $outdir/au_phone_counts.yml || exit 1
+    mv $outdir/au_phone.tmp $outdir/au_phone || exit 1
 fi
+au_mapping=${au_mapping:-$outdir/au_phone}
 
 if [ ! -f $outdir/eq_per ]; then
    echo "mapping the acoustic unit to phones"
    python utils/maptrans.py --unk '<unk>' $au_mapping $hyp_ali \
-           > $outdir/au_phone_trans
+           > $outdir/au_phone_trans || exit 1
 
    echo "computing the equivalent Phone Error Rate"
-   python utils/ter.py --no-repeat $mapping $ref_ali \
-       $outdir/au_phone_trans > $outdir/eq_per || exit 1
+   write_score $outdir/eq_per python utils/ter.py --no-repeat $mapping \
+       $ref_ali $outdir/au_phone_trans || exit 1
 fi
 echo "PER: $(tail -n 1 $outdir/eq_per)"
 
 if [ ! -f $outdir/nmi ]; then
     echo "computing the NMI"
-    python utils/nmi.py $outdir/au_phone_counts.yml > $outdir/nmi || exit 1
+    write_score $outdir/nmi python utils/nmi.py \
+        $outdir/au_phone_counts.yml || exit 1
 fi
 echo "NMI: $(tail -n 1 $outdir/nmi)"
 
 
 if [ ! -f $outdir/entropy_rate ]; then
     echo "evaluating the entropy rate"
-    python utils/entropy_rate.py $hyp_ali > $outdir/entropy_rate || exit 1
+    write_score $outdir/entropy_rate python utils/entropy_rate.py \
+        $hyp_ali || exit 1
 fi
 echo "entropy rate, perplexity: $(tail -n 1 $outdir/entropy_rate)"
 
 
 if [ ! -f $outdir/phone_boundaries ]; then
     echo "evaluating the segmentation"
-    python utils/score_boundaries.py $ref_ali $hyp_ali \
-        > $outdir/phone_boundaries || exit 1
+    write_score $outdir/phone_boundaries python utils/score_boundaries.py \
+        $ref_ali $hyp_ali || exit 1
 fi
 echo "recall, precision, fscore: $(tail -n 1 $outdir/phone_boundaries)"
 
-- 
2.43.0


From 68be0db718b1b56613e334b4c0838f44bd83181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 65/75] fix: google_lr preparation ignores the other languages
 and reports a failure

---
 recipes/aud/local/google_lr/prepare_data.sh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/recipes/aud/local/google_lr/prepare_data.sh b/recipes/aud/local/google_lr/prepare_data.sh
index 1e4c3c3..909dfb0 100755
--- a/recipes/aud/local/google_lr/prepare_data.sh
+++ b/recipes/aud/local/google_lr/prepare_data.sh
@@ -1,6 +1,7 @@
 #!/bin/bash
 
 set -e
+set -o pipefail
 rootdir=/mnt/matylda2/data/google_lr
 #rootdir=$(realpath ~/google_lr/)
 if [ $# -ne 2 ]; then
@@ -16,7 +17,7 @@ for language in $languages; do
     cmddir=$(dirname $0)
     for subset in train; do
 	datadir=$outdir/$language
-	[ -f $outdir/$language/$subset/uttids ] && exit 0
+	[ -f $outdir/$language/$subset/uttids ] && continue
 	echo $outdir/$language/$subset/uttids
        	mkdir -p $outdir/$language/$subset
 	find -L $rootdir/$language -name "*.wav" | \
@@ -35,12 +36,15 @@ for language in $languages; do
 	    $datadir/$subset/all_wavs.txt \
 	    $outdir/$language/$subset/trans \
 	    > $outdir/$language/$subset/wav.scp
-	cut -d ' ' -f1 $outdir/$language/$subset/trans > $outdir/$language/$subset/uttids
+	cut -d ' ' -f1 $outdir/$language/$subset/trans > $outdir/$language/$subset/uttids.tmp
+	mv $outdir/$language/$subset/uttids.tmp $outdir/$language/$subset/uttids
     done
     echo "sil non-speech-unit" > $outdir/$language/lang/units
     cut -d' ' -f2- $outdir/$language/train/trans | \
 	tr ' ' '\n' | \
-	sort -u | grep -v sil | \
-	awk '{print $0, "speech-unit"}' >> $outdir/$language/lang/units
-    [ -f $cmddir/ali ] && cp $cmddir/ali $outdir/$language/train/
+	sort -u | \
+	awk '$0 != "sil" {print $0, "speech-unit"}' >> $outdir/$language/lang/units
+    if [ -f $cmddir/ali ]; then
+	cp $cmddir/ali $outdir/$language/train/
+    fi
 done
-- 
2.43.0


From f2bd771cd74c4b101d0c38712964ff90c60ab549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 66/75] fix: interrupted ALFFA preparation taken as complete

---
 recipes/aud/local/alffa/prepare_data.sh        | 8 +++++---
 recipes/aud/local/alffa/prepare_transcripts.py | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/local/alffa/prepare_data.sh b/recipes/aud/local/alffa/prepare_data.sh
index 9e4c046..ae8f660 100644
--- a/recipes/aud/local/alffa/prepare_data.sh
+++ b/recipes/aud/local/alffa/prepare_data.sh
@@ -1,6 +1,7 @@
 #!/bin/bash
 
 set -e
+set -o pipefail
 rootdir=/mnt/matylda2/data/ALFFA
 
 if [ $# -ne 2 ]; then
@@ -35,11 +36,12 @@ for language in $languages; do
 	    $datadir/data/$subset/all_wavs.txt \
 	    $outdir/$language/$subset/trans \
 	    > $outdir/$language/$subset/wav.scp
-	cut -d ' ' -f1 $outdir/$language/$subset/trans > $outdir/$language/$subset/uttids
+	cut -d ' ' -f1 $outdir/$language/$subset/trans > $outdir/$language/$subset/uttids.tmp
+	mv $outdir/$language/$subset/uttids.tmp $outdir/$language/$subset/uttids
     done
     echo "sil non-speech-unit" > $outdir/$language/lang/units
     cut -d' ' -f2- $outdir/$language/train/trans | \
 	tr ' ' '\n' | \
-	sort -u | grep -v sil | \
-	awk '{print $0, "speech-unit"}' >> $outdir/$language/lang/units
+	sort -u | \
+	awk '$0 != "sil" {print $0, "speech-unit"}' >> $outdir/$language/lang/units
 done
diff --git a/recipes/aud/local/alffa/prepare_transcripts.py b/recipes/aud/local/alffa/prepare_transcripts.py
index d3abe63..d67422f 100644
--- a/recipes/aud/local/alffa/prepare_transcripts.py
+++ b/recipes/aud/local/alffa/prepare_transcripts.py
@@ -33,9 +33,10 @@ def main():
             for phone in sent:
                 if phone not in phone_to_id.keys():
                     phone_to_id[phone] = '_'.join([args.lang, str(len(phone_to_id) + 1)])
-        with open(phone_to_id_file, 'w', encoding='utf-8') as _ph:
+        with open(phone_to_id_file + '.tmp', 'w', encoding='utf-8') as _ph:
             for k, v in phone_to_id.items():
                 _ph.write(f'{k} {v}\n')
+        os.replace(phone_to_id_file + '.tmp', phone_to_id_file)
     else:
         with open(phone_to_id_file, encoding='utf-8') as _ph:
             for line in _ph:
-- 
2.43.0


From 29d9310b4833cdec530906c5465290291ac126a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 67/75] fix: failing command ignored by the TIMIT preparation

---
 recipes/aud/local/timit/prepare_data.sh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/timit/prepare_data.sh b/recipes/aud/local/timit/prepare_data.sh
index 70f421e..576965b 100755
--- a/recipes/aud/local/timit/prepare_data.sh
+++ b/recipes/aud/local/timit/prepare_data.sh
@@ -9,6 +9,7 @@
 #
 
 set -e
+set -o pipefail
 
 # JHU
 #rootdir=/export/corpora5/LDC/LDC93S1/timit/TIMIT
@@ -76,7 +77,8 @@ for x in train dev test; do
     # directories, but doing find on both and grepping for the speakers
     # will work correctly.
     find $rootdir/{$train_dir,$test_dir} -not \( -iname 'SA*' \) -iname '*.WAV' \
-         | grep -f $tmpdir/${x}_spk > $dir/${x}_sph.flist
+         | { grep -f $tmpdir/${x}_spk || [ $? -eq 1 ]; } \
+         > $dir/${x}_sph.flist
 
          sed -e 's:.*/\(.*\)/\(.*\).WAV$:\1_\2:i' $dir/${x}_sph.flist \
              > $tmpdir/${x}_sph.uttids
@@ -89,7 +91,8 @@ for x in train dev test; do
     # yet) Get the transcripts: each line of the output contains an
     # utterance ID followed by the transcript.
      find $rootdir/{$train_dir,$test_dir} -not \( -iname 'SA*' \) -iname '*.PHN' \
-         | grep -f $tmpdir/${x}_spk > $tmpdir/${x}_phn.flist
+         | { grep -f $tmpdir/${x}_spk || [ $? -eq 1 ]; } \
+         > $tmpdir/${x}_phn.flist
      sed -e 's:.*/\(.*\)/\(.*\).PHN$:\1_\2:i' $tmpdir/${x}_phn.flist \
          > $tmpdir/${x}_phn.uttids
      while read line; do
-- 
2.43.0


From 1d664ded9a14adc071441dce19612b5f3dc107df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 68/75] fix: interrupted mboshi preparation taken as complete

---
 recipes/aud/local/mboshi/prepare_data.sh | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/recipes/aud/local/mboshi/prepare_data.sh b/recipes/aud/local/mboshi/prepare_data.sh
index 3c45c59..d1557f1 100755
--- a/recipes/aud/local/mboshi/prepare_data.sh
+++ b/recipes/aud/local/mboshi/prepare_data.sh
@@ -1,5 +1,7 @@
 #!/usr/bin/env bash
 
+set -e
+set -o pipefail
 
 # git URL to the Mboshi data repository.
 url="https://github.com/besacier/mboshi-french-parallel-corpus.git"
@@ -16,7 +18,9 @@ cwd=$(dirname $0)
 # Download the data.
 if [ ! -d $datadir/local/mboshi ]; then
     echo "Downloading the MBOSHI database..."
-    git clone $url $datadir/local/mboshi
+    rm -rf $datadir/local/mboshi.tmp
+    git clone $url $datadir/local/mboshi.tmp
+    mv $datadir/local/mboshi.tmp $datadir/local/mboshi
 else
     echo "Data already downloaded. Skipping."
 fi
@@ -46,10 +50,14 @@ for x in train dev; do
         find $datadir/local/mboshi/full_corpus_newsplit/${x}.fixed -name '*wav' \
             -exec bash -c 'scp_line "$0"' {} {} \; \
             | sort | uniq > $datadir/$x/wav.scp
-        cat $datadir/$x/wav.scp | awk '{print $1}' >$datadir/$x/uttids
+        if [ -f $cwd/mboshi.ali ]; then
+            awk 'FILENAME == ARGV[1] {utts[$1]; next} $1 in utts' \
+                $datadir/$x/wav.scp $cwd/mboshi.ali > $datadir/$x/ali
+        fi
 
-        cat $cwd/mboshi.ali | grep -w -f $datadir/$x/uttids \
-            > $datadir/$x/ali
+        # The list of utterances marks the end of the preparation.
+        awk '{print $1}' $datadir/$x/wav.scp > $datadir/$x/uttids.tmp
+        mv $datadir/$x/uttids.tmp $datadir/$x/uttids
     else
         echo "Dataset \"${x}\" already prepared. Skipping."
     fi
-- 
2.43.0


From 4145b8bcb188a95723f5a552293177b13e6d06b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 69/75] fix: failed extraction of the zrc2019 samples taken as
 complete

---
 recipes/aud/local/zrc2019/prepare_data.sh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/recipes/aud/local/zrc2019/prepare_data.sh b/recipes/aud/local/zrc2019/prepare_data.sh
index 4687c64..2932993 100755
--- a/recipes/aud/local/zrc2019/prepare_data.sh
+++ b/recipes/aud/local/zrc2019/prepare_data.sh
@@ -1,5 +1,7 @@
 #!/usr/bin/env bash
 
+set -e
+set -o pipefail
 
 # Path to the data.
 datapath=samples.tar.bz2
@@ -17,7 +19,7 @@ datadir=$1
 if [ ! -f $datadir/local/.done ]; then
     echo "Extracting data..."
     mkdir -p $datadir/local/
-    tar -xvzf $datapath -C $datadir/local
+    tar -xvf $datapath -C $datadir/local
     date > $datadir/local/.done
 else
     echo "Data already extracted. Skipping."
@@ -41,7 +43,8 @@ if [ ! -f $datadir/train/uttids ]; then
         | sort | uniq > $datadir/train/wavs.scp
 
     echo "creating uttids file..."
-    cat $datadir/train/wavs.scp | awk '{print $1}' >$datadir/train/uttids
+    cat $datadir/train/wavs.scp | awk '{print $1}' >$datadir/train/uttids.tmp
+    mv $datadir/train/uttids.tmp $datadir/train/uttids
 else
     echo "training data already prepared. Skipping."
 fi
-- 
2.43.0


From e1f8ee4606d5f052370d3a65205c6d6f13c853aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 70/75] fix: GlobalPhone utterances without transcription kept

---
 recipes/aud/local/globalphone/prepare_data.sh | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/recipes/aud/local/globalphone/prepare_data.sh b/recipes/aud/local/globalphone/prepare_data.sh
index c6a7dd0..8d323e6 100755
--- a/recipes/aud/local/globalphone/prepare_data.sh
+++ b/recipes/aud/local/globalphone/prepare_data.sh
@@ -1,6 +1,7 @@
 #!/bin/bash
 
 set -e
+set -o pipefail
 
 if [ $# -ne 2 ]; then
     echo "$0 <out-dir> <lang>"
@@ -80,13 +81,16 @@ for lang in $languages; do
 
         # Keep only the utterances for which there is a proper
         # transcription.
-        cat $dir/data/$lang/$x/wav.scp | \
-            grep -w -f $outdir/$lang/$x/uttids > $outdir/$lang/$x/wav.scp
+        awk 'FILENAME == ARGV[1] {utts[$1]; next} $1 in utts' \
+            $outdir/$lang/$x/uttids $dir/data/$lang/$x/wav.scp \
+            > $outdir/$lang/$x/wav.scp
     done
 
     # Rename "eval" to "test" for consistency with other corpora.
     if [ -d $outdir/$lang/eval ]; then
-        mv -f $outdir/$lang/eval $outdir/$lang/test
+        # It may remain from an interrupted run.
+        rm -rf $outdir/$lang/test
+        mv $outdir/$lang/eval $outdir/$lang/test
     fi
 done
 
-- 
2.43.0


From 1472c89961a015c66d15255b502127da383844ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:34 +0000
Subject: [PATCH 71/75] fix: corpus added twice or with utterances of similar
 names

---
 recipes/aud/utils/add_corpus.sh | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/recipes/aud/utils/add_corpus.sh b/recipes/aud/utils/add_corpus.sh
index d3d90ad..0e16004 100755
--- a/recipes/aud/utils/add_corpus.sh
+++ b/recipes/aud/utils/add_corpus.sh
@@ -1,5 +1,8 @@
 #!/usr/bin/env bash
 
+# Exit if one command fails.
+set -e
+
 max_utts=1000000
 nargs=2
 while [[ $# -gt $nargs ]]; do
@@ -32,13 +35,24 @@ outdir=$2
 
 for x in train dev test; do
     mkdir -p $outdir/$x
-    cat $corpus/$x/uttids | shuf | head -n $max_utts >> $outdir/$x/uttids
-    cat $corpus/$x/wav.scp | grep -w -f $outdir/$x/uttids >> $outdir/$x/wav.scp
-    cat $corpus/$x/trans | grep -w -f $outdir/$x/uttids >> $outdir/$x/trans
+    touch $outdir/$x/{uttids,wav.scp,trans}
+    [ -f $corpus/$x/uttids ] || continue
+    shuf -n $max_utts $corpus/$x/uttids > $outdir/$x/selected.tmp
+    for f in uttids wav.scp trans; do
+        [ -f $corpus/$x/$f ] || continue
+        # Replace the lines of this corpus: some may remain from an
+        # interrupted run.
+        awk 'FILENAME == ARGV[1] {utts[$1]; next} !($1 in utts)' \
+            $corpus/$x/uttids $outdir/$x/$f > $outdir/$x/$f.tmp
+        awk 'FILENAME == ARGV[1] {utts[$1]; next} $1 in utts' \
+            $outdir/$x/selected.tmp $corpus/$x/$f >> $outdir/$x/$f.tmp
+        mv $outdir/$x/$f.tmp $outdir/$x/$f
+    done
+    rm $outdir/$x/selected.tmp
 done
 
 mkdir -p $outdir/lang
-cat $corpus/lang/units >> $outdir/lang/units
-mv $outdir/lang/units $outdir/lang/units.bk
-cat $outdir/lang/units.bk | sort | uniq > $outdir/lang/units
+touch $outdir/lang/units
+sort -u $outdir/lang/units $corpus/lang/units > $outdir/lang/units.tmp
+mv $outdir/lang/units.tmp $outdir/lang/units
 
-- 
2.43.0


From d7159e657ccc924f417799f30599fad822596447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:46 +0000
Subject: [PATCH 72/75] fix: move the parameters of a subspace along with the
 model (precision, device)

---
 beer/models/gsm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/models/gsm.py b/beer/models/gsm.py
index ca4d513..efc2c29 100644
--- a/beer/models/gsm.py
+++ b/beer/models/gsm.py
@@ -350,7 +350,7 @@ class SubspaceBayesianParameter(ConjugateBayesianParameter):
                  likelihood_fn=None, pdfvec=None):
         super().__init__(prior, posterior, init_stats, likelihood_fn)
         pdfvec = pdfvec if pdfvec is not None else torch.zeros_like(self.stats)
-        self.pdfvec = pdfvec
+        self.register_buffer('pdfvec', pdfvec)
 
     def value(self):
         return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)
-- 
2.43.0


From 7fb2d13dd300e53e2dd2fa8ebde60d26ce0d4bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:46 +0000
Subject: [PATCH 73/75] fix: best path of a model which is not on the CPU

---
 beer/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beer/graph.py b/beer/graph.py
index b6624c0..e2debb0 100644
--- a/beer/graph.py
+++ b/beer/graph.py
@@ -352,5 +352,5 @@ class CompiledGraph(torch.nn.Module):
         path = [torch.argmax(omega + self.final_log_probs)]
         for i in reversed(range(1, len(llhs))):
             path.insert(0, backtrack[i, path[0]])
-        return torch.LongTensor(path, device=llhs.device)
+        return torch.tensor(path, dtype=torch.long, device=llhs.device)
 
-- 
2.43.0


From 9efa444fed670d7435eee90557c62d4883ec5a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:46 +0000
Subject: [PATCH 74/75] fix: transitions of a given or best path on the device
 of the model

---
 beer/models/hmm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beer/models/hmm.py b/beer/models/hmm.py
index beaf441..db9204f 100644
--- a/beer/models/hmm.py
+++ b/beer/models/hmm.py
@@ -48,7 +48,9 @@ class HMM(DiscreteLatentModel):
                            dtype=pc_llhs.dtype, device=pc_llhs.device)
             if trans_posteriors:
                 n_states = inference_graph.n_states
-                trans_posts = torch.zeros(len(pc_llhs) - 1, n_states, n_states)
+                trans_posts = torch.zeros(len(pc_llhs) - 1, n_states, n_states,
+                                          dtype=pc_llhs.dtype,
+                                          device=pc_llhs.device)
                 for i, transition in enumerate(zip(path[:-1], path[1:])):
                     src, dest = transition
                     trans_posts[i, src, dest] = 1
-- 
2.43.0


From 61536c9cbfa4cbb46a890207d0e2605a9b542208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:57 +0000
Subject: [PATCH 75/75] fix: accumulate the statistics of a data set in double
 precision

---
 beer/cli/subcommands/dataset/create.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/beer/cli/subcommands/dataset/create.py b/beer/cli/subcommands/dataset/create.py
index 80e4da8..952fe2f 100644
--- a/beer/cli/subcommands/dataset/create.py
+++ b/beer/cli/subcommands/dataset/create.py
@@ -28,9 +28,11 @@ def accumulate(feature_file):
     tot_square_sum = np.zeros(dim)
     tot_counts = 0
     for k in keys:
-        nframes_per_utt = len(feats[k])
-        per_square_sum = (feats[k] ** 2).sum(axis=0)
-        tot_sum += feats[k].sum(axis=0)
+        # The squares overflow or lose their precision in smaller types.
+        fea = feats[k].astype(np.float64)
+        nframes_per_utt = len(fea)
+        per_square_sum = (fea ** 2).sum(axis=0)
+        tot_sum += fea.sum(axis=0)
         tot_square_sum += per_square_sum
         tot_counts += nframes_per_utt
     mean = tot_sum / tot_counts
-- 
2.43.0

