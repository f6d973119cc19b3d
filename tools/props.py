"""Texts of the properties and of the manifest (single source)."""

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         technique, note, state=(), na=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                 'state': [{'name': n, 'meaning': m, 'where': w}
                           for n, m, w in state],
                 'observe_at': observe, 'hook_needed': None},
        technique=technique, note=note, na=na))


prop('C01', 'Compiling a graph preserves the weight of every path',
     'Compiling a graph of emitting and non-emitting states yields, for every '
     'pair of emitting states, the total weight of all the routes which go '
     'from one to the other through non-emitting states only, and likewise '
     'for the initial and the final distributions (which are normalized). '
     'The probability of staying in a state is kept exactly; when it is not '
     'zero the other transitions of the state share the remaining mass '
     'proportionally. States are mapped to their emission in their order of '
     'creation and compiling leaves the graph unchanged.',
     ['inputs', 'programs'],
     'for every graph: any placement of non-emitting states, any arcs, any '
     'weights, any order of creation',
     'The tests compile one left-to-right graph without branching '
     'non-emitting states; weights lost or counted twice on parallel or '
     'chained non-emitting routes never show there.',
     ['beer/graph.py'],
     [('compilation', 'beer/graph.py Graph.compile'),
      ('search through the non-emitting states',
       'beer/graph.py Graph.find_next_pdf_ids, find_previous_pdf_ids')],
     ['initial, final and transition log-probabilities of the compiled graph'],
     'bounded-exhaustive enumeration of graphs (all arc subsets) against a '
     'path-sum reference model',
     'Every arc subset of the skeletons is compiled by the real code and '
     'compared exactly; trusts the recursive path-sum oracle in mc/graphs.py. '
     'Generic weights, one value per arc.')

prop('C02', 'Editing a graph substitutes and rescales exactly what it says',
     'Replacing a state by a sub-graph gives exactly the weighted sequences of '
     'the original graph where every visit of the state is substituted by the '
     'sequences of the sub-graph, whatever the position of the state (start, '
     'end, with a self-loop) and without altering the sub-graph. '
     'Normalizing divides the weights leaving each state by their sum. '
     'Listing states and arcs, forward or backward, always describes the same '
     'graph.',
     ['histories', 'programs'],
     'for every sequence of additions, replacements and normalizations on '
     'every graph and sub-graph',
     'No test replaces a state; the notebooks do it once, on acyclic graphs.',
     ['beer/graph.py'],
     [('replacement', 'beer/graph.py Graph.replace_state'),
      ('normalization', 'beer/graph.py Graph.normalize'),
      ('iteration', 'beer/graph.py Graph.arcs, Graph.states')],
     ['states and arcs of the graph', 'its compiled form'],
     'explicit exploration of all operation sequences up to a depth against '
     'weighted-language substitution',
     'All sequences of edits up to length 2/3 on 7 graphs x 6 sub-graphs are '
     'replayed on the real class; the language oracle is independent of the '
     'graph surgery. Languages are compared up to 5-6 emissions.')

prop('C03', 'Forward-backward posteriors equal the sum over all the paths',
     'For any graph and any per-frame log-likelihoods for which at least one '
     'path exists, the posteriors of the states and of the transitions and '
     'the log-likelihood of the sequence are those obtained by summing the '
     'probability of all the state paths (initial, transition and final '
     'probabilities included). They are finite and exact even when the '
     'likelihoods under- or overflow.',
     ['inputs', 'configurations'],
     'for every transition support, initial/final support, sequence length '
     'and log-likelihood pattern',
     'The tests compare one random ergodic graph with the same recursion; '
     'forbidden transitions, forced final states, single frames and extreme '
     'likelihoods are not reached.',
     ['beer/graph.py'],
     [('forward and backward recursions',
       'beer/graph.py CompiledGraph._baum_welch_forward/_backward'),
      ('posteriors', 'beer/graph.py CompiledGraph.posteriors')],
     ['result of CompiledGraph.posteriors'],
     'exhaustive enumeration of small HMMs, brute force over all the state '
     'paths',
     'All supports up to 3 states; oracle enumerates all paths in float64 '
     'numpy. One generic weight table per support.')

prop('C04', 'Decoding returns an allowed path that no other path beats',
     'For any graph and any log-likelihoods for which a path exists, the '
     'decoded state sequence has one state per frame, is allowed by the '
     'initial, transition and final probabilities, and no other sequence has '
     'a higher score. Decoding with a model reports the emission associated '
     'to each state, with the acoustic scale applied to the likelihood only.',
     ['inputs', 'configurations'],
     'for every transition/initial/final support, length, likelihood pattern, '
     'state to emission mapping and scale',
     'The tests decode one ergodic graph, where ignoring a forbidden '
     'transition or the final probabilities changes nothing.',
     ['beer/graph.py', 'beer/models/hmm.py'],
     [('Viterbi recursion', 'beer/graph.py CompiledGraph.best_path'),
      ('decoding', 'beer/models/hmm.py HMM.decode')],
     ['result of CompiledGraph.best_path and HMM.decode'],
     'exhaustive enumeration of small HMMs, maximum over all the state paths',
     'All supports up to 3 states; any optimal path accepted.')

prop('C05', 'HMM training statistics equal those of the inferred state paths',
     'Training an HMM on a sequence accumulates, for every emission, the '
     'statistics of the frames weighted by the posterior of the states mapped '
     'to it: the exact posterior, the best path, or the given path, inferred '
     'with the graph of the model or with the graph provided, with the '
     'acoustic scale applied to the likelihoods. The reported log-likelihood '
     'of the data is the one of that inference. Nothing of a call survives in '
     'the next ones.',
     ['inputs', 'configurations', 'histories'],
     'for every graph, state to emission mapping, inference kind, path, scale '
     'and history of calls',
     'The tests use one graph with one emission per state and never give a '
     'path, another graph or a scale.',
     ['beer/models/hmm.py', 'beer/models/hmmgraph.py', 'beer/graph.py'],
     [('inference and statistics', 'beer/models/hmm.py HMM')],
     ['accumulated statistics', 'ELBO and expected log-likelihood',
      'posteriors and decoding'],
     'exhaustive enumeration of small HMMs, mappings, paths and call '
     'histories, brute force over all the state paths',
     'All mappings of 3 states to 3 emissions, all given paths, all pairs of '
     'calls; five graphs, generic weights.')

prop('C06', 'Phone-loop transitions always follow the weights of the units',
     'After any history of updates, copies and (un)pickling of a phone-loop, '
     'the transition from the last state of any unit to the first state of a '
     'unit has the probability of leaving the last state times the exponential '
     'of the expected log-weight of the unit entered (given the unit left, for '
     'a bigram) under the current posterior. All the transitions inside the '
     'units and the initial and final probabilities are unchanged. A copy '
     'follows its own weights only.',
     ['histories', 'configurations'],
     'for every history of updates, copies and storage, every layout of the '
     'units, every kind of weights',
     'The tests never update a phone-loop; the recipes only show the final '
     'error rate.',
     ['beer/models/phoneloop.py', 'beer/models/categorical.py',
      'beer/models/categoricalset.py', 'beer/models/parameters.py'],
     [('callback on the update of the weights',
       'beer/models/phoneloop.py PhoneLoop, BigramPhoneLoop')],
     ['log-probabilities of the graph of the phone-loop'],
     'explicit exploration of all operation histories up to a depth',
     'All histories of 2 (thorough 3) operations among 9; units of a single '
     'state are a known finding.')

prop('C07', 'Unit statistics are the expected number of entries in each unit',
     'Training a phone-loop accumulates for each unit the expected number of '
     'times the unit is entered, at the beginning of the utterance or from '
     'the end of a unit (itself included), under the inferred paths: all of '
     'them, the best, or the given one; a bigram counts the entries after '
     'each unit, the beginning having no context. With an alignment graph the '
     'weights get no statistics. The statistics of several utterances add up.',
     ['inputs', 'configurations', 'histories'],
     'for every layout of units, length, inference kind, given path and '
     'sequence of utterances',
     'No test trains a phone-loop.',
     ['beer/models/phoneloop.py', 'beer/graph.py'],
     [('statistics of the weights',
       'beer/models/phoneloop.py PhoneLoop.accumulate')],
     ['statistics of the weights of the units'],
     'exhaustive enumeration of all the state paths of small phone-loops',
     'All paths of <= 5 (6) frames over 4-7 states are enumerated; four '
     'layouts, four kinds of weights.')

prop('C08', 'The command line builds the model described by the configuration',
     'Given a topology configuration and a list of units, the commands build '
     'for every unit the left-to-right graph described (states in order, '
     'probabilities, one emission per emitting state, shared covariance type '
     'and dimension of the group), a phone-loop graph in which every sequence '
     'of units is possible (starting and ending in the requested units), and '
     'a model with the requested prior over the weights. The order of the '
     'units and of the emissions is the one of the configuration groups.',
     ['inputs', 'configurations'],
     'for every configuration of topologies, list of units, start/end group '
     'and prior',
     'The command line has no test.',
     ['beer/cli/subcommands/hmm'],
     [('units', 'beer/cli/subcommands/hmm/mkphones.py'),
      ('phone-loop graph', 'beer/cli/subcommands/hmm/mkphoneloopgraph.py'),
      ('decoding graph', 'beer/cli/subcommands/hmm/mkdecodegraph.py'),
      ('model', 'beer/cli/subcommands/hmm/mkphoneloop.py')],
     ['files written by the commands'],
     'bounded-exhaustive enumeration of configurations against a reference '
     'construction of the graphs',
     'Five topology families, four unit lists; the graphs are compared as '
     'compiled weighted automata, not by layout.')

prop('C09', 'Alignment graphs accept exactly their transcription',
     'The alignment graph of a transcription accepts exactly the state '
     'sequences of its units in order, each with the weights of its own '
     'graph, whatever the repetitions. Decoding with alignment graphs gives '
     'the best path of the graph of the utterance, and accumulating with them '
     'gives the statistics under that graph.',
     ['inputs', 'configurations'],
     'for every set of units and transcription',
     'The command line has no test; the recipes use one corpus.',
     ['beer/cli/subcommands/hmm/mkaligraph.py',
      'beer/cli/subcommands/hmm/decode.py',
      'beer/cli/subcommands/hmm/accumulate.py'],
     [('alignment graph', 'beer/cli/subcommands/hmm/mkaligraph.py main')],
     ['compiled alignment graphs', 'decoded sequences',
      'accumulated statistics'],
     'exhaustive enumeration of all the transcriptions up to a length',
     'All transcriptions of up to 3 (4) units for five sets of units.')

prop('C10', 'Decoding and posteriors cover the requested utterances exactly',
     'Decoding writes one line per requested and known utterance, in the '
     'requested order, with the sequence of units (or the unit of every '
     'frame) of a best path for the given scale; a unit following itself is '
     'reported twice. The posteriors of the states or units, linear or '
     'logarithmic, sum to one at every frame and equal the sum over all the '
     'paths. Unknown utterances are skipped, never fatal.',
     ['inputs', 'configurations'],
     'for every model, selection of utterances, length, scale and output form',
     'The command line has no test.',
     ['beer/cli/subcommands/hmm/decode.py',
      'beer/cli/subcommands/hmm/posteriors.py'],
     [('decoding', 'beer/cli/subcommands/hmm/decode.py main'),
      ('posteriors', 'beer/cli/subcommands/hmm/posteriors.py main')],
     ['standard output and written files'],
     'exhaustive enumeration of utterance selections and options; all '
     'near-optimal paths searched by branch and bound',
     'Every subset and order of 3 (4) utterances; forward-backward reference '
     'in float64.')

prop('C11', 'Any split of the data in jobs trains the same model',
     'Accumulating the statistics of the utterances in any number of jobs, in '
     'any order, then updating, gives the same model as accumulating all of '
     'them at once, which is the exact update of the posteriors for the given '
     'scale and learning rate. This holds over successive iterations with the '
     'state of the optimizer stored between them, and for the single machine '
     'training with any batch size.',
     ['schedules', 'histories', 'configurations'],
     'for every split and order of the utterances, scale, learning rate, '
     'batch size and number of iterations',
     'The distributed training has no test.',
     ['beer/cli/subcommands/hmm', 'beer/inference/vbi.py',
      'beer/models/parameters.py'],
     [('statistics', 'beer/cli/subcommands/hmm/accumulate.py main'),
      ('update', 'beer/cli/subcommands/hmm/update.py main'),
      ('sum of ELBOs', 'beer/inference/vbi.py EvidenceLowerBoundInstance')],
     ['stored model and optimizer state', 'reported ELBO'],
     'exhaustive enumeration of the ordered partitions of the utterances and '
     'of the iteration histories',
     'All ordered splits of 3 (4) utterances; the reference update is '
     'independent numpy code.')

prop('C12', 'Each optimizer step updates exactly the group whose turn it is',
     'Successive steps of the variational optimizer update the groups of '
     'parameters in turn, each from the statistics present at that step with '
     'its learning rate, and leave the others unchanged; resetting clears the '
     'statistics only. Saving the state to the disk and restoring it in a new '
     'optimizer continues with the same group. Combined with gradient descent '
     'each kind of parameter is updated by its own optimizer.',
     ['histories', 'crash_points'],
     'for every number and size of groups and every history of statistics, '
     'resets, steps, saves and restores',
     'The tests run a few steps with one or two groups and never restore.',
     ['beer/inference/vbi.py', 'beer/inference/optimizers.py'],
     [('rotation', 'beer/inference VBConjugateOptimizer.step'),
      ('state', 'beer/inference VBConjugateOptimizer.state_dict')],
     ['parameters after every operation'],
     'explicit exploration of all operation histories up to a depth against a '
     'reference state machine',
     'All histories of 4 (5) operations on 8 layouts of groups, two learning '
     'rates.')

prop('C13', 'Mini-batch statistics and natural gradients give exact updates',
     'The objective of a data set cut in any mini-batches, summed in any '
     'order, stored or synchronized on the way, has the value and the '
     'statistics of the whole data, scaled to the size of the data set. A '
     'natural gradient step moves the natural parameters of the posterior '
     'toward the exact conjugate posterior by the learning rate; with rate one '
     'it is the exact posterior whatever happened before.',
     ['schedules', 'histories', 'inputs'],
     'for every way to cut, order and combine the mini-batches, data set '
     'size, learning rate and history of updates',
     'The tests check one batch and one update per model.',
     ['beer/inference/vbi.py', 'beer/models/parameters.py'],
     [('objective', 'beer/inference/vbi.py evidence_lower_bound'),
      ('natural gradient',
       'beer/models/parameters.py ConjugateBayesianParameter')],
     ['ELBO value', 'posterior after the update'],
     'exhaustive enumeration of the compositions of the data in mini-batches, '
     'summation orders and update histories',
     'All compositions of 4 (6) frames, reference conjugate posteriors in '
     'numpy.')

prop('C14', 'Distributions are consistent across all their representations',
     'For every distribution of the exponential family, alone or in a set: '
     'the standard and natural parameters convert to each other without loss, '
     'the expected sufficient statistics are the gradient of the '
     'log-normalizer, the divergence and the entropy match their definitions, '
     'and indexing a set gives the distribution of the element. The '
     'likelihood function of each agrees with the density it stands for. '
     'Combining incompatible distributions is reported.',
     ['inputs', 'configurations'],
     'for every family, dimension, set size, index, pair of distributions',
     'The tests use one random draw of one size and skip the entropy, the '
     'slices, the densities.',
     ['beer/dists'],
     [('families', 'beer/dists'),
      ('divergence', 'beer/dists/basedist.py kl_div'),
      ('entropy', 'beer/dists/basedist.py entropy')],
     ['parameters, statistics, normalizers, densities'],
     'bounded-exhaustive enumeration of families, sizes, parameter tables, '
     'pairs and slices against closed forms',
     'Parameter tables are finite samples of a continuous space; all discrete '
     'choices are enumerated. Closed forms from scipy and mc/refmodels.py.')

prop('C15', 'Normal and Gamma models start and score as requested',
     'A Normal model or set is created with the requested mean, covariance '
     '(number, vector or matrix) and strength, on the requested type, for '
     'every covariance type. The expected log-likelihood is the expectation '
     'of the log density under the posterior; an element or a slice of a set '
     'scores like the set. Unknown covariance types are reported.',
     ['inputs', 'configurations'],
     'for every covariance type and way to give it, dimension, set size, '
     'posterior, element and slice',
     'The tests use one dimension and one way to give the covariance.',
     ['beer/models/normal.py', 'beer/models/normalset.py',
      'beer/models/gamma.py'],
     [('creation', 'beer/models/normal.py Normal.create'),
      ('sets', 'beer/models/normalset.py NormalSet')],
     ['priors and posteriors', 'expected log-likelihood'],
     'bounded-exhaustive enumeration of configurations against closed forms',
     'All discrete choices; finite tables of parameters and points.')

prop('C16', 'Mixtures share the data between components as their posteriors',
     'A mixture, or each mixture of a set, assigns to every component its '
     'exact responsibility, or the given labels; the objective, the '
     'posteriors and the accumulated statistics of the weights and of the '
     'components are those of that assignment. Mixtures of a set are weighted '
     'by the weights given to them only, and an element or slice of a set '
     'behaves like the set. This holds for far-away data as well.',
     ['inputs', 'configurations', 'histories'],
     'for every number of components and mixtures, labelling, weighting '
     'pattern, slice, magnitude',
     'The tests never use labels, slices or the posteriors method.',
     ['beer/models/mixture.py', 'beer/models/mixtureset.py'],
     [('mixture', 'beer/models/mixture.py Mixture'),
      ('sets', 'beer/models/mixtureset.py MixtureSet')],
     ['expected log-likelihood', 'posteriors', 'statistics', 'ELBO'],
     'bounded-exhaustive enumeration of labellings, weight patterns, slices '
     'and histories against reference mixtures',
     'All labellings of 3 (4) frames, all weight patterns of 2 frames.')

prop('C17', 'Collections of models behave as the list of their elements',
     'A concatenation, repetition or reordering of sets of models scores each '
     'element as the original does, in the listed order, and its statistics '
     'are those of the originals, summed when an element appears more than '
     'once. Indexing gives the original element and the length is the number '
     'of elements.',
     ['inputs', 'configurations'],
     'for every concatenation, repetition, order and nesting',
     'The tests check one concatenation of equal sets.',
     ['beer/models/modelset.py'],
     [('collections', 'beer/models/modelset.py JointModelSet, '
       'RepeatedModelSet, DynamicallyOrderedModelSet')],
     ['expected log-likelihood', 'accumulated statistics', 'elements'],
     'bounded-exhaustive enumeration of concatenations, repetitions and '
     'orders',
     'All concatenations of up to 3 sets, all orders of up to 3 (4) '
     'elements, nesting depth 2.')

prop('C18', 'The training objective bounds the evidence and never decreases',
     'For the conjugate models (Normal, Gamma, categorical, mixtures, HMMs '
     'and HMMs of mixtures), the evidence lower bound never exceeds the '
     'log-evidence of the data, whatever the posterior. No full-data update '
     'of any group of parameters with a learning rate in (0, 1] decreases '
     'it, in any order. For a model without hidden variable it is the '
     'log-evidence after one full update.',
     ['inputs', 'histories'],
     'for every data set, initial posterior and sequence of updates and '
     'learning rates',
     'The evidence needs a sum over all the assignments of the hidden '
     'variables; the tests compare the ELBO with itself.',
     ['beer/inference/objectives.py', 'beer/inference/optimizers.py',
      'beer/models/parameters.py'],
     [('objective', 'beer/inference/objectives.py evidence_lower_bound'),
      ('natural gradient step', 'beer/models/parameters.py '
       'ConjugateBayesianParameter.natural_grad_update'),
      ('normalizers', 'beer/dists/*.py log_norm')],
     ['value of the ELBO after every update'],
     'bounded-exhaustive enumeration of update histories; evidence by '
     'enumeration of every hidden assignment',
     'All hidden assignments of 4-6 frames; all histories of 4 (5) updates '
     'with 3 learning rates.')

prop('C19', 'Weights over categories follow the counts they were trained with',
     'After any sequence of updates, a distribution over categories '
     '(Dirichlet, stick-breaking with or without a prior on its '
     'concentration, sets of them, hierarchical stick-breaking) has the '
     'posterior of the interpolated counts: expected weights, expected '
     'log-weights, divergence to the prior. Stick-breaking weights depend on '
     'the counts only, not on the names of the categories, and a '
     'hierarchical set starts from the expected weights of its root.',
     ['inputs', 'histories'],
     'for every number of categories, order, counts (ties, zeros, huge) and '
     'learning rates',
     'The tests create such models but never update them twice nor re-order '
     'the stick.',
     ['beer/models/categorical.py', 'beer/models/categoricalset.py',
      'beer/dists/dirichlet.py'],
     [('stick-breaking order', 'beer/models/categorical.py '
       'SBCategorical._transform_stats'),
      ('prior on the concentration', 'beer/models/categorical.py '
       'SBCategoricalHyperPrior'),
      ('hierarchy', 'beer/models/categoricalset.py SBCategoricalSet')],
     ['mean', 'expected log-likelihood', 'divergence', 'statistics'],
     'bounded-exhaustive enumeration of update histories and orders against '
     'reference posteriors',
     'All histories of 3 (4) updates of 5 counts and 2 learning rates, all '
     'orders of up to 4 categories; for tied counts any order is accepted.')

prop('C21', 'A subspace gives the units parameters determined by embeddings',
     'The parameters of the units are the expectation of the transformed '
     'embeddings, for plain, discriminant and hierarchical subspaces, and '
     'the objective is the expected log-likelihood of the statistics of the '
     'units minus the divergence of the embeddings; its gradient with '
     'respect to every parameter of the subspace and of the embeddings is '
     'its slope. The models and embeddings created have the requested '
     'dimensions, covariance type and prior strength. Views on a unit, or on '
     'states of a unit, read and write the parameters and the statistics of '
     'these states only. A unit scores the data as its states do in the '
     'whole set.',
     ['inputs', 'configurations'],
     'for every number of units, classes, states, components, dimensions and '
     'samples, every nesting of views',
     'The tests build one subspace and never look at the values.',
     ['beer/models/gsm.py', 'beer/models/parameters.py'],
     [('transform', 'beer/models/gsm.py AffineTransform, _pdfvecs'),
      ('subspaces', 'beer/models/gsm.py GSM, GSMSet, HierarchicalGSM'),
      ('views', 'beer/models/parameters.py SubspaceBayesianParameterView')],
     ['parameters of the units', 'objective', 'statistics through the views'],
     'bounded-exhaustive enumeration of configurations, labellings and views '
     'against a reference subspace; sampler replaced by tables',
     'The noise is enumerated from tables, hence nothing is random.')

prop('C22', 'Subspace phone-loop commands change only what they train',
     'Creating a subspace phone-loop keeps the graph, the weights and the '
     'emissions of the other groups; after every command the parameters of '
     'the units are those given by the stored subspace and embeddings. '
     'Training changes only the requested parts (frozen ones are stored '
     'unchanged, for the hierarchical subspaces too) and training in several '
     'runs with the stored state of the optimizer equals one run. Given '
     'embeddings, classes or another subspace are used to initialize and '
     'never modified.',
     ['histories', 'configurations'],
     'for every history of commands, configuration of the groups, classes of '
     'the units and subset of frozen parts',
     'No test covers these commands.',
     ['beer/cli/subcommands/shmm/', 'beer/cli/subcommands/hshmm/'],
     [('creation', 'beer/cli/subcommands/shmm/mksphoneloop.py'),
      ('training', 'beer/cli/subcommands/shmm/train.py, '
       'beer/cli/subcommands/hshmm/train.py'),
      ('prior', 'beer/cli/subcommands/shmm/setprior.py')],
     ['stored subspace, embeddings and phone-loop after each command'],
     'bounded-exhaustive exploration of command histories on the real '
     'programs with a table-driven noise source',
     'All histories of up to 3 (4) commands, all splits of 4 epochs, all '
     'subsets of frozen parts. The accumulated statistics enter as stored.')

prop('C23', 'Features are the documented transform of the signal',
     'The features of an utterance are the magnitude spectrum of its '
     'windowed frames, passed through the configured steps (triangular '
     'filters at the frequencies of the sampling rate, logarithm, cosine '
     'transform, energy, derivatives, mean normalization), for any subset of '
     'the steps. They depend only on the utterance and the settings: not on '
     'the other utterances, their order, the sample type or how the wav file '
     'is given. Unknown settings and files of another sampling rate are '
     'refused.',
     ['inputs', 'configurations'],
     'for every signal, setting, number of filters, window and list of '
     'utterances',
     'The tests compare one recording with stored features, for one setting.',
     ['beer/features.py', 'beer/cli/subcommands/features/extract.py'],
     [('spectrum', 'beer/features.py short_term_mspec, fbank'),
      ('filters', 'beer/features.py create_fbank, __triangle'),
      ('derivatives', 'beer/features.py add_deltas'),
      ('extraction', 'beer/cli/subcommands/features/extract.py main')],
     ['features returned or written to the disk'],
     'bounded-exhaustive enumeration of impulse signals, filter settings and '
     'step subsets against a naive reference',
     'The spectrum and the derivatives are decided on every impulse (and '
     'pair of impulses), a basis of the signals. Aligned filters may round '
     'either way when a centre is on a bin. Derivatives are half the '
     'regression slope, as in the code.')

prop('C24', 'A data set gives every utterance once, unchanged, with its name',
     'Archiving a directory of features and compiling a data set keeps '
     'exactly the utterances of the directory under their names, with their '
     'frames, whatever the names; the mean, the variance and the number of '
     'frames are those of all the frames. Iterating gives each utterance '
     'exactly once, sorted or in any shuffled order, also while the data set '
     'is iterated, read, stored or copied elsewhere in between. The stored '
     'data set works from any directory.',
     ['inputs', 'histories'],
     'for every set of utterances, names, lengths and history of accesses',
     'No test covers the data sets.',
     ['beer/cli/dataset.py', 'beer/cli/subcommands/dataset/create.py',
      'beer/cli/subcommands/features/archive.py'],
     [('data set', 'beer/cli/dataset.py Dataset, UtteranceIterator'),
      ('statistics', 'beer/cli/subcommands/dataset/create.py accumulate'),
      ('archive', 'beer/cli/subcommands/features/archive.py main')],
     ['iterated utterances', 'random access', 'statistics'],
     'exhaustive exploration of access histories and of all outcomes of the '
     'shuffle on the real code',
     'All histories of 4 (5) accesses, all subsets of 6 utterances, all '
     'permutations of up to 4 (5).')

prop('C25', 'Scores of the recipes are the defined measures',
     'The token error rate is the smallest number of edits over the number '
     'of reference tokens, after the mapping and the merge of repetitions. '
     'Boundary hits pair reference and proposed boundaries one to one within '
     'the tolerance, whatever the number of boundaries. Normalized mutual '
     'information, entropy rate, maximum overlap mapping and the conversions '
     'of transcriptions match their definitions.',
     ['inputs'],
     'for every pair of transcriptions, tolerance, mapping and count table',
     'The recipes have no test.',
     ['recipes/aud/utils/'],
     [('error rate', 'recipes/aud/utils/ter.py wer'),
      ('boundaries', 'recipes/aud/utils/score_boundaries.py get_hits'),
      ('mutual information', 'recipes/aud/utils/nmi.py'),
      ('mapping', 'recipes/aud/utils/maxoverlap_mapping.py, maptrans.py')],
     ['printed scores and transcriptions'],
     'exhaustive enumeration of short transcriptions against brute-force '
     'definitions',
     'Where several pairings are possible the number of hits is only bounded '
     'by the best matching and half of it. score_boundaries2.py (unused) is '
     'not covered.')

prop('C26', 'An interrupted or split training gives the same models',
     'The training recipes (steps/*.sh) give the models of the commands '
     'executed one after the other on all the utterances, for any number of '
     'jobs and any order of the jobs. When the recipe is killed before or '
     'after any command, or any command fails, it ends with an error without '
     'a final model made from what is missing, and running it again (with '
     'any number of jobs, or more epochs) completes it with the same models '
     'as without the incident. A finished recipe does nothing.',
     ['schedules', 'crash_points', 'histories', 'fault_sequences'],
     'for every crash point, failing command, number of jobs, order of the '
     'jobs and number of epochs',
     'The recipes have no test; resuming is exercised only by hand.',
     ['recipes/aud/steps/', 'recipes/aud/utils/parallel/',
      'beer/cli/subcommands/hmm/'],
     [('training', 'recipes/aud/steps/aud.sh, aud_bigram.sh, monophone.sh'),
      ('subspaces', 'recipes/aud/steps/subspace_*.sh, hsubspace_*.sh'),
      ('jobs', 'recipes/aud/utils/parallel/split.sh, submit_parallel.sh, '
       'submit_single.sh, sge/')],
     ['content and presence of the models', 'exit status',
      'commands executed'],
     'fault injection at every command of the real scripts run with a '
     'symbolic `beer`: outputs are terms of their inputs, compared with the '
     'uninterrupted pipeline',
     'Crashes are between commands (a half-written file is not covered). In '
     'the subspace recipes an update executed again starts from the advanced '
     'state of the optimizer: terms are compared without it after a crash. '
     'The symbolic semantics is bound by a history replayed with the real '
     'program.')

prop('C27', 'Interrupted or split decoding and extraction give all results',
     'Decoding, alignment, posteriors, feature extraction and data set '
     'recipes give exactly one result per utterance, equal to the one of the '
     'command run on all the utterances, for any number of jobs. When the '
     'recipe is killed before or after any command, or a command fails, no '
     'incomplete result is taken for a complete one: running it again, with '
     'any number of jobs, gives the complete result.',
     ['schedules', 'crash_points', 'histories', 'fault_sequences'],
     'for every crash point, failing command, number of jobs and utterances',
     'The recipes have no test.',
     ['recipes/aud/steps/', 'recipes/aud/utils/parallel/'],
     [('decoding', 'recipes/aud/steps/decode.sh, align.sh, posteriors.sh'),
      ('features', 'recipes/aud/steps/extract_features.sh, '
       'create_dataset.sh'),
      ('jobs', 'recipes/aud/utils/parallel/')],
     ['content and presence of the results', 'exit status'],
     'fault injection at every command of the real scripts run with a '
     'symbolic `beer`',
     'Crashes are between commands. Up to 12 utterances and 12 (13) jobs.')

prop('C20', 'A stored or copied model is an equal, independent model',
     'Storing (pickle, torch.save) or copying a model at any point of its '
     'training, between the objective and its application included, gives a '
     'model which behaves as the original: the training continued with '
     'either gives the same model as the training which was never '
     'interrupted. The model left behind does not change when its copy is '
     'trained, nor the copy when the original is.',
     ['histories'],
     'for every model and every history of training steps, storage and '
     'copies',
     'No test stores a model; an aliased or forgotten parameter shows only '
     'after the copy has been trained.',
     ['beer/models/', 'beer/inference/', 'beer/dists/'],
     [('parameters', 'beer/models/parameters.py'),
      ('models', 'beer/models/basemodel.py'),
      ('objective', 'beer/inference/objective.py'),
      ('optimizers', 'beer/inference/optimizers.py')],
     ['parameters, statistics, objective and posteriors of the models'],
     'exhaustive enumeration of the histories of operations on the real '
     'models against the uninterrupted training',
     'Models of the importable part of the package with 2-dimensional data.')

prop('C28', 'Auto-regressive networks and flows give exact densities',
     'Whatever connections are drawn, the output d of an auto-regressive '
     'network depends only on the inputs before d, every such dependence is '
     'possible, and frames do not depend on each other. The density given '
     'with the samples of an inverse auto-regressive flow is the one of the '
     'change of variables; the probabilistic layers give the samples and the '
     'densities of their distribution, for the mean too, and gradients go '
     'through the samples.',
     ['inputs', 'configurations'],
     'for every draw of the connections, dimension, depth and noise',
     'The tests draw one network.',
     ['beer/nnet/'],
     [('masks', 'beer/nnet/arnet.py create_mask, create_final_mask, '
       'AutoRegressiveNetwork'),
      ('flows', 'beer/nnet/problayers.py InverseAutoRegressiveFlow'),
      ('layers', 'beer/nnet/problayers.py Normal*Layer, BernoulliLayer')],
     ['outputs and derivatives of the networks', 'samples and densities'],
     'stateless exploration of every draw of the connections (choice tree) '
     'with the derivatives of the real networks',
     'Dependence is read in derivatives at generic points.')

prop('C29', 'The auto-encoder is trained on its variational lower bound',
     'The objective of the variational auto-encoder is, summed over the '
     'frames, the log-likelihood of the data given the latent samples minus '
     'the difference between the densities of the samples under the encoder '
     'and under the prior, with the weights asked for, whatever the prior '
     '(Normal, mixture, HMM, phone-loop), the number of frames and samples. '
     'Its gradient trains the networks and the prior gets the statistics of '
     'the latent samples.',
     ['inputs', 'configurations', 'histories'],
     'for every prior, dimension, number of frames and of samples, noise and '
     'weights',
     'The tests of the auto-encoder do not run.',
     ['beer/models/vae.py', 'beer/inference/objective.py'],
     [('objective', 'beer/models/vae.py expected_log_likelihood'),
      ('prior', 'beer/models/vae.py accumulate'),
      ('networks', 'beer/nnet/residual.py')],
     ['objective', 'gradients', 'statistics', 'parameters after training'],
     'exhaustive enumeration of the configurations with tabulated noise '
     'against the definition',
     'With several samples the objective averages their statistics before '
     'the prior, a lower bound when it is not a Normal.')

prop('C30', 'A network is the composition its configuration describes',
     'The network created from a configuration applies its blocks and their '
     'elements in order, with the arguments given whatever their spacing, '
     'adds the residual connection of each block applied to the input of the '
     'block, and sums transforms of several inputs without changing them. '
     'Unknown elements are refused.',
     ['configurations', 'inputs'],
     'for every composition of elements, blocks and residual connections',
     'The tests sample a few configurations.',
     ['beer/nnet/neuralnetwork.py'],
     [('elements', 'beer/nnet/neuralnetwork.py create_nnet_element, '
       'parse_nnet_element'),
      ('blocks', 'beer/nnet/neuralnetwork.py create_nnet_block, create')],
     ['output of the network', 'exception'],
     'exhaustive enumeration of the configurations against a direct '
     'interpretation',
     'Networks of up to 3 blocks or one block of up to 3 (4) elements.')

prop('C31', 'A reserved GPU was free and is the visible one',
     'Reserving a GPU returns the index of a GPU which was not in use when '
     'last asked and on which memory has been allocated, the only one '
     'visible. A GPU in use is never tried, every free one is tried at each '
     'attempt, at most the given number of attempts are made with the given '
     'wait between them, and an error is raised when none succeeds.',
     ['schedules', 'fault_sequences', 'histories'],
     'for every behaviour of the other processes at every attempt',
     'It needs GPUs in use by others: no test covers it.',
     ['beer/utils.py'],
     [('reservation', 'beer/utils.py reserve_gpu'),
      ('state of the GPUs', 'beer/utils.py get_gpus, get_active_gpus')],
     ['allocations', 'CUDA_VISIBLE_DEVICES', 'result', 'waits'],
     'stateless exploration of every answer of nvidia-smi and outcome of the '
     'allocations',
     'nvidia-smi and the allocation are stand-ins.')

prop('C32', 'Numerical helpers compute what they say',
     'The log-sum-exp is exact and stable for any finite or infinite values, '
     'labels are encoded one-hot, a matrix with a positive eigenvalue is '
     'made symmetric positive definite by raising its small eigenvalues '
     'only, samples are mean plus standard deviation times noise, each row '
     'of a jacobian holds the derivatives of one output, the approximate '
     'Hessian is the sum of the outer products. Their inputs are not '
     'changed.',
     ['inputs'],
     'for every tensor of the enumerated values',
     'The tests sample a few matrices.',
     ['beer/utils.py'],
     [('helpers', 'beer/utils.py logsumexp, onehot, make_symposdef, '
       'jacobians')],
     ['returned tensors'],
     'exhaustive enumeration of small tensors against the definition',
     'make_symposdef is only claimed for matrices whose symmetric part has a '
     'positive eigenvalue.')

prop('C33', 'The parameters of a model are listed once and can be replaced',
     'Whatever the composition of a model, its Bayesian parameters are all '
     'listed, each once and in one mean-field group; the filters (type, '
     'predicate) select exactly the parameters they describe, the divergence '
     'sums over them and the statistics are given for each of them. After '
     'replacing parameters of the emissions, the model is the one built with '
     'the new parameters (values, statistics, updates) and the old '
     'parameters are left alone.',
     ['inputs', 'configurations', 'histories'],
     'for every composition of collections of models and subset of the '
     'parameters',
     'Tests build each model alone; none replaces parameters.',
     ['beer/models/basemodel.py', 'beer/models/modelset.py',
      'beer/models/mixtureset.py', 'beer/models/phoneloop.py'],
     [('listing and replacement', 'beer/models/basemodel.py Model'),
      ('groups', 'beer/models mean_field_factorization')],
     ['listed parameters', 'values', 'accumulated statistics',
      'posteriors after an update'],
     'exhaustive enumeration of the compositions and of the subsets of '
     'parameters, against the model built directly',
     'Compositions of depth 2 (3) of collections, used in nine ways.')

prop('C34', 'A model works in the precision of its parameters',
     'A model created from tensors of simple or double precision has all its '
     'parameters in this precision, whatever the default precision of torch '
     'is, and it can be evaluated, trained, decoded and copied; converting '
     'the model (float, double, to) converts all its parameters. The values '
     'along any history of updates, copies and conversions are the ones of '
     'the computation in double precision, up to the rounding of the least '
     'precise step.',
     ['inputs', 'configurations', 'histories'],
     'for every kind of model, default precision, precision of the model and '
     'history of updates, conversions and copies',
     'The tests use each precision alone, without history.',
     ['beer/models/mixtureset.py', 'beer/models/phoneloop.py',
      'beer/models/hmm.py', 'beer/models/normal.py',
      'beer/models/normalset.py', 'beer/graph.py'],
     [('creation', 'beer/models/*.py create'),
      ('weights of the loop', 'beer/models/phoneloop.py '
       '_on_weights_update')],
     ['precision and values of the parameters', 'ELBO', 'decoded path',
      'posteriors', 'transitions'],
     'bounded-exhaustive exploration of the histories of operations on the '
     'real models, against the history in double precision',
     'Only CPU tensors: there is no GPU in the sandbox.')

prop('C35', 'A killed command never leaves an incomplete result',
     'When a command is killed, or a write fails, at any point while it writes '
     'its results (model, statistics, archive, data set, state of the '
     'optimizer, subspace), the file under the name of the result is absent, '
     'the one of before, or complete. A command which cannot write its result '
     'reports an error. Executing the command again gives the complete '
     'results, and nothing which remains is taken for a result.',
     ['crash_points', 'fault_sequences'],
     'for every command and every point at which it is killed or fails to '
     'write',
     'No test kills a command or makes a write fail.',
     ['beer/cli/output.py', 'beer/cli/subcommands/hmm',
      'beer/cli/subcommands/features/archive.py',
      'beer/cli/subcommands/dataset/create.py', 'beer/cli/subcommands/shmm',
      'beer/cli/subcommands/hshmm'],
     [('writing of the results', 'beer/cli/output.py open_output and its '
       'callers')],
     ['status of the command', 'files', 'results of a second execution'],
     'bounded-exhaustive exploration of the crash points and cut sizes of the '
     'writes of the real commands, against an uninterrupted execution',
     'One-file results only; commands writing one file per utterance in a '
     'directory are checked on their second execution. The model and the '
     'state of the optimizer of one command are two files, not one '
     'transaction.')

prop('C36', 'Evaluating a model has no effect on what follows',
     'Evaluating a model (objective, likelihood, posteriors, decoding, '
     'divergence, an element of a set), with any data, scale, graph, path or '
     'labels, accumulated or not, failed or not, changes neither its '
     'parameters nor its arguments, and has no influence on the result of the '
     'calls and of the training steps which come after: they depend on the '
     'parameters and on their arguments only. An objective computed before '
     'other calls can be applied after them.',
     ['histories', 'inputs'],
     'for every model and every history of evaluations and training steps',
     'Tests call each method once, or always in the same order.',
     ['beer/models/hmm.py', 'beer/models/mixture.py',
      'beer/models/mixtureset.py', 'beer/models/phoneloop.py',
      'beer/models/modelset.py', 'beer/models/basemodel.py',
      'beer/inference/objectives.py'],
     [('cache of the models', 'beer/models/basemodel.py Model.cache and its '
       'users'),
      ('objective', 'beer/inference/objectives.py evidence_lower_bound')],
     ['returned values', 'accumulated statistics', 'gradients', 'posteriors '
      'after training'],
     'bounded-exhaustive exploration of the histories of calls on the real '
     'models, against the same history without the evaluations',
     'The graph computed by torch is not used after the parameters of a '
     'network have changed (torch refuses it). A likelihood and its '
     'accumulation are one call.')

prop('C37', 'An interrupted scoring gives the scores of the complete data',
     'The scoring recipes give the token error rate, the mutual information, '
     'the entropy rate and the scores of the boundaries of the given '
     'transcriptions, with the given mappings, and show them. When the recipe '
     'is killed before, after or in the middle of the output of any program, '
     'or a program fails, no incomplete score is taken for a complete one, '
     'and a failure is reported; running it again gives all the scores and '
     'computes again only the missing ones.',
     ['crash_points', 'fault_sequences', 'configurations'],
     'for every recipe, option and point of interruption or failure',
     'No test runs the recipes.',
     ['recipes/aud/steps/score_aud.sh', 'recipes/aud/steps/score_ter.sh'],
     [('scores', 'recipes/aud/steps/score_aud.sh'),
      ('token error rate', 'recipes/aud/steps/score_ter.sh')],
     ['status', 'files', 'output'],
     'bounded-exhaustive exploration of the crash and failure points of the '
     'real recipes with the real programs, against the programs alone',
     'The programs are those of C25.')

prop('C38', 'A prepared data directory describes exactly its corpus',
     'The preparation of each corpus (recipes/aud/local/*/prepare_data.sh) '
     'gives, for each of its sets, exactly the utterances which have a '
     'transcription, each once, in uttids, with their own recording in '
     'wav.scp and their own phones in trans and ali; a phone always has the '
     'same symbol, two phones have different ones, and the list of units has '
     'exactly the silence and the phones of the training set. Adding corpora '
     '(utils/add_corpus.sh) gives their union with at most the requested '
     'number of utterances of each. When the preparation is killed around or '
     'in the middle of the output of any program, or a program fails, it '
     'does not succeed with missing data, and running it again completes '
     'it; once complete, running it again changes nothing.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'for every corpus, names of utterances, languages and point of '
     'interruption or failure',
     'No test runs the recipes.',
     ['recipes/aud/local/', 'recipes/aud/utils/add_corpus.sh',
      'recipes/aud/utils/prepare_phone_trans.py',
      'recipes/aud/utils/maptrans.py'],
     [('TIMIT', 'recipes/aud/local/timit/prepare_data.sh, phone_ali.py, '
       'timit-norm-trans.py, timit_lang_prep.py'),
      ('ALFFA', 'recipes/aud/local/alffa/prepare_data.sh, '
       'prepare_transcripts.py'),
      ('google_lr', 'recipes/aud/local/google_lr/prepare_data.sh, '
       'prepare_transcripts.py'),
      ('others', 'recipes/aud/local/mboshi, zrc2019, globalphone '
       'prepare_data.sh'),
      ('union', 'recipes/aud/utils/add_corpus.sh')],
     ['uttids, wav.scp, trans, ali, lang/units, maps of the phones', 'status'],
     'bounded-exhaustive exploration of the crash and failure points of the '
     'real recipes on imitations of the corpora, against the data directory '
     'written by hand',
     'Small imitations of the corpora, in their format; git and the Kaldi '
     'scripts of GlobalPhone (gp_*) are stand-ins.')

prop('C39', 'A model gives the same results on any device',
     'A model, its parameters and its statistics, once moved to another '
     'device (or created from tensors of it), is used there exactly as on the '
     'CPU: its objective, gradients, updates, posteriors, best paths, samples, '
     'elements and copies have the same values, none of its tensors stays '
     'behind and no operation mixes tensors of two devices, whatever the '
     'history of trainings and moves; shmm/hshmm train write the same models '
     'with --gpu.',
     ['histories', 'configurations'],
     'for every model and history of updates, moves and copies',
     'The tests only run on the CPU.',
     ['beer/models/', 'beer/graph.py', 'beer/dists/', 'beer/nnet/',
      'beer/inference/', 'beer/cli/subcommands/shmm/train.py',
      'beer/cli/subcommands/hshmm/train.py'],
     [('paths', 'beer/graph.py best_path, beer/models/hmm.py'),
      ('subspaces', 'beer/models/gsm.py'),
      ('commands', 'beer/cli/subcommands/shmm/train.py, hshmm/train.py')],
     ['values', 'device of every tensor'],
     'bounded-exhaustive exploration of histories on the real code, on a '
     'simulated device, against the same history on the CPU',
     'The device is simulated (mc/device.py): values in the memory of the '
     'CPU, the rules of a GPU; real kernels are not executed.')
