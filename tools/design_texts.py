"""How each property is decided (text of DESIGN.md)."""
HOW = {
'C01': ('Every subset of the possible arcs of small graph skeletons is built '
        'through the real `Graph` API and compiled.',
        'Reference model: sum over all the routes through non-emitting states '
        '(matrix of the non-emitting closure, written independently).'),
'C02': ('Breadth-first exploration of sequences of editing operations on real '
        '`Graph` objects; the state is the weighted language of the graph.',
        'Reference model: substitution and rescaling of weighted languages '
        '(dictionary sequence -> weight) up to a length.'),
'C03': ('Every support of the initial/transition/final distributions x every '
        'pattern of log-likelihoods, given to the real forward-backward.',
        'Enumeration of all the state paths (the executions of the HMM); '
        'gradients of the log-likelihood as a second opinion.'),
'C04': ('Same space as C03 given to the real Viterbi decoder; `HMM.decode` '
        'for every mapping of states to emissions.',
        'Maximum over all the state paths; any maximiser is accepted.'),
'C05': ('All the mappings of states to emissions x inference modes x graphs, '
        'and all histories of calls on one model.',
        'Frame posteriors from the enumeration of all the paths, statistics '
        'computed from them in numpy; each call of a history is compared with '
        'the same call on a fresh model (no leak).'),
'C06': ('Explicit-state exploration of histories of updates, copies and '
        '(un)pickling of real phone-loops; states are hashed by the '
        'transition matrix and the posterior.',
        'Transition matrix recomputed from the posterior of the weights and '
        'the unit layout.'),
'C07': ('All layouts x weights x inference modes x utterances.',
        'Expected entries counted on all the enumerated state paths.'),
'C08': ('The real command line executed in process for every configuration, '
        'list of units, prior and option.',
        'Graphs, emissions and priors rebuilt from the text of the '
        'configuration.'),
'C09': ('Every transcription up to a length through `mkaligraph`, then '
        'decoding and accumulation with the archive.',
        'Accepted sequences and weights built by concatenation of the units; '
        'best path and statistics by enumeration.'),
'C10': ('Every request (subset, order, unknown names, source) x options.',
        'Best path/posteriors by enumeration of all the paths.'),
'C11': ('Every ordered set partition of the utterances into jobs (the '
        'schedules of the distributed training), including empty jobs, '
        'through the command line; chains of iterations.',
        'One numpy computation of the exact update on all the data.'),
'C12': ('All histories of operations on the optimizer for several layouts '
        'of the groups.',
        'A small model of the turn counter and of the stored statistics, '
        'replayed against the real optimizer after each operation.'),
'C13': ('Every composition of the data in mini-batches and every way to sum, '
        'store and synchronise the objectives; histories of updates.',
        'Exact conjugate update in numpy.'),
'C14': ('Every family x dimension x size of set x parameter table x view.',
        'Definitions: numerical gradient (autograd, float64) of the '
        'log-normaliser, closed-form densities, divergences by definition.'),
'C15': ('Every way to specify a Normal/Gamma model or set.',
        'Expectations written from the definition (digamma forms).'),
'C16': ('Every labelling, weight pattern, magnitude of the data and view.',
        'Responsibilities computed component by component.'),
'C17': ('Every concatenation, repetition, reordering and nesting.',
        'Scores and statistics of the elements taken one by one.'),
'C18': ('All histories of full-data updates of small models.',
        'Log-evidence by enumerating all the assignments of the hidden '
        'variables (each term in closed form), monotonicity on each '
        'transition.'),
'C19': ('All histories of updates of the weights, every permutation of the '
        'counts and every order of the categories.',
        'Posterior of the interpolated counts, expectations by definition.'),
'C20': ('All histories of training, storage and copy operations on 23 real '
        'models.',
        'The same training without storage (differential), plus invariance '
        'of every model left behind.'),
'C21': ('Every layout of units, labelling, noise table and view.',
        'Definition of the objective and of the expected parameters with the '
        'same noise; statistics by definition.'),
'C22': ('All histories of the subspace commands through the command line.',
        'The stored subspace and embeddings re-evaluated, differential with '
        'the uninterrupted run, equality of everything not trained.'),
'C23': ('A basis of signals (all impulses and pairs: the transform of the '
        'frames is linear up to the modulus) and all combinations of steps.',
        'Discrete Fourier sum, filters from their definition, derivatives by '
        'the regression formula.'),
'C24': ('All subsets of utterances and histories of accesses, every outcome '
        'of the shuffle.',
        'The directory of features itself.'),
'C25': ('Every short transcription/segmentation/count table.',
        'Brute force: all edit scripts, all matchings, definition of the '
        'information measures.'),
'C26': ('The real recipe scripts under a symbolic `beer` and `qsub`: the '
        'content of a file is a term over the contents of its inputs. A crash '
        'before/after and a failure of every command are injected, then the '
        'recipe is run again.',
        'The term of the uninterrupted pipeline. The symbolic semantics is '
        'bound to the code by replaying a history with the real program.'),
'C27': ('As C26 for decoding, alignment, posteriors, features, data sets, '
        'for every split in jobs.',
        'One result per utterance, equal to the one of the single command.'),
'C28': ('Choice-tree exploration: every draw of the random connections.',
        'Derivatives of the real network; change of variables with the '
        'determinant of the full Jacobian.'),
'C29': ('Every prior x dimensions x frames x samples x noise table x '
        'weights, histories of training steps.',
        'Definition of the lower bound and its gradient by autograd.'),
'C30': ('Every composition of elements, blocks and residual connections.',
        'Direct interpretation in numpy.'),
'C31': ('Choice-tree exploration: every answer of nvidia-smi and every '
        'outcome of the allocations.',
        'Trace monitor (never a busy GPU, every free one, waits, bound).'),
'C32': ('Every small tensor over extreme values.',
        'Definitions in plain Python/numpy.'),
'C33': ('Every composition of collections of models up to a depth x every '
        'use x every subset of the parameters.',
        'The parameters created by the harness, and the model built directly '
        'with the new parameters.'),
'C34': ('Every history of updates, conversions and copies, for every model, '
        'precision and default precision.',
        'The same history without conversions in double precision.'),
'C35': ('Every real command, in a process killed before each of its '
        'operations on files, and killed or failing when a file reaches each '
        'of a list of sizes, over a previous result or not, then executed '
        'again.',
        'The results of the uninterrupted command.'),
'C36': ('Every history of 3 calls among the evaluations and the training '
        'steps of 23 models, aborted calls included.',
        'The same history without the evaluations, on a new model.'),
'C37': ('The real recipes with the real programs, killed before, after or '
        'in the middle of the output of every program, or with a failure of '
        'every program, then executed again.',
        'The programs alone on the complete transcriptions, and the error '
        'rate recomputed by hand.'),
'C38': ('The real preparations of imitations of 7 corpora, killed before, '
        'after or in the middle of the output of every program, or with a '
        'failure of every program, then executed again; every union of 1 to 3 '
        'corpora.',
        'The data directory derived from the corpus by the harness, '
        'independently of the names given to the symbols.'),
'C39': ('Every history of updates, moves between two devices and copies, for '
        'every model, on a simulated device which refuses to mix its tensors '
        'with those of the CPU.',
        'The same history on the CPU.'),
}
