"""What each check runs: harness, build, number of runs per tier, and the texts of its evidence file."""
import json, os
_T = {}
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')):
    _p = json.loads(_l)
    _T[_p['id']] = _p['title']
RND = 'injected random_function (seeded source with fault modes)'
PROPS = {}


def prop(pid, groups, rule, real, stub, **kw):
    PROPS[pid] = dict(title=_T[pid], groups=[dict(zip(('harness', 'variant', 'quick', 'thorough'), g[:4]), **(g[4] if len(g) > 4 else {})) for g in groups], rule=rule, real=real, stub=stub, **kw)


CUCKOO = 'One run is a random geometry (bucket count and size, entry width, empty value), a random or adversarial hash family, and 5-140 (thorough: 400) steps of add, remove, lookup, clear, bursts past the capacity, checkpoint and crash/restore, each step with its own seeded random source that may be stuck, coarse or alternating. '
prop('C01', [('cuckoo', 'plain', 30000, 600000), ('cuckoo', 'asan', 2000, 40000)],
     CUCKOO + 'Non-trivial: something is stored at the end and at least one add went through evictions or was refused.',
     ['CuckooFilter (all of cuckoo_filter.hpp)'], ['hash and fingerprint functions', RND],
     state_measure='distinct (multiset of stored fingerprints, geometry, hash family) after a step')
prop('C02', [('cuckoo', 'plain', 30000, 600000), ('cuckoo', 'asan', 2000, 40000)],
     CUCKOO + 'Non-trivial: something is stored at the end and at least one add went through evictions or was refused.',
     ['CuckooFilter (all of cuckoo_filter.hpp)'], ['hash and fingerprint functions', RND],
     state_measure='distinct (multiset of stored fingerprints, geometry, hash family) after a step')

prop('C28', [('cuckoo', 'plain', 9000, 250000), ('cuckoo', 'asan', 300, 8000)],
     'One run is one geometry (64-512 buckets of 4-8 entries, 6-8 bits) and 1-3 (thorough: 5) steps with an ideal source, each with its own random hash tables: ensembles of 20 filters filled until the first refusal, or 1000-8000 (thorough: 30000) adds and removals at three quarters of the capacity with checkpoints and crashes. The mean load at the first refusal, the smallest one and the share of refused adds are judged. Margins: the mean of 20 fills lies more than ten standard deviations above its bound. Non-trivial: always.',
     ['CuckooFilter (all of cuckoo_filter.hpp)'], ['hash and fingerprint functions', RND + ' (ideal)', 'checkpoint storage'],
     state_measure='distinct (geometry, elements taken) after a step', time_unit='adds and removals')
prop('C03', [('bloom', 'plain', 60000, 1500000), ('bloom', 'asan', 6000, 100000)],
     'One run is three replicas of one filter geometry fed by 6-100 (thorough: 300) steps of publish, deliver (in any order, twice, or retried after loss), checkpoint, crash with restore through set() in dirty memory and redelivery, clear and set. After the last step everything pending is delivered and replicas that were never cleared must agree. Non-trivial: something published, at least one duplicated or reordered delivery and at least one crash.',
     ['BloomFilter (all of bloom_filter.hpp)'], ['hash functions (random, regular or clustered tables)', 'network between the publisher and the replicas', 'checkpoint storage'],
     state_measure='distinct (bit array, geometry, replica) after a step',
     assumptions=['hash functions return indexes inside the filter (documented contract)', 'the array given to set() has the layout of the filter itself: one byte per bit'])

RES = ['ReservoirSampling, ExponentialReservoirSampling (all of reservoir_sampling.hpp)']
CHA = ['ChainedReservoirSampling (all of chained_reservoir.hpp)']
prop('C04', [('reservoir', 'plain', 60000, 1500000), ('reservoir', 'asan', 6000, 100000)],
     'One run is one reservoir class and size and 4-120 (thorough: 300) offers, by add or by sample_index, bursts, checkpoints and crashes, under a random source over the closed interval [0,1] that may be stuck at 0 or 1, coarse or alternating. Non-trivial: at least one element replaced another in a full sample.',
     RES, [RND, 'injected floor'], state_measure='distinct (class, size, elements in the slots) after a step')
prop('C05', [('reservoir', 'plain', 1500, 30000)],
     'One run is an ensemble of 20000 (thorough: 60000) complete simulated histories of one class, size and stream length under one uniform seeded source; frequencies are compared with the exact probabilities (6.5 sigma; chi-square at df + 8 sqrt(2 df) + 30). Every ensemble is non-trivial; distinct by the vector of frequencies.',
     RES + CHA, [RND, 'injected floor and malloc'], state_measure='distinct (class, size, length, frequency of the first element)')
CH = 'One run is one reservoir size and 8-160 (thorough: 500) steps of offers with irregular, standing or jumping timestamps (also close to the largest unsigned), bursts, obsolete calls at the largest legal time or earlier, repeated calls%s, under a random source over [0,1] with fault modes. Non-trivial: at least two legal obsolete calls and more than two windows of offers.'
prop('C06', [('reservoir', 'plain', 50000, 1200000), ('reservoir', 'asan', 5000, 80000)], CH % ' and calls beyond the data', CHA, [RND, 'malloc', 'clock of the stream (timestamps)'],
     time_unit='timestamp units of the simulated stream', state_measure='distinct (size, cells allocated, age of the element in every slot) after a step',
     assumptions=['timestamps are non-decreasing and at least 1 (0 marks a free cell)'])
prop('C07', [('reservoir', 'plain', 50000, 1200000), ('reservoir', 'asan', 5000, 80000)], CH % ', calls beyond the data and failing allocations', CHA, [RND, 'malloc (counts, guards and fails)', 'clock of the stream (timestamps)', '__assert_fail (a failed allocation stops the reservoir, the run then inspects its memory)'],
     time_unit='timestamp units of the simulated stream', state_measure='distinct (size, cells allocated, age of the element in every slot) after a step',
     assumptions=['timestamps are non-decreasing and at least 1 (0 marks a free cell)', 'less than 5000 elements per window and slot (limit of the library)'])

LT = 'One run is one instantiation of LTC (integer and floating values and timestamps, epsilon 0-50, several ranges and time units) and 3-25 (thorough: 60) phases of a simulated sensor: lines, noise below, at and above epsilon, spikes, saturation, stuck sensor, gaps and irregular sampling, random walks. Non-trivial: at least three points were transmitted.'
prop('C08', [('ltc', 'plain', 60000, 1500000), ('ltc', 'asan', 6000, 100000)], LT, ['LTC (all of ltc.hpp)'], ['sensor and its clock', 'receiver that interpolates between transmitted points'],
     time_unit='timestamp units of the simulated clock', state_measure='distinct (instantiation, points transmitted, level, samples since the last kept point) after a phase',
     assumptions=['timestamps strictly increase and values lie in [min_value, max_value]', 'floating comparison tolerance 1e-6 plus 1e-6 of the range for float'])
prop('C09', [('ltc', 'plain', 60000, 1500000), ('ltc', 'asan', 6000, 100000)], LT, ['LTC (all of ltc.hpp)'], ['sensor and its clock', 'receiver that reads the transmitted point at any time'],
     time_unit='timestamp units of the simulated clock', state_measure='distinct (instantiation, points transmitted, level, samples since the last kept point) after a phase',
     assumptions=['timestamps strictly increase and values lie in [min_value, max_value]', 'a transmission is called needless only when a line fits with 1e-6 to spare, or when all times since the kept point are powers of two and all values short binary fractions (then the arithmetic is exact and a line that only touches a margin must do)'])

prop('C10', [('mcnn', 'plain', 50000, 1200000), ('mcnn', 'asan', 5000, 80000)],
     'One run is one instantiation of MCNN (feature type and count, cluster budget), random error threshold, cleaning method and performance threshold, and 4-90 (thorough: 250) steps of training, bursts, predictions, far points, concept drift, swapped and unexpected labels, checkpoints and crashes; 30% of the runs use well separated groups, where predictions must be exact. Non-trivial: more than ten samples, and either separated groups or at least two added clusters.',
     ['MCNN (all of mc_nn.hpp)'], ['sample source'], state_measure='distinct (instantiation, number of clusters, labels known, history of results) after a step',
     assumptions=['features are finite; integer features stay within +-500 when trained so that the sums of squares kept in the feature type do not overflow'])
prop('C22', [('stats', 'plain', 40000, 1000000), ('stats', 'asan', 4000, 60000)],
     'One run is three replicas of NaiveBayes, ErrorMetrics and KappaMetrics that receive the same samples in different orders (one of them receives a sample of weight w as w deliveries) over 6-110 (thorough: 300) steps of publish, deliver, query, reset, extra errors; they must agree after every synchronisation. Non-trivial: at least four samples and three reordered deliveries.',
     ['NaiveBayes', 'ErrorMetrics', 'KappaMetrics'], ['network between the source and the replicas', 'log and sqrt (C library)'],
     state_measure='distinct (instantiation, samples published and delivered per replica, history of results) after a step',
     assumptions=['feature values lie on a grid of 1/8 so that variances are either zero or far from it', 'score tolerance 1e-6 relative'])

prop('C11', [('hoeffding', 'plain', 16000, 400000), ('hoeffding', 'asan', 1600, 30000)],
     'One run is one tree shape, one of ten buffer sizes (root only up to about ten splits, around the exact thresholds), a random delta and 2-14 (thorough: 40) phases of a stream whose labels follow a random concept with label noise and drift. A tree of the same parameters with a 400 kB buffer runs in lockstep until the small one refuses its first split. Non-trivial: the small tree ran out of space.',
     ['HoeffdingTree (all of hoeffding_tree.hpp), twice'], ['sample source', 'log and log2 (C library)'], state_measure='distinct (shape, buffer size, exhausted, history of results) after a phase',
     assumptions=['every feature set has at least two candidate splits and the root limits are set with get_root()->set_limits before training'])
prop('C12', [('hoeffding', 'plain', 10000, 250000), ('hoeffding', 'asan', 800, 15000)],
     'One run is one tree shape and one axis-parallel concept (any feature, any candidate split; more than half of the possible ones with a second level on another or on the same feature), up to 5 (thorough: 10) one-sided bursts, then both sides in fair order until everything is predicted correctly (bound: 9000 samples), then hostile training of one side while the other side must answer bit for bit the same. Non-trivial: at least one hostile phase.',
     ['HoeffdingTree (all of hoeffding_tree.hpp)'], ['sample source', 'log and log2 (C library)'], state_measure='distinct (feature, split, delta, samples seen) after a burst',
     assumptions=['the first two samples are the corners of the feature space, so that candidate splits of fresh leaves are known'])

MON = 'One run is one feature type and shape, 1-5 trees, random lifetime, discount and base measure and 2-12 (thorough: 30) steps of '
prop('C13', [('mondrian', 'plain', 8000, 250000), ('mondrian', 'asan', 800, 15000)],
     MON + 'training on blobs, grid points, degenerate features, outliers, duplicates and label noise, and of predictions. Bounded, unbound and coarse forest run in lockstep, each twice: one of the two is asked for predictions on the way, the other only at the end. Non-trivial: at least ten samples.',
     ['MondrianForest', 'MondrianForestUnbound', 'CoarseMondrianForest', 'Utils'], [RND + ' (same draws for every forest)', 'exp and log (C library)'],
     state_measure='distinct (shape, trees, samples, history of labels and draws) after a step',
     assumptions=['scores are compared with 1e-9 relative tolerance, labels where the scores differ by more', 'random_function returns values in [0,1['])
prop('C14', [('mondrian', 'plain', 40000, 600000), ('mondrian', 'asan', 3000, 40000)],
     MON + 'training, repetition of one sample until it must have won, and predictions, in forests of 1 to 40 nodes (coarse forest also with a depth or size limit). Non-trivial: more than twice as many samples as nodes.',
     ['MondrianForest', 'CoarseMondrianForest (original extension)', 'Utils'], [RND, 'exp and log (C library)', 'memory budget'],
     state_measure='distinct (shape, trees, nodes, samples, history of results) after a step',
     assumptions=['n + 4500 repetitions after n other samples decide a leaf', 'a third of the runs drives both forests with the same number of nodes in lockstep, the draws of every sample starting from its own seed'])
prop('C15', [('mondrian', 'plain', 40000, 800000), ('mondrian', 'asan', 3000, 40000)],
     MON + 'training without faults, training with the k-th allocation of every call failing, training with random failures, repetition of one sample after the faults stopped, destruction and rebuilding. Single-tree forests of the same parameters are trained side by side with the same draws and faults. Non-trivial: at least one train() ended with bad_alloc.',
     ['MondrianForestUnbound', 'Utils'], ['global operator new and delete (count, tag, fail)', RND, 'exp and log (C library)'],
     state_measure='distinct (shape, trees, live blocks, samples, failed calls) after a step')
COA = 'One run is one shape, 1-250 nodes, 1-5 trees, one extension policy, management and depth limit and 2-12 (thorough: 30) steps of training on blobs, grids, outliers and duplicates, growing until the pool is exhausted, geometrically growing outliers (deep trees), predictions'
prop('C16', [('coarse', 'plain', 60000, 900000), ('coarse', 'asan', 4000, 40000)],
     COA + '. The reference model is the list of the samples every tree took: leaf counters and, for the original and stopped extension, all boxes must be exactly those of the samples routed there. Non-trivial: at least 20 samples and the pool exhausted or a depth limit.',
     ['CoarseMondrianForest (all extension policies)', 'Utils', 'ErrorMetrics'], [RND, 'exp and log (C library)', 'memory budget'],
     state_measure='distinct (nodes used, policies, samples, history of results) after a step',
     assumptions=['random_function returns values in [0,1['])
prop('C17', [('coarse', 'plain', 60000, 900000), ('coarse', 'asan', 4000, 40000)],
     COA + ' and explicit trimming (besides the automatic one). Every node is audited after every sample, prediction and trim. Non-trivial: at least 20 samples and the pool exhausted, a trim or a depth limit.',
     ['CoarseMondrianForest (all extension and trimming policies)', 'Utils', 'ErrorMetrics'], [RND, 'exp and log (C library)', 'memory budget'],
     state_measure='distinct (nodes used, policies, samples, history of results) after a step',
     assumptions=['random_function returns values in [0,1['])

ALLC = ['BloomFilter', 'CuckooFilter', 'ReservoirSampling', 'ExponentialReservoirSampling', 'ChainedReservoirSampling', 'LTC', 'MCNN', 'NaiveBayes', 'ErrorMetrics', 'KappaMetrics', 'MultiLayerPerceptron', 'HoeffdingTree', 'MondrianForest', 'MondrianForestUnbound', 'CoarseMondrianForest']
MDL = 'One run is one class in one of its 2-5 template configurations with random constructor arguments and 6-160 (C21: 240; thorough: 700) calls chosen by seeds, each with its own seeded random source that may be stuck, coarse or alternating'
prop('C19', [('models', 'plain', 40000, 500000), ('models', 'asan', 4000, 50000)],
     MDL + ', checkpoints by copy construction (into dirty memory, copied again, used and destroyed on the side) or by assignment over an older checkpoint or over a used object, and crashes at any call that overwrite the device, restore the last checkpoint and replay the calls since, against a reference device that never crashes. Non-trivial: at least one crash.',
     [c for c in ALLC if c not in ('ChainedReservoirSampling', 'HoeffdingTree', 'MondrianForestUnbound')], [RND, 'hash functions', 'checkpoint storage', 'activation function'],
     state_measure='distinct (class, configuration, history of all results) after a call', time_unit='calls made on the device')
prop('C20', [('models', 'plain', 40000, 500000), ('models', 'o0', 4000, 50000), ('models', 'asan', 3000, 30000)],
     MDL + '. The same history is executed in two environments: zeroed object, stack and heap memory, constant clock and C random generator, nothing else running; and dirty object memory, stack frames overwritten before every call, dirty heap memory, another address, jumping clock and generator, other locale, other objects of the same and other classes created, used and abandoned in between. All results must be the same bits. Non-trivial: other objects were used in between.',
     ALLC, [RND, 'rand, random, drand48, time, clock, gettimeofday, clock_gettime', 'operator new, malloc', 'hash functions', 'activation function'],
     state_measure='distinct (class, configuration, history of all results) after a call', time_unit='calls made on the object')
prop('C21', [('models', 'plain', 30000, 400000), ('models', 'asan', 16000, 200000)],
     MDL + ', in a dirty object between guard zones that is moved (copied and destroyed) now and then. Allocations inside library calls are counted. Non-trivial: more than four calls.',
     ALLC, [RND, 'operator new, operator delete, malloc (counted)', 'hash functions', 'activation function'],
     state_measure='distinct (class, configuration, history of all results) after a call', time_unit='calls made on the object',
     assumptions=['feature values, labels and sizes are inside the documented ranges', 'unaligned accesses inside the object are not reported (the byte buffers of HoeffdingTree and CoarseMondrianForest are not aligned)'])
prop('C18', [('tasks', 'plain', 80000, 900000)],
     'One run is two to four tasks with objects of the same or different classes, each with its own list of calls. The library is compiled so that every memory access it makes is a preemption point; a seeded scheduler preempts there with a probability between 1 and 2^-18, with a higher one at static data, stalls tasks, and kills tasks inside a call (they start again with a new object). Every life of every task is then run again alone and must give the same results. Non-trivial: at least one preemption.',
     ALLC, ['task scheduler (fibers; the runtime behind -fsanitize=thread)', 'initialisation guards of static variables, thread-local storage', RND, 'hash functions', 'activation function', 'operator new, malloc'],
     state_measure='distinct interleavings (hash over all preemption points and the tasks preempted)', time_unit='preemptions')

prop('C23', [('perceptron', 'plain', 60000, 1200000), ('perceptron', 'asan', 6000, 80000)],
     'One run is one of 13 shapes and activation functions, a random learning rate and initial draws (that may be stuck) and 3-40 (thorough: 120) steps of feed_forward, backpropagate, short epochs, the three forms of set_weights (also between the two calls), checkpoint and crash with restore into dirty memory. After every call all weights and outputs are compared with a textbook network. Non-trivial: at least two gradient steps.',
     ['MultiLayerPerceptron (all of perceptron.hpp)'], [RND, 'activation function and its derivative', 'checkpoint storage'], state_measure='distinct (shape, history of all results) after a step', time_unit='calls made on the network',
     assumptions=['feed_forward is called again before the next backpropagate', 'tolerance per call: what rounding in another order of summation may change, times ten; the reference starts every call from the weights of the object'])

prop('C24', [('hoeffding', 'plain', 16000, 400000), ('hoeffding', 'asan', 1000, 20000)],
     'One run is one tree shape, buffer size (ample or exhausted after some splits), root candidates (even, random or default), a random delta and 1-14 (thorough: 40) phases of a stream with random concepts, noise, drift, correlated and repeated feature values. A reference tree receives the same samples; split decisions, refusals and scores of the sample and of random probes are compared after every sample. A run ends at a near tie (relative 1e-6 around the bound, 1e-7 around a cut). Non-trivial: at least one split.',
     ['HoeffdingTree (all of hoeffding_tree.hpp)'], ['sample source', 'log and log2 (C library)'], state_measure='distinct (shape, splits, samples, history of results) after a phase', time_unit='samples',
     assumptions=['at least two candidate splits', 'the decision of a leaf within 1e-6 (relative) of the bound is not judged'])
prop('C25', [('mcnn', 'plain', 40000, 1000000), ('mcnn', 'asan', 2000, 40000)],
     'One run is one feature type, dimension, budget (1-50), error threshold (0-7), cleaning method, performance threshold and 1-10 (thorough: 30) bursts of a stream with overlapping, drifting groups, label noise and new labels, on a grid (exact ties) or not. A reference list of micro-clusters takes the same samples; the return value and count of every train() and the labels of the sample and of four probes (at and between centroids) are compared. Near ties keep every possible outcome as a separate world; contradicted worlds are dropped; a run ends when more than 48 remain. Non-trivial: more than 10 samples and two clusters added.',
     ['MCNN (all of mc_nn.hpp)'], ['sample source'], state_measure='distinct (configuration, clusters, history of results) after a burst', time_unit='samples',
     assumptions=['choices within 1e-10 (float: 3e-5) relative of a tie are not judged', 'a cluster that is itself the least participating one when it has to split at a full budget may keep either half or take the next slot'])

prop('C26', [('coarse', 'plain', 3200, 24000), ('coarse', 'asan', 60, 1200), ('mondrian', 'plain', 3000, 60000)],
     'One coarse run is one dimension, lifetime, number of trees, policy and kind of stream, and an ensemble of 30-2500 (thorough: 4900) forests trained on 4-43 samples each with an ideal random source: every step of every tree is compared node by node with what the Mondrian process allows, and the split decisions, times, features and values of the ensemble with its distribution (sums of differences from conditional probabilities, ten-bin histograms of probability integral transforms, correlations; alarm above 7.5 standard deviations). A mondrian run drives bounded, unbound and coarse forest with the same draws and compares every score. Non-trivial: more than 200 splits (ten samples for lockstep runs).',
     ['CoarseMondrianForest', 'MondrianForest', 'MondrianForestUnbound', 'Utils'], [RND + ' (ideal)', 'exp and log (C library)'], state_measure='distinct (history of split times) after a forest; (shape, trees, samples, history) after a lockstep step', time_unit='samples',
     assumptions=['random_function returns 31-bit uniform values in [0,1['])

prop('C27', [('coarse', 'plain', 30000, 600000), ('coarse', 'asan', 2000, 30000), ('mondrian', 'plain', 8000, 200000), ('mondrian', 'asan', 600, 12000)],
     'One coarse run is ' + COA[11:] + ' (of points seen, near, between and far away, by all or by the first few trees) and explicit trimming: every score is compared with the posterior mean computed from the nodes of the trees by a recursive reference. One mondrian run drives bounded, unbound and coarse forest with the same draws: their scores must be the same, and a distribution when the base measure is one. Non-trivial: at least 20 samples and the pool exhausted, a trim or a depth limit (ten samples for lockstep runs).',
     ['CoarseMondrianForest (all extension and trimming policies)', 'MondrianForest', 'MondrianForestUnbound', 'Utils', 'ErrorMetrics'], [RND, 'exp and log (C library)', 'memory budget'],
     state_measure='distinct (nodes used or samples, policies, history of results) after a step',
     assumptions=['scores are compared with 1e-9 absolute tolerance', 'finite lifetime', 'random_function returns values in [0,1['])

prop('C29', [('utils', 'plain', 40000, 1500000), ('utils', 'asan', 3000, 60000)],
     'One run is 2-10 (thorough: 24) steps, each with its own seeded random source (ideal, coarse, stuck at an end or in the middle, alternating; it may reach 1 where the contract allows it): build a distribution of 1-12 values (null, equal, very uneven) and draw 2000 indexes; draw 2000 exponential values; shuffle 0-6 elements 2400 times; compare the numeric helpers on random, equal and half-integer arguments. Frequencies are judged by Bernstein and Dvoretzky-Kiefer-Wolfowitz bounds with an error probability below 1e-15 each. Non-trivial: at least one law judged.',
     ['Utils (all of utils.hpp)'], [RND, 'log and exp (C library)'], state_measure='distinct (operation, history of results) after a step', time_unit='batches of helper calls',
     assumptions=['the generator of the simulator stands in for an ideal source'])
