#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so the wording can be wrapped and reviewed)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    d=dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=over,text=' '.join(text.split())),
      why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**kw))
    if 'state' in kw: d['anchors']['state']=[dict(name=s) for s in kw['state']]
    P.append(d)

p('C01','Cuckoo filter never loses an acknowledged element',
 '''After any history of CuckooFilter add, remove (of elements currently stored) and clear calls, lookup(e) returns true for every
 element whose add returned true and which has been neither removed nor cleared since. This holds at every fill level, for every
 random source in [0,1[ and every empty_value; an add that returns false leaves the answers for all acknowledged elements unchanged.''',
 ['histories','inputs','fault_sequences'],
 '''every interleaving of add/remove/clear/lookup requests from many clients, every fill level including a full filter, every sequence of
 values of the injected random source, every filter geometry (buckets, entries per bucket, fingerprint width, empty_value)''',
 '''The unit tests fill a filter far below capacity with one random sequence; an element is only lost when evictions fail or when a
 particular eviction path is taken near capacity.''',
 ['src/cuckoo_filter.hpp'],
 [('eviction loop of add','CuckooFilter::add'),('lookup over the two candidate buckets','CuckooFilter::search'),('initial/cleared contents','CuckooFilter::CuckooFilter, clear')],
 state=['filter bit array'],observe_at=['add/lookup/remove/clear return values'])

p('C02','Cuckoo filter accounts exactly for fingerprints',
 '''A CuckooFilter answers exactly like a multiset of (fingerprint, pair of candidate buckets): lookup(e) is true iff a copy of e's
 pair is stored, remove(e) takes out exactly one copy (none if there is none), a refused add stores nothing, and clear empties it.
 add never stores more than bucket_size copies per bucket and never refuses while one of the two candidate buckets of e has a free entry,
 in particular while the filter holds fewer elements than one bucket's worth.''',
 ['histories','inputs'],
 '''every history of add/remove/lookup/clear, including removes of absent elements and duplicate adds, for every random source and geometry''',
 '''Which entry holds a fingerprint depends on the whole eviction history; tests only check a fixed insertion list and never a long mix with
 removals in a nearly full filter.''',
 ['src/cuckoo_filter.hpp'],
 [('entry packing','CuckooFilter::get_entry/set_entry'),('partner bucket','CuckooFilter::add, search'),('removal','CuckooFilter::remove')],
 state=['filter bit array'],observe_at=['add/lookup/remove/clear return values'])

p('C03','Bloom filter replicas: no false negative, exact bits, restore',
 '''A BloomFilter lookup returns true iff every bit selected by the hash functions for that element was set by an added element since the last
 clear or restored by set(); hence no added element is ever reported absent. The state is the union of what was added: duplicated, reordered or
 retried adds give the same answers, and a replica that crashes and is restored by set() from a checkpointed bit array plus redelivery of the later adds answers
 like one that never crashed.''',
 ['histories','fault_sequences','schedules'],
 '''every delivery schedule (delay, duplication, reordering, loss with retry, partition) of adds to several replicas, every crash point between checkpoints, every filter size and number of hash functions''',
 '''The tests add two elements to one filter once; convergence after faults and exactness over long histories are never exercised.''',
 ['src/bloom_filter.hpp'],
 [('bit set/test','BloomFilter::set_bit_to_one/get_bit'),('restore','BloomFilter::set'),('clear','BloomFilter::clear')],
 observe_at=['lookup'])

p('C04','Reservoirs honour the slot contract for any random source',
 '''For every random source returning values between 0 and 1, both included, ReservoirSampling and ExponentialReservoirSampling add()/sample_index() return
 -1 (ReservoirSampling only) or a slot inside the sample: unused slots are filled in order, each at most once before any slot beyond them is used, and a full sample is only ever overwritten in place.
 After every call slot i holds exactly the element of the last call that returned i, all other slots are unchanged, nothing outside the
 reservoir is written, and count() equals the number of elements offered (ReservoirSampling) or of filled slots, at most sample_size (ExponentialReservoirSampling).''',
 ['inputs','histories','fault_sequences'],
 '''every history of offers and every sequence of values in the closed interval [0,1] from the injected random source, including the
 end values that rand()/RAND_MAX-style generators produce once in 2^31 draws, every sample size''',
 '''A faulty slot needs a boundary value of the random source at a particular fill level; the tests use one ordinary generator.''',
 ['src/reservoir_sampling.hpp'],
 [('slot choice','ReservoirSampling::sample_index, ExponentialReservoirSampling::sample_index'),('store','add')],
 state=['sample','counter'],observe_at=['return values, operator[], count()'])

p('C05','Reservoirs sample fairly',
 '''With an ideal uniform random source, after n offers every element is in a ReservoirSampling sample with probability min(1, sample_size/n)
 whatever its position in the stream, each of the possible small samples being equally likely; an element that enters a full
 ReservoirSampling, ExponentialReservoirSampling or ChainedReservoirSampling replaces a uniformly chosen slot, and before any obsolete() call
 the slots of a ChainedReservoirSampling also contain every offered element with equal probability. The element that takes the place of an expired one in a ChainedReservoirSampling is each of the sample_size elements offered after it with equal probability. A full ExponentialReservoirSampling accepts every element, and while
 filling it replaces with probability equal to its filling ratio.''',
 ['inputs','histories'],
 '''every stream length and position in the stream, every sample size, decided over ensembles of thousands of seeded runs with a stated false-alarm bound''',
 '''It is a statement about a probability distribution over random histories: one run cannot show bias; the tests compare one run with a loose tolerance.''',
 ['src/reservoir_sampling.hpp','src/chained_reservoir.hpp'],
 [('acceptance threshold','ReservoirSampling::sample_index, ChainedReservoirSampling::add'),('victim choice','sample_index, ChainedReservoirSampling::add'),('fill-or-replace','ExponentialReservoirSampling::sample_index')],
 observe_at=['operator[], return value of add'])

p('C06','Chained reservoir: obsolete elements leave the sample',
 '''Once more than sample_size elements have been offered with non-decreasing timestamps (greater than 0) to a ChainedReservoirSampling, a call obsolete(t) for which at least the last sample_size offered elements are newer
 than t leaves in every slot an element newer than t ("t and all anterior timestamps" are obsolete). This holds for every pattern of bursts, gaps, repeated obsolete() calls and random draws, any number
 of times over the life of the reservoir.''',
 ['histories','inputs','schedules'],
 '''every history of add and obsolete with bursty, gapped and repeated timestamps, every random source in [0,1], every sample size''',
 '''Loss of a chained successor needs a slot whose chain was built, consumed and replaced in a particular order over thousands of events; the test makes one obsolete call on one stream.''',
 ['src/chained_reservoir.hpp'],
 [('successor reservation','ChainedReservoirSampling::add (next)'),('chain shift','obsolete, shift_chain'),('chain reset','clear_chain')],
 state=['per-slot chain','next[]'],observe_at=['operator[]'])

p('C07','Chained reservoir: real elements, forward only, bounded memory',
 '''Every slot of a ChainedReservoirSampling always shows an element that was really offered, and slots only move forward in time: add and obsolete never
 bring back an older element in a slot; obsolete(t) never touches a slot whose element is newer than t and moves an obsolete slot only to an element newer than t. With a window
 of bounded length, retired chain cells are reused: allocations stay below a fixed multiple of the window no matter how long the stream is, and if the injected malloc
 fails, the reservoir stops without having written outside its memory.''',
 ['histories','inputs','fault_sequences'],
 '''every history of add/obsolete, every draw sequence, allocation failure at any allocation, streams long enough to show growth''',
 '''Leaks and resurrected elements need long add/obsolete histories and the failing allocation at a given step; tests run one short stream with a working malloc.''',
 ['src/chained_reservoir.hpp'],
 [('chain cells','push_on_chain, clear_chain'),('shift','shift_chain')],
 state=['chains'],observe_at=['operator[], calls to funct::malloc'])

p('C08','LTC reconstruction stays within epsilon',
 '''For every stream with increasing timestamps (irregular gaps included), linear interpolation between consecutive points transmitted by LTC (plus, after the last one,
 the points transmitted when a later point arrives) approximates every original sample covered by two transmitted points within epsilon, plus one unit of rounding when element_type is an integer type.
 It holds for integer and floating element types, every epsilon, values anywhere in [min_value, max_value] and any time_unit_difference.''',
 ['inputs','histories'],
 '''every sensor signal (ramps, steps, noise, walks, saturation at the limits) and every sampling schedule with jitter, stalls and lost samples, over arbitrarily long
 streams''',
 '''The error accumulates over long segments and depends on gaps: tests compress a few dozen regularly spaced integers.''',
 ['src/ltc.hpp'],
 [('cone narrowing','LTC::need_transmit'),('segment restart','LTC::add')],
 state=['UL, LL, last transmitted point'],observe_at=['add return value, get_value_to_transmit'])

p('C09','LTC transmits in order and only when it must',
 '''The first point transmitted by LTC is the first sample; transmitted timestamps are strictly increasing, each is the timestamp of an offered sample, and none is later than the sample that precedes the call. A transmission happens only when no single line from the last kept
 point stays inside [min_value, max_value] and passes within epsilon of every sample since (so a signal within epsilon of one line from its first sample transmits nothing and at most one transmission is made per sample), and get_value_to_transmit() can be read any number of times with
 the same answer until the next transmission.''',
 ['inputs','histories'],
 '''every signal, sampling schedule and read pattern, integer and floating element types''',
 '''Tests check one signal; spurious or out-of-order transmissions need particular gaps or saturation.''',
 ['src/ltc.hpp'],
 [('transmission decision','LTC::need_transmit'),('transmitted point','LTC::add, get_value_to_transmit')],
 observe_at=['add return value, get_value_to_transmit'])

p('C10','MC-NN keeps within its cluster budget and predicts known labels',
 '''At every moment count_clusters() of an MCNN is between 1 (once trained) and max_cluster, grows by at most the splits a sample can cause (two), and
 predict() returns empty_class exactly when nothing has been trained and otherwise a label that was really trained, however far the point and whatever the history, parameters and feature type.
 train() returns false only with cleaning method 1 when max_cluster clusters are active. While each label forms well separated groups (one cluster per label), predictions are exact and the count equals the number of labels.''',
 ['histories','inputs','configurations'],
 '''every stream of labelled points (drift, bursts, label flips, far outliers, negative and integer features), every error threshold, cleaning method and cluster budget including 1''',
 '''Budget overruns need eviction and splitting at a full model; tests never fill the model and use small positive features.''',
 ['src/mc_nn.hpp'],
 [('split and eviction','MCNN::split, get_lowest_participation'),('cleaning','clean_low_performance_clusters'),('nearest cluster','find_nearest_clusters')],
 state=['clusters','active','count_active_cluster'],observe_at=['train/predict/count_clusters'])

p('C11','Hoeffding tree survives exhaustion of its buffer',
 '''A HoeffdingTree never uses memory outside itself and is never corrupted when its buffer cannot hold another split: train() returns false for a sample whose split did
 not fit, and the tree keeps accepting samples and answering predict() with scores in [0,1] that sum to 1 and favour the label most often seen in that region since it was last split. This holds for every buffer size that can hold the root.''',
 ['histories','configurations','inputs'],
 '''every buffer size from just one node upward (the injected full disk of this component), every stream, delta and bin configuration, long after exhaustion''',
 '''Tests give the tree ample memory; the exhaustion path is never executed by them.''',
 ['src/hoeffding_tree.hpp'],
 [('placement in the buffer','HoeffdingTree::Node::operator new, Node constructors'),('split','Node::split'),('train','HoeffdingTree::train')],
 state=['buffer_offset, buffer_preset, nodes, counters'],observe_at=['train/predict, guard bytes around the object'])

p('C12','Hoeffding tree leaves learn independently',
 '''Once a HoeffdingTree has split, what one leaf is trained with never changes the answers in the region of another leaf: training a sample, on one side of a learned
 concept or anywhere else, leaves the scores of every point outside the leaf of that sample bit-identical. A concept separable by one axis-parallel candidate split, whichever feature carries it, is
 learned: with both sides presented in any order the tree splits on that feature and then predicts both sides correctly, and fresh leaves propose split points
 inside the range of the data seen so further splits remain possible.''',
 ['histories','inputs','schedules'],
 '''every arrival order (bursts, alternation, one side starved) of the samples of two regions, every position of the informative feature and every number of bins per feature''',
 '''Sharing between leaves shows only after a split followed by a one-sided burst; the tests stop right after the first split.''',
 ['src/hoeffding_tree.hpp'],
 [('counter allocation','Node constructor, operator new'),('split feature attribution','Node::train'),('limits of children','Node::split, select_split_values, bounding box update')],
 observe_at=['predict scores'])

p('C13','Bounded, unbound and coarse Mondrian forests agree',
 '''While memory suffices, MondrianForest, MondrianForestUnbound and CoarseMondrianForest (original extension, fixed number of trees, no size limit) built with the same number of trees, lifetime, base measure and
 discount, fed the same samples and the same random draws, return the same predicted label and the same scores for every point at every moment, and predict() never changes
 later results however often it is called.''',
 ['histories','inputs'],
 '''every stream (duplicates, outliers, collinear points, label noise), every draw sequence from [0,1[, any number of trees and features, predictions interleaved anywhere with training''',
 '''The three implementations are separate code bases; tests check each on one dataset with a loose accuracy threshold and never compare them.''',
 ['src/mondrian.hpp','src/mondrian_unbound.hpp','src/mondrian_coarse.hpp','src/utils.hpp'],
 [('block extension','extend_block in the three files'),('counter propagation','update_posterior_count / update_counters'),('prediction','predict_tree')],
 observe_at=['predict and scores'])

p('C14','Mondrian forests keep learning when memory runs out',
 '''When the node pool is exhausted, a MondrianForest or CoarseMondrianForest (original extension) keeps working on the same memory: train() never crashes or loops, no sample is dropped as long as a tree has a root (train() returns true iff every tree took the
 sample), and repeating one sample often enough makes predict() of that point return its label. Once the pool is full every sample still widens the boxes on its path and counts in its leaf: a MondrianForest and a CoarseMondrianForest of the same number of nodes given the same draws per sample keep giving the same scores. A MondrianForest with fewer nodes than trees returns false from train().''',
 ['histories','configurations','inputs'],
 '''every memory budget from less than one node per tree upward, every exhaustion point in the stream, every draw sequence''',
 '''Tests allocate ample memory; exhaustion in the middle of an extension is never reached.''',
 ['src/mondrian.hpp','src/mondrian_coarse.hpp'],
 [('fallback to box update','extend_block'),('missing root','train_tree')],
 observe_at=['train/predict'])

p('C15','Unbound Mondrian forest survives failed allocations',
 '''If an allocation fails (std::bad_alloc) inside train() of a MondrianForestUnbound, the forest stays valid: predictions and further training work, what was learned before is still there,
 memory allocated by the failed call is not leaked, and destroying the forest releases every block exactly once. train() returns true for every sample that was fully trained.''',
 ['fault_sequences','histories'],
 '''failure of any single allocation, any burst or random subset of allocations, at any point of any stream''',
 '''No test injects an allocation failure or counts blocks.''',
 ['src/mondrian_unbound.hpp'],
 [('node creation','extend_block, train_tree'),('destruction','~MondrianNode, ~MondrianForestUnbound')],
 observe_at=['train/predict, global operator new/delete'])

p('C16','Coarse Mondrian forest accounts for every sample once',
 '''A CoarseMondrianForest without trimming accounts for every sample exactly once per tree: with the extend-node (original) or count-only policy the data point count of every tree equals the number of calls to train(),
 whether the tree is growing, limited in depth or out of memory; with the default stopped policy it equals the number of samples it took, train() returning true iff every tree took the sample, and no sample is refused while more than two nodes per tree are free.
 With the ghost policy the root of a tree counts every sample of train() under its label from the first one the tree took, and every node counts at least the samples its children count. With the partial-update and ghost policies the leaves never count a sample more than once, and miss only samples that would have split the tree when no node was available.
 With the barycenter policy every sample is counted once per tree once the tree has a root, under its label; a split inside a box leaves a sound tree: a leaf that is split itself keeps its counts, in any other case each leaf below hands its counts to the side of the split they are on (in proportion to its box when the split goes through it),
 the subtree keeps the side with more samples, the new leaf gets the rest, and only leaves of zero width that count nothing are removed. After predict() the label
 counters of every internal node agree with its children (except for the ghost policy), and a sample that is counted is counted under its own label.''',
 ['histories','configurations','inputs'],
 '''every stream, memory budget, depth limit and draw sequence, in particular around the moment memory runs out''',
 '''There is no test at all for the coarse forest.''',
 ['src/mondrian_coarse.hpp'],
 [('extension policies','extend_block0..3'),('counting','count_data_point_tree, update_posterior_count')],
 observe_at=['count_data_point_tree, get_nodes, get_bases'])

p('C17','Coarse Mondrian forest keeps a sound node pool',
 '''At every moment every used node of a CoarseMondrianForest belongs to exactly one tree, parent and child links agree, every internal node has two children, roots have no parent, lifetimes do not decrease towards the leaves and, with the original and stopped extension, every sample taken (no trimming in between) is
 inside the box of each node on its path. Growing and trimming (random, fading or count), in any order and for ever, keep this true, never leak a node (every node that is in no tree can be used again). Trimming frees memory by removing a leaf and its parent only, never the last node of a tree;
 by count or faded count (which decays while a leaf takes nothing) it removes a leaf with the smallest one, never one that holds a larger share than the maximum trim size, and a full forest with a trimming policy makes room by itself at least once in 200 samples.
 With the barycenter policy and full extension the boxes of the children stay on their side of the split and inside the box of their parent.
 With the barycenter policy a node counts one forced extension for each sample that would have split it (its waiting time ends before the lifetime of the node) had two nodes been free, and none otherwise; it is split inside its box instead of extended exactly when the chosen trigger says so (never; any forced extension; as often as its share of all samples or of the forced extensions on the path), and its forced extensions are then handed on as the chosen distribution says (dropped, halved, in proportion to the samples on either side, one less).
 A depth limit (cobble managements) is never exceeded, whatever the extension policy.''',
 ['histories','configurations','inputs'],
 '''every interleaving of training, prediction and explicit or automatic trimming, every memory budget, depth limit, extension and trimming policy''',
 '''There is no test for the coarse forest; leaks and stale links appear after long trim/regrow histories.''',
 ['src/mondrian_coarse.hpp'],
 [('allocation of nodes','available_node'),('trimming','cut_block, node_reset, tree_trim'),('links','extend_block*')],
 state=['node pool','tree bases'],observe_at=['get_nodes, get_bases'])

p('C18','Separate objects can be used by preemptive tasks without interference',
 '''Tasks that each own their own OrpailleCC objects (one per task, any mix of classes of this library except ReservoirSamplingMetrics) and preempt each other at arbitrary points get exactly the results
 each would get running alone: no class keeps hidden state shared between objects.''',
 ['schedules'],
 '''every preemptive interleaving of the tasks at the granularity of single memory accesses''',
 '''Interference through hidden shared state needs a preemption inside a call; the tests are single threaded.''',
 ['src/mondrian_coarse.hpp','src/mondrian.hpp','src/mondrian_unbound.hpp','src/hoeffding_tree.hpp','src/mc_nn.hpp','src/reservoir_sampling.hpp','src/chained_reservoir.hpp','src/cuckoo_filter.hpp','src/bloom_filter.hpp','src/ltc.hpp','src/naive_bayes.hpp','src/perceptron.hpp','src/metrics.hpp'],
 [('function-local and static state','available_node and any static in the headers')],
 observe_at=['all public results'])

p('C19','A snapshot taken by copying resumes exactly',
 '''For the self-contained classes (MondrianForest, CoarseMondrianForest, MCNN, NaiveBayes, MultiLayerPerceptron, CuckooFilter, BloomFilter, LTC, ReservoirSampling, ExponentialReservoirSampling, ErrorMetrics, KappaMetrics), a copy made with the copy
 constructor, or by assigning to another object of the same type (used or not) where the class allows it, behaves from then on exactly like the original and independently of it: a device that copies its model as a checkpoint, crashes at any point, restores the copy and replays the later inputs
 gives the same results as one that never crashed.''',
 ['crash_points','histories'],
 '''every crash point, checkpoint interval and number of successive crashes, every input history''',
 '''No test copies a model; an incomplete copy shows only when the restored model is used later.''',
 ['src/mondrian.hpp','src/mondrian_coarse.hpp','src/mc_nn.hpp','src/naive_bayes.hpp','src/perceptron.hpp','src/cuckoo_filter.hpp','src/bloom_filter.hpp','src/ltc.hpp','src/reservoir_sampling.hpp','src/metrics.hpp'],
 [('copying','implicit and explicit copy constructors, e.g. MondrianForest::Node(Node const&)')],
 observe_at=['all public results'])

p('C20','Results depend only on inputs and injected functions',
 '''The results of every class are a function of its constructor arguments, the sequence of calls and the values returned by the injected functions only: not of the previous contents of the memory the object is built in or of the stack,
 not of its address, the clock, the C library random generator, the locale or other objects. In particular train() of the Mondrian forests returns true for every fully trained sample.''',
 ['histories','configurations','fault_sequences'],
 '''every history, replayed with different garbage in object memory and stack, different addresses and ambient randomness/time''',
 '''Tests run in a fresh process where memory happens to be zero and each runs once.''',
 ['src/bloom_filter.hpp','src/chained_reservoir.hpp','src/cuckoo_filter.hpp','src/hoeffding_tree.hpp','src/ltc.hpp','src/mc_nn.hpp','src/metrics.hpp','src/mondrian.hpp','src/mondrian_coarse.hpp','src/mondrian_unbound.hpp','src/naive_bayes.hpp','src/perceptron.hpp','src/reservoir_sampling.hpp'],
 [('initialisation','constructors and reset functions'),('injected functions','template parameter func of every class')],
 observe_at=['all public results'])

p('C21','Bounded classes stay inside their own memory',
 '''Every class except MondrianForestUnbound and the chain cells of ChainedReservoirSampling works without any dynamic allocation and reads and writes only its own object and the buffers passed to it, for every
 history of valid calls and every valid value of the injected functions. MondrianForestUnbound releases what it allocated.''',
 ['histories','configurations','inputs'],
 '''every call history including long after capacity is reached, every template configuration, boundary values from the random source''',
 '''Out-of-bounds accesses at boundary states are silent in the tests, which run without bounds checking and below capacity.''',
 ['src/bloom_filter.hpp','src/chained_reservoir.hpp','src/cuckoo_filter.hpp','src/hoeffding_tree.hpp','src/ltc.hpp','src/mc_nn.hpp','src/metrics.hpp','src/mondrian.hpp','src/mondrian_coarse.hpp','src/mondrian_unbound.hpp','src/naive_bayes.hpp','src/perceptron.hpp','src/reservoir_sampling.hpp'],
 [('fixed buffers','array members of every class')],
 observe_at=['address sanitizer, guard zones, allocation counters'])

p('C22','Streaming statistics equal the batch computation in any arrival order',
 '''NaiveBayes, ErrorMetrics and KappaMetrics give, up to floating-point rounding, the same results for every arrival order of the same multiset of samples, and a NaiveBayes sample of integer weight w counts
 like w deliveries of it. NaiveBayes scores equal those of the batch computation over everything it saw: the logarithm of the share of the label plus, per feature, the logarithm of the normal density with weighted mean and sample variance (a single value counts only if it is matched exactly); the predicted label is one with the highest score.
 Resetting a metric makes it behave like a new one, and the exact confusion counts decide score() for every history.''',
 ['schedules','histories','fault_sequences'],
 '''every delivery order, duplication and batching of the samples by the network between producers and the model''',
 '''Tests present one order only.''',
 ['src/naive_bayes.hpp','src/metrics.hpp'],
 [('incremental mean and variance','GaussianEstimator::train'),('confusion counts','KappaMetrics::update, ErrorMetrics::update')],
 observe_at=['predict scores, score()'])
p('C23','Multi-layer perceptron takes exact gradient steps',
 '''After feed_forward(x), a MultiLayerPerceptron has written to output what a fully connected network with its current weights (per neuron the weights of the previous layer, the bias last), the injected activation on every layer but the input and the given layer sizes computes, without
 changing a weight. backpropagate(expected) then returns the mean squared error of that output and moves every weight by minus learning_rate times the derivative of half the summed squared error with respect to it (the injected derivative being a function of the output of the neuron), evaluated with the weights before the
 step. Each set_weights() replaces exactly the weights of its neuron, layer or network, get_weights() shows them in that order, and initial weights are draws of the injected random function. This holds for every shape that fits the object and every history, crashes with restored copies between the two calls included.''',
 ['histories','crash_points','configurations'],
 '''every sequence of feed_forward, backpropagate, set_weights, checkpoints and crashes, every shape, learning rate and activation function''',
 '''Tests train two small shapes once and look at the final error only.''',
 ['src/perceptron.hpp'],
 [('forward pass','feed_forward'),('gradient step','backpropagate'),('weights','set_weights, get_weights')],
 observe_at=['feed_forward, backpropagate, get_weights'])
p('C24','Hoeffding tree splits exactly when the bound says so',
 '''A HoeffdingTree splits a leaf at a sample if and only if the leaf has space and the information gain of the best candidate split, averaged over all samples of the leaf, is positive and exceeds that of the second best candidate (of any feature) by more than the Hoeffding bound: squared difference above 4 ln(1/delta) / (2 n)
 after n samples in that leaf. It splits on the feature and value of that candidate: points below or equal go left. Candidates of the root are those of set_limits() (zero before), candidates of later leaves cut the range of the data seen on each feature (a child inherits the range of its parent, cut at the split) in equal parts, one per bin. Both children start empty and take the
 sample that caused the split. The scores of a point are the label frequencies of the samples its leaf took (uniform if none). train() returns false exactly when a split was due but did not fit: when its two nodes and one more set of counters would no longer fit in the buffer. predict() answers the same label with and without scores.''',
 ['histories','configurations','inputs'],
 '''every stream (drift, noise, correlated features, grid points), delta, bin configuration and buffer size, through any number of splits''',
 '''Tests check one split of one small dataset; a wrong runner-up, bound or range shows only on close races and deeper leaves.''',
 ['src/hoeffding_tree.hpp'],
 [('split decision','Node::train'),('gain','compute_information_gain, compute_entropy'),('candidates','select_split_values, Node::split')],
 observe_at=['train/predict'])
p('C25','MC-NN evolves its micro-clusters as the algorithm prescribes',
 '''An MCNN behaves like the micro-cluster algorithm. predict() gives the label of the micro-cluster with the nearest centroid. A sample whose label has no cluster starts one. Otherwise it is absorbed by the nearest cluster of its label; if no other cluster is nearer
(a tie goes to the own label) that cluster's error count goes up by one, else the error counts of that cluster and of the nearest one go down by one and whichever reached zero (starting at the error threshold) is split, own label first: two clusters of one point at centroid plus and minus the standard deviation on the attribute of greatest variance, same label, aged at the mean
arrival time rounded down. When max_cluster clusters exist, methods 0 and 2 give the slot of the cluster with the lowest participation (sum of arrival times over the triangular-number span since its start); method 1 drops the new cluster. Methods 1 and 2 first remove, at every train(), clusters of several points whose participation (percent) is below the performance threshold.''',
 ['histories','configurations','inputs'],
 '''every stream (drift, noise, ties, new labels at a full budget), feature type, dimension, budget, error threshold, cleaning method and performance threshold''',
 '''Tests train a handful of points with one split; errors in counting, ageing, eviction or tie breaking show only in longer histories at a full budget.''',
 ['src/mc_nn.hpp'],
 [('training','MCNN::train'),('split and eviction','MCNN::split, get_lowest_participation, cluster::performance'),('cleaning','clean_low_performance_clusters'),('cluster summary','cluster::incorporate, initialize, centroid, variance')],
 state=['clusters','active','timestamp'],observe_at=['train/predict/count_clusters'])
p('C26','Mondrian forests sample the Mondrian process',
 '''While memory suffices and no depth or size limit applies, every tree of a Mondrian forest (bounded, unbound, coarse with every extension policy, the barycenter policy when it extends boxes fully) grows like an online Mondrian process: a sample walks down from the root, and at a node whose box it leaves by a total distance e the node is split with probability 1-exp(-e*(its time minus the time of its parent)), at a time
 exponential with rate e above that of the parent, on a feature chosen with probability proportional to the distance on it, at a value uniform in the gap between box and sample; time, feature, value and trees are independent given an ideal random source. The split puts a new node with the union of both boxes above the old one and a new leaf (lifetime, one sample) on the side of the sample; otherwise
 the box grows to contain the sample, which ends in a leaf. Nothing else in the tree changes.''',
 ['histories','inputs','configurations'],
 '''every stream and tree shape that fits in memory, every lifetime, number of trees, dimension and extension policy, in distribution over the random source''',
 '''No test of the repository covers the Mondrian forests; distributions cannot be settled by single examples at all.''',
 ['src/mondrian_coarse.hpp','src/mondrian.hpp','src/mondrian_unbound.hpp','src/utils.hpp'],
 [('split decision','extend_block*'),('sampling','Utils::rand_exponential, pick_from_distribution, turn_array_into_probability'),('new leaves','sample_block')],
 observe_at=['get_nodes/get_bases of the coarse forest; scores of the others in lockstep'])
p('C27','Mondrian forest scores are the posterior means of its trees',
 '''The scores of predict() of a Mondrian forest (bounded, unbound, coarse) are the mean over its trees (coarse: over the first tree_to_use trees if given) of the posterior of the tree. A tree walks from the root to the leaf of the point, starting with G = base measure for each label; at a node D is its time minus the time of its parent (0 for a root), e the distance of the point from its box and p = 1-exp(-e*D) the probability to branch off. With c = 1 for labels the node counts (0 otherwise), C the number of such labels and d = e/(e+discount)*(1-exp(-(e+discount)*D))/(1-exp(-e*D)),
 branching contributes (probability not to have branched before)*p*((1-d)*c/C + d*G); then G becomes (count - g*c + g*C*G)/sum of counts with g = exp(-discount*D), and the leaf contributes the remaining probability times G. A node of the barycenter policy that counts no sample passes the G of its parent on. Leaves count their samples, inner nodes for each label the number of children that know it (ghost policy: what they store). A tree without root gives the base measure. The label returned has the highest score. Hence, with base measure 1/labels, the scores
 are never NaN, lie in [0,1] and sum to 1 after every history, for every finite lifetime, discount and fullness of the memory.''',
 ['histories','inputs','configurations'],
 '''every stream, draw sequence, finite lifetime (0 included), discount (0 included), base measure, number of trees, memory budget, extension and trimming policy, and every query point inside, on the border of or far outside the boxes''',
 '''No test of the repository covers the Mondrian forests; accuracy on a few data sets cannot tell a posterior from something that grows like it.''',
 ['src/mondrian_coarse.hpp','src/mondrian.hpp','src/mondrian_unbound.hpp','src/utils.hpp'],
 [('posterior of a node','compute_posterior_mean'),('posterior of a tree','predict_tree'),('counters','update_posterior_count'),('average','predict')],
 observe_at=['predict and scores; get_nodes/get_bases of the coarse forest'])

p('C28','Cuckoo filter refuses elements only when it is nearly full',
 '''With well-spread hash functions (fingerprint hashes not 0) and an ideal random source, a CuckooFilter of at least 64 buckets of at least four entries makes room by relocating fingerprints: filled with different elements, it takes on average at least 90% of its capacity (95% with buckets of eight)
 before it refuses one, and never refuses one below 60%. The same room is there after any history of removals, clear() and restored copies: a filter that is never filled beyond three quarters refuses at most one in a hundred elements.''',
 ['histories','inputs'],
 '''every hash family that spreads well, every geometry of at least 64 buckets of four, any churn of adds and removals, decided over ensembles of thousands of filters with a stated margin''',
 '''The load a filter reaches is a property of random eviction chains in a crowded filter; a test that adds a fixed list of elements sees one history.''',
 ['src/cuckoo_filter.hpp'],
 [('eviction chain','CuckooFilter::add'),('free entries','space_in_bucket')],
 state=['filter bit array'],observe_at=['add return values'])
p('C29','Shared sampling helpers follow their laws for every random source',
 '''The helpers every randomised class shares (class Utils) behave as documented. After turn_array_into_probability (with or without the sum given) entry i is the share of the values up to i, and nothing outside the array is written. pick_from_distribution returns an index with the probability of its step, never one out of
 range or of null probability, whatever the source returns between 0 and 1. rand_exponential(rate) is exponential with that rate, finite and not negative for every draw in [0,1[. shuffle() always leaves a permutation of the elements, whatever the source, and with an ideal source every order is equally likely. index_max gives the index of a largest element; min, max, abs, round
 (nearest integer, halves away from zero), div_int (quotient rounded towards zero) and expm1 are exact up to rounding.''',
 ['inputs','histories'],
 '''every array, rate and random source (ideal, coarse, stuck at an end, alternating), laws decided over thousands of seeded draws with error probabilities below 1e-15''',
 '''No test calls these helpers; a wrong end of a distribution or an order that never comes up does not show in examples.''',
 ['src/utils.hpp'],
 [('sampling','pick_from_distribution, rand_exponential, shuffle'),('distribution','turn_array_into_probability'),('numbers','index_max, min, max, abs, round, div_int, expm1')],
 observe_at=['return values, arrays passed'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
