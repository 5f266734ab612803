"""Writes properties.jsonl (one place to edit the statements) and MANIFEST.json."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})


H, I, C = "histories", "inputs", "configurations"

p("C01", "Bloom filter answers exactly the bits that were set, with no false negative",
  "After any sequence of add, set and clear, lookup(e) is true exactly when every bit designated by e's hash functions was set by an add since the last clear or by the array of the last set; so every element added since then is found. Lookups change nothing, and the pointer and value overloads agree.",
  [H, I, C], "every history of add/lookup/clear/set, every user hash function with values in [0, bit_size), every bit_size and hash_count >= 1",
  "The tests add a few integers to one 50-bit filter; they never use set(), several hash functions that collide, sizes around byte boundaries, or a filter that was cleared and reused.",
  ["src/bloom_filter.hpp"], [("BloomFilter::add / lookup / clear / set", "src/bloom_filter.hpp")],
  [("bits", "one byte per bit of the filter", "BloomFilter::bits")], ["lookup(element)", "lookup(element*)"])

p("C02", "Cuckoo filter: no false negatives until an add reports failure",
  "As long as every add has returned true and only elements that were added are removed, lookup is true for every element that was added more often than it was removed, whatever relocations the adds performed. remove(e) never makes the filter forget an element with a different fingerprint or different buckets.",
  [H, I, C], "every history of add/remove/lookup/clear, every random sequence, every hash/fingerprint function with bucket_count a power of two and non-empty fingerprints",
  "The tests run one 4x3 configuration with one fixed rand() sequence and remove each element right after adding it; relocation chains followed by lookups of relocated elements are not checked.",
  ["src/cuckoo_filter.hpp"], [("CuckooFilter::add (relocation loop)", "src/cuckoo_filter.hpp"), ("CuckooFilter::search / remove", "src/cuckoo_filter.hpp")],
  [("filter", "packed table of fingerprints", "CuckooFilter::filter")], ["add() result", "lookup()"])

p("C03", "Cuckoo filter holds exactly one fingerprint copy per successful add",
  "lookup(e) is true exactly when a fingerprint equal to e's is stored in one of e's two buckets; a successful add stores exactly one more copy of one fingerprint, remove(e) deletes exactly one copy (or nothing if none is stored) and clear leaves the filter empty. This holds for every entry size up to 8 bits, every bucket size and every empty_value, a fresh filter being empty.",
  [H, I, C], "every history, every random sequence, every geometry with bucket_count a power of two, every empty_value",
  "Tests only use 3-bit entries with empty_value 0 in a small table, and check only positive lookups plus one clear.",
  ["src/cuckoo_filter.hpp"], [("get_entry / set_entry bit packing", "src/cuckoo_filter.hpp"), ("CuckooFilter::remove / clear", "src/cuckoo_filter.hpp")],
  [("filter", "packed table of fingerprints", "CuckooFilter::filter")], ["lookup()", "number of removes until lookup is false"])

p("C04", "Cuckoo filter capacity: adds fail only when relocation cannot find room",
  "add succeeds whenever one of the element's two buckets has a free entry, and otherwise relocates stored fingerprints, any entry of a bucket being eligible, long enough that a small filter (up to 8 buckets) can be filled completely: if an arrangement exists almost every random sequence finds one. A failed add terminates and loses exactly one stored or new fingerprint: the number of stored fingerprints is unchanged.",
  [H, I, C], "every fill history, every random sequence, every geometry with bucket_count a power of two",
  "The test named full only checks that some add returns true; nothing checks the content after a failed add, or which entries can be relocated.",
  ["src/cuckoo_filter.hpp"], [("CuckooFilter::add (500 relocations)", "src/cuckoo_filter.hpp")],
  [("filter", "packed table of fingerprints", "CuckooFilter::filter")], ["add() result", "lookup()"])

p("C05", "Reservoir sampling: only the returned slot changes, fill is in order",
  "The first k elements go to slots 0..k-1 in order; every later add returns -1 and changes nothing, or returns a slot in [0, k) and changes exactly that slot to the new element, for every random number in [0, 1] including 1. count() is the number of elements seen, and sample_index() behaves as add() without storing.",
  [H, I, C], "every history and every sequence of random numbers in [0,1], every sample size",
  "Tests use one rand() seed and check statistics of the content; boundary random values (0, 1, exactly the threshold) and the returned index are not checked.",
  ["src/reservoir_sampling.hpp"], [("ReservoirSampling::sample_index / add", "src/reservoir_sampling.hpp")],
  [("counter", "number of elements seen", "ReservoirSampling::counter")], ["add() result", "operator[]", "count()"])

p("C06", "Reservoir sampling: every element has the same probability k/n to be kept",
  "With independent uniform random numbers, after n adds every one of the n elements is in the reservoir with probability min(1, k/n), and a kept element enters each slot with the same probability.",
  [H, C], "every n and k and the whole space of random sequences (enumerated on an exact grid)",
  "A statistical test on one seed with wide margins accepts thresholds k/(n+1) or k/(n-1), or a slot that is picked less often.",
  ["src/reservoir_sampling.hpp"], [("ReservoirSampling::sample_index", "src/reservoir_sampling.hpp")],
  [("counter", "number of elements seen", "ReservoirSampling::counter")], ["add() result over all random sequences"])

p("C07", "Exponential reservoir: always stores, within the sample, with fill-ratio bias",
  "Every add stores its element and returns its slot: either the next unused slot, which increases count() by one until it reaches k, or a slot below count(), every such slot having the same probability, and replacement has probability count()/k. No other slot changes, for every random number in [0, 1].",
  [H, I, C], "every history and every sequence of random numbers in [0,1], every sample size",
  "There is no test of the exponential reservoir.",
  ["src/reservoir_sampling.hpp"], [("ExponentialReservoirSampling::sample_index / add", "src/reservoir_sampling.hpp")],
  [("counter", "number of used slots", "ExponentialReservoirSampling::counter")], ["add() result", "operator[]", "count()"])

p("C08", "Chained reservoir samples every element with the same probability",
  "With independent uniform random numbers, after n adds without obsolescence every element is in the reservoir with probability min(1, k/n), each slot being equally likely, and the replacement of a stored element is drawn uniformly among the k elements that follow it.",
  [H, C], "every n and k and the whole space of random sequences (enumerated on an exact grid)",
  "The distribution test compares counts 1000, 500 and 250 of one seeded run, far too coarse to see a biased slot or an off-by-one threshold.",
  ["src/chained_reservoir.hpp"], [("ChainedReservoirSampling::add", "src/chained_reservoir.hpp")],
  [("next", "index of the element that will replace a slot", "ChainedReservoirSampling::next")], ["operator[] after add / obsolete over all random sequences"])

p("C09", "Chained reservoir: obsolete elements are replaced by their live successors",
  "After obsolete(t) a slot whose element has a timestamp later than t is unchanged, and any other slot holds the oldest element of its chain of successors that is later than t, or its old element if there is none; the later successors stay queued in order for following calls. An added element replaces one slot and drops that slot's old successors, and every element a slot has chosen as successor is queued when it arrives.",
  [H, I, C], "every history of add and obsolete with increasing positive timestamps, every random sequence, every sample size",
  "One test calls obsolete once, after which only values are range-checked; repeated obsolescence, chains of several successors and reuse of chain nodes are never exercised.",
  ["src/chained_reservoir.hpp"], [("ChainedReservoirSampling::obsolete / shift_chain / push_on_chain / clear_chain", "src/chained_reservoir.hpp")],
  [("sample", "heads of the chains", "ChainedReservoirSampling::sample"), ("node::timestamp", "0 when the node is free", "ChainedReservoirSampling::node")], ["operator[]"])

p("C10", "LTC: the transmitted line stays within epsilon of every compressed point",
  "Linear interpolation between consecutive transmitted points differs from every input point in their time range by at most epsilon (epsilon + 1 when element_type is an integer, because transmitted values are truncated), for strictly increasing timestamps with any gaps and values within [min_value, max_value].",
  [H, I, C], "every input series (values and increasing timestamps), epsilon >= 0, integer and floating element types",
  "Tests only count how many points are transmitted for unit-spaced series; no test reconstructs the signal.",
  ["src/ltc.hpp"], [("LTC::add / need_transmit / update", "src/ltc.hpp")],
  [("UL/LL", "upper and lower limit of the current cone", "LTC::UL, LTC::LL"), ("last_transmit_point", "start of the current segment", "LTC::last_transmit_point")], ["add() result", "get_value_to_transmit()"])

p("C11", "LTC transmits only when no line fits, in time order, starting at the first point",
  "add returns true exactly when no straight line from the start of the current segment passes within epsilon of all points since, including the new one (with limits clamped to [min_value, max_value]); it then makes available the start of that segment, the first one being the first input point. Each segment ends at the time of its last fitting point with a value in the middle of the admissible cone, transmitted times strictly increase, and get_value_to_transmit does not change until the next transmission.",
  [H, I, C], "every input series (values and increasing timestamps), epsilon >= 0, integer and floating element types",
  "Tests bound the number of transmissions loosely (more than 4, fewer than 1100); early or late emission, wrong segment ends and gaps in the timestamps go unnoticed.",
  ["src/ltc.hpp"], [("LTC::need_transmit", "src/ltc.hpp"), ("LTC::get_value_to_transmit", "src/ltc.hpp")],
  [("counter", "0/1/2+ points in the segment", "LTC::counter")], ["add() result", "get_value_to_transmit()"])

p("C12", "MC-NN predicts the nearest micro-cluster and trains it by the documented rules",
  "predict returns the label of the live micro-cluster whose centroid is nearest, at any distance, and empty_class only before the first training. train absorbs a correctly classified point into the nearest cluster (a cluster of the class of the point wins an exact tie), otherwise charges an error to the nearest cluster and to the nearest one of the point's class (which absorbs the point) and splits each cluster whose error budget is used up into two at centroid plus/minus one standard deviation along the widest feature; a new class, or a split, takes a free slot or replaces the cluster with the lowest participation when cleaning methods 0 or 2 allow it.",
  [H, I, C], "every training history, error threshold, cleaning method, number of features and clusters",
  "Tests train at most 13 points in one dimension and check one split; full tables, replacement, cleaning and tie rules are not reached.",
  ["src/mc_nn.hpp"], [("MCNN::train / split / find_nearest_clusters", "src/mc_nn.hpp")],
  [("clusters", "feature sums, counts, error budget, label", "MCNN::clusters"), ("active", "live clusters", "MCNN::active")], ["predict()", "train() result", "count_clusters()"])

p("C13", "MC-NN count_clusters is the number of live clusters, at most the maximum",
  "count_clusters() always equals the number of live micro-clusters, which is between 0 and max_cluster; train returns false exactly when the point needs a new cluster, all are in use and the cleaning method forbids replacement, and then nothing changes but the clock.",
  [H, I, C], "every training history, cleaning method, error threshold and table size",
  "Tests check the count once before and once after a split in a table that never fills.",
  ["src/mc_nn.hpp"], [("MCNN::train / split / clean_low_performance_clusters", "src/mc_nn.hpp")],
  [("count_active_cluster", "reported number of clusters", "MCNN::count_active_cluster")], ["count_clusters()", "train() result"])

p("C14", "Hoeffding tree leaves count their own points and predict their majority",
  "Every training point is counted in exactly the leaf it is routed to (value <= split goes left), and predict returns the majority label of that leaf, lowest label on ties, with scores equal to the label frequencies of the points counted there; leaves do not share counters and predict changes nothing.",
  [H, I, C], "every training history, number of features, bins and labels",
  "Tests look at the information gain of a root that never splits, and at is_leaf after one split.",
  ["src/hoeffding_tree.hpp"], [("Node::train / predict", "src/hoeffding_tree.hpp"), ("HoeffdingTree::sort_in_leaf", "src/hoeffding_tree.hpp")],
  [("buffer", "nodes from the front, leaf counters from the back", "HoeffdingTree::buffer")], ["predict() label and scores", "Node::is_leaf()"])

p("C15", "Hoeffding tree splits only on the Hoeffding criterion and survives a full buffer",
  "A leaf splits exactly when the squared gap between its best and second best mean information gain exceeds the Hoeffding bound and the best gain is positive, on the feature and limit with the best gain; the children start empty with evenly spaced limits inside their part of the box of the points seen. When the buffer has no room for two nodes train returns false, the leaf stays a leaf, and the tree keeps predicting.",
  [H, I, C], "every training history, delta, bin layout and buffer size that holds the root",
  "One test checks that 1400 repeated points cause a split, without looking where; the buffer is never filled.",
  ["src/hoeffding_tree.hpp"], [("Node::train", "src/hoeffding_tree.hpp"), ("Node::split / operator new / select_split_values", "src/hoeffding_tree.hpp")],
  [("info_sum", "sum of the information gain per limit", "leaf counters"), ("buffer_offset/buffer_preset", "free space of the buffer", "HoeffdingTree")], ["train() result", "predict()", "Node::compute_information_gain()"])

p("C16", "Naive Bayes equals the batch Gaussian estimate and picks the best log score",
  "For every order of training points the score of a label is log(weight share) plus the sum of log Gaussian densities with the weighted mean and the unbiased variance of that label's points (density 1 or 0 at a point mass, 0 for an unseen label), up to rounding; predict returns the first label with the highest score and does not change the model.",
  [H, I, C], "every training history and order, weights, number of labels and features",
  "Tests check predictions of one small data set; not the scores, weights, unseen labels or single-point classes.",
  ["src/naive_bayes.hpp"], [("GaussianEstimator::train / probability_density", "src/naive_bayes.hpp"), ("NaiveBayes::predict", "src/naive_bayes.hpp")],
  [("counters", "incremental mean and variance per label and feature", "NaiveBayes::counters")], ["predict() label and scores"])

p("C17", "Perceptron feed-forward computes the layered network for its weight layout",
  "feed_forward returns, for every layer sizes and weights, the value of the fully connected network in which neuron j of a layer applies the activation to the weighted sum of the previous layer plus its bias (last weight); the three set_weights overloads and get_weights address the same layout, layer by layer and neuron by neuron, and change no other weight. feed_forward does not change the weights, which start as values of the random function.",
  [I, C, H], "every layer layout, weight assignment and input",
  "Tests evaluate one 2-2-1 network with weights set in one way.",
  ["src/perceptron.hpp"], [("MultiLayerPerceptron::feed_forward / set_weights", "src/perceptron.hpp")],
  [("weights", "all weights", "MultiLayerPerceptron::weights"), ("neuron_output", "last outputs", "MultiLayerPerceptron::neuron_output")], ["feed_forward() output", "get_weights()"])

p("C18", "Perceptron backpropagation is one gradient step on the squared error",
  "backpropagate(expected) after feed_forward returns the mean squared error of the last output and changes every weight by minus learning_rate times the derivative of half the summed squared error, computed with the weights before the step, for networks of any depth and layer sizes.",
  [I, C, H], "every layer layout (two or more layers), weights, input, expected output and sequence of steps",
  "Tests check that a small network converges; a wrong gradient in hidden layers or biases can still converge.",
  ["src/perceptron.hpp"], [("MultiLayerPerceptron::backpropagate", "src/perceptron.hpp")],
  [("weights", "all weights", "MultiLayerPerceptron::weights")], ["backpropagate() result", "get_weights()"])
MON = ["src/mondrian.hpp"]
p("C19", "Mondrian forest trees stay well formed and account for every training point",
  "After any training history every tree of the forest is a binary tree with consistent parent links, whose leaf boxes are exactly the bounding boxes of the points routed to them and whose inner boxes are the hulls of their children, every split separating its two children, and split times not decreasing from the root to the leaves, which carry the lifetime. The labels counted in the leaves of a tree are exactly the labels of the points it was trained with, each counted in the leaf the point is routed to. A copy of the forest has the same trees and can be trained on.",
  [H, I, C], "every training history, every random sequence, number of trees, features, labels and memory size",
  "There is no test of the Mondrian forest.",
  MON, [("MondrianForest::extend_block / sample_block / train_tree", "src/mondrian.hpp")],
  [("nodes", "pool of nodes shared by the trees", "MondrianForest::nodes"), ("roots", "root of each tree", "MondrianForest::roots")],
  ["node structure after each train (hook)"], "read-only visitor of roots and nodes")

p("C20", "Mondrian forest in full memory keeps training without corrupting its trees",
  "When the node pool cannot hold the nodes a step needs, no existing node is moved, reused or lost: the point is counted in the leaf it reaches, whose box grows to contain it, or the tree that cannot get a root reports it by train returning false; a node is never shared by two places and none is lost while it is unused. train returns true exactly when every tree could take the point.",
  [H, C], "every training history past the capacity, every memory size and number of trees",
  "There is no test of the Mondrian forest.",
  MON, [("MondrianForest::available_node / extend_block / train", "src/mondrian.hpp")],
  [("nodes[i].tau", "negative when the node is free", "MondrianForest::Node")], ["train() result", "node structure after each train (hook)"], "read-only visitor of roots and nodes")

p("C21", "Mondrian forest grows by the Mondrian process law",
  "At each node met by a point outside its box by extents d_i, a new parent is inserted exactly when the node's parent time plus an exponential draw of rate sum(d_i) comes before the node's own time; the split feature is drawn with probability proportional to d_i, the split value uniformly between the box and the point, the new time is the drawn one and the new leaf lies on the point's side. Otherwise the box is extended and the point continues to the child it is routed to.",
  [H, I, C], "every training history, every sequence of uniform draws",
  "There is no test of the Mondrian forest.",
  ["src/mondrian.hpp", "src/mondrian_unbound.hpp", "src/utils.hpp"], [("extend_block", "src/mondrian.hpp"), ("Utils::rand_exponential / pick_from_distribution", "src/utils.hpp")],
  [("tau", "split time", "MondrianForest::Node")], ["node structure after each train (hook)", "recorded uniform draws"], "read-only visitor of roots and nodes")

p("C22", "Mondrian prediction averages the smoothed posteriors of the trees on the path",
  "predict returns the first label with the highest score, the score being the mean over the trees of the posterior smoothed along the path of the point from root to leaf (weights: probability to branch off before each node, from the node times and the distance to the box; posteriors: leaf counts and per-child label presence with the discount). Scores are written when asked for, and predict changes neither the trees nor later predictions.",
  [H, I, C], "every trained forest and every query point, inside or outside the boxes",
  "There is no test of the Mondrian forest.",
  ["src/mondrian.hpp", "src/mondrian_unbound.hpp"], [("predict / predict_tree / compute_posterior_mean / update_posterior_count", "src/mondrian.hpp")],
  [("counters", "label counts of a node", "MondrianForest::Node")], ["predict() label and scores"], "read-only visitor of roots and nodes")

p("C23", "Unbounded Mondrian forest: well formed trees with up-to-date label counts",
  "After any training history every tree of the unbounded forest satisfies the structure of the bounded one, and at every moment each inner node counts for each label how many of its children have seen it, and each leaf the exact number of its points per label. Every point is added to each tree, train returns true, and destroying the forest releases every node exactly once.",
  [H, I, C], "every training history, every random sequence, number of trees, features and labels",
  "There is no test of the unbounded Mondrian forest.",
  ["src/mondrian_unbound.hpp"], [("extend_block / sample_block / update_counters", "src/mondrian_unbound.hpp")],
  [("roots", "one root per tree", "MondrianForestUnbound::roots")], ["node structure after each train (hook)"], "read-only visitor of roots")

COA = ["src/mondrian_coarse.hpp"]
NOT = "There is no test of the coarse Mondrian forest."
HK = "read-only visitor of roots and nodes, capacity and free nodes"

p("C24", "Coarse Mondrian forest: well formed trees over one pool of nodes",
  "After any history of trainings, trimmings, copies and predictions every tree of a CoarseMondrianForest is a binary tree with consistent parent links and no node shared between trees. Split times do not decrease from root to leaf and every leaf has the lifetime as its time; every split separates the boxes of its two children and inner boxes contain those of their children (except under EXTEND_COUNTER_NO_UPDATE and under EXTEND_BARYCENTER with a forced extension share below 1, which let children grow out of their parents). Every leaf has counted a point; without trimming the leaves hold exactly the points the tree took, per label (EXTEND_PARTIAL_UPDATE may have dropped some, EXTEND_GHOST counts every point at every node it passes), and under EXTEND_NONE and EXTEND_ORIGINAL boxes are exactly those of the points routed through them. After a prediction, or always with UNBOUND_OPTIMIZE, each inner node counts for each label how many of its children have seen it. predict changes no tree, and a copy of the forest has the same trees. All this holds for trees of any depth.",
  [H, I, C], "every training history, extension strategy, management and trimming rule, number of trees, features, labels, feature type and size of the pool",
  NOT, COA, [("extend_block0..4 / train_tree / cut_block / update_posterior_count", "src/mondrian_coarse.hpp")],
  [("buffer", "nodes from the front, tree descriptors at the end", "CoarseMondrianForest::buffer")], ["node structure after each operation (hook)"], HK)

p("C25", "Coarse Mondrian forest: pool accounting, tree limits and trimming",
  "The pool holds as many nodes as fit the memory given beside the tree descriptors, and the forest never counts a node as free that a tree uses or the reverse: free nodes = capacity - nodes of all trees, at every moment. A training adds to a tree nothing or one new parent and one new leaf, never with fewer than two free nodes; a tree without a root gets a one-node root when a node is free, and train returns whether every tree could take the point. Trees never exceed their limit: levels at most size_limit under the two COBBLE managements, nodes (or levels, as chosen) at most the odd size limit (the pool shared equally when none is given) under ROBUR. Under a trimming rule, tree_trim, and train on every hundredth point when at most one node is free, removes from each tree with more than one node exactly one leaf and its parent, the sibling taking the parent's place: any leaf with equal probability (TRIM_RANDOM), a leaf with the smallest count (TRIM_COUNT) or the smallest fading score (TRIM_FADING: 0 at first, +1 per further point, times 0.995 at every training), the last two only when the share of that leaf among all leaves is at most maximum_trim_size; nothing else moves. count_data_point_node and count_dead_supply give the points of a subtree and its leaves with fewer than 50 points. All this holds for trees of any depth.",
  [H, I, C], "every training history past the capacity, every trimming rule and management, number of trees and size of the pool",
  NOT, COA, [("available_node / is_paused / tree_trim / cut_block / tree_fade_counts / train", "src/mondrian_coarse.hpp")],
  [("node_available", "number of free nodes", "CoarseMondrianForest::node_available")], ["train() result", "node structure after each operation (hook)"], HK)

p("C26", "Error and Kappa metrics equal their definitions over the update history",
  "After any history of update, increase_error, reset and assignment, the error score is errors / count (accuracy when inverted) and the kappa score is (1 - kappa)/2 ((1 + kappa)/2 when inverted) with Cohen's kappa of the accumulated confusion matrix, multiplied (divided when inverted) by the tree size exactly when use_ratio is set; instances do not affect each other.",
  [H, I, C], "every history of updates over any number of labels, both use_ratio values",
  "Tests evaluate a few fixed matrices; interleavings of reset, increase_error and copies are not covered.",
  ["src/metrics.hpp"], [("ErrorMetrics", "src/metrics.hpp"), ("KappaMetrics", "src/metrics.hpp")],
  [("confusion", "confusion matrix", "KappaMetrics::confusion")], ["score()", "kappa()"])

p("C27", "Reservoir-sampling metric: replacement scores follow the arrival counter",
  "Every construction or reset of a reservoir-sampling metric takes the next number of one shared counter; the score of the metric with the latest number is (number - sample_size)/number and that of every other one is 1/counter, and assignment copies the number.",
  [H, C], "every history of constructions, resets, assignments and scores over several instances",
  "There is no test of this metric.",
  ["src/metrics.hpp"], [("ReservoirSamplingMetrics", "src/metrics.hpp")],
  [("total_count", "shared counter", "ReservoirSamplingMetrics::total_count")], ["score()"])

p("C28", "Utilities: exact picks, normalisation, unbiased shuffle, exponential draws",
  "pick_from_distribution returns index i exactly for the draws in [p(i-1), p(i)) and never an index of probability zero; turn_array_into_probability yields the cumulative shares of the values for a given or computed sum; shuffle produces each permutation with the same probability; rand_exponential is the inverse cumulative function at the drawn value; index_max returns the first maximum, and min, max, abs, round, div_int are the usual ones.",
  [I, C], "every array, size and random sequence",
  "Tests check two arrays and the mean of random draws; zero-probability entries, boundary draws and shuffle are not covered.",
  ["src/utils.hpp"], [("Utils", "src/utils.hpp")], [], ["return values"])

p("C29", "Coarse Mondrian forest: what each extension strategy does with a point",
  "With nodes free and the tree below its limit, a point outside the box of a node is separated from it by a new parent exactly when parent time + exponential draw (rate: sum of the distances to the box) comes before the time of the node, with time, feature and value drawn as in the Mondrian process; otherwise the box is extended to the point (under EXTEND_BARYCENTER by the share forced_extend of the distance) and the point goes on to the child it is routed to, ending counted in one leaf. When it should be separated but cannot: EXTEND_ORIGINAL, EXTEND_NONE and EXTEND_BARYCENTER extend the box and go on; EXTEND_GHOST counts it at that node and stops; EXTEND_PARTIAL_UPDATE drops it there; EXTEND_COUNTER_NO_UPDATE goes on without extending that box. EXTEND_NONE refuses the point when at most two nodes are free. EXTEND_GHOST also counts the point at every node it passed. The trees are trained independently.",
  [H, I, C], "every training history, every sequence of uniform draws, extension strategy, management, pool size",
  NOT, COA, [("extend_block0..4", "src/mondrian_coarse.hpp"), ("Utils::rand_exponential / pick_from_distribution", "src/utils.hpp")],
  [("counters / bound_lower / bound_upper", "what a node has counted and its box", "MondrianNode")], ["node structure after each train (hook)"], HK)

p("C30", "Coarse Mondrian forest: predictions average the smoothed posteriors of the trees",
  "predict returns the first label with the highest score and, when asked, writes the scores: the mean over all trees (the prior base measure for a tree without root) of the posterior smoothed along the path of the point from root to leaf, the probability to branch off before each node coming from the time between the node and its parent and the distance to its box, and the posteriors from the leaf counts and, at inner nodes, from how many children have seen each label (under EXTEND_GHOST from the counts of the nodes themselves). Asked for the first n trees only, it takes the mean over these. predict changes neither the trees nor later predictions.",
  [H, I, C], "every trained forest, extension strategy, trimming history and query point",
  NOT, COA, [("predict / predict_tree / compute_posterior_mean / update_posterior_count", "src/mondrian_coarse.hpp")],
  [("counters", "label counts of a node", "MondrianNode")], ["predict() label and scores"], HK)

p("C31", "Coarse Mondrian forest: splitting leaves loses no point",
  "Under EXTEND_BARYCENTER with a split helper, once more than 20 trainings have ended with at most one free node, a point that falls inside the box of its leaf splits the leaf if two nodes are free, the tree is below its limit, and in some feature the average (helper 1: the mean of all points, faded by fading_count; helper 2: the mean of the middles of the leaves, weighted by their points) lies strictly inside the box and differs from the point. The feature is drawn in proportion to the distance between average and point, the value uniformly between the two, and the time uniformly between those of parent and leaf. Both sides cover the box of the leaf and touch at the split; the leaf keeps its points and the side that holds the larger share of its box, the new leaf starts empty, and the point is counted on its own side. No point is lost or counted twice, the tree stays well linked and within its limit and the pool, and a prediction that ends in an empty leaf uses the posterior of its parent.",
  [H, I, C], "every training history, every sequence of uniform draws, both split helpers, management, trimming rule and pool size",
  NOT, COA, [("split_barycenter / count_sides / adjust_counters / adjust_boxes / find_barycenter", "src/mondrian_coarse.hpp")],
  [("counters / bound_lower / bound_upper", "what a leaf has counted and its box", "MondrianNode"), ("sum_features / count_points", "the average point", "CoarseMondrianForest")], ["node structure after each train (hook)", "predict() scores"], HK)

p("C32", "Coarse Mondrian forest: split triggers halve crowded nodes and lose no point",
  "Under EXTEND_BARYCENTER, every time a node should be separated from a point but the tree has reached its limit or the pool is empty, the node's count of forced extends grows by one. With a split trigger, when a node that has forced extends should be separated from a point and can be, it is cut through its own box instead: always (trigger 1), or with probability forced extends / points seen (2) or forced extends / forced extends of all nodes on the way of the point from the root to its leaf (3); otherwise it is separated as usual. The cut feature is drawn in proportion to the widths of the box, the value uniformly over its width; the time is parent time + the exponential draw. The side with more points keeps the node with the parts of its subtree that lie on that side: boxes are clamped to the side, children of which nothing but the split remains are removed and their nodes returned to the pool, and each leaf gives the share of its points that lies beyond the split (spread evenly over its box, rounded) to the new leaf on the other side; a node that is itself a leaf keeps its points. Then the point is counted in the leaf it is routed to. The forced extends go to no one, in halves, in proportion to the points, or reduced by one to the node, as chosen. As long as trees have fewer than 100 levels, no point is lost or counted twice, and the tree stays well linked and within its limit and the pool.",
  [H, I, C], "every training history, every sequence of uniform draws, split trigger, forced extend distribution, management, trimming rule and pool size",
  NOT, COA, [("split_node / count_sides / adjust_counters / adjust_boxes / count_fe_down / pass_data_point_down", "src/mondrian_coarse.hpp")],
  [("forced_extend", "how often the node could not be separated from a point", "MondrianNode"), ("counters / bound_lower / bound_upper", "what a leaf has counted and its box", "MondrianNode")], ["node structure after each train (hook)", "predict() scores"], HK)

CHECKS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json")))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
claimed = CHECKS["checks"]
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "checks": [{"property": k, "quick_cmd": "python3 lib/check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py " + k,
                 "evidence_file": "evidence/%s.json" % k, "technique": v["technique"], "level": "model_checking", "level_note": v["note"]}
                for k, v in sorted(claimed.items())],
     "not_applicable": [{"property": x["id"], "reason": CHECKS["not_applicable"].get(x["id"], "the check is not built yet")} for x in P if x["id"] not in claimed],
     "notes": CHECKS["notes"]}
if CHECKS.get("hooks"):
    m["hooks"] = CHECKS["hooks"]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(claimed), "claimed")
