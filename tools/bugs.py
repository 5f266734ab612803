BUGS = []


def bug(id, property, file, edits, needs, breaks, demo, **k):
    BUGS.append(dict(id=id, property=property, file=file, edits=edits if isinstance(edits[0], tuple) else [edits], needs=needs, breaks=breaks, demo=demo, **k))


BL = '''#include <bloom_filter.hpp>
unsigned int h1(int* e) { return *e %% 40; }
unsigned int h2(int* e) { return (*e * 7 + 3) %% 40; }
int main() {
	unsigned int (*h[])(int*) = {h1, h2};
	BloomFilter<int, 40, 2> f(h);
	%s
}
'''
bug("bloom-set-keeps-bits", "C01", "bloom_filter.hpp", ("			bits[i] = new_bits[i];", "			bits[i] = bits[i] | new_bits[i];"),
    "set() on a filter that is not empty", "set() keeps the bits added before, so lookup finds elements that are not in the new array",
    BL % "f.add(5); unsigned char b[40] = {0}; b[h1(new int(9))] = 1; b[h2(new int(9))] = 1; f.set(b); return f.lookup(5) || !f.lookup(9);")
bug("bloom-clear-last", "C01", "bloom_filter.hpp", ("		for(int i = 0; i < real_size; ++i)\n			bits[i] = 0;", "		for(int i = 0; i + 1 < real_size; ++i)\n			bits[i] = 0;"),
    "an element whose bits are all the last one, added before a clear", "clear() leaves the last bit",
    '''#include <new>
#include <cstring>
#include <bloom_filter.hpp>
unsigned int h1(int* e) { return *e % 40; }
int main() {
	unsigned int (*h[])(int*) = {h1};
	BloomFilter<int, 40, 1> f(h);
	f.clear(); f.add(39); f.clear(); return f.lookup(39);
}
''')
CK = '''#include <cstdlib>
#include <cassert>
#include <cmath>
#include <cuckoo_filter.hpp>
static double seq[] = {0.1, 0.9, 0.3, 0.7, 0.6, 0.2, 0.8, 0.4, 0.05, 0.95}; static int pos = 0;
double rnd() { return seq[pos++ %% 10]; }
struct F { static unsigned char fingerprint(int const* e) { return %s; } static unsigned int hash(int const* e) { return %s; } static unsigned int hash(unsigned char fp) { return %s; } };
int main() {
	%s
}
'''
bug("cuckoo-hash-of-new-fp", "C02", "cuckoo_filter.hpp", ("				fp = tmp;\n				h1 = h;\n				h2 = h1 ^ funct::hash(fp);", "				h1 = h;\n				h2 = h1 ^ funct::hash(fp);\n				fp = tmp;"),
    "a relocation of a fingerprint whose hash differs from the one of the incoming element", "the relocated fingerprint is stored in a bucket that is not one of its own: false negatives",
    CK % ("*e % 15 + 1", "(*e / 3) % 8", "(fp * 5) % 8", '''CuckooFilter<int, 8, 2, 4, F, rnd> f; bool all = true; int n = 0;
	for (int i = 0; i < 15 && all; ++i) { all = f.add(i * 3 + i % 2); if (all) ++n; for (int k = 0; k < n; ++k) if (!f.lookup(k * 3 + k % 2) && all) return 1; }
	return 0;'''))
bug("cuckoo-remove-all-copies", "C03", "cuckoo_filter.hpp", ("		if(ret){\n			set_entry(bucket_index, entry_index, empty_value);\n		}", "		while(ret){\n			set_entry(bucket_index, entry_index, empty_value);\n			ret = search(e, bucket_index, entry_index);\n		}"),
    "an element (or two with the same fingerprint and buckets) added twice and removed once", "remove() deletes every copy",
    CK % ("*e % 7 + 1", "*e % 8", "(fp * 3) % 8", "CuckooFilter<int, 8, 2, 4, F, rnd> f; f.add(5); f.add(5); f.remove(5); return !f.lookup(5);"))
RS = '''#include <vector>
#include <cmath>
#include <cstdio>
#include <cassert>
#include <cstdlib>
static std::vector<double> d; static size_t pos = 0;
struct F { static double random() { return d[pos++ %% d.size()]; } static int floor(double x) { return (int)std::floor(x); } static void* malloc(unsigned n) { return ::malloc(n); } };
#include <%s>
int main() {
	%s
}
'''
bug("reservoir-threshold-late", "C06", "reservoir_sampling.hpp", ("static_cast<double>(sample_size) / static_cast<double>(counter+1);", "static_cast<double>(sample_size) / static_cast<double>(counter+(counter > 8*sample_size ? 0 : 1));"),
    "more than 8 times as many elements as slots", "late elements enter the sample too often: the sample is no longer uniform",
    RS % ("reservoir_sampling.hpp", '''int kept = 0, N = 1000;
	for (int i = 0; i < N; ++i) { d.assign(1, 0.0); d[0] = 0.0; pos = 0; ReservoirSampling<int, 2, F> r; for (int k = 0; k < 19; ++k) r.add(k); d = {(i + 0.5) / N, 0.5}; pos = 0; kept += r.add(19) >= 0; }
	return std::abs(kept - N * 2 / 20) > 1;'''))
bug("exponential-never-last", "C07", "reservoir_sampling.hpp", ("index = func::floor(rdn * static_cast<double>(counter));", "index = func::floor(rdn * static_cast<double>(counter > 1 && counter < sample_size ? counter-1 : counter));"),
    "a replacement while the sample is partly filled", "the latest slot is never replaced before the sample is full: the slots are not equally likely",
    RS % ("reservoir_sampling.hpp", '''ExponentialReservoirSampling<int, 4, F> r; d = {0.99}; r.add(0); r.add(1); r.add(2); d = {0.1, 0.9}; pos = 0; return r.add(3) != 2;'''))
bug("chain-threshold", "C08", "chained_reservoir.hpp", ("(double)sample_size / ((double)counter + 1);", "(double)sample_size / ((double)counter + (counter == sample_size ? 2 : 1));"),
    "the first element after the sample is full", "the element that follows the first k enters with probability k/(k+2)",
    RS % ("chained_reservoir.hpp", '''int kept = 0, N = 1000;
	for (int i = 0; i < N; ++i) { d = {0.9999}; pos = 0; ChainedReservoirSampling<int, 3, F> r; for (int k = 0; k < 3; ++k) r.add(k, k + 1); d = {(i + 0.5) / N, 0.5, 0.5}; pos = 0; r.add(3, 4); for (int k = 0; k < 3; ++k) kept += r[k] == 3; }
	return std::abs(kept - N * 3 / 4) > 1;'''))
LT = '''#include <cmath>
#include <cstdio>
#include <vector>
#include <ltc.hpp>
int main() {
	%s
}
'''
bug("ltc-touching-cones", "C11", "ltc.hpp", ("old_low_deriva > new_up_deriva)", "(old_low_deriva >= new_up_deriva && old_low_deriva > 0))"),
    "a rising segment whose cone is reduced to exactly one line by a new point", "a transmission although a line fits",
    LT % '''LTC<double, int, 1> l; l.add(0, 0); l.add(1, 3); /* slopes 2..4 */ return l.add(2, 3) != 0; /* slopes 1..2: slope 2 fits */''')
MC = '''#include <cassert>
#include <cstddef>
#include <cmath>
#include <mc_nn.hpp>
int main() {
	%s
}
'''
bug("mcnn-tie-other-class", "C12", "mc_nn.hpp", ("		if(shortest_distance == distance_nearest)\n			nearest = nearest_with_class;", "		if(shortest_distance == distance_nearest && nearest > nearest_with_class)\n			nearest = nearest_with_class;"),
    "a point exactly between two clusters, the one of its class being the later one", "the point of the tie counts as an error of both clusters",
    MC % '''double a = 0, b = 2, m = 1; MCNN<double, 1, 10> c(1); c.train(&a, 0); c.train(&b, 1); c.train(&m, 1); return c.count_clusters() != 2;''')
bug("mcnn-clean-method-2", "C13", "mc_nn.hpp", ("		if(cleaning_method == 1 || cleaning_method == 2)\n			clean_low", "		if(cleaning_method == 1 || (cleaning_method == 2 && count_active_cluster >= (int)max_cluster))\n			clean_low"),
    "cleaning method 2 with free clusters and a cluster of low performance", "method 2 only cleans when there is no free cluster",
    MC % '''double a = 0, b = 100; MCNN<double, 1, 4> c(5, 2, 60); c.train(&a, 0); c.train(&a, 0); for (int i = 0; i < 30; ++i) c.train(&b, 1); return c.count_clusters() != 1;''')
HT = '''#include <cmath>
#include <limits>
#include <new>
#include <cstddef>
#include <cstdio>
#include <hoeffding_tree.hpp>
struct F { static double log(double x) { return std::log(x); } static double log2(double x) { return std::log2(x); } static bool isnan(double x) { return std::isnan(x); } };
int main() {
	%s
}
'''
NB = '''#include <cmath>
#include <cstdio>
using namespace std;
#include <naive_bayes.hpp>
struct F { static double log(double x) { return std::log(x); } static double sqrt(double x) { return std::sqrt(x); } };
int main() {
	%s
}
'''
bug("nb-weighted-mean", "C16", "naive_bayes.hpp", ("				variance_sum += weight * (value - previous_mean) * (value - mean);", "				variance_sum += weight * (value - previous_mean) * (value - previous_mean);"),
    "scores of a label with several points", "the variance is overestimated by the distance to the previous mean",
    NB % '''NaiveBayes<double, 1, 1, F> n; double v[] = {1, 2, 4}; for (double& x : v) n.train(&x, 0); double s[1]; double q = 3; n.predict(&q, s);
	double m = 7.0 / 3, var = ((1 - m) * (1 - m) + (2 - m) * (2 - m) + (4 - m) * (4 - m)) / 2; double d = (1 / (2.50663 * std::sqrt(var))) * std::exp(-(q - m) * (q - m) / (2 * var));
	return std::fabs(s[0] - std::log(d)) > 1e-9;''')
ML = '''#include <cmath>
#include <cstdio>
struct F { static double random() { return 0.5; } static double activation(double x) { return 1 / (1 + std::exp(-x)); } static double derivative(double y) { return y * (1 - y); } };
#include <perceptron.hpp>
int main() {
	%s
}
'''
bug("mlp-layer-weights-base", "C17", "perceptron.hpp", ("				base_index += layer_size[l] * (layer_size[l-1]+1);\n			\n			for(int i = 0; i < (layer_size[layer_idx-1]+1) * layer_size[layer_idx]; ++i)", "				base_index += (layer_size[l]+1) * layer_size[l-1];\n			\n			for(int i = 0; i < (layer_size[layer_idx-1]+1) * layer_size[layer_idx]; ++i)"),
    "set_weights of a whole layer after a layer of different sizes", "the weights of the layer are written at the wrong place",
    ML % '''int sz[] = {2, 3, 1}; MultiLayerPerceptron<3, 4000, F> a(sz), b(sz); double w1[] = {1, 2, 3, 4, 5, 6, 7, 8, 9}, w2[] = {0.1, 0.2, 0.3, 0.4};
	a.set_weights(1, w1); a.set_weights(2, w2); for (int n = 0; n < 3; ++n) b.set_weights(1, n, w1 + 3 * n); b.set_weights(2, 0, w2);
	double in[] = {0.3, -0.2}, x, y; a.feed_forward(in, &x); b.feed_forward(in, &y); return x != y;''')
bug("mlp-error-after-update", "C18", "perceptron.hpp", ("						weights[weight_next_layer] += d_weight;\n", "						weights[weight_next_layer] += d_weight;\n						if(layer_idx > 1 && neuron_idx < layer_size[layer_idx])\n							neuron_error += func::derivative(current_neuron_output) * d_weight * neuron_output[neuron_next_layer];\n"),
    "a network with at least two hidden layers", "the error sent to the first hidden layers uses the weights after the step",
    ML % '''int sz[] = {1, 2, 2, 1}; MultiLayerPerceptron<4, 4000, F> m(sz, 0.5); double w[] = {0.3, -0.1, 0.7, 0.2, 0.5, -0.4, 0.1, 0.9, 0.6, -0.3, 0.8, -0.7, 0.25}; m.set_weights(w);
	auto loss = [&](double* ww) { MultiLayerPerceptron<4, 4000, F> k(sz, 0.5); k.set_weights(ww); double in = 0.6, out; k.feed_forward(&in, &out); return 0.5 * (out - 3.0) * (out - 3.0); };
	double in = 0.6, out, e = 3.0; m.feed_forward(&in, &out); m.backpropagate(&e);
	for (int i = 0; i < 13; ++i) { double a[13], b[13]; for (int k = 0; k < 13; ++k) a[k] = b[k] = w[k]; a[i] += 1e-5; b[i] -= 1e-5; double g = (loss(a) - loss(b)) / 2e-5; double step = m.get_weights()[i] - w[i]; if (std::fabs(step + 0.5 * g) > 1e-5) return 1; }
	return 0;''')
MO = '''#include <cmath>
#include <cstdio>
#include <vector>
#include <cstdlib>
using namespace std;
static std::vector<double> d; static size_t pos = 0;
struct F { static double rand_uniform() { return d[pos++ %% d.size()]; } static double exp(double x) { return std::exp(x); } static double log(double x) { return std::log(x); } };
#include <%s>
int main() {
	%s
}
'''
bug("mondrian-parent-time", "C21", "mondrian.hpp", ("if(E >= 0 && parent_tau + E < node.tau){", "if(E >= 0 && E < node.tau - parent_tau * (node.is_leaf() ? 0 : 1)){"),
    "a point outside of the box of a leaf that is not the root", "the time already spent above a leaf is forgotten: leaves deep in the tree split too easily, with split times after the lifetime",
    MO % ("mondrian.hpp", '''/* life 1: root leaf at 0; point 1 splits at time -ln(1-.5)=0.69; then a point 2 away at distance 1 from the right leaf draws 0.69 again: 1.38 > 1 */
	typedef MondrianForest<double, F, 1, 1, 2, 2000> M; M m(1, 0.5, 0.5); d = {0.5}; double x = 0; m.train(&x, 0); x = 1; m.train(&x, 1); x = 2; m.train(&x, 0);
	/* the last point has to be absorbed by the leaf of 1: the prediction at 2 follows both labels equally */
	typedef MondrianForest<double, F, 1, 1, 2, 2000> N; N n(1, 0.5, 0.5); d = {0.5}; x = 0; n.train(&x, 0); x = 1; n.train(&x, 1); d = {0.999999}; x = 2; n.train(&x, 0);
	double a[2], b[2]; x = 2; m.predict(&x, a); n.predict(&x, b); return a[0] != b[0] || a[1] != b[1];'''))
bug("mondrian-last-node", "C20", "mondrian.hpp", ("		for(int i = 0; i < MAX_NODE; ++i)\n			if(nodes[i].available())\n				return i;", "		for(int i = 0; i + 1 < MAX_NODE; ++i)\n			if(nodes[i].available())\n				return i;"),
    "a forest whose pool is filled to the last node", "the last node of the pool is never used: growth stops although two nodes are free",
    MO % ("mondrian.hpp", '''/* one node in the whole pool: the first point must be taken */
	typedef MondrianForest<double, F, 1, 1, 2, 90> M; M m(1, 0.5, 0.5); d = {0.5}; double x = 0; return !m.train(&x, 0);'''))
bug("unbound-counter-stop", "C23", "mondrian_unbound.hpp", ("			//if(counters[label] == 2)\n				//return;", "			if(counters[label] >= 1 && this->parent == nullptr)\n				return;"),
    "a label that reaches the second child of a root after the first one", "the root counts one child for a label that both have seen",
    MO % ("mondrian_unbound.hpp", '''typedef MondrianForestUnbound<double, F, 1, 2> M; M m(2, 0.5, 0.5, 1), n(2, 0.5, 0.5, 1); double x, s[2], t[2];
	d = {0.3}; x = 0; m.train(&x, 0); x = 1; m.train(&x, 1); d = {0.9999999}; x = 1; m.train(&x, 0); x = 0; m.train(&x, 1);
	d = {0.3}; x = 1; n.train(&x, 1); x = 0; n.train(&x, 0); d = {0.9999999}; x = 0; n.train(&x, 1); x = 1; n.train(&x, 0);
	/* the two trees have the same shape and the same points up to the order: the split is at a different place, so compare with the counts */
	x = 0.2; m.predict(&x, s); x = 0.2; double e0 = s[0] + 0; 
	M k(2, 0.5, 0.5, 1); d = {0.3}; x = 0; k.train(&x, 0); x = 1; k.train(&x, 0); d = {0.9999999}; x = 1; k.train(&x, 1); x = 0; k.train(&x, 1); x = 0.2; k.predict(&x, t);
	return std::fabs(s[0] - t[0]) > 1e-9 || std::fabs(s[1] - t[1]) > 1e-9;'''))
bug("error-metric-increase", "C26", "metrics.hpp", ("		count += c;\n		error_count += c;", "		count += c;\n		error_count += c > 1 && use_ratio ? 1 : c;"),
    "increase_error by more than one on a metric with ratio", "the errors are counted once",
    '''#include <metrics.hpp>
int main() { ErrorMetrics<true> m; m.update(1, 1); m.increase_error(3); return m.score(false, 4) != 3.0; }
''')
bug("rs-metric-assign", "C27", "metrics.hpp", ("			number = metric.number;", "			number = metric.number;\n			total_count = number;"),
    "assignment from a metric that is not the latest", "the shared counter goes back",
    '''#include <metrics.hpp>
int main() { ReservoirSamplingMetrics a, b, c; c = a; return a.score() != 1.0 / 3 || c.score() != 1.0 / 3; }
''')
bug("cumulative-given-sum", "C28", "utils.hpp", ("			values[i] = values[i-1] + (values[i]/sum);", "			values[i] = values[i-1] + (values[i] > 0 ? values[i]/sum : 0);\n		if(size > 2 && values[size-1] < 1)\n			values[size-1] = 1;"),
    "a given sum larger than the sum of the values", "the last cumulative share is forced to 1",
    '''#include <utils.hpp>
int main() { double v[] = {1, 1, 1}; Utils::turn_array_into_probability(v, 3, 6); return v[2] != 0.5 && (v[2] < 0.499999 || v[2] > 0.500001); }
''')

bug("cuckoo-few-relocations", "C04", "cuckoo_filter.hpp", ("while(i < 500);", "while(i < 3);"),
    "an almost full filter in which the free entry needs more than three relocations", "add gives up early: it fails although relocation would find room",
    CK.replace("seq[pos++ %% 10]", "rand() / (RAND_MAX + 1.0)") % ("*e % 255 + 1", "(*e * 11) % 16", "(fp * 7 + 1) % 16", '''int fails = 0;
	for (int r = 0; r < 40; ++r) { CuckooFilter<int, 16, 4, 8, F, rnd> f; srand(r); for (int i = 0; i < 52; ++i) if (!f.add(rand() % 10000)) ++fails; }
	return fails > 10;'''))
bug("cuckoo-last-entry-stays", "C04", "cuckoo_filter.hpp", ("				fingerprint_t tmp = get_entry(h, space_h);\n", "				if(bucket_size > 2 && i > 0 && space_h == bucket_size - 1)\n					space_h = 0;\n				fingerprint_t tmp = get_entry(h, space_h);\n"),
    "buckets of more than two entries and more than one relocation", "the last entry of a bucket is never relocated after the first step",
    CK.replace("seq[pos++ %% 10]", "(++pos, pos == 3 || pos == 4 ? 0.999 : pos <= 2 ? 0.999 : 0.999)") % ("*e", "0", "0", '''/* every element shares bucket 0: the two relocation steps must take the last entry, twice */
	CuckooFilter<int, 1, 3, 4, F, rnd> f; f.add(1); f.add(2); f.add(3); f.add(4); return !f.lookup(1) || !f.lookup(2);'''))
bug("reservoir-short-counter", "C05", "reservoir_sampling.hpp", ("	unsigned int counter = 0;", "	unsigned short counter = 0;"),
    "more than 65535 elements", "the counter wraps: the next elements fill the reservoir in order again", nth=1,
    demo=RS % ("reservoir_sampling.hpp", '''ReservoirSampling<int, 3, F> r; d = {0.99}; for (int k = 0; k < 70000; ++k) r.add(k); return r[0] != 0 || r[1] != 1 || r[2] != 2 || r.count() != 70000;'''))
bug("chain-obsolete-keeps-last", "C09", "chained_reservoir.hpp", ("				if(current->next == NULL){\n					do_shift = false;", "				if(current->next == NULL || current->next->timestamp == timestamp + 1){\n					do_shift = false;"),
    "a successor whose timestamp directly follows the obsolete one", "the slot keeps the obsolete element",
    RS % ("chained_reservoir.hpp", '''ChainedReservoirSampling<int, 2, F> r; d = {0.99}; r.add(0, 1); d = {0.0}; r.add(1, 2); d = {0.99}; pos = 0; r.add(2, 3); r.obsolete(2); return r[0] != 2 || r[1] != 2;'''))
bug("ltc-lower-not-tightened", "C10", "ltc.hpp", ("		if(old_low_deriva > new_low_deriva) {", "		if(old_low_deriva > new_low_deriva && old_low_deriva >= 0) {"),
    "a falling segment in which an earlier point bounds the slope from below", "the lower limit of a falling segment is loosened by later points, so the line leaves the epsilon band of earlier points",
    LT % '''std::vector<double> v = {0, -1, -8, -13}; LTC<double, int, 2> l; std::vector<int> ts; std::vector<double> xs;
	for (int k = 0; k < 10; ++k) v.push_back(k % 2 ? 1000 : -1000);
	for (size_t i = 0; i < v.size(); ++i) if (l.add((int)i, v[i])) { int t; double x; l.get_value_to_transmit(t, x); ts.push_back(t); xs.push_back(x); }
	for (size_t i = 0; i < v.size(); ++i) for (size_t s = 0; s + 1 < ts.size(); ++s) if (ts[s] <= (int)i && (int)i <= ts[s + 1]) { double y = xs[s] + (xs[s + 1] - xs[s]) * ((int)i - ts[s]) / (double)(ts[s + 1] - ts[s]); if (std::fabs(y - v[i]) > 2.001) return 1; }
	return 0;''')
bug("ht-majority-tie", "C14", "hoeffding_tree.hpp", ("			if(probabilities[i] > probabilities[best])", "			if(probabilities[i] >= probabilities[best])"),
    "a leaf with two equally frequent labels", "the highest label wins a tie",
    HT % '''int fs[] = {2}; HoeffdingTree<double, 1, 3, 4000, F> t(0.1, fs); double x = 1, s[3]; t.train(&x, 1); x = 2; t.train(&x, 0); return t.predict(&x, s) != 0;''')
bug("ht-equal-goes-right", "C14", "hoeffding_tree.hpp", ("			if(features[result] <= split_value)", "			if(features[result] < split_value)"),
    "the point that triggers a split lies exactly on it", "it is counted in the right child, while predictions look in the left one",
    HT % '''int fs[] = {2}; HoeffdingTree<double, 1, 2, 40000, F> t(0.9, fs); double lim[] = {2}; t.get_root()->set_limits(lim);
	double x, s[2]; /* label 0 below 2, 1 above, until it splits; the point in the middle is given each time the split is close */
	for (int i = 0; i < 500; ++i) { HoeffdingTree<double, 1, 2, 40000, F> u(0.9, fs); u.get_root()->set_limits(lim); for (int k = 0; k < i; ++k) { x = k % 2 ? 3 : 1; u.train(&x, k % 2); } x = 2; u.train(&x, 1);
		/* a leaf with no point has no frequencies; below the split there is either the mixture or the one point */
		x = 2; u.predict(&x, s); if (i > 0 && std::isnan(s[0])) { HoeffdingTree<double, 1, 2, 40000, F> w(0.9, fs); w.get_root()->set_limits(lim); for (int k = 0; k < i; ++k) { x = k % 2 ? 3 : 1; w.train(&x, k % 2); } x = 2; w.predict(&x, s); if (!std::isnan(s[0])) return 1; } }
	return 0;''')
bug("ht-second-best", "C15", "hoeffding_tree.hpp", ("				else if(info_gain[i] > info_gain[best_split[1]]){", "				else if(info_gain[i] > info_gain[best_split[1]] && i < 3){"),
    "at least four limits, the fourth one or a later one being the second best", "the runner-up is overlooked, so a leaf splits although two limits are equally good",
    HT % '''int fs[] = {2, 2, 2, 2}; HoeffdingTree<double, 4, 2, 40000, F> t(0.9, fs); double lim[] = {2, 2, 2, 2}; t.get_root()->set_limits(lim);
	/* features 0 and 3 tell the label equally well, so it must not split: every leaf keeps counting all points */
	double x[4], s[2]; for (int i = 0; i < 400; ++i) { x[0] = x[3] = i % 2 ? 3 : 1; x[1] = x[2] = i / 2 % 2 ? 3 : 1; t.train(x, i % 2); }
	t.predict(x, s); return s[0] != 0.5;''')
bug("ht-right-box", "C15", "hoeffding_tree.hpp", ("			child_right->l_box[split_feature] = split_value;\n", ""),
    "a split in the right child of a split, on the same feature", "the limits of the right child are spread over the whole box of its parent",
    HT % '''int fs[] = {4}; HoeffdingTree<double, 1, 2, 40000, F> t(0.001, fs); double lim[] = {4, 100, 200}; t.get_root()->set_limits(lim);
	double x, s[2]; int i = 0; for (; i < 1000; ++i) { x = i % 2 ? 8 : 0; t.train(&x, i % 2); x = 1; t.predict(&x, s); if (i > 2 && s[1] == 0) break; }
	/* split at 4; the right child has the limits 5, 6, 7 */
	for (i = 0; i < 400; ++i) { x = i % 2 ? 6.9 : 7.1; t.train(&x, i % 2); }
	int a, b; x = 6.95; a = t.predict(&x, s); x = 7.05; b = t.predict(&x, s); return a != 1 || b != 0;''')
bug("mondrian-split-at-point", "C19", "mondrian.hpp", ("					if(features[dimension] == upper_value){ //right", "					if(features[dimension] >= split_value){ //right"),
    "a point below the box and a split drawn exactly at the point", "the new leaf is put on the right of the split although its point is routed to the left",
    MO % ("mondrian.hpp", '''typedef MondrianForest<double, F, 1, 1, 2, 2000> M; M m(1, 0.5, -5); d = {0.5}; double x = 1, s[2]; m.train(&x, 1); x = 0; d = {0.2, 0.5, 0.0}; pos = 0; m.train(&x, 0); m.predict(&x, s); return s[0] < 0.9;'''))
bug("mondrian-smoothing-restart", "C22", "mondrian.hpp", ("			probability_not_separated_yet *= (1 - probability_of_branching);", "			probability_not_separated_yet = (1 - probability_of_branching);"),
    "a query outside of the boxes of two inner nodes in a row", "only the last inner node of the path counts in the probability of not having branched off yet",
    MO % ("mondrian.hpp", '''typedef MondrianForest<double, F, 1, 1, 2, 4000> M; M m(3, 0.5, 0.0); double x, s[2]; d = {0.2};
	/* every leaf has both labels, so the scores add up to the sum of the weights, which is one */
	for (int i = 0; i < 5; ++i) { x = i; m.train(&x, 0); m.train(&x, 1); }
	for (x = -3; x < 8; x += 0.25) { m.predict(&x, s); if (std::fabs(s[0] + s[1] - 1) > 1e-9) return 1; } return 0;'''))
CO = MO.replace("#include <%s>", "#define private public\n#include <mondrian_coarse.hpp>\n#undef private\ntypedef CoarseMondrianForest<double, F, ErrorMetrics<true>, 1, 2, %s> M;\nstruct V { std::vector<int> st; bool bad = false; int n = 0; template <class... A> void open(int id, int parent, A...) { if (parent != (st.empty() ? -1 : st.back())) bad = true; st.push_back(id); ++n; } void close() { st.pop_back(); } void no_root() {} void bad_node() { bad = true; } template <class... A> void scores(A...) {} };")
bug("coarse-orphan-sibling", "C24", "mondrian_coarse.hpp", ("	sibling.parent = parent.parent;\n	node_available += 1;\n	parent.reset();", "	node_available += 1;\n	parent.reset();\n	sibling.parent = parent.parent;"),
    "a leaf whose grandparent exists is trimmed", "the remaining sibling loses its parent link",
    CO % (4000, '''d = {0.2}; M m(50, 0.5, 0.0, 1, PHOENIX_MANAGEMENT, NODE_SIZE, -1, 0, false, 0, 0, 1.0, true, true, 1.0, 1.0, 0, EXTEND_ORIGINAL, TRIM_COUNT);
	double x; for (int i = 0; i < 16; ++i) { x = (i * 7) % 16; d = {0.2, 0.5, 0.5}; pos = 0; for (int k = 0; k < 3; ++k) m.train(&x, 0); if (i % 3 == 0) for (int k = 0; k < 2; ++k) m.train(&x, 1); }
	V v; m.verif_visit(v); if (v.bad || v.n < 5) return 2;
	for (int i = 0; i < 5; ++i) { m.tree_trim(); V w; m.verif_visit(w); if (w.bad) return 1; }
	return 0;'''), flags=" -DORPAILLECC_VERIF")
bug("coarse-behead-free", "C25", "mondrian_coarse.hpp", ("		parent.reset();\n		node_available += 1;\n		node_reset(node_id);", "		node_available += 1;\n		node_reset(node_id);\n		sibling.tau = parent.tau > sibling.tau ? parent.tau : sibling.tau;"),
    "trimming a child of the root", "the old root is never given back to the pool although it is counted as free",
    CO % (700, '''d = {0.2}; M m(50, 0.5, 0.0, 1, PHOENIX_MANAGEMENT, NODE_SIZE, -1, 0, false, 0, 0, 1.0, true, true, 1.0, 1.0, 0, EXTEND_ORIGINAL, TRIM_COUNT);
	double x, s[2]; int n0 = 0, n = 0; for (int r = 0; r < 20; ++r) { for (int i = 0; i < 20; ++i) { x = r * 20 + i; m.train(&x, 0); } if (r == 0) m.tree_depth(0, &n0); for (int k = 0; k < 20; ++k) m.tree_trim(); }
	for (int i = 0; i < 40; ++i) { x = 1000 + i; m.train(&x, 0); } m.tree_depth(0, &n); return n < n0;'''))
bug("coarse-barycenter-lower", "C29", "mondrian_coarse.hpp", ("				double const difference = (features[i] - node.bound_upper[i]) * fe_parameter;", "				double const difference = (features[i] - node.bound_upper[i]) * (node.is_leaf() ? 1.0 : fe_parameter);"),
    "EXTEND_BARYCENTER with a forced extension share below 1 and a point above the box of a leaf", "the box of the leaf is extended all the way to the point",
    CO % (4000, '''M m(1, 0.5, 0.5, 1, PHOENIX_MANAGEMENT, NODE_SIZE, -1, 0, false, 0, 0, 1.0, true, true, 0.5, 1.0, 0, EXTEND_BARYCENTER), n(1, 0.5, 0.5, 1, PHOENIX_MANAGEMENT, NODE_SIZE, -1, 0, false, 0, 0, 1.0, true, true, 0.5, 1.0, 0, EXTEND_BARYCENTER);
	d = {0.5}; double x, s[2], t[2]; for (M* k : {&m, &n}) { d = {0.5}; pos = 0; x = 0; k->train(&x, 0); x = k == &m ? 4 : -4; k->train(&x, 1); d = {0.9999999}; pos = 0; x = k == &m ? 6 : -6; k->train(&x, 0); }
	x = 6; m.predict(&x, s); x = -6; n.predict(&x, t); return std::fabs(s[0] - t[0]) > 1e-9;'''))
bug("coarse-empty-tree-average", "C30", "mondrian_coarse.hpp", ("		tree_used += 1;", "		tree_used += tree_bases()[i].is_empty() ? 0 : 1;"),
    "a forest with a tree that could not get a root", "the mean leaves out the trees without root but still adds their base measure",
    CO % (340, '''int const trees = 3; M m(1, 0.5, 0.5, trees, PHOENIX_MANAGEMENT, NODE_SIZE, -1, 0, false, 0, 0, 1.0, true, true, 1.0, 1.0, 0, EXTEND_ORIGINAL);
	d = {0.1}; double x = 0, s[2]; bool all = m.train(&x, 0); m.predict(&x, s); /* label 1 has not been seen: base measure in every tree */ return std::fabs(s[1] - 0.5) > 1e-9 || all;'''))
# C31: one tree of three nodes (leaves 20 and [24, 40]), full for 25 trainings, then the left leaf is trimmed
SL = '''d = {0.2}; M m(50, 0.5, -1.0, 1, PHOENIX_MANAGEMENT, NODE_SIZE, -1, 0, false, 0, 0, 1.0, true, true, 1.0, %s, %s, EXTEND_BARYCENTER, TRIM_COUNT, 1.0);
	double x, s[2]; int n = 0; for (double v : {20., 30., 24., 40.}) { x = v; m.train(&x, 0); }
	for (int i = 0; i < 25; ++i) { x = 30; m.train(&x, 0); }
	m.tree_depth(0, &n); if (n != 3) return 2; m.tree_trim(); n = 0; m.tree_depth(0, &n); if (n != 1) return 2;
	%s'''
bug("coarse-average-count-fade", "C31", "mondrian_coarse.hpp", ("	count_points = count_points*fading_count + 1;", "	count_points = (count_points + 1)*fading_count;"),
    "SPLIT_HELPER_AVG with fading_count below 1", "the sum and the count of the average point fade differently, so the average lies outside the data",
    CO % (330, SL % ("0.5", "SPLIT_HELPER_AVG", '''d = {0.5}; x = 38; m.train(&x, 1); n = 0; m.tree_depth(0, &n); return n != 3; /* the average is about 34, inside [24, 40] */''')))
bug("coarse-helper-split-at-point", "C31", "mondrian_coarse.hpp", ("	//Propage the datapoint on the right side of the new split\n	if(features[dimension] > split_value){", "	//Propage the datapoint on the right side of the new split\n	if(features[dimension] >= split_value){"),
    "a split drawn exactly at the data point, which lies below the average", "the point is counted in the right leaf although it is routed to the left one",
    CO % (330, SL % ("1.0", "SPLIT_HELPER_AVG", '''d = {0.5, 0.0, 0.0, 0.5}; pos = 0; x = 25; m.train(&x, 1); n = 0; m.tree_depth(0, &n); if (n != 3) return 2;
	/* split at 25: the left leaf must hold the only point of label 1 */
	x = 25; m.predict(&x, s); return s[1] < 0.9;''')), nth=2)
# C32: halvings over 400 short histories, seen through the read-only hook
HV = '''#include <cmath>
#include <cstdio>
#include <vector>
#include <cstdlib>
#include <map>
using namespace std;
static unsigned long long g = 1;
struct F { static double rand_uniform() { g = g * 6364136223846793005ULL + 1442695040888963407ULL; return (g >> 33) / 2147483648.0; } static double exp(double x) { return std::exp(x); } static double log(double x) { return std::log(x); } };
#include <mondrian_coarse.hpp>
typedef CoarseMondrianForest<double, F, ErrorMetrics<true>, 2, 2, 1100> M;
struct V { int points = 0, nodes = 0; std::vector<int> st; int rootfe = 0, rootid = -1; bool rootleaf = false; double rv = 0, lo[2], hi[2]; int rf = 0; std::map<int, int> fe; std::map<int,int> par;
	void open(int id, int parent, bool leaf, int f, double v, double, double const* l, double const* h, int const* c) { par[id] = parent; if (st.empty()) { rootid = id; rootleaf = leaf; rv = v; rf = f; for (int i = 0; i < 2; ++i) lo[i] = l[i], hi[i] = h[i]; } st.push_back(id); ++nodes; if (leaf) points += c[0] + c[1]; }
	void scores(double, int f) { if (st.size() == 1) rootfe = f; fe[st.back()] = f; } void close() { st.pop_back(); } void no_root() {} void bad_node() {} };
int main() {
	int bad = 0, halved = 0, leak = 0, single = 0, passed = 0, splitfe = 0, wrongfe = 0;
	for (int r = 0; r < 400; ++r) {
		g = r * 977 + 13; int trig = 1 + r %% 3, dist = r / 3 %% 4;
		M m(6, 0.5, 0.5, 1, r %% 2 ? COBBLE_MANAGEMENT : PHOENIX_MANAGEMENT, NODE_SIZE, r %% 2 ? 3 : -1, 0, false, dist, trig, 1.0, true, true, 1.0, 1.0, 0, EXTEND_BARYCENTER, r %% 5 ? TRIM_RANDOM : TRIM_COUNT);
		V a; m.verif_visit(a);
		for (int i = 0; i < 60; ++i) {
			double x[2]; for (int k = 0; k < 2; ++k) { x[k] = F::rand_uniform() * 2 - 1; if (r %% 4 == 0) x[k] = std::floor(x[k] * 4); }
			bool ok = m.train(x, (int)(F::rand_uniform() * 2)); V b; m.verif_visit(b);
			if (ok && b.points != a.points + 1) ++bad;
			if (b.nodes + m.verif_available() != m.verif_capacity() || m.verif_available() != m.verif_believed()) ++leak;
			if (a.rootid >= 0 && b.rootid != a.rootid) { bool in = b.rv >= a.lo[b.rf] && b.rv <= a.hi[b.rf] && a.lo[b.rf]<a.hi[b.rf]; halved += in;
				if (a.rootleaf && a.rootfe > 0 && trig != 2) { ++single; passed += !in; }
				if (in && dist == 1) { int s = 0, o = 0; for (auto& p : b.par) if (p.second == b.rootid) (a.par.count(p.first) ? o : s) = b.fe[p.first]; if (a.rootfe && b.fe.count(a.rootid)) { ++splitfe; wrongfe += s != a.rootfe / 2; } }
			}
			a = b; if (F::rand_uniform() < 0.25) { m.tree_trim(); a = V(); m.verif_visit(a); }
		}
	}
	printf("bad %%d leak %%d halved %%d single %%d passed %%d splitfe %%d wrong %%d\\n", bad, leak, halved, single, passed, splitfe, wrongfe);
	return %s != 0;
}
'''
bug('coarse-halve-flat-leaf', "C32", "mondrian_coarse.hpp", ('\t\t\tif(!discharge_left)\n\t\t\t\tpercentage = 1 - percentage;', '\t\t\tif(!discharge_left && max_value > 0)\n\t\t\t\tpercentage = 1 - percentage;'),
    'a split trigger halves an inner node with a leaf that has no width in the cut feature', 'the counters of that leaf stay on the wrong side or go with the wrong side',
    HV % "bad", flags=" -DORPAILLECC_VERIF")
bug('coarse-halve-collapse', "C32", "mondrian_coarse.hpp", ('\t\t\t\t\tnode_available += 2;\n\t\t\t\t\tif(is_starting)\n\t\t\t\t\t\tbreak;\n', '\t\t\t\t\tif(is_starting)\n\t\t\t\t\t\tbreak;\n\t\t\t\t\tnode_available += 2;\n'),
    'a split trigger halves an inner node of which only one child has something on its side', 'two nodes given back to the pool are not counted as free',
    HV % "leak", flags=" -DORPAILLECC_VERIF")
bug('coarse-way-without-leaf', "C32", "mondrian_coarse.hpp", ('\tcount += cnodes[node_id].forced_extend;\n\treturn count;', '\treturn count;'),
    'SPLIT_TRIGGER_SFE and a leaf that has been refused a split', 'its forced extends do not count on the way of the point, so the probability to halve is wrong',
    HV % "passed", flags=" -DORPAILLECC_VERIF")
bug('coarse-forced-extends-quartered', "C32", "mondrian_coarse.hpp", ('\t\tnew_sibling.forced_extend = 0.5 * node.forced_extend;\n\t\tnode.forced_extend *= 0.5;', '\t\tnode.forced_extend *= 0.5;\n\t\tnew_sibling.forced_extend = 0.5 * node.forced_extend;'),
    'FE_DISTRIBUTION_SPLIT and a halved node with at least two forced extends', 'the new sibling gets a quarter of them',
    HV % "wrongfe", flags=" -DORPAILLECC_VERIF", nth=1)
BUGS[:] = [b for b in BUGS if b]
