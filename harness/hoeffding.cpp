// Driver of HoeffdingTree (built with the hook: verif_visit).
#include "tr.hpp"
#include <cmath>
#include <limits>
#include <new>
#include <hoeffding_tree.hpp>
struct Fn { static double log(double x) { return std::log(x); } static double log2(double x) { return std::log2(x); } static bool isnan(double x) { return std::isnan(x); } };
template <class F, int NF, int NL, int MAX> struct Run {
	typedef HoeffdingTree<F, NF, NL, MAX, Fn> H;
	struct Vis { std::string s = "["; int leaves = 0;
		void operator()(bool leaf, int f, double v) { if (s.size() > 1) s += ","; if (leaf) { ++leaves; s += "[0]"; } else s += "[" + std::to_string(f + 1) + "," + tr::dbl(v) + "]"; } };
	alignas(16) unsigned char mem[sizeof(H)]; H* h; tr::Rand q; std::vector<int> fs; int shape_leaves = 1; int nprobe; double off[NF] = {}; // where the values of every feature lie
	std::vector<std::vector<F>> seen;
	Run(uint64_t s) : q(s) {}
	void start(double delta, std::vector<int> sizes, int probes = 4) {
		fs = sizes; nprobe = probes;
		int sum = 0; for (int v : fs) sum += v;
		long N = sizeof(typename H::Node), C = sizeof(int) + 2L * (sum - NF) * sizeof(double) + sum * sizeof(int) * (long)NL;
		int room = 0; while ((2L * room + 3) * N + (room + 3) * C <= MAX) ++room;
		if (N + C > MAX) _exit(6);
		tr::begin(tr::Obj().i("nf", NF).i("nl", NL).ia("fs", fs).d("delta", delta).i("room", room).end());
		tr::dirty(mem, sizeof mem);
		tr::about("HoeffdingTree");
		h = new (mem) H(delta, fs.data());
	}
	std::string tree() { Vis v; h->verif_visit(v); shape_leaves = v.leaves; return v.s + "]"; }
	F value(int style, int f) { return style == 0 ? (F)(q.in(-4, 4) + off[f]) : (F)((q.d() - 0.5) * 8 + off[f]); }
	std::vector<F> point(int style) { std::vector<F> x(NF); for (int f = 0; f < NF; ++f) x[f] = value(style, f); return x; }
	std::string probes(int style) {
		std::string s = "[";
		for (int i = 0; i < nprobe; ++i) {
			std::vector<F> x(NF);
			if (!seen.empty() && q.chance(1, 2)) x = seen[q.n((int)seen.size())]; else x = point(style);
			std::vector<double> sc(NL, -7);
			tr::about("predict");
			int lab = h->predict(x.data(), q.n(4) ? sc.data() : nullptr), lab2 = 0;
			lab2 = h->predict(x.data(), sc.data()); if (lab2 != lab) lab = -5;
			s += (i ? ",[" : "[") + tr::dbls(x) + "," + std::to_string(lab + 1) + "," + tr::dbls(sc) + "]";
		}
		return s + "]";
	}
	void limits(double lo, double hi) {
		std::vector<double> flat; std::string s = "[";
		for (int f = 0; f < NF; ++f) { std::vector<double> a; for (int i = 1; i < fs[f]; ++i) a.push_back(off[f] + lo + i * (hi - lo) / fs[f]); s += (f ? "," : "") + tr::dbls(a); flat.insert(flat.end(), a.begin(), a.end()); }
		if (flat.empty()) return;
		tr::about("set_limits"); h->get_root()->set_limits(flat.data());
		tr::ev(tr::op("limits").raw("lim", s + "]"));
	}
	void look(int style) { std::string t = tree(); tr::ev(tr::op("look").raw("tree", t).raw("probes", probes(style))); }
	void train(std::vector<F> const& x, int lab, int style) {
		tr::about("train"); bool r = h->train(x.data(), lab); seen.push_back(x);
		std::string t = tree();
		tr::ev(tr::op("train").da("x", x).i("label", lab + 1).b("r", r).raw("tree", t).raw("probes", probes(style)));
	}
	void many(std::vector<F> const& x, int lab, int n, int style) { // as long as the tree does not change
		std::string t0 = tree(), t = t0; bool r = true; int k = 0; tr::about("train (many)"); seen.push_back(x);
		for (; k < n; ++k) { r = h->train(x.data(), lab); t = tree(); if (!r || t != t0) break; }
		if (k) tr::ev(tr::op("many").da("x", x).i("label", lab + 1).i("n", k).raw("tree", t0));
		if (k < n) tr::ev(tr::op("train").da("x", x).i("label", lab + 1).b("r", r).raw("tree", t).raw("probes", probes(style)));
		else look(style);
	}
	static void longrun(uint64_t seed, int bins, int most) {
		Run r(seed); tr::Rand& q = r.q; const double D[] = {0.5, 0.05, 1e-7, 0.9}; r.start(D[q.n(4)], std::vector<int>(NF, bins)); r.limits(-4, 4);
		auto pt = [&] { return r.point(1); };
		if (q.n(2)) r.many(pt(), q.n(NL), q.n(2) ? 70000 : 300, 1); // a single label: nothing to split
		for (int i = 0; i < 6; ++i) { auto x = pt(); r.many(x, (double)x[0] > 0 ? 1 % NL : 0, q.in(1, most), 1); r.train(pt(), q.n(NL), 1); }
		tr::end();
	}
	void ntrain(std::vector<F> const& x, int lab, int style) {
		double v = -99; tr::about("Node::train"); int f = h->get_root()->train(x.data(), lab, v); seen.push_back(x);
		tr::ev(tr::op("ntrain").da("x", x).i("label", lab + 1).i("f", f < 0 ? 0 : f + 1).d("v", v).raw("probes", probes(style)));
	}
	void gains() {
		int n = 0; for (int f = 0; f < NF; ++f) n += fs[f] - 1;
		std::vector<double> g(n + 1, -3); tr::about("compute_information_gain"); h->get_root()->compute_information_gain(g.data());
		std::string s = "["; int k = 0;
		for (int f = 0; f < NF; ++f) { std::vector<double> a; for (int i = 1; i < fs[f]; ++i) a.push_back(g[k++]); s += (f ? "," : "") + tr::dbls(a); }
		tr::ev(tr::op("gains").raw("g", s + "]"));
	}
	static void random(uint64_t seed, int len, int maxbin = 5) {
		Run r(seed); tr::Rand& q = r.q;
		std::vector<int> fs; for (int f = 0; f < NF; ++f) fs.push_back(q.chance(1, 6) ? 1 : q.in(2, maxbin));
		const double D[] = {0.5, 0.9, 0.1, 0.95, 0.98, 0.8};
		r.start(D[q.n(6)], fs);
		if (q.chance(1, 2)) for (double& o : r.off) o = q.n(2) ? q.in(-30, 30) : q.n(2) ? 4 : -4;
		int style = q.n(2); bool noise = q.chance(1, 3);
		r.look(style);
		if (q.n(4)) r.limits(q.n(2) ? -4 : q.in(-4, 0), 4);
		// a hidden concept: labels of the cells of a grid over one or two features
		int tf[2] = {q.n(NF), q.n(NF)}; int table[64]; for (int& t : table) t = q.n(NL); double w = q.chance(1, 2) ? 1.0 : 2.0;
		auto cell = [&](F v, int f) { int c = (int)std::floor(((double)v - r.off[f] + 4) / w); return c < 0 ? 0 : c > 7 ? 7 : c; };
		auto concept_ = [&](std::vector<F> const& x) { return table[cell(x[tf[0]], tf[0]) * 8 + (tf[0] == tf[1] ? 0 : cell(x[tf[1]], tf[1]))]; };
		int node = q.chance(1, 3) ? q.in(1, 8) : 0;
		for (int i = 0; i < len; ++i) {
			std::vector<F> x = r.point(style);
			if (q.chance(1, 8) && !r.seen.empty()) x = r.seen[q.n((int)r.seen.size())];
			int lab = noise && q.chance(1, 5) ? q.n(NL) : concept_(x);
			if (i < node) { r.ntrain(x, lab, style); if (q.n(2)) r.gains(); }
			else r.train(x, lab, style);
			if (r.shape_leaves == 1 && q.chance(1, 6)) r.gains();
			if (r.shape_leaves == 1 && q.chance(1, 40)) r.limits(-3, 3 + q.n(2));
			if (q.chance(1, 10)) r.look(style);
		}
		tr::end();
	}
	static void exhaustive(int n, int vals, double delta, int bins, double low = -0.5) { // every sequence of n points with vals values and NL labels
		std::vector<int> d(n, 0); int base = vals * NL;
		for (;;) {
			Run r(5); r.start(delta, std::vector<int>(NF, bins), 2);
			r.limits(low, vals + low);
			for (int v = 0; v < n; ++v) r.train(std::vector<F>(NF, (F)(d[v] / NL)), d[v] % NL, 0);
			tr::end();
			int i = n - 1; for (; i >= 0; --i) { if (++d[i] < base) break; d[i] = 0; }
			if (i < 0) break;
		}
	}
};
int main(int argc, char** argv) {
	tr::init(); bool th = tr::thorough(); tr::Rand s(tr::seed() * 77 + 3);
	int reps = th ? 40 : 4;
	for (int i = 0; i < reps; ++i) {
		Run<int, 2, 3, 20000>::random(s.u(), 70); Run<double, 1, 2, 20000>::random(s.u(), 60); Run<double, 3, 4, 60000>::random(s.u(), 90);
		Run<float, 2, 2, 1200>::random(s.u(), 80); Run<double, 1, 2, 700>::random(s.u(), 60); Run<int, 2, 2, 2000>::random(s.u(), 80);
		Run<short, 1, 5, 1400>::random(s.u(), 70, 7); Run<double, 2, 1, 3000>::random(s.u(), 20); Run<long, 3, 2, 1333>::random(s.u(), 80);
		Run<double, 1, 2, 481>::random(s.u(), 60, 4); Run<int, 1, 3, 100000>::random(s.u(), 120, 8); Run<double, 5, 2, 40000>::random(s.u(), 60, 3);
		Run<double, 1, 3, 1024>::random(s.u(), 70, 3); Run<double, 2, 2, 1777>::random(s.u(), 90, 4);
	}
	for (int i = 0; i < reps; ++i) { Run<double, 1, 2, 8000>::longrun(s.u(), 5, 200); Run<float, 2, 3, 40000>::longrun(s.u(), 4, 100); if (i < 12) { if (atoi(argv[1]) == 14) Run<double, 1, 2, 60000>::longrun(s.u(), 300, 70000); else Run<double, 1, 2, 60000>::longrun(s.u(), 30, 4); } }
	Run<int, 1, 2, 4000>::exhaustive(th ? 6 : 4, 3, 0.9, 3);
	Run<int, 1, 2, 400>::exhaustive(th ? 7 : 5, 2, 0.8, 2);
	Run<double, 2, 2, 4000>::exhaustive(th ? 6 : 4, 2, 0.95, 2);
	Run<int, 1, 2, 4000>::exhaustive(th ? 6 : 4, 3, 0.9, 3, 0); Run<double, 1, 2, 4000>::exhaustive(th ? 6 : 5, 2, 0.95, 2, 0); // points on the limits
	return 0;
}
