// Driver of NaiveBayes.
#include "tr.hpp"
#include <cmath>
#include <new>
using std::exp;
#include <naive_bayes.hpp>
static bool base2 = false;
struct Fn { static double log(double x) { return base2 ? std::log2(x) : std::log(x); } static double sqrt(double x) { return std::sqrt(x); } };
template <class F, int NL, int NF> struct Run {
	typedef NaiveBayes<F, NL, NF, Fn> N; alignas(16) unsigned char mem[sizeof(N)]; N* n; tr::Rand q; std::vector<std::vector<F>> seen; double spread = 1; int style = 0;
	Run(uint64_t s) : q(s) {}
	void start(bool b2) {
		base2 = b2; tr::begin(tr::Obj().i("nl", NL).i("nf", NF).d("base", b2 ? std::log(2.0) : 1.0).end());
		tr::dirty(mem, sizeof mem); tr::about("NaiveBayes"); n = q.n(2) ? new (mem) N(0.5) : new (mem) N();
	}
	std::vector<F> point(int lab) {
		std::vector<F> x(NF);
		for (auto& v : x) v = (F)(style == 0 ? q.in(-2, 2) + lab : style == 1 ? (q.d() - 0.5) * spread + lab * spread / 3 : 100 + (q.d() + lab) * spread);
		return x;
	}
	void train(std::vector<F> x, int lab, double w) {
		tr::about("train"); bool r = w == 1 && q.n(2) ? n->train(x.data(), lab) : n->train(x.data(), lab, w); seen.push_back(x);
		tr::ev(tr::op("train").da("x", x).i("label", lab + 1).d("w", w).b("r", r));
	}
	void many(std::vector<F> x, int lab, double w, int n) { // dyadic values and weights: the sums are exact
		tr::about("train (many)"); bool r = true; for (int i = 0; i < n; ++i) r = n_train(x, lab, w) && r; seen.push_back(x);
		tr::ev(tr::op("many").da("x", x).i("label", lab + 1).d("w", w).i("n", n).b("r", r));
	}
	bool n_train(std::vector<F>& x, int lab, double w) { return n->train(x.data(), lab, w); }
	void predict(std::vector<F> x) {
		std::vector<double> s(NL, 77); tr::about("predict"); std::vector<F> y = x;
		int l2 = n->predict(y.data()), l1 = n->predict(y.data(), s.data());
		tr::ev(tr::op("predict").da("x", x).i("label", l1 + 1).i("label2", l2 + 1).da("scores", s));
	}
	void probe() { if (!seen.empty() && q.n(2)) predict(seen[q.n((int)seen.size())]); else predict(point(q.n(NL))); if (q.chance(1, 6)) { auto x = point(0); for (auto& v : x) v = (F)(v * 60); predict(x); } }
	static void random(uint64_t seed, int len) {
		Run r(seed); tr::Rand& q = r.q; r.style = q.n(3); r.spread = q.n(2) ? 1 : 40; r.start(q.n(3) == 0);
		int wmode = q.n(3); static const double W[] = {0.25, 0.5, 1, 2, 3.5, 0.1, 0.7, 10};
		if (q.n(2)) r.predict(r.point(0));
		int labels = q.in(1, NL); bool same = q.chance(1, 4);
		for (int i = 0; i < len; ++i) {
			int lab = q.n(labels);
			auto x = same && !r.seen.empty() && q.n(3) ? r.seen[0] : r.point(lab);
			r.train(x, lab, wmode == 0 ? 1 : wmode == 1 ? W[q.n(5)] : W[q.n(8)]);
			if (q.n(2)) r.probe();
			if (q.chance(1, 12)) { double v = q.d(); r.n->set_smoothing(v); tr::ev(tr::op("smoothing").d("set", v).d("got", r.n->get_smoothing())); }
		}
		for (int i = 0; i < 5; ++i) r.probe();
		tr::end();
	}
	static void longrun(uint64_t seed) {
		Run r(seed); tr::Rand& q = r.q; r.spread = 16; r.start(q.n(3) == 0); int labels = q.in(1, NL);
		for (int i = 0; i < 7; ++i) {
			int lab = q.n(labels); std::vector<F> x(NF); for (auto& v : x) v = (F)(lab * 5 + q.in(-40, 40) / 8.0);
			if (q.n(2)) r.train(x, lab, 1); else r.many(x, lab, q.n(2) ? 1 : q.in(1, 8) / 4.0, q.n(3) ? q.in(2, 400) : 70000);
			r.probe(); r.predict(x);
		}
		tr::end();
	}
	static void exhaustive(int n) { // every history of n points over 3 values, 2 weights
		std::vector<int> d(n, 0); int base = 3 * 2 * NL; const double V[] = {0, 1, 3}, W[] = {1, 0.5};
		for (;;) {
			Run r(3); r.start(false);
			for (int k : d) r.train(std::vector<F>(NF, (F)V[k % 3]), k / 6, W[k / 3 % 2]);
			for (double v : {0.0, 1.5}) r.predict(std::vector<F>(NF, (F)v));
			tr::end();
			int i = n - 1; for (; i >= 0; --i) { if (++d[i] < base) break; d[i] = 0; }
			if (i < 0) break;
		}
	}
};
int main() {
	tr::init(); bool th = tr::thorough(); tr::Rand s(tr::seed() * 13 + 5);
	for (int i = 0; i < (th ? 120 : 12); ++i) {
		Run<double, 2, 2>::random(s.u(), 30); Run<float, 3, 4>::random(s.u(), 40); Run<double, 5, 1>::random(s.u(), 40); Run<double, 1, 3>::random(s.u(), 12);
		Run<float, 2, 1>::random(s.u(), 20); Run<double, 4, 7>::random(s.u(), 60); Run<double, 8, 2>::random(s.u(), 80);
	}
	for (int i = 0; i < (th ? 40 : 4); ++i) { Run<double, 2, 2>::longrun(s.u()); Run<float, 3, 1>::longrun(s.u()); }
	for (int i = 0; i < (th ? 8 : 1); ++i) { Run<double, 40, 20>::random(s.u(), 60); Run<float, 3, 300>::random(s.u(), 6); Run<double, 300, 1>::random(s.u(), 40); }
	Run<double, 2, 1>::exhaustive(th ? 4 : 3); Run<float, 1, 2>::exhaustive(th ? 5 : 4);
	return 0;
}
