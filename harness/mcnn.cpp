// Driver of MCNN.
#include "tr.hpp"
#include <cassert>
#include <cmath>
#include <new>
#include <type_traits>
#include <mc_nn.hpp>
template <class F, int NF, int MAX, int NONE> struct Run {
	typedef MCNN<F, NF, MAX, NONE> M;
	alignas(16) unsigned char mem[sizeof(M)];
	M* m; tr::Rand q; int err, clean; double perf; double spread; int labels; bool probes13;
	Run(uint64_t seed) : q(seed) {}
	void start(int e, int c, double p) {
		err = e; clean = c; perf = p;
		tr::begin(tr::Obj().i("nf", NF).i("max", MAX).i("err", e).i("clean", c).d("perf", p).i("none", NONE).b("int", std::is_integral<F>::value).i("tol", std::is_same<F, float>::value ? 3 : 6).end());
		tr::dirty(mem, sizeof mem);
		m = e == 2 && c == 0 && p == 50 ? new (mem) M() : new (mem) M((unsigned)e, (unsigned)c, p);
		tr::ev(tr::op("params").i("err", m->get_error_thr()).i("perf", m->get_performance_thr()).b("dflt", std::is_same<MCNN<F, NF>, MCNN<F, NF, 25, -1>>::value));
	}
	int predict(std::vector<F> const& x) { tr::about("predict"); return m->predict(x.data()); }
	std::vector<F> point(int style) {
		std::vector<F> x(NF);
		for (int i = 0; i < NF; ++i) {
			double v = style == 0 ? (q.d() - 0.5) * 2 * spread : style == 1 ? (double)q.in(-3, 3) : (double)q.in(0, 4) * spread / 4;
			x[i] = (F)v;
		}
		return x;
	}
	static std::string pr(std::vector<F> const& x, int lab) { return "[" + tr::dbls(x) + "," + std::to_string(lab) + "]"; }
	std::string probes(int style) {
		std::string s = "["; int n = 0;
		auto put = [&](std::vector<F> const& x, int lab) { s += (n++ ? "," : "") + pr(x, lab); };
		std::vector<std::vector<F>> ps; std::vector<int> ls;
		for (int i = 0; i < 5; ++i) { ps.push_back(point(style)); ls.push_back(predict(ps.back())); put(ps.back(), ls.back()); }
		// the frontier between two points of different labels
		for (int k = 0; k < 3; ++k) {
			int i = q.n(5), j = q.n(5);
			if (ls[i] == ls[j]) continue;
			std::vector<F> a = ps[i], b = ps[j]; int la = ls[i], lb = ls[j];
			for (int it = 0; it < (std::is_same<F, float>::value ? 8 : 14); ++it) {
				std::vector<F> c(NF); for (int f = 0; f < NF; ++f) c[f] = (F)((a[f] + b[f]) / 2);
				int lc = predict(c);
				if (lc == la) a = c; else { b = c; lb = lc; }
			}
			put(a, la); put(b, lb);
		}
		return s + "]";
	}
	void observe(tr::Obj o, int style) { std::string p = probes(style); tr::about("count_clusters"); tr::ev(o.i("count", m->count_clusters()).raw("probes", p)); }
	void train(std::vector<F> const& x, int lab, int style) {
		tr::about("train");
		bool r = m->train(x.data(), lab);
		observe(tr::op("train").da("x", x).i("label", lab).b("r", r), style);
	}
	void many(std::vector<F> const& x, int lab, int n, int style) {
		tr::about("train (many)"); bool r = true;
		for (int i = 0; i < n; ++i) r = m->train(x.data(), lab) && r;
		observe(tr::op("many").da("x", x).i("label", lab).i("n", n).b("r", r), style);
	}
	void copy(int style) { // go on with a copy, the original is used up
		tr::about("copy"); M* o = (M*)operator new(sizeof(M)); tr::dirty((void*)o, sizeof(M));
		if (q.n(2)) new (o) M(*m); else { new (o) M(1, 1, 99); for (int i = 0; i < 5; ++i) o->train(point(0).data(), q.n(3)); *o = *m; }
		M* old = m; m = o;
		for (int i = 0; i < 4; ++i) old->train(point(0).data(), q.n(5));
		observe(tr::op("predict"), style);
		memcpy(mem, (void*)o, sizeof(M)); m = (M*)mem; operator delete((void*)o);
	}
	static void longrun(uint64_t seed) { // long runs of one point, then what follows from their weight
		Run r(seed); tr::Rand& q = r.q; r.spread = 64; r.labels = q.in(2, 3); r.start(q.in(1, 3), q.n(3) ? 0 : q.in(1, 2), q.in(5, 60));
		std::vector<std::vector<F>> xs; for (int i = 0; i < 8; ++i) { std::vector<F> x(NF); for (auto& v : x) v = std::is_integral<F>::value ? (F)q.in(-90, 90) : (F)(q.in(-3000, 3000) / 64.0); xs.push_back(x); }
		for (int i = 0; i < 14; ++i) {
			int c = q.n((int)xs.size()), lab = c % r.labels; std::vector<F> x = xs[c];
			r.train(x, lab, 2);
			if (q.n(3) == 0 && i < 11) r.many(x, lab, r.clean || q.n(2) || r.predict(x) != lab ? q.in(2, 70) : q.n(3) == 0 ? 70000 : q.in(401, 3000), 2);
		}
		tr::end();
	}
	static void random(uint64_t seed, int len, bool dflt = false) {
		Run r(seed); tr::Rand& q = r.q;
		int style = q.n(3); r.spread = q.chance(1, 4) ? 4000 : q.chance(1, 2) ? 10 : 1; r.labels = q.in(2, 4);
		if (std::is_integral<F>::value && r.spread < 10) r.spread = 100; if (std::is_same<F, float>::value && r.spread > 10) r.spread = 10;
		int clean = q.n(3);
		if (dflt) r.start(2, 0, 50); else r.start(q.in(q.chance(1, 9) ? 0 : 1, 4), clean, clean ? q.in(5, 90) + (q.n(2) ? 0.5 : 0) : 50);
		r.observe(tr::op("predict"), style);
		std::vector<std::vector<F>> cen; std::vector<int> cl;
		for (int i = 0; i < 2 * r.labels; ++i) { cen.push_back(r.point(style)); cl.push_back(q.n(r.labels)); }
		bool same = q.chance(1, 5);  // repeated identical points
		std::vector<F> x = r.point(style); int lab = 0;
		for (int i = 0; i < len; ++i) {
			if (same && q.chance(2, 3)) { if (q.chance(1, 6)) x = r.point(0); }
			else if (q.chance(1, 3)) { x = r.point(style); lab = q.n(r.labels); }
			else {
				int c = q.n((int)cen.size()); x = cen[c]; lab = cl[c];
				for (int f = 0; f < NF; ++f) x[f] = (F)(x[f] + (style == 1 ? q.in(-1, 1) : (q.d() - 0.5) * r.spread / 4));
			}
			if (q.chance(1, 5)) lab = q.n(r.labels);
			r.train(x, lab, style);
			if (q.chance(1, 12)) r.copy(style);
		}
		tr::end();
	}
	static void exhaustive(int n, std::vector<double> vals, int labels, int err, int clean, double perf) {
		std::vector<int> d(n, 0); int base = (int)vals.size() * labels;
		for (;;) {
			Run r(7); r.spread = 4; r.labels = labels; r.start(err, clean, perf);
			for (int i = 0; i < n; ++i) {
				std::vector<F> x(NF, (F)0); x[0] = (F)vals[d[i] / labels];
				r.train(x, 1 + d[i] % labels, 0);
			}
			tr::end();
			int i = n - 1; for (; i >= 0; --i) { if (++d[i] < base) break; d[i] = 0; }
			if (i < 0) break;
		}
	}
};
int main(int argc, char** argv) {
	tr::init();
	bool th = tr::thorough(); tr::Rand s(tr::seed() * 31 + 9);
	int reps = th ? 40 : 5;
	for (int i = 0; i < reps; ++i) {
		Run<double, 2, 10, -1>::random(s.u(), 60); Run<double, 1, 3, -1>::random(s.u(), 40); Run<double, 1, 1, -7>::random(s.u(), 20);
		Run<int, 2, 6, -1>::random(s.u(), 50); Run<double, 3, 25, -1>::random(s.u(), 80); Run<double, 2, 4, 0>::random(s.u(), 60);
		Run<float, 2, 5, -1>::random(s.u(), 40); Run<int, 1, 2, -1>::random(s.u(), 30); Run<double, 2, 2, -1>::random(s.u(), 40);
		Run<long, 3, 8, -1>::random(s.u(), 50);
		Run<double, 1, 4, -1>::random(s.u(), 40, true);
	}
	for (int i = 0; i < (th ? 60 : 8); ++i) { Run<double, 2, 3, -1>::longrun(s.u()); Run<double, 1, 6, -1>::longrun(s.u()); Run<int, 2, 4, -1>::longrun(s.u()); }
	Run<double, 1, 2, -1>::exhaustive(th ? 5 : 4, {0, 2.125, 5.25}, 2, 1, 0, 50);
	Run<double, 1, 3, -1>::exhaustive(4, {0.5, 4}, 2, 1, 2, 45);
	if (th) { Run<int, 1, 2, -1>::exhaustive(5, {0, 3}, 3, 1, 1, 40); Run<double, 1, 3, -1>::exhaustive(5, {0, 2.125, 5.25}, 2, 1, 2, 45); }
	return 0;
}
