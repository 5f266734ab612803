// Driver of ReservoirSampling and ExponentialReservoirSampling.
#include "enum.hpp"
#include <algorithm>
#include <cmath>
#include <reservoir_sampling.hpp>
static tr::Draws draws; static tr::Rand er(7); static int edge = 0;
static Enum* en = nullptr; static Measure* me = nullptr;
static double thr[4];
struct Fun {
	static double random() {
		if (en) return en->next(); if (me) return me->next();
		if (edge && er.chance(edge, 10)) { static const double e[] = {0.0, 1.0, 0.5, 0.9999999999999999, 1e-300, 0.25}; int i = er.n(10); return i < 6 ? e[i] : thr[i - 6]; }
		return draws.next();
	}
	static int floor(double d) { return (int)std::floor(d); }
};
struct FunD : Fun { static double floor(double d) { return std::floor(d); } };
struct Big { int id; double pad[3]; Big(int i = 0) : id(i) { pad[0] = pad[1] = pad[2] = 3; } operator int() const { return id; } };
template <class R, class E, int K, bool EXP> struct Run {
	static std::vector<int> sample(R const& r) { std::vector<int> s; for (int i = 0; i < K; ++i) s.push_back((int)r[i]); return s; }
	static void fresh(R& r) { for (int i = 0; i < K; ++i) r[i] = E(0); }
	static void history(uint64_t seed, int len) {
		tr::Rand q(seed);
		R r; fresh(r); draws.reset(q.u()); edge = q.chance(1, 2) ? q.in(1, 9) : 0;
		tr::begin(tr::Obj().str("kind", EXP ? "exp" : "plain").i("k", K).end());
		int id = 0;
		for (int i = 0; i < len; ++i) {
			double c = r.count();
			thr[0] = thr[1] = EXP ? std::min(1.0, c / K) : std::min(1.0, (double)K / (c + 1));
			thr[1] = std::min(1.0, std::nextafter(thr[0], 2)); thr[2] = std::nextafter(thr[0], -1); if (thr[2] < 0) thr[2] = 0;
			thr[3] = (double)q.n(K + 1) / K;
			int what = q.n(20);
			if (what == 19 && (int)r.count() >= K && q.chance(1, 4)) {
				int m = q.chance(1, 3) ? 70000 : q.in(1, 300); std::vector<int> rs;
				tr::about("sample_index");
				for (int j = 0; j < m; ++j) { int y = r.sample_index(); if (std::find(rs.begin(), rs.end(), y) == rs.end()) rs.push_back(y); }
				tr::ev(tr::op("many").i("m", m).ia("rs", rs).i("count", r.count()).ia("sample", sample(r)));
			} else if (what < 2) {
				int e = edge; edge = 0; // the twins get the same numbers
				uint64_t s = q.u();
				R a(r), b(r);
				draws.reset(s); tr::about("add"); int x = a.add(E(999)); draws.reset(s); tr::about("sample_index"); int y = b.sample_index();
				draws.reset(q.u()); edge = e;
				tr::ev(tr::op("twin").i("add", x).i("index", y));
			} else if (what < 3) {
				int j = q.n(K); r[j] = E(++id); // through the non-const operator
				if (j >= (int)r.count()) { r[j] = E(0); --id; continue; }
				tr::ev(tr::op("write").i("i", j).i("e", id).i("count", r.count()).ia("sample", sample(r)));
			} else if (what < 6) {
				tr::about("sample_index"); int y = r.sample_index();
				tr::ev(tr::op("index").i("r", y).i("count", r.count()).ia("sample", sample(r)));
			} else {
				tr::about("add"); int y = r.add(E(++id));
				tr::ev(tr::op("add").i("e", id).i("r", y).i("count", r.count()).ia("sample", sample(r)));
			}
		}
		tr::end(); edge = 0;
	}
	// every sequence of edge values for the adds after `skip` adds
	static void exhaustive(int total, std::vector<double> const& vals) {
		tr::dedup = true;
		std::vector<size_t> dig; bool more = true;
		while (more) {
			R r; fresh(r);
			std::vector<double> s; for (size_t d : dig) s.push_back(vals[d]);
			draws.reset(1); draws.set(s); draws.fill = vals[0];
			tr::begin(tr::Obj().str("kind", EXP ? "exp" : "plain").i("k", K).end());
			for (int id = 1; id <= total; ++id) {
				tr::about("add"); int y = r.add(E(id));
				tr::ev(tr::op("add").i("e", id).i("r", y).i("count", r.count()).ia("sample", sample(r)));
			}
			size_t used = draws.pos; draws.fill = -1;
			tr::end();
			dig.resize(used, 0);
			while (!dig.empty() && ++dig.back() == vals.size()) dig.pop_back();
			more = !dig.empty();
		}
	}
	static void law(int N) {
		tr::begin(tr::Obj().str("kind", EXP ? "exp" : "plain").i("k", K).end());
		int g = 1; for (int i = 1; i <= K; ++i) g = lcm(g, i);
		std::vector<Histogram> hs(N + 1);
		tr::about("add");
		for (int n = 1; n <= N; ++n) {
			Enum e; en = &e;
			do {
				e.start();
				R r; fresh(r);
				for (int i = 1; i <= n; ++i) { e.M = EXP ? g : lcm(K, i); r.add(E(i)); }
				hs[n].add(tr::ints(sample(r)), e);
			} while (e.advance());
			en = nullptr;
			tr::ev(tr::op("add"));
			tr::ev(tr::op("dist").i("n", n).raw("hist", hs[n].json()));
		}
		tr::end();
	}
	static void steps(std::vector<int> ms) { // the add number m alone
		tr::begin(tr::Obj().str("kind", EXP ? "exp" : "plain").i("k", K).end());
		for (int m : ms) {
			R r; fresh(r); draws.reset(m * 31 + K);
			for (int i = 1; i < m; ++i) { tr::about("add"); r.add(E(i)); }
			int u = r.count();
			if (EXP && u == 0) u = 0;
			Histogram h; Enum e; en = &e; e.M = EXP ? lcm(K, u ? u : 1) : lcm(K, m);
			do { e.start(); R c(r); tr::about("sample_index"); int y = c.sample_index(); h.add(std::to_string(y), e); } while (e.advance());
			en = nullptr;
			tr::ev(tr::op("step").i("m", m).i("u", u).raw("hist", h.json()));
		}
		tr::end();
	}
	static void measures(std::vector<int> ms) { // the same, to the last digits
		tr::begin(tr::Obj().str("kind", EXP ? "exp" : "plain").i("k", K).end());
		R r; fresh(r); draws.reset(K * 7 + 1); int n = 0;
		for (int m : ms) {
			for (; n < m - 1; ++n) { tr::about("add"); r.add(E(n + 1)); }
			Measure e(3 * K + 2); me = &e; tr::about("sample_index"); auto run = [&]() -> long { R c(r); return c.sample_index(); }; Measure::Law l = e.law(run); me = nullptr;
			tr::ev(tr::op("measure").i("m", m).i("u", (int)r.count()).raw("law", Measure::json(l)));
		}
		tr::end();
	}
};
template <class E, int K> using P = Run<ReservoirSampling<E, K, Fun>, E, K, false>;
template <class E, int K> using PD = Run<ReservoirSampling<E, K, FunD>, E, K, false>;
template <class E, int K> using X = Run<ExponentialReservoirSampling<E, K, Fun>, E, K, true>;
template <class E, int K> using XD = Run<ExponentialReservoirSampling<E, K, FunD>, E, K, true>;
int main(int argc, char** argv) {
	tr::init();
	int mode = atoi(argv[1]); bool th = tr::thorough();
	tr::Rand s(tr::seed() * 77 + mode);
	std::vector<double> ed = {0.0, 0.2499999, 0.5, 0.7, 0.9999999999999999, 1.0};
	std::vector<double> ed2 = {0.0, 0.5, 0.74, 1.0};
	int reps = th ? 40 : 6, len = th ? 200 : 80;
	if (mode == 5) {
		for (int i = 0; i < reps; ++i) {
			P<int, 1>::history(s.u(), len); P<int, 2>::history(s.u(), len); PD<int, 3>::history(s.u(), len); P<Big, 7>::history(s.u(), len);
			P<int, 16>::history(s.u(), len); PD<Big, 50>::history(s.u(), 2 * len);
		}
		P<int, 1>::exhaustive(3, ed); P<int, 2>::exhaustive(4, ed); PD<int, 3>::exhaustive(5, ed2);
		if (th) { P<Big, 3>::exhaustive(5, ed); P<int, 2>::exhaustive(5, ed2); }
	}
	if (mode == 6) {
		P<int, 1>::law(th ? 5 : 4); P<int, 2>::law(5); P<int, 3>::law(th ? 6 : 5); P<Big, 4>::law(6);
		P<int, 1>::measures({1, 2, 3, 4, 5, 6, 7, 10, 13, 50, 257, 1000, 4097, 70000, 1000003}); P<int, 2>::measures({3, 4, 5, 6, 8, 9, 17, 63, 100, 300, 1025, 5000, 66000}); PD<int, 5>::measures({2, 5, 6, 7, 8, 11, 19, 40, 99, 128, 500, 2001, 40000, 300000}); P<Big, 12>::measures({13, 14, 25, 50, 100, 333, 1500, 20000});
		if (th) { P<int, 3>::measures({4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 30, 50, 80, 130, 255, 256, 257, 1000, 32767, 32768, 65536, 100000, 3000000}); P<int, 31>::measures({32, 33, 40, 61, 62, 63, 100, 310, 1000, 33000, 1000000}); PD<int, 8>::measures({9, 16, 17, 64, 65, 1000, 16777217}); }
		P<int, 1>::steps({1, 2, 3, 10, 97, 100003}); P<int, 7>::steps({7, 8, 9, 14, 50, 101, 70007}); P<int, 10>::steps({3, 11, 37, 100, 150}); PD<int, 100>::steps({100, 101, 150, 400, 1000});
		if (th) { P<int, 1>::steps({1000, 4999}); P<int, 33>::steps({34, 66, 100, 200, 331}); PD<Big, 64>::steps({65, 100, 128, 320, 640}); P<int, 300>::steps({450, 600, 900}); }
	}
	if (mode == 7) {
		for (int i = 0; i < reps; ++i) {
			X<int, 1>::history(s.u(), len); X<int, 2>::history(s.u(), len); XD<int, 3>::history(s.u(), len); X<Big, 7>::history(s.u(), len);
			X<int, 16>::history(s.u(), len); XD<Big, 50>::history(s.u(), 2 * len);
		}
		X<int, 1>::exhaustive(3, ed); X<int, 2>::exhaustive(3, ed2); XD<int, 3>::exhaustive(3, ed2);
		if (th) { X<int, 2>::exhaustive(4, ed2); X<Big, 4>::exhaustive(3, ed); }
	}
	if (mode == 70) {
		X<int, 1>::law(4); X<int, 2>::law(th ? 5 : 4); X<int, 3>::law(4); X<Big, 4>::law(3);
		X<int, 1>::measures({1, 2, 5, 100, 5000}); X<int, 3>::measures({1, 2, 3, 4, 6, 10, 30, 1000}); XD<int, 10>::measures({1, 2, 3, 5, 10, 20, 40, 100, 3000}); X<int, 24>::measures({2, 7, 20, 40, 80, 500});
		if (th) { X<int, 7>::measures({1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 20, 50, 100, 300, 100000}); XD<int, 50>::measures({1, 10, 30, 60, 100, 200, 400, 1000}); }
		X<int, 1>::steps({1, 2, 9}); X<int, 7>::steps({1, 2, 3, 5, 8, 20, 60}); XD<int, 40>::steps({1, 2, 7, 20, 50, 200}); X<int, 100>::steps({1, 10, 40, 100, 700});
		if (th) { X<int, 16>::steps({1, 2, 3, 4, 5, 6, 8, 12, 16, 24, 40, 100}); XD<Big, 32>::steps({5, 20, 60, 400}); }
	}
	return 0;
}
