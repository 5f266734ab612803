// Driver of Utils.
#include "enum.hpp"
#include <cmath>
#include <utils.hpp>
static Enum* en = nullptr; static tr::Draws draws;
struct Fn {
	static double rand_uniform() { return en ? en->next() : draws.next(); } static double random() { return rand_uniform(); }
	static double log(double x) { return std::log(x); } static double exp(double x) { return std::exp(x); }
};
static void pick(std::vector<double> const& p, double u) {
	draws.set({u}); tr::about("pick_from_distribution"); int r = Utils::pick_from_distribution<Fn>(p.data(), (int)p.size());
	tr::ev(tr::op("pick").da("p", p).d("u", u).i("r", r));
}
static std::vector<double> normal(std::vector<double> v, int given) {
	std::vector<double> w = v; double sum = 0; for (double x : v) sum += x; if (given == 2) sum *= 2;
	tr::about("turn_array_into_probability");
	if (given) Utils::turn_array_into_probability(w.data(), (int)w.size(), sum); else Utils::turn_array_into_probability(w.data(), (int)w.size());
	tr::ev(tr::op("normal").da("v", v).b("given", given).d("sum", sum).da("out", w)); return w;
}
template <class T> static void keep(tr::Rand& q, int n) {
	std::vector<T> a(n); for (auto& x : a) x = (T)q.in(-5, 5); std::vector<T> b = a; std::vector<double> s;
	for (int i = 0; i < n; ++i) { int c = q.n(6); s.push_back(c == 0 ? 0 : c == 1 ? 1.0 : c == 2 ? 0.9999999999999999 : q.d()); }
	draws.set(s); tr::about("shuffle"); Utils::shuffle<Fn, T>(b.data(), n);
	tr::ev(tr::op("keep").da("before", a).da("after", b));
}
template <class T> static void shuffle(int n, int grid) {
	Histogram h; Enum e; en = &e; e.M = grid; tr::about("shuffle");
	do { e.start(); std::vector<T> a; for (int i = 1; i <= n; ++i) a.push_back((T)i); Utils::shuffle<Fn, T>(a.data(), n); h.add(tr::ints(a), e); } while (e.advance());
	en = nullptr; tr::ev(tr::op("shuffle").i("n", n).raw("hist", h.json()));
}
template <class T> static void imax(std::vector<T> a) { tr::about("index_max"); tr::ev(tr::op("index_max").da("a", a).i("r", Utils::index_max(a.data(), (int)a.size()))); }
static void scalar(double a, double b) {
	tr::about("scalar");
	tr::ev(tr::op("scalar").d("a", a).d("b", b).d("min", Utils::min(a, b)).d("max", Utils::max(a, b)).d("abs", Utils::abs(a)).i("round", Utils::round(a)).d("expm1", Utils::expm1<Fn>(a)));
}
static void integer(int a, int b) { tr::about("int"); tr::ev(tr::op("int").i("a", a).i("b", b).i("min", Utils::min(a, b)).i("max", Utils::max(a, b)).i("abs", Utils::abs(a)).d("div", Utils::div_int<int>(a, b))); }
int main() {
	tr::init(); bool th = tr::thorough(); tr::Rand q(tr::seed() * 23 + 7);
	for (int rep = 0; rep < (th ? 200 : 25); ++rep) {
		tr::begin("{}"); draws.reset(q.u());
		for (int i = 0; i < 12; ++i) {
			int n = q.in(1, 8); std::vector<double> v(n); bool pos = false;
			for (auto& x : v) { x = q.n(3) == 0 ? 0 : q.n(2) ? q.in(1, 5) : q.d() * 3; pos |= x > 0; }
			if (!pos) v[q.n(n)] = 1;
			auto p = normal(v, q.n(3));
			if (p.back() < 0.99) p = normal(v, 0);
			for (int j = 0; j < n; ++j) { pick(p, p[j] > 1 ? 1 : p[j]); double b = std::nextafter(p[j], -1); if (b >= 0) pick(p, b); }
			pick(p, 0); pick(p, 1.0); pick(p, 0.9999999999999999); pick(p, q.d()); pick(p, q.d());
		}
		for (int i = 0; i < 6; ++i) { keep<int>(q, q.in(1, 9)); keep<double>(q, q.in(1, 9)); keep<short>(q, q.in(1, 4)); }
		for (int i = 0; i < 8; ++i) {
			double rate = q.n(2) ? q.in(1, 9) / 2.0 : q.d() * 10 + 1e-3, u = q.n(4) ? q.d() : q.n(2) ? 0 : 0.9999999999999999;
			draws.set({u}); tr::about("rand_exponential"); double r = Utils::rand_exponential<Fn>(rate); tr::ev(tr::op("exponential").d("rate", rate).d("u", u).d("r", r));
			std::vector<int> a(q.in(1, 7)); for (auto& x : a) x = q.in(-2, 2); imax(a);
			std::vector<double> d(q.in(1, 7)); for (auto& x : d) x = q.n(2) ? q.in(-1, 1) : q.d() - 0.5; imax(d);
			scalar(q.n(2) ? q.in(-9, 9) / 2.0 : (q.d() - 0.5) * 20, q.n(2) ? q.in(-9, 9) / 2.0 : (q.d() - 0.5) * 20);
			scalar(q.in(-9, 9) / 4.0, q.in(-9, 9) / 4.0);
			int b = q.in(1, 9); integer(q.in(-40, 40), q.n(2) ? b : -b); integer(q.in(0, 100000), q.in(1, 1000));
		}
		tr::end();
	}
	tr::begin("{}");
	for (int n = 1; n <= 5; ++n) { int g = 1; for (int i = 2; i <= n; ++i) g = lcm(g, i); shuffle<int>(n, g); if (n < 5) shuffle<double>(n, 2 * g < 30 ? 2 * g : g); }
	tr::end();
	// every cumulative array with small integer values, draws at and between the thresholds
	for (int n = 1; n <= 4; ++n) {
		int top = 1; for (int i = 0; i < n; ++i) top *= 4;
		tr::begin("{}");
		for (int c = 1; c < top; ++c) {
			std::vector<double> v; double s = 0; for (int i = 0, d = c; i < n; ++i, d /= 4) { v.push_back(d % 4); s += d % 4; }
			double a = 0; for (auto& x : v) { a += x; x = a / s; }
			for (int k = 0; k <= 2 * s; ++k) pick(v, k / (2 * s));
		}
		tr::end();
	}
	return 0;
}
