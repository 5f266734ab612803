// Driver of MultiLayerPerceptron.
#include "tr.hpp"
#include <cmath>
#include <new>
#include <perceptron.hpp>
static tr::Draws draws; static int kind;
static const char* NAME[] = {"sig", "id", "relu", "tanh"};
struct Fn {
	static double random() { return draws.next(); }
	static double activation(double x) { switch (kind) { case 0: return 1 / (1 + std::exp(-x)); case 1: return x; case 2: return x > 0 ? x : 0; default: return std::tanh(x); } }
	static double derivative(double y) { switch (kind) { case 0: return y * (1 - y); case 1: return 1; case 2: return y > 0; default: return 1 - y * y; } }
};
constexpr int cnt(int) { return 0; }
constexpr int cnt(int, int a) { return 0; }
template <int... S> struct Net;
template <int A> struct Net<A> { static const int W = 0; };
template <int A, int B, int... S> struct Net<A, B, S...> { static const int W = (A + 1) * B + Net<B, S...>::W; };
template <int... S> struct Run {
	static const int L = sizeof...(S), W = Net<S...>::W;
	typedef MultiLayerPerceptron<L, 16 * W, Fn> M;
	alignas(16) unsigned char mem[sizeof(M)]; M* m; tr::Rand q; std::vector<int> sz{S...}; bool fed = false; double mag = 1;
	Run(uint64_t s) : q(s) {}
	std::vector<double> w() { tr::about("get_weights"); double* p = m->get_weights(); return std::vector<double>(p, p + W); }
	double val() { return kind == 1 || q.n(4) == 0 ? q.in(-4, 4) / 4.0 : (q.d() - 0.5) * 4 * mag; }
	std::vector<double> vals(int n) { std::vector<double> v(n); for (auto& x : v) x = val(); return v; }
	void start(double rate) {
		draws.reset(q.u()); draws.record = true;
		tr::begin(tr::Obj().ia("sz", sz).str("act", NAME[kind]).d("rate", rate).end());
		tr::dirty(mem, sizeof mem); tr::about("MultiLayerPerceptron");
		m = rate == 0.1 ? new (mem) M(sz.data()) : new (mem) M(sz.data(), rate);
		tr::ev(tr::op("new").da("w", w()).da("draws", draws.used));
	}
	void step() {
		int c = q.n(fed ? 10 : 7);
		if (c == 0) { int ly = q.in(1, L - 1), j = q.n(sz[ly]); auto v = vals(sz[ly - 1] + 1); tr::about("set_weights"); m->set_weights(ly, j, v.data()); fed = false; tr::ev(tr::op("set1").i("layer", ly + 1).i("neuron", j + 1).da("ws", v).da("w", w())); }
		else if (c == 1) { int ly = q.in(1, L - 1); auto v = vals((sz[ly - 1] + 1) * sz[ly]); tr::about("set_weights"); m->set_weights(ly, v.data()); fed = false; tr::ev(tr::op("set2").i("layer", ly + 1).da("ws", v).da("w", w())); }
		else if (c == 2) { auto v = vals(W); tr::about("set_weights"); m->set_weights(v.data()); fed = false; tr::ev(tr::op("set3").da("ws", v).da("w", w())); }
		else if (c < 7) { auto x = vals(sz[0]); std::vector<double> o(sz[L - 1], -9); tr::about("feed_forward"); m->feed_forward(x.data(), o.data()); fed = true; tr::ev(tr::op("feed").da("x", x).da("out", o).da("w", w())); }
		else { auto t = vals(sz[L - 1]); tr::about("backpropagate"); double e = m->backpropagate(t.data()); fed = false; tr::ev(tr::op("back").da("t", t).d("mse", e).da("w", w())); }
	}
	static void random(uint64_t seed, int len) {
		Run r(seed); kind = r.q.n(4); static const double R[] = {0.1, 0.5, 1, 0.03125}; r.mag = r.q.n(3) ? 1 : 3; if (kind == 1 || kind == 2) r.mag = 0.5;
		r.start(kind == 1 || kind == 2 ? 0.03125 : R[r.q.n(4)]);
		for (int i = 0; i < len; ++i) r.step();
		tr::end();
	}
	static void all() { // every assignment of weights in {0, 1, -2}, inputs and target of one value
		std::vector<int> d(W, 0); const double V[] = {0, 1, -2}; kind = 1;
		for (;;) {
			Run r(3); r.start(0.5);
			std::vector<double> v; for (int k : d) v.push_back(V[k]);
			r.m->set_weights(v.data()); tr::ev(tr::op("set3").da("ws", v).da("w", r.w()));
			std::vector<double> x(r.sz[0], 1.5), o(r.sz[L - 1], -9), t(r.sz[L - 1], 0.25);
			r.m->feed_forward(x.data(), o.data()); tr::ev(tr::op("feed").da("x", x).da("out", o).da("w", r.w()));
			double e = r.m->backpropagate(t.data()); tr::ev(tr::op("back").da("t", t).d("mse", e).da("w", r.w()));
			tr::end();
			int i = W - 1; for (; i >= 0; --i) { if (++d[i] < 3) break; d[i] = 0; }
			if (i < 0) break;
		}
	}
};
int main() {
	tr::init(); bool th = tr::thorough(); tr::Rand s(tr::seed() * 17 + 11);
	for (int i = 0; i < (th ? 90 : 14); ++i) {
		Run<2, 2, 1>::random(s.u(), 30); Run<3, 1>::random(s.u(), 20); Run<1, 4>::random(s.u(), 20); Run<2, 3, 4, 2>::random(s.u(), 30); Run<1, 1, 1, 1>::random(s.u(), 30);
		Run<4, 2, 3>::random(s.u(), 30); Run<5, 6, 3>::random(s.u(), 15); Run<2, 2, 2, 2, 2>::random(s.u(), 30); Run<1, 1>::random(s.u(), 20); Run<3, 5, 1, 4>::random(s.u(), 20);
	}
	for (int i = 0; i < (th ? 6 : 1); ++i) { Run<2, 300, 1>::random(s.u(), 8); Run<300, 2>::random(s.u(), 8); Run<1, 40, 40, 2>::random(s.u(), 8); Run<2, 1, 2, 1, 2, 1, 2, 1, 2, 1>::random(s.u(), 20); }
	Run<1, 1, 1>::all(); Run<2, 1>::all(); if (th) { Run<1, 2, 1>::all(); Run<1, 1, 1, 1>::all(); }
	return 0;
}
