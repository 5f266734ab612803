// Driver of LTC.
#include "tr.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <new>
#include <type_traits>
#include <ltc.hpp>
template <class E, class TS, int EPS, int MAX, int MIN, int U> struct Run {
	typedef LTC<E, TS, EPS, MAX, MIN, U> L;
	alignas(16) unsigned char mem[sizeof(L)];
	L* c; std::string out = "[]";
	void start() {
		tr::begin(tr::Obj().d("eps", EPS).d("vmax", MAX).d("vmin", MIN).b("int", std::is_integral<E>::value).end());
		tr::dirty(mem, sizeof mem); c = new (mem) L(); out = "[]"; sent = false;
	}
	bool sent = false;
	bool add(double t, double v) {
		tr::about("add");
		int r = c->add((TS)t, (E)v);
		if (r) sent = true;
		if (sent) { TS a = 77; E b = 77; c->get_value_to_transmit(a, b); out = "[" + tr::dbl((double)a) + "," + tr::dbl((double)b) + "]"; }
		tr::ev(tr::op("add").d("t", t).d("v", v).b("r", r).raw("out", out));
		return r;
	}
	static bool isint() { return std::is_integral<E>::value; }
	static double fit(double v) { if (isint()) v = std::trunc(v); return std::max((double)MIN, std::min((double)MAX, v)); }
	static void random(uint64_t seed, int len) {
		tr::Rand q(seed); Run r; r.start();
		double lo = std::max((double)MIN, -300.0), hi = std::min((double)MAX, 300.0);
		bool wide = q.chance(MAX > 1000000000 ? 3 : 1, 4); if (wide) { lo = MIN; hi = MAX; }
		double v = lo + q.d() * (hi - lo), slope = 0;
		double t = q.chance(1, 3) ? 1600000000.0 : q.chance(1, 2) ? 0 : q.in(1, 100);
		int gap = q.chance(1, 2) ? 1 : q.chance(1, 2) ? 5 : q.chance(2, 3) ? 400 : 8000000;
		int style = q.n(6); double step = std::max(EPS, 1) * (wide && q.chance(1, 2) ? 1000.0 : 1.0);
		bool edges = q.chance(1, 3);
		for (int i = 0; i < len; ++i) {
			if (style == 0) v += (q.d() - 0.5) * 3 * step;                     // walk
			else if (style == 1) v += slope + (q.d() - 0.5) * step;            // ramp
			else if (style == 2) v = lo + q.d() * (hi - lo);                   // noise
			else if (style == 3) v = v + (q.chance(1, 6) ? (q.d() - 0.5) * 8 * step : 0); // steps
			else if (style == 4) v += q.in(-2, 2) * EPS;                       // multiples of epsilon: ties
			else v = (i / 7) % 2 ? hi - q.n(2 * EPS + 2) : lo + q.n(2 * EPS + 2); // around the limits
			if (q.chance(1, 9)) slope = (q.d() - 0.5) * step * 2;
			if (edges && q.chance(1, 6)) v = q.n(2) ? hi : lo;
			v = std::max(lo, std::min(hi, v));
			double g = q.in(1, gap); if (!std::is_integral<TS>::value && q.chance(1, 2)) g += q.n(4) * 0.25;
			t += g;
			r.add(t, fit(isint() || q.chance(1, 2) ? std::round(v) : v));
		}
		tr::end();
	}
	static void exhaustive(int n, std::vector<double> vals, std::vector<double> gaps) {
		std::vector<int> d(2 * n, 0);
		for (;;) {
			Run r; r.start(); double t = 0;
			for (int i = 0; i < n; ++i) { t += gaps[d[2 * i]]; r.add(t, vals[d[2 * i + 1]]); }
			r.add(t + 1, (int)MAX); r.add(t + 2, (int)MIN); r.add(t + 4, (int)MAX); // flush
			tr::end();
			int i = 2 * n - 1;
			for (; i > 0; --i) { if (++d[i] < (int)(i % 2 ? vals.size() : gaps.size())) break; d[i] = 0; }
			if (i <= 0) break;
		}
	}
};
int main(int argc, char** argv) {
	tr::init();
	bool th = tr::thorough(); tr::Rand s(tr::seed() * 99 + 5);
	int reps = th ? 100 : 12;
	for (int i = 0; i < reps; ++i) {
		Run<int, int, 3, 32767, -32768, 1>::random(s.u(), 80);
		Run<int, int, 1, 100, -100, 1>::random(s.u(), 60);
		Run<short, unsigned, 5, 32767, -32768, 1>::random(s.u(), 60);
		Run<double, int, 1, 32767, -32768, 1>::random(s.u(), 60);
		Run<double, double, 2, 50, -50, 1>::random(s.u(), 60);
		Run<int, long, 10, 32767, -32768, 10>::random(s.u(), 60);
		Run<int, int, 0, 1000, -1000, 1>::random(s.u(), 50);
		Run<double, long, 3, 32767, -32768, 1000>::random(s.u(), 60);
		Run<long, long, 100, 2000000, -2000000, 1>::random(s.u(), 80);
		Run<int, double, 2, 127, 0, 1>::random(s.u(), 60);
		Run<int, int, 3, 32767, -32768, 1000>::random(s.u(), 60); Run<int, int, 1000, 2147483000, -2147483000, 1>::random(s.u(), 60); Run<short, long, 300, 32767, -32768, 1>::random(s.u(), 60);
	}
	Run<int, int, 1, 3, -2, 1>::exhaustive(th ? 5 : 3, {-2, 0, 1, 3}, {1, 2});
	Run<double, int, 1, 3, -2, 1>::exhaustive(th ? 4 : 3, {-2, 0.5, 3}, {1, 3});
	Run<int, int, 0, 2, -2, 1>::exhaustive(th ? 5 : 4, {-1, 0, 2}, {1, 3});
	return 0;
}
