// Driver of the metrics.  argv[1]: 26 (error and kappa) or 27 (reservoir sampling)
#include "tr.hpp"
#include <new>
#include <metrics.hpp>
static int arrivals = 0; // arrivals so far of the reservoir-sampling metric in this process
template <class M> struct Kap { static double kappa(M const&) { return 0; } };
template <int N, bool R> struct Kap<KappaMetrics<N, R>> { static double kappa(KappaMetrics<N, R> const& m) { return m.kappa(); } };
template <class M, int NL, bool RATIO> struct Run {
	static const int N = 3;
	M* m[N] = {}; alignas(16) unsigned char mem[N][sizeof(M)]; tr::Rand q; bool res;
	Run(uint64_t s) : q(s) {}
	void fresh(int i, bool reset) {
		tr::about(reset ? "reset" : "new");
		if (reset) m[i]->reset(); else { tr::dirty(mem[i], sizeof mem[i]); m[i] = new (mem[i]) M(); }
		if (res) ++arrivals;
		tr::ev(tr::op(reset ? "reset" : "new").i("i", i + 1));
	}
	void score(int i) {
		int size = res ? q.in(0, 4) : q.in(1, 9); tr::about("score");
		double def = size == 1 && res ? m[i]->score() : m[i]->score(false, size), d0 = 0;
		if (!res && !RATIO) { d0 = m[i]->score(); if (d0 != def && !(d0 != d0 && def != def)) def = -777; }
		tr::ev(tr::op("score").i("i", i + 1).i("size", size).d("s", def).d("inv", m[i]->score(true, size)).d("kappa", Kap<M>::kappa(*m[i])).b("ratio", m[i]->ratio()));
	}
	static void random(const char* kind, uint64_t seed, int len) {
		Run r(seed); tr::Rand& q = r.q; r.res = !strcmp(kind, "res");
		tr::begin(tr::Obj().str("kind", kind).i("nl", NL).b("ratio", RATIO).i("n", N).i("all", arrivals).end());
		for (int i = 0; i < N; ++i) r.fresh(i, false);
		bool good = q.n(2);
		for (int s = 0; s < len; ++s) {
			int i = q.n(N), c = q.n(12);
			if (c == 0) r.fresh(i, true);
			else if (c == 1 && q.n(3) == 0) r.fresh(i, false);
			else if (c == 2) { int j = q.n(N); tr::about("operator="); *r.m[i] = *r.m[j]; tr::ev(tr::op("assign").i("i", i + 1).i("j", j + 1)); }
			else if (c == 3) { int k = q.n(4) ? q.in(1, 5) : q.in(1, q.n(3) ? 3000 : 1000000); bool def = k == 1; tr::about("increase_error"); if (def) r.m[i]->increase_error(); else r.m[i]->increase_error(k); tr::ev(tr::op("increase").i("i", i + 1).i("c", k)); }
			else if (c < 8) { int t = q.n(NL), p = good && q.n(3) ? t : q.n(NL); tr::about("update"); r.m[i]->update(t, p); tr::ev(tr::op("update").i("i", i + 1).i("t", t + 1).i("p", p + 1)); }
			else if (c == 8 && q.n(3) == 0) { // one result many times
				int t = q.n(NL), p = q.n(NL), n = q.n(3) ? q.in(2, 400) : q.in(20000, 140000); tr::about("update (many)"); for (int k = 0; k < n; ++k) r.m[i]->update(t, p);
				tr::ev(tr::op("updates").i("i", i + 1).i("t", t + 1).i("p", p + 1).i("n", n)); r.score(i);
			} else r.score(i);
		}
		tr::end();
	}
};
int main(int argc, char** argv) {
	tr::init(); bool th = tr::thorough(); tr::Rand s(tr::seed() * 19 + 1); int mode = atoi(argv[1]);
	for (int i = 0; i < (th ? 150 : 15); ++i) {
		if (mode == 27) { Run<ReservoirSamplingMetrics, 2, false>::random("res", s.u(), 60); if (i % 3 == 0) Run<NoMetrics, 2, false>::random("none", s.u(), 20); continue; }
		Run<ErrorMetrics<false>, 3, false>::random("error", s.u(), 60); Run<ErrorMetrics<true>, 2, true>::random("error", s.u(), 60); Run<ErrorMetrics<>, 9, false>::random("error", s.u(), 20);
		Run<KappaMetrics<2, false>, 2, false>::random("kappa", s.u(), 60); Run<KappaMetrics<5, true>, 5, true>::random("kappa", s.u(), 60); Run<KappaMetrics<3>, 3, false>::random("kappa", s.u(), 60); Run<KappaMetrics<9, true>, 9, true>::random("kappa", s.u(), 80);
	}
	return 0;
}
