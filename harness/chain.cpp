// Driver of ChainedReservoirSampling.
#include "enum.hpp"
#include <cassert>
#include <cmath>
#include <map>
#include <chained_reservoir.hpp>
static tr::Draws draws; static tr::Rand er(7); static int edge = 0;
static Enum* en = nullptr; static Measure* me = nullptr;
static std::vector<void*> blocks;
struct Fun {
	static double random() {
		if (en) return en->next(); if (me) return me->next();
		if (edge && er.chance(edge, 10)) { static const double e[] = {0.0, 1.0, 0.5, 0.9999999999999999, 1e-300, 0.25, 0.75, 1.0 / 3}; return e[er.n(8)]; }
		return draws.next();
	}
	static void* malloc(size_t n) { void* p = ::malloc(n); tr::dirty(p, n); blocks.push_back(p); return p; }
};
static void release() { for (void* p : blocks) free(p); blocks.clear(); }
struct Big { int id; double pad[3]; Big(int i = 0) : id(i) { pad[0] = pad[1] = pad[2] = 3; } operator int() const { return id; } };
struct Op { bool add; int v; }; // add: timestamp v; otherwise obsolete(v)
template <class E, int K> struct Run {
	typedef ChainedReservoirSampling<E, K, Fun> R;
	static std::vector<int> heads(R& r, int seen) { R const& c = r; std::vector<int> s; for (int i = 0; i < K; ++i) s.push_back(i < seen ? (int)(i % 2 ? r[i] : c[i]) : 0); return s; }
	// every element that increasing obsolete(t) brings to the head, per slot
	static std::vector<std::vector<int>> unroll(R& r, int seen, int last, int from = 0) {
		std::vector<std::vector<int>> c(K);
		for (int t = from; t <= last + 1; ++t) {
			r.obsolete(t);
			auto h = heads(r, seen);
			for (int i = 0; i < K; ++i) if (h[i] && (c[i].empty() || c[i].back() != h[i])) c[i].push_back(h[i]);
		}
		return c;
	}
	static std::string nested(std::vector<std::vector<int>> const& c) { return tr::arr(c.begin(), c.end(), [](std::vector<int> const& v) { return tr::ints(v); }); }
	static void history(uint64_t seed, std::vector<Op> const& ops, int eg) {
		tr::begin(tr::Obj().i("k", K).end());
		for (size_t upto = 1; upto <= ops.size(); ++upto) {
			draws.reset(seed); er = tr::Rand(seed + 1); edge = eg;
			static R* r; r = new R();
			int id = 0, last = 0;
			for (size_t i = 0; i < upto; ++i) {
				if (ops[i].add) { tr::about("add"); r->add(E(++id), ops[i].v); last = ops[i].v; }
				else { tr::about("obsolete"); r->obsolete(ops[i].v); }
			}
			auto h = heads(*r, id);
			tr::about("obsolete");
			auto c = unroll(*r, id, last);
			tr::Obj o = ops[upto - 1].add ? tr::op("add").i("e", id).i("t", last) : tr::op("obsolete").i("t", ops[upto - 1].v);
			tr::ev(o.ia("heads", h).raw("chains", nested(c)));
			delete r; release();
		}
		tr::end(); edge = 0;
	}
	static void random(uint64_t seed, int len) {
		tr::Rand q(seed);
		std::vector<Op> ops; int t = q.in(0, 2);
		int gap = q.chance(1, 2) ? 1 : 4, obs = q.in(0, 4);
		for (int i = 0; i < len; ++i) {
			if (i && q.chance(obs, 12)) { int back = q.chance(1, 4) ? q.in(-2, 0) : q.in(0, 4 * K); ops.push_back({false, std::max(0, t - back)}); }
			else { t += q.in(1, gap); ops.push_back({true, t}); }
		}
		history(q.u(), ops, q.chance(1, 3) ? q.in(1, 9) : 0);
	}
	// more adds in one go; every `every`-th add declares what is older than `window` obsolete (never if 0)
	static void many(uint64_t seed, std::vector<int> ns, int every, int window, double high) {
		tr::begin(tr::Obj().i("k", K).end());
		draws.reset(seed); draws.fill = high;
		R* r = new R(); R* u; int id = 0, cut = 0; std::vector<void*> mine;
		for (int n : ns) {
			for (int i = 0; i < n; ++i) {
				tr::about("add"); ++id; r->add(E(id), id);
				if (every && id % every == 0 && id > window) { tr::about("obsolete"); r->obsolete(cut = id - window); }
			}
			// the chains are walked on the object itself: the rest is played again on another one
			auto h = heads(*r, id);
			mine.swap(blocks); blocks.clear(); double f = draws.fill;
			u = new R(); draws.reset(seed); draws.fill = f; int c = 0;
			for (int i = 1; i <= id; ++i) { u->add(E(i), i); if (every && i % every == 0 && i > window) u->obsolete(c = i - window); }
			tr::about("obsolete");
			auto ch = unroll(*u, id, id, c);
			delete u; release(); mine.swap(blocks);
			tr::ev(tr::op("many").i("n", n).i("cut", cut).i("upto", cut ? cut + window : 0).ia("heads", h).raw("chains", nested(ch)));
		}
		delete r; release(); draws.fill = -1;
		tr::end();
	}
	static void law(int N, bool chains) {
		tr::begin(tr::Obj().i("k", K).end());
		tr::about("add");
		for (int n = 1; n <= N; ++n) {
			tr::limit(tr::thorough() ? 400 : 90);
			Histogram a, b; Enum e; en = &e;
			do {
				e.start();
				R r;
				for (int i = 1; i <= n; ++i) { e.M = lcm(K, i > K ? i : 1); r.add(E(i), i); }
				a.add(tr::ints(heads(r, n)), e);
				if (chains) b.add(nested(unroll(r, n, n)), e);
				release();
			} while (e.advance());
			en = nullptr;
			tr::ev(tr::op("add"));
			tr::ev(tr::op("heads").i("n", n).raw("hist", a.json()));
			if (chains) tr::ev(tr::op("chains").i("n", n).raw("hist", b.json()));
		}
		tr::end();
	}
	static void steps(std::vector<int> ms) {
		tr::begin(tr::Obj().i("k", K).end());
		for (int m : ms) {
			Histogram h; Enum e;
			e.M = lcm(K, m);
			tr::about("add");
			do {
				e.start();
				draws.reset(m * 31 + K); R r; en = nullptr;
				for (int i = 1; i < m; ++i) r.add(E(i), i);
				en = &e; r.add(E(m), m); en = nullptr;
				int s = 0; for (int i = 0; i < K; ++i) if ((int)r[i] == m) s = i + 1;
				h.add(std::to_string(s), e);
				release();
			} while (e.advance());
			tr::ev(tr::op("step").i("m", m).raw("hist", h.json()));
		}
		tr::end();
	}
	static void measures(std::vector<int> ms) { // slot and successor chosen by the add number m alone, to the last digits
		tr::begin(tr::Obj().i("k", K).end());
		for (int m : ms) {
			Measure e(K < 3 ? 7 : 2 * K + 1);
			auto run = [&]() -> long {
				tr::about("add"); draws.reset(m * 31 + K); static R* r; r = new R();
				for (int i = 1; i < m; ++i) { r->add(E(i), i); if (m > 100) r->obsolete(i - 1); }
				me = &e; r->add(E(m), m); me = nullptr;
				int s = -1; for (int i = 0; i < K; ++i) if ((int)(*r)[i] == m) s = i;
				long o = 0;
				if (s >= 0) { draws.fill = 1 - std::ldexp(1.0, -53); for (int i = m + 1; i <= m + K; ++i) r->add(E(i), i); draws.fill = -1; tr::about("obsolete"); r->obsolete(m); o = (s + 1) + 1000 * ((int)(*r)[s] - m); }
				delete r; release(); return o;
			};
			Measure::Law l = e.law(run);
			tr::ev(tr::op("measure").i("m", m).raw("law", Measure::json(l)));
		}
		tr::end();
	}
	// all histories of `adds` adds with draws of a grid, then every obsolete
	static void exhaustive(int adds, std::vector<double> const& vals, int t0) {
		tr::dedup = true;
		std::vector<size_t> dig; bool more = true;
		while (more) {
			std::vector<double> s; for (size_t d : dig) s.push_back(vals[d]);
			size_t used = 0;
			tr::begin(tr::Obj().i("k", K).end());
			for (int upto = 1; upto <= adds + 1; ++upto) {
				draws.reset(1); draws.set(s); draws.fill = vals[0];
				static R* r; r = new R(); int id = 0;
				for (int i = 1; i <= std::min(upto, adds); ++i) { tr::about("add"); r->add(E(++id), i); }
				if (upto > adds) { tr::about("obsolete"); r->obsolete(t0); }
				used = std::max(used, draws.pos);
				auto h = heads(*r, id); tr::about("obsolete"); auto c = unroll(*r, id, id);
				tr::ev((upto > adds ? tr::op("obsolete").i("t", t0) : tr::op("add").i("e", id).i("t", id)).ia("heads", h).raw("chains", nested(c)));
				delete r; release();
			}
			draws.fill = -1;
			tr::end();
			dig.resize(used, 0);
			while (!dig.empty() && ++dig.back() == vals.size()) dig.pop_back();
			more = !dig.empty();
		}
	}
};
int main(int argc, char** argv) {
	tr::init();
	int mode = atoi(argv[1]); bool th = tr::thorough();
	tr::Rand s(tr::seed() * 77 + mode);
	if (mode == 9) {
		int reps = th ? 60 : 10;
		for (int i = 0; i < reps; ++i) {
			Run<int, 1>::random(s.u(), 30); Run<int, 2>::random(s.u(), 40); Run<Big, 3>::random(s.u(), 50); Run<int, 5>::random(s.u(), 60); Run<Big, 12>::random(s.u(), 80);
			Run<int, 2>::random(s.u(), 120);
		}
		for (int i = 0; i < (th ? 6 : 1); ++i) {
			Run<int, 3>::many(s.u(), {10, 200, 300, 70000, 1000}, 7, 40, -1); Run<Big, 5>::many(s.u(), {300, 5, 66000}, 50, 100, -1); Run<int, 1>::many(s.u(), {2, 300, 66000, 40}, 10, 20, -1);
			Run<int, 2>::many(s.u(), {9, 260, 700}, 0, 0, -1); Run<int, 12>::many(s.u(), {400, 1000}, 0, 0, -1);
			Run<int, 1>::many(s.u(), {100, 7000, 3}, 0, 0, 0.9999999); Run<Big, 3>::many(s.u(), {100, 15000}, 0, 0, 0.3); Run<int, 2>::many(s.u(), {40, 70000}, 20000, 300, 0.99); 
		}
		Run<int, 2>::exhaustive(4, {0.0, 0.49, 0.5, 1.0}, 2);
		Run<int, 1>::exhaustive(4, {0.0, 0.4, 0.6, 1.0}, 3);
		if (th) { Run<Big, 3>::exhaustive(5, {0.0, 0.4, 0.99}, 3); Run<int, 2>::exhaustive(5, {0.1, 0.55, 1.0}, 3); }
	}
	if (mode >= 80) { // 80..: the parts of the laws
		std::vector<void (*)()> q = {
			[] { Run<int, 1>::law(5, true); Run<int, 2>::law(4, true); }, [] { Run<Big, 3>::law(4, true); },
			[] { Run<int, 1>::measures({2, 3, 4, 5, 9, 17, 33, 100, 300}); Run<int, 3>::measures({5}); }, [] { Run<int, 1>::measures({70000}); },
			[] { Run<int, 2>::measures({3, 4, 5, 6, 8, 11, 20}); Run<int, 3>::measures({4}); }, [] { Run<int, 3>::measures({7}); },
			[] { Run<int, 1>::steps({2, 3, 10, 97}); Run<int, 2>::steps({3, 5, 8, 13}); Run<int, 3>::steps({4, 5, 9}); } };
		std::vector<void (*)()> t = {
			[] { Run<int, 1>::measures({500, 1500, 100000}); }, [] { Run<int, 2>::measures({7, 9, 10, 33, 64}); }, [] { Run<Big, 3>::measures({6, 9}); }, [] { Run<Big, 3>::measures({12}); }, [] { Run<int, 4>::measures({5}); }, [] { Run<int, 2>::measures({34, 100}); },
			[] { Run<int, 1>::law(6, true); }, [] { Run<int, 3>::steps({7, 10, 15}); Run<int, 4>::steps({5, 6, 8, 10, 12}); }, [] { Run<int, 2>::measures({300}); } };
		if (th) q.insert(q.end(), t.begin(), t.end());
		if (mode - 80 < (int)q.size()) q[mode - 80]();
	}
	return 0;
}
