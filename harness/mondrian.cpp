// Driver of MondrianForest (or, with UNBOUND, of MondrianForestUnbound, or, with COARSE, of CoarseMondrianForest), built with the hook verif_visit.
#include "tr.hpp"
#include "enum.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <vector>
static bool inlib = false; static long live = 0;
void* operator new(size_t n) { if (inlib) ++live; void* p = malloc(n ? n : 1); if (!p) _exit(9); return p; }
void operator delete(void* p) noexcept { if (p && inlib) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p && inlib) --live; free(p); }
using namespace std;
#ifdef UNBOUND
#include <mondrian_unbound.hpp>
#elif defined(COARSE)
#include <mondrian_coarse.hpp>
#else
#include <mondrian.hpp>
#endif
struct In { In() { inlib = true; } ~In() { inlib = false; } };
static const double TOP = 1 - std::ldexp(1.0, -53);
struct Fn {
	static double constant; static tr::Rand rnd; static Enum* e; static int edge;
	static double rand_uniform() {
		if (e) return e->next();
		if (constant >= 0) return constant;
		int k = rnd.n(edge); if (k == 0) return 0; if (k == 1) return TOP;
		return rnd.d();
	}
	static double exp(double x) { return std::exp(x); }
	static double log(double x) { return std::log(x); }
};
double Fn::constant = -1; tr::Rand Fn::rnd{1}; Enum* Fn::e = nullptr; int Fn::edge = 24;
struct N { double fs; int fe; bool leaf; long id, par; int f; double v, tau; std::vector<double> lo, hi; std::vector<long> cnt; std::unique_ptr<N> l, r; };
struct Ids { std::map<const void*, long> m; long of(const void* p) { if (!p) return -1; auto i = m.find(p); if (i != m.end()) return i->second; long k = (long)m.size(); m[p] = k; return k; } long of(int i) { return i; } };
template <int NF, int NL> struct Vis {
	Ids& ids; std::vector<std::unique_ptr<N>> trees; std::vector<N*> stack; bool bad = false; int count = 0;
	Vis(Ids& i) : ids(i) {}
	void no_root() { trees.emplace_back(nullptr); }
	void bad_node() { bad = true; std::unique_ptr<N> n(new N()); n->leaf = true; n->id = n->par = -9; n->tau = -9; n->lo.assign(NF, 0); n->hi.assign(NF, 0); n->cnt.assign(NL, 0); hang(std::move(n)); }
	N* hang(std::unique_ptr<N> n) {
		N* p = n.get(); if (++count > 20000) { tr::about("the tree has a cycle"); abort(); }
		if (stack.empty()) trees.push_back(std::move(n)); else if (!stack.back()->l) stack.back()->l = std::move(n); else stack.back()->r = std::move(n);
		return p;
	}
	template <class P, class Q, class B, class C> void open(P id, Q par, bool leaf, int f, double v, double tau, B const* lo, B const* hi, C const* cnt) {
		std::unique_ptr<N> n(new N()); n->leaf = leaf; n->id = ids.of(id); n->par = ids.of(par); n->f = f; n->v = v; n->tau = tau;
		n->lo.assign(lo, lo + NF); n->hi.assign(hi, hi + NF); n->cnt.assign(cnt, cnt + NL); stack.push_back(hang(std::move(n)));
	}
	void scores(double fs, int fe) { stack.back()->fs = fs; stack.back()->fe = fe; }
	void close() { stack.pop_back(); }
};
static std::string json(N const* n) {
	if (!n) return "{\"none\":true}";
	tr::Obj o; o.b("leaf", n->leaf).i("id", n->id).i("par", n->par).d("tau", n->tau).da("lo", n->lo).da("hi", n->hi).ia("cnt", n->cnt);
#ifdef COARSE
	o.d("fs", n->fs).i("fe", n->fe);
#endif
	if (!n->leaf) o.i("f", n->f + 1).d("v", n->v).raw("l", json(n->l.get())).raw("r", json(n->r.get()));
	return o.end();
}
template <class F, int TREES, int NF, int NL, int MAX> struct Run {
#ifdef UNBOUND
	typedef MondrianForestUnbound<F, Fn, NF, NL> M;
#elif defined(COARSE)
	typedef CoarseMondrianForest<F, Fn, ErrorMetrics<true>, NF, NL, MAX> M;
	int ext = 1, mgmt = 3, sl = -1, depth = 0, trim = 0; double mts = 1, fe = 1, fc = 1; int sh = 0, trig = 0, dist = 0;
#else
	typedef MondrianForest<F, Fn, TREES, NF, NL, MAX> M;
#endif
	tr::Rand q; M* m = nullptr; Ids ids; double life, base, disc; std::vector<std::vector<F>> seen; int style; double u = -1;
	struct T { std::vector<F> x; int lab; double u; };
	std::vector<T> log;
	Run(uint64_t s) : q(s) {}
	~Run() { if (m) { In i; delete m; } }
	M* make() { In i;
#ifdef UNBOUND
		return new M(life, base, disc, TREES);
#elif defined(COARSE)
		void* p = malloc(sizeof(M)); tr::dirty(p, sizeof(M)); inlib = false;
		return new (p) M(life, base, disc, TREES, mgmt, depth ? DEPTH_SIZE : NODE_SIZE, sl, 0, false, dist, trig, 1.0, true, true, fe, fc, sh, ext, trim, mts);
#else
		void* p = malloc(sizeof(M)); tr::dirty(p, sizeof(M)); inlib = false; return new (p) M(life, base, disc);
#endif
	}
	void drop(M* p) {
#ifdef UNBOUND
		In i; delete p;
#else
		p->~M(); tr::dirty((void*)p, sizeof(M)); free(p);
#endif
	}
	void start(double life_, double base_, double disc_) {
		life = life_; base = base_; disc = disc_; live = 0;
		tr::Obj o; o.i("nf", NF).i("nl", NL).i("trees", TREES).d("life", life).d("base", base).d("disc", disc).i("tol", std::is_same<F, float>::value ? 5 : 9);
		m = make();
#ifdef UNBOUND
		o.i("cap", -1).i("max", -1).i("obj", -1);
#else
		o.i("cap", m->verif_capacity()).i("max", MAX).i("obj", sizeof(M));
#endif
#ifdef COARSE
		o.i("ext", ext).i("mgmt", mgmt).i("sl", sl).b("depth", depth).i("trim", trim).d("mts", mts).d("fe", fe).d("fc", fc).i("sh", sh).i("trig", trig).i("dist", dist).i("node", sizeof(MondrianNode<NF, NL>)).i("root", sizeof(typename M::TreeBase)).b("raw", ext == EXTEND_GHOST);
#ifdef UNBOUND_OPTIMIZE
		o.b("quick", true);
#else
		o.b("quick", false);
#endif
#endif
		tr::begin(o.end());
	}
	std::string trees(M const* f) { Vis<NF, NL> v(ids); f->verif_visit(v); std::string s = "["; for (size_t i = 0; i < v.trees.size(); ++i) s += (i ? "," : "") + json(v.trees[i].get()); return s + "]"; }
	int avail() {
#ifdef UNBOUND
		return -1;
#else
		return m->verif_available();
#endif
	}
	tr::Obj& state(tr::Obj& o) {
		o.raw("trees", trees(m)).i("free", avail());
#ifdef COARSE
		o.i("believed", m->verif_believed());
#endif
		return o;
	}
	F value() {
		switch (style) {
			case 0: return (F)q.in(-3, 3);
			case 1: return (F)((q.d() - 0.5) * 4) / (F)(std::is_integral<F>::value ? 1 : 3) + (F)0;
			case 2: return (F)(q.in(0, 4) * 0.5);
			default: return (F)(1 + q.in(0, 1) * 1.0);
		}
	}
	std::vector<F> point() {
		if (!seen.empty() && q.chance(1, 6)) return seen[q.n((int)seen.size())];
		std::vector<F> x(NF); for (auto& v : x) v = value();
		if (!seen.empty() && q.chance(1, 4)) x[q.n(NF)] = seen[q.n((int)seen.size())][q.n(NF)];
		return x;
	}
	void train(std::vector<F> const& x, int lab, double u_) {
		tr::about("train"); Fn::constant = u_; Fn::rnd = tr::Rand(q.u());
		bool r; { In i; r = m->train(x.data(), lab); }
		Fn::constant = -1; seen.push_back(x); log.push_back({x, lab, u_});
		tr::Obj o = tr::op("train"); o.da("x", x).i("label", lab + 1).b("r", r).b("rnd", u_ < 0).d("u", u_ < 0 ? 0 : u_); tr::ev(state(o));
	}
	void predict(std::vector<F> const& x) {
		std::vector<double> sc(NL, -7); tr::about("predict");
		bool without = q.n(3) == 0; int lab2 = -1, first = 0;
#ifdef COARSE
		if (q.chance(1, 5)) { first = q.in(1, TREES); int lab = m->predict(x.data(), sc.data(), first); tr::Obj o = tr::op("predict"); o.da("x", x).i("label", lab + 1).i("label2", lab + 1).i("first", first).da("scores", sc); tr::ev(state(o)); return; }
#endif
		if (without) lab2 = m->predict(x.data());
		int lab = m->predict(x.data(), sc.data()); if (!without) lab2 = m->predict(x.data());
		tr::Obj o = tr::op("predict"); o.da("x", x).i("label", lab + 1).i("label2", lab2 + 1).i("first", first).da("scores", sc); tr::ev(state(o));
	}
	// the latest point n more times, then a prediction
	void again(int n) {
		T t = log.back(); tr::about("train"); Fn::constant = -1; Fn::rnd = tr::Rand(q.u());
		{ In i; for (int k = 0; k < n; ++k) m->train(t.x.data(), t.lab); }
		tr::Obj o = tr::op("again"); o.da("x", t.x).i("label", t.lab + 1).i("n", n); tr::ev(state(o));
		std::vector<double> sc(NL, -7); tr::about("predict"); std::vector<F> x = q.n(2) ? t.x : point(); int lab = m->predict(x.data(), sc.data());
		tr::Obj p = tr::op("late"); p.da("x", x).i("label", lab + 1).i("label2", lab + 1).da("scores", sc); tr::ev(state(p));
	}
	int times() { const int N[] = {130, 300, 33000, 70000}; return N[q.n(4)]; }
	void copy() {
#ifndef UNBOUND
		tr::about("copy"); void* p = malloc(sizeof(M)); tr::dirty(p, sizeof(M));
		M* k;
#ifdef COARSE
		k = new (p) M(*m);
#else
		if (q.n(2)) k = new (p) M(*m); else { k = new (p) M(1.5, 0.25, 0.125); *k = *m; }
#endif
		drop(m); m = k;
		tr::Obj o = tr::op("copy"); tr::ev(state(o));
#endif
	}
	void destroy() { tr::about("destructor"); drop(m); m = nullptr; tr::ev(tr::op("destroy").i("live", live)); }
	double draw() { const double U[] = {0, 0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, TOP, 0.6}; return q.chance(1, 2) ? U[q.n(10)] : q.d(); }
	static void random(uint64_t seed, int len) {
		Run r(seed); tr::Rand& q = r.q; r.style = std::is_integral<F>::value ? q.n(2) * 3 : q.n(4);
		const double L[] = {1, 0.5, 2, 6, 0.1}, B[] = {0, 0.1, 0.5, 1.0 / NL}, D[] = {0, 1, 0.5, 0.1, 0.2};
		r.start(L[q.n(5)], B[q.n(4)], D[q.n(5)]);
		if (q.chance(1, 3)) r.predict(r.point());
		Fn::edge = r.style >= 2 ? 5 : 24; int consts = q.n(3); // share of constant draws
		int copies = 0;
		for (int i = 0; i < len; ++i) {
			bool k = consts == 2 ? true : q.chance(1 + consts, 3);
			double u = k ? r.draw() : -1; if (consts == 2 && q.chance(1, 2)) u = q.d() * 0.3;
			r.train(r.point(), q.n(NL), u);
			if (q.chance(1, 3)) r.predict(r.point());
			if (copies < 2 && q.chance(1, 20)) { r.copy(); ++copies; }
		}
		r.predict(r.point()); if (q.chance(1, 6)) r.again(r.times());
		r.destroy(); tr::end();
	}
#ifdef COARSE
	void strategy(int e, int g, int t) { // extension, management, trimming; the rest at random
		ext = e; mgmt = g; trim = t; depth = q.n(2) && mgmt == 2; fe = ext == EXTEND_BARYCENTER && q.n(2) ? q.chance(1, 2) ? 0.5 : 0.25 : 1;
		sl = mgmt <= 1 ? q.in(1, 6) : mgmt == 2 ? q.n(3) ? q.in(1, 9) : -1 : q.in(-1, 5);
		mts = trim >= 2 && q.n(3) == 0 ? 0.02 * q.in(1, 8) : 1;
	}
	void do_trim() { tr::about("tree_trim"); m->tree_trim(); tr::Obj o = tr::op("trim"); tr::ev(state(o)); }
	void sizes() {
		int i = q.n(TREES); tr::about("count_data_point_tree"); int n = m->count_data_point_tree(i), light = (int)m->count_dead_supply_tree(i);
		tr::ev(tr::op("sizes").i("i", i + 1).i("points", n).i("light", light));
	}
	// a tree of one level per point until the pool is full; then the leaf around the average is widened, and trainings, trimmings and predictions are recorded
	static void chain(uint64_t seed, int t, int helper, int e = EXTEND_BARYCENTER) {
		Run r(seed); tr::Rand& q = r.q; r.style = 0; r.ext = e; r.mgmt = PHOENIX_MANAGEMENT; r.trim = t; r.sh = helper; r.start(10, 0.5, 0.5);
		int n = (r.m->verif_capacity() + 1) / 2; double mean = (n - 1) / 2.0; tr::about("train (deep tree)");
		std::string xs = "["; bool all = true; int dir = q.n(2) ? 1 : -1;
		for (int i = 0; i < n; ++i) {
			std::vector<F> x(NF, (F)(dir * i)); int lab = q.n(NL); Fn::constant = 1 - std::exp(-5 * std::pow(0.9, i)); all = r.m->train(x.data(), lab) && all;
			xs += (i ? ",[" : "[") + tr::dbls(x) + "," + std::to_string(lab + 1) + "]";
		}
		Fn::constant = -1; tr::Obj o = tr::op("grown"); o.raw("pts", xs + "]").b("r", all); tr::ev(r.state(o));
		r.train(std::vector<F>(NF, (F)(dir * (mean - 0.35))), 0, TOP);
		for (int i = 0; i < (helper ? 22 : 4); ++i) r.train(std::vector<F>(NF, (F)(dir * (mean - 0.3 * q.d()))), q.n(NL), q.d());
		r.do_trim(); r.predict(std::vector<F>(NF, (F)(dir * (mean - 0.1))));
		r.train(std::vector<F>(NF, (F)(dir * (mean - 0.3))), q.n(NL), 0.5); r.do_trim(); r.sizes(); r.predict(std::vector<F>(NF, (F)(dir * q.in(0, n))));
		r.train(std::vector<F>(NF, (F)(dir * q.in(0, n))), q.n(NL), -1); r.destroy(); tr::end();
	}
	// skip: only one prediction per skip points; mode 31: leaves are split
	static void bounded(uint64_t seed, int len, int e, int g, int t, int skip = 0, int mode = 0) {
		Run r(seed); tr::Rand& q = r.q; r.style = std::is_integral<F>::value ? q.n(2) * 3 : q.n(4); r.strategy(e, g, t);
		double wider = 0; bool low = mode == 32 && q.chance(1, 3);
		if (mode == 31) { r.sh = q.in(1, 2); const double FC[] = {1, 0.9, 0.5}; r.fc = FC[q.n(3)]; }
		if (mode == 32) { const int G[] = {1, 1, 3, 3, 2}; r.trig = G[q.n(5)]; r.dist = q.n(4); r.fe = 1; if (q.n(2)) r.style = 1; const double W[] = {0, 0.05, 0.2, 0.2, 0.5}; wider = W[q.n(5)]; }
		const double L[] = {1, 0.5, 2, 6, 0.3}, B[] = {0, 0.1, 0.5, 1.0 / NL}, D[] = {0, 1, 0.5, 0.1, 0.2};
		r.start(L[q.n(5)], B[q.n(4)], D[q.n(5)]); Fn::edge = r.style >= 2 ? 5 : 24; int consts = q.n(3), copies = 0; if (q.n(2)) r.predict(r.point());
		for (int i = 0; i < len; ++i) {
			double u = consts == 2 || q.chance(1 + consts, 3) ? r.draw() : -1; if (consts == 2 && q.chance(1, 2)) u = q.d() * 0.3;
			std::vector<F> x = r.point();
			if (low) { if (u >= 0 && q.chance(1, 2)) u = 0; for (auto& v : x) v = q.chance(1, 2) ? (F)0 : v < 0 ? (F)-v : v; } // most points at the lower bounds, cuts there
			if (wider > 0) for (auto& v : x) if (q.chance(2, 3)) v = (F)(v * (1 + i * wider)); // more and more points outside of the boxes
			r.train(x, q.n(NL), u);
			if (skip ? i % skip == skip - 1 : (bool)q.chance(1, 3)) r.predict(r.point());
			if (copies < 1 && q.chance(1, 24)) { r.copy(); ++copies; }
			if (q.chance(1, 10)) r.sizes();
			if (mode == 32 ? (bool)q.chance(2, 5) : mode == 31 ? i > 25 && q.chance(1, 5) : (bool)q.chance(1, skip ? 40 : 12)) { Fn::rnd = tr::Rand(q.u()); r.do_trim(); }
		}
		r.predict(r.point()); if (!mode && t == 0 && q.chance(1, 4)) r.again(r.times());
		r.destroy(); tr::end();
	}
	static void lots(uint64_t seed, int leaves, int grid) { // which leaf TRIM_RANDOM cuts, over every draw of a grid
		Run r(seed); tr::Rand& q = r.q; r.style = 1; r.ext = EXTEND_ORIGINAL; r.mgmt = PHOENIX_MANAGEMENT; r.trim = TRIM_RANDOM;
		r.start(50, 0.5, 0.5); std::vector<F> x(NF);
		for (int i = 0; i < leaves; ++i) { for (int f = 0; f < NF; ++f) x[f] = (F)(i * 1.5 + q.d()); r.train(x, q.n(NL), 0.01 + 0.01 * q.d()); }
		Vis<NF, NL> before(r.ids); r.m->verif_visit(before); std::vector<long> ids; std::vector<N*> todo(1, before.trees[0].get());
		while (!todo.empty()) { N* n = todo.back(); todo.pop_back(); if (n->leaf) ids.push_back(n->id); else { todo.push_back(n->l.get()); todo.push_back(n->r.get()); } }
		std::map<long, double> w; Enum e; e.M = grid;
		do {
			M* k = (M*)malloc(sizeof(M)); memcpy((void*)k, (void*)r.m, sizeof(M)); e.start(); Fn::e = &e; tr::about("tree_trim (law)"); k->tree_trim(); Fn::e = nullptr;
			Vis<NF, NL> after(r.ids); k->verif_visit(after); std::vector<long> left; todo.assign(1, after.trees[0].get());
			while (!todo.empty()) { N* n = todo.back(); todo.pop_back(); if (n->leaf) left.push_back(n->id); else { todo.push_back(n->l.get()); todo.push_back(n->r.get()); } }
			for (long id : ids) if (std::find(left.begin(), left.end(), id) == left.end()) w[id] += std::pow((double)grid, -(double)e.pos);
			r.drop(k);
		} while (e.advance());
		std::vector<double> ws; for (long id : ids) ws.push_back(w[id]);
		tr::Obj o = tr::op("lots"); o.da("trims", ws); tr::ev(o); r.destroy(); tr::end();
	}
	static void endless(int n) { // a tree much deeper than 100 levels
		Run r(3); r.style = 0; r.ext = EXTEND_ORIGINAL; r.mgmt = ROBUR_MANAGEMENT; r.sl = 2 * n + 1; r.start(1e9, 0.5, 0.5); Fn::constant = 0.5; tr::about("train (deep tree)");
		std::vector<F> x(NF); for (int i = 0; i < n; ++i) { for (int f = 0; f < NF; ++f) x[f] = (F)std::ldexp(1.0, i); r.m->train(x.data(), i % NL); }
		Fn::constant = -1; std::vector<double> sc(NL); r.m->predict(x.data(), sc.data());
		Vis<NF, NL> v(r.ids); r.m->verif_visit(v); tr::Obj o = tr::op("deep"); o.i("points", n).i("nodes", v.count).b("links", !v.bad).i("believed", r.m->verif_believed()).i("free", r.avail()); tr::ev(o); r.destroy(); tr::end();
	}
#endif
	static void exhaustive(int n, std::vector<double> us) { // every sequence of n points of a small grid with every draw of us
		std::vector<int> d(n, 0); int vals = 3, base = vals * NL * (int)us.size();
		for (;;) {
			Run r(9); r.style = 0; r.start(1, 0.5, 0.5);
			for (int i = 0; i < n; ++i) { int k = d[i]; std::vector<F> x(NF); for (int f = 0; f < NF; ++f) x[f] = (F)((k % vals + f) % vals); k /= vals; int lab = k % NL; k /= NL; r.train(x, lab, us[k]); }
			r.predict(std::vector<F>(NF, 1)); r.destroy(); tr::end();
			int i = n - 1; for (; i >= 0; --i) { if (++d[i] < base) break; d[i] = 0; }
			if (i < 0) break;
		}
	}
	// ---- laws
	struct Out { int level; int f; double tau, v; bool operator<(Out const& o) const { return std::tie(level, f, tau, v) < std::tie(o.level, o.f, o.tau, o.v); } };
	static Out diff(N const* a, N const* b, std::vector<F> const& x, int level) {
		if (!a || !b) return {-1, 0, 0, 0};
		if (!b->leaf && (a->leaf || b->f != a->f || b->v != a->v || b->tau != a->tau)) return {level, b->f, b->tau, b->v};
		if (a->leaf) return {-1, 0, 0, 0};
		return x[a->f] <= a->v ? diff(a->l.get(), b->l.get(), x, level + 1) : diff(a->r.get(), b->r.get(), x, level + 1);
	}
	void law(std::vector<F> const& x, int lab, int grid) {
		tr::about("train (law)");
		Vis<NF, NL> before(ids); m->verif_visit(before);
		std::map<std::vector<Out>, double> w; Enum e; e.M = grid;
		do {
			M* k;
#ifdef UNBOUND
			k = make(); for (T& t : log) { Fn::constant = t.u; In i; k->train(t.x.data(), t.lab); } Fn::constant = -1;
#else
			k = (M*)malloc(sizeof(M)); memcpy((void*)k, (void*)m, sizeof(M));
#endif
			e.start(); Fn::e = &e; { In i; k->train(x.data(), lab); } Fn::e = nullptr;
			if (e.pos > 12) _exit(8);
			Ids other; Vis<NF, NL> after(other); k->verif_visit(after);
			std::vector<Out> o; for (int t = 0; t < TREES; ++t) o.push_back(diff(before.trees[t].get(), after.trees[t].get(), x, 0));
			w[o] += std::pow((double)grid, -(double)e.pos);
			drop(k);
		} while (e.advance());
		if (TREES == 1) {
			int levels = 0; for (N* n = before.trees[0].get(); n; n = n->leaf ? nullptr : x[n->f] <= n->v ? n->l.get() : n->r.get()) ++levels;
			double reach = 1; std::string s = "[";
			for (int k = 0; k < levels; ++k) {
				std::map<double, double> taus; std::vector<double> dims(NF, 0); std::vector<std::map<double, double>> vals(NF); double split = 0;
				for (auto& o : w) if (o.first[0].level == k) { Out a = o.first[0]; taus[a.tau] += o.second; dims[a.f] += o.second; vals[a.f][a.v] += o.second; split += o.second; }
				auto pairs = [](std::map<double, double> const& m) { std::string s = "["; for (auto& p : m) s += (s.size() > 1 ? ",[" : "[") + tr::dbl(p.first) + "," + tr::dbl(p.second) + "]"; return s + "]"; };
				std::string vs = "[", js = "["; for (int f = 0; f < NF; ++f) vs += (f ? "," : "") + pairs(vals[f]);
				for (auto& o : w) if (o.first[0].level == k) { Out a = o.first[0]; js += std::string(js.size() > 1 ? "," : "") + "[" + std::to_string(std::distance(taus.begin(), taus.find(a.tau)) + 1) + "," + std::to_string(a.f + 1) + "," + std::to_string(std::distance(vals[a.f].begin(), vals[a.f].find(a.v)) + 1) + "," + tr::dbl(o.second) + "]"; }
				tr::Obj o; o.d("reach", reach).d("split", split).raw("taus", pairs(taus)).da("dims", dims).raw("vals", vs + "]").raw("joint", js + "]");
				s += (k ? "," : "") + o.end(); reach -= split;
			}
			tr::Obj o = tr::op("law"); o.da("x", x).i("label", lab + 1).i("grid", grid).raw("levels", s + "]"); tr::ev(o);
		}
		else { // independence of the first two trees
			std::map<Out, double> a, b; std::map<std::pair<Out, Out>, double> j;
			for (auto& o : w) { a[o.first[0]] += o.second; b[o.first[1]] += o.second; j[{o.first[0], o.first[1]}] += o.second; }
			std::vector<double> wa, wb; std::map<Out, int> ia, ib; for (auto& p : a) { ia[p.first] = (int)wa.size() + 1; wa.push_back(p.second); } for (auto& p : b) { ib[p.first] = (int)wb.size() + 1; wb.push_back(p.second); }
			std::string js = "["; for (auto& p : j) js += std::string(js.size() > 1 ? "," : "") + "[" + std::to_string(ia[p.first.first]) + "," + std::to_string(ib[p.first.second]) + "," + tr::dbl(p.second) + "]";
			tr::Obj o = tr::op("apart"); o.da("a", wa).da("b", wb).raw("joint", js + "]"); tr::ev(o);
		}
	}
	static void laws(uint64_t seed, int before, int grid) {
		Run r(seed); tr::Rand& q = r.q; r.style = std::is_integral<F>::value ? 0 : 1;
		const double L[] = {0.3, 0.5, 1, 0.2}; r.start(L[q.n(4)], 0.5, 0.5);
		std::vector<F> x(NF); for (auto& v : x) v = r.value();
		r.train(x, 0, 0.3);
		for (int i = 0; i < before; ++i) { for (int f = 0; f < NF; ++f) x[f] = r.value(); r.train(x, q.n(NL), 0.02 + 0.1 * q.d()); }
		for (int k = 0; k < 2; ++k) { for (int f = 0; f < NF; ++f) x[f] = k && q.n(3) == 0 ? r.seen[0][f] : (F)(r.value() * 2); r.law(x, q.n(NL), grid); }
		r.destroy(); tr::end();
	}
};
int main(int argc, char** argv) {
	tr::init(); bool th = tr::thorough(); int mode = argc > 1 ? atoi(argv[1]) : 0;
#ifdef COARSE
	tr::Rand s(tr::seed() * 41 + 3); int rounds = th ? 14 : 2;
	if (mode == 21) {
		for (int i = 0; i < (th ? 8 : 2); ++i) {
			int g = th ? 14 : 10;
			Run<double, 1, 1, 2, 4000>::laws(s.u(), 0, g + 6); Run<double, 1, 2, 2, 4000>::laws(s.u(), 1, g); Run<float, 1, 3, 2, 4000>::laws(s.u(), 1, g); Run<int, 1, 2, 2, 4000>::laws(s.u(), 1, g); Run<double, 2, 2, 2, 4000>::laws(s.u(), 0, 4);
		}
		for (int n = 2; n <= (th ? 4 : 3); ++n) { Run<double, 1, 1, 2, 3000>::lots(s.u(), n, n == 4 ? 12 : 6); Run<double, 1, 2, 2, 3000>::lots(s.u(), n, n == 4 ? 12 : 6); }
		return 0;
	}
	if (mode == 31) {
		for (int i = 0; i < rounds * 4; ++i)
			for (int t = 1; t <= 3; ++t) {
				Run<double, 1, 2, 2, 1100>::bounded(s.u(), 80, EXTEND_BARYCENTER, s.n(2) ? 3 : s.n(5), t, 5, 31); Run<int, 1, 1, 3, 800>::bounded(s.u(), 70, EXTEND_BARYCENTER, s.n(5), t, 5, 31);
				if (i < (th ? 4 : 1)) for (int h = 1; h <= 2; ++h) Run<double, 1, 1, 2, 17300>::chain(s.u(), t, h);
				Run<double, 2, 2, 2, 1300>::bounded(s.u(), 90, EXTEND_BARYCENTER, s.n(3), t, 5, 31); Run<float, 2, 2, 2, 1500>::bounded(s.u(), 70, EXTEND_BARYCENTER, 3, t, 5, 31); Run<int, 1, 3, 2, 1400>::bounded(s.u(), 90, EXTEND_BARYCENTER, 3, t, 5, 31);
			}
		return 0;
	}
	if (mode == 32) {
		for (int i = 0; i < rounds * 6; ++i)
			for (int t = 1; t <= 3; ++t) {
				Run<double, 1, 2, 2, 1100>::bounded(s.u(), 60, EXTEND_BARYCENTER, s.n(2) ? 3 : s.n(5), t, 9, 32); Run<int, 1, 1, 3, 900>::bounded(s.u(), 50, EXTEND_BARYCENTER, s.n(5), t, 9, 32);
				Run<double, 2, 2, 2, 1500>::bounded(s.u(), 60, EXTEND_BARYCENTER, s.n(3), t, 9, 32); Run<float, 1, 2, 2, 1500>::bounded(s.u(), 50, EXTEND_BARYCENTER, 3, t, 9, 32); Run<double, 1, 3, 2, 2600>::bounded(s.u(), 70, EXTEND_BARYCENTER, 3, t, 9, 32);
			}
		return 0;
	}
	if (mode == 100) { // long histories with trimming
		for (int i = 0; i < (th ? 6 : 1); ++i)
			for (int e = 0; e < 6; ++e) for (int t = 1; t <= 3; ++t) { if ((e + t + i) % (th ? 1 : 2)) continue;
				if (e % 2) Run<double, 1, 2, 2, 900>::bounded(s.u(), 215, e, 3, t, 30); else Run<int, 2, 1, 3, 800>::bounded(s.u(), 112, e, 3 + i % 2, t, 30); }
		Run<double, 1, 1, 2, 60000>::endless(140);
		for (int t = 1; t <= 3; ++t) for (int e = 1; e <= 5; ++e) if (th || (t + e) % 3 == 0) Run<double, 1, 1, 2, 17300>::chain(s.u(), t, 0, e);
		return 0;
	}
	for (int i = 0; i < rounds; ++i)
		for (int e = 0; e < 6; ++e) {
#ifdef UNBOUND_OPTIMIZE
			if (e > 1) continue;
			Run<double, 1, 2, 2, 1500>::bounded(s.u(), 24, e, s.n(5), 0); Run<int, 2, 2, 3, 1800>::bounded(s.u(), 20, e, 3, 0);
#endif
			Run<double, 1, 2, 2, 1500>::bounded(s.u(), 24, e, 3, s.n(2) * s.n(4)); Run<int, 2, 2, 3, 1800>::bounded(s.u(), 20, e, s.n(5), s.n(2) * s.n(4)); Run<double, 1, 1, 2, 1200>::bounded(s.u(), 20, e, s.n(2), s.n(2) * s.n(4));
			Run<float, 3, 1, 2, 1500>::bounded(s.u(), 16, e, 2, s.n(2) * s.n(4)); Run<double, 2, 3, 2, 3000>::bounded(s.u(), 18, e, s.n(5), 0); Run<int, 4, 1, 2, 700>::bounded(s.u(), 10, e, 3 + s.n(2), s.n(4)); Run<double, 4, 2, 2, 440>::bounded(s.u(), 8, e, 3, 0);
			Run<double, 1, 2, 4, 9000>::bounded(s.u(), 24, e, 2, 0);
		}
	return 0;
#else
#ifdef UNBOUND
	tr::Rand s(tr::seed() * 31 + 5);
#else
	tr::Rand s(tr::seed() * 37 + 8);
#endif
	if (mode == 21) { // laws
		for (int i = 0; i < (th ? 12 : 3); ++i) {
			int g = th ? 14 : 10;
			Run<double, 1, 1, 2, 4000>::laws(s.u(), 0, g + 6); Run<double, 1, 2, 2, 4000>::laws(s.u(), 0, g + 4); Run<double, 1, 2, 2, 4000>::laws(s.u(), 1, g);
			Run<int, 1, 2, 2, 4000>::laws(s.u(), 1, g); Run<float, 1, 3, 2, 4000>::laws(s.u(), 1, g); Run<double, 1, 2, 3, 4000>::laws(s.u(), 2, th ? 9 : 7);
			Run<double, 1, 3, 2, 4000>::laws(s.u(), 3, th ? 6 : 4); Run<double, 2, 2, 2, 4000>::laws(s.u(), 0, 4); Run<int, 3, 1, 2, 4000>::laws(s.u(), 0, 2);
		}
		return 0;
	}
	for (int i = 0; i < (th ? 30 : 3); ++i) {
		Run<double, 1, 1, 2, 300>::random(s.u(), 16); Run<double, 1, 2, 2, 5000>::random(s.u(), 24); Run<int, 2, 2, 3, 1000>::random(s.u(), 22);
		Run<float, 2, 3, 2, 1600>::random(s.u(), 20); Run<double, 3, 2, 2, 1400>::random(s.u(), 18); Run<int, 1, 1, 4, 900>::random(s.u(), 24);
		Run<double, 4, 2, 2, 700>::random(s.u(), 14); Run<double, 4, 1, 2, 200>::random(s.u(), 10); Run<int, 3, 2, 2, 150>::random(s.u(), 8); Run<double, 5, 2, 2, 444>::random(s.u(), 10); Run<short, 2, 2, 2, 777>::random(s.u(), 20);
		Run<double, 1, 3, 3, 3000>::random(s.u(), 28); Run<double, 2, 1, 1, 500>::random(s.u(), 16); Run<float, 1, 1, 2, 1000>::random(s.u(), 24);
		Run<long, 1, 2, 3, 2500>::random(s.u(), 22); Run<double, 2, 4, 2, 3000>::random(s.u(), 20);
	}
	Run<int, 1, 1, 2, 2000>::exhaustive(th ? 4 : 3, {0.1, TOP});
	Run<double, 1, 2, 2, 330>::exhaustive(th ? 4 : 3, {0, 0.25});
	Run<double, 2, 1, 1, 400>::exhaustive(th ? 5 : 4, {0.05, 0.6});
	return 0;
#endif
}
