// Driver of CuckooFilter.
#include "tr.hpp"
#include <cuckoo_filter.hpp>
#include <new>
struct Key { int id; char pad[5]; };
static std::vector<int> FP, H1, FH;   // per element: fingerprint, first bucket; per fingerprint: hash
static tr::Draws draws;
static bool edge_draws = false;
static double fixed_draw = -1;        // when not negative, every draw
static double rnd() {
	if (fixed_draw >= 0) return fixed_draw;
	if (edge_draws && draws.r.chance(1, 5)) { static const double e[] = {0.0, 0.5, 1.0, 0.9999999999999999}; return e[draws.r.n(4)]; }
	return draws.next();
}
static int ident(int const* e) { return *e; }
static int ident(Key const* e) { return e->id; }
struct Fun {
	template <class E> static unsigned char fingerprint(E const* e) { return (unsigned char)FP[ident(e)]; }
	template <class E> static unsigned int hash(E const* e) { return (unsigned)H1[ident(e)]; }
	static unsigned int hash(unsigned char fp) { return (unsigned)FH[fp]; }
};
template <class E> E make(int i);
template <> int make<int>(int i) { return i; }
template <> Key make<Key>(int i) { Key k; memset(&k, 7, sizeof k); k.id = i; return k; }

template <class E, int B, int BS, int ES, int EMPTY> struct Run {
	typedef CuckooFilter<E, B, BS, ES, Fun, rnd, EMPTY> F;
	alignas(16) unsigned char mem[sizeof(F)];
	F* f; tr::Rand r; std::vector<int> cls; bool lost = false;
	int n() { return (int)FP.size(); }
	Run(uint64_t seed) : r(seed) { tr::dirty(mem, sizeof mem); f = new (mem) F(); }
	void setup(int ne, int nfp, bool zero_hash) { // elements with few fingerprints so that classes collide
		FP.clear(); H1.clear(); FH.assign(256, 0); cls.clear();
		for (int i = 0; i < 256; ++i) FH[i] = r.n(B);
		if (!zero_hash && B > 1) for (int i = 0; i < 256; ++i) FH[i] = 1 + r.n(B - 1);
		int top = (1 << ES) - 1;
		std::vector<int> fps;
		for (int i = 0; i < nfp; ++i) { int v; do v = r.chance(1, 4) ? top : r.n(top + 1); while (v == EMPTY); fps.push_back(v); }
		for (int i = 0; i < ne; ++i) { FP.push_back(fps[r.n(nfp)]); H1.push_back(r.chance(1, 5) ? B - 1 : r.n(B)); }
		for (int i = 0; i < ne; ++i) { int j = 0; while (!same(i, j)) ++j; cls.push_back(j); }
	}
	int h2(int i) { return H1[i] ^ FH[FP[i]]; }
	bool same(int i, int j) { return FP[i] == FP[j] && ((H1[i] == H1[j] && h2(i) == h2(j)) || (H1[i] == h2(j) && h2(i) == H1[j])); }
	void begin() {
		std::string s = "[";
		for (int i = 0; i < n(); ++i) s += std::string(i ? "," : "") + "[" + std::to_string(FP[i]) + "," + std::to_string(H1[i]) + "," + std::to_string(h2(i)) + "]";
		tr::begin(tr::Obj().i("B", B).i("bs", BS).i("es", ES).i("empty", EMPTY).raw("el", s + "]").end());
	}
	bool look(F& g, int e, bool ptr) { E x = make<E>(e); return ptr ? g.lookup(&x) : g.lookup(x); }
	void rem(F& g, int e, bool ptr) { E x = make<E>(e); if (ptr) g.remove(&x); else g.remove(x); }
	bool put(F& g, int e, bool ptr) { E x = make<E>(e); return ptr ? g.add(&x) : g.add(x); }
	void probe() {
		tr::about("lookup");
		std::string s = "[";
		bool p = r.n(2);
		for (int e = 0; e < n(); ++e) s += std::string(e ? "," : "") + (look(*f, e, p) ? "true" : "false");
		tr::ev(tr::op("probe").raw("r", s + "]"));
	}
	bool add(int e) { tr::about("add"); bool a = put(*f, e, r.n(2)); tr::ev(tr::op("add").i("e", e + 1).b("r", a)); if (!a) lost = true; return a; }
	void remove(int e) { tr::about("remove"); rem(*f, e, r.n(2)); tr::ev(tr::op("remove").i("e", e + 1)); }
	void clear() { tr::about("clear"); f->clear(); tr::ev(tr::op("clear")); }
	void count() { // on a copy
		tr::about("remove");
		F g(*f);
		std::vector<int> c(n(), 0);
		for (int e = 0; e < n(); ++e) if (cls[e] == e) while (look(g, e, true) && c[e] < B * BS + 5) { rem(g, e, c[e] & 1); ++c[e]; }
		tr::ev(tr::op("count").ia("n", c));
	}
	void attempt(int e) { // the same add with many random sequences, on copies
		tr::about("add");
		int const N = 200; int won = 0;
		for (int i = 0; i < N; ++i) { F g(*f); won += put(g, e, i & 1); }
		// the draws never decide whether there is room: the same with constant sequences
		static const double c[] = {0.0, 0.25, 0.5, 0.75, 0.9999999999999999};
		int fixed = 0;
		for (double v : c) { fixed_draw = v; F g(*f); fixed += put(g, e, true); F h(*f); fixed += put(h, e, false); }
		fixed_draw = -1;
		tr::ev(tr::op("try").i("e", e + 1).i("n", N).i("won", won).i("nf", 10).i("fixed", fixed));
	}
	// mode 2: only remove what was added, stop at the first failure.  mode 3: anything.  mode 4: fill.
	void history(int mode, int len, int ne, int nfp, bool zero_hash) {
		setup(ne, nfp, zero_hash);
		draws.reset(r.u());
		edge_draws = r.chance(1, 3);
		begin();
		std::vector<int> have(n(), 0);
		int stored = 0;
		probe();
		for (int i = 0; i < len; ++i) {
			int e = r.n(n());
			int k = r.n(100);
			bool few = stored < B * BS / 2;
			if (mode == 4) {
				edge_draws = false;
				attempt(e);
				if (k < 80) add(e); else if (k < 95) remove(e); else if (k < 96) clear();
				probe(); count();
				continue;
			}
			if (k < (few ? 75 : 50)) {
				bool a = add(e);
				if (!a && mode == 2) break;
				have[cls[e]]++; stored++;
			} else if (k < 95) {
				if (mode == 2 && !have[cls[e]]) continue;
				if (have[cls[e]]) { have[cls[e]]--; stored--; }
				remove(e);
			} else if (k < 97) { clear(); std::fill(have.begin(), have.end(), 0); stored = 0; }
			probe();
			if (mode == 3 && (i % 5 == 0)) count();
		}
		if (mode != 2) count();
		tr::end();
	}
};
template <class E, int B, int BS, int ES, int EMPTY> void go(int mode, int reps, int len) {
	tr::Rand s(tr::seed() * 1000 + B * 131 + BS * 17 + ES + mode * 7777);
	for (int k = 0; k < reps; ++k) {
		static Run<E, B, BS, ES, EMPTY>* run; run = new Run<E, B, BS, ES, EMPTY>(s.u());
		int top = (1 << ES) - 1;
		int nfp = std::max(1, std::min(top, mode == 4 ? B == 8 ? 7 : 3 : 1 + (int)(s.u() % 12)));
		int ne = mode == 4 ? B == 8 ? 14 + s.n(8) : 6 + s.n(8) : std::min(24, 3 + B * BS + s.n(6));
		run->history(mode, len, ne, nfp, k % 3 == 2);
		delete run;
	}
}
int main(int argc, char** argv) {
	tr::init();
	int mode = atoi(argv[1]);
	if (argc > 2) { // scripts derived from the table specification: 1 e = add, 2 e = remove, 3 = clear
		for (auto& s : tr::read_scripts(argv[2])) {
			typedef Run<int, 4, 1, 2, 0> R;
			R* q = new R(tr::seed());
			FP = {1, 1, 2, 2, 3, 1}; H1 = {0, 2, 0, 1, 2, 1}; FH.assign(256, 0); FH[1] = 1; FH[2] = 3; FH[3] = 0;
			q->cls.clear(); for (int i = 0; i < 6; ++i) { int j = 0; while (!q->same(i, j)) ++j; q->cls.push_back(j); }
			draws.reset(q->r.u());
			q->begin();
			for (size_t i = 0; i < s.size();) {
				if (s[i] == 1) { int e = s[i + 1] - 1; q->attempt(e); q->add(e); i += 2; }
				else if (s[i] == 2) { q->remove(s[i + 1] - 1); i += 2; }
				else { q->clear(); ++i; }
				q->probe(); q->count();
			}
			tr::end();
			delete q;
		}
		return 0;
	}
	int m = tr::thorough() ? 6 : 1;
	if (mode == 4) {
		go<int, 1, 1, 3, 0>(4, 3 * m, 15); go<int, 2, 1, 3, 0>(4, 6 * m, 20); go<Key, 2, 2, 4, 15>(4, 6 * m, 25); go<int, 2, 3, 4, 0>(4, 6 * m, 25);
		go<int, 4, 1, 3, 0>(4, 6 * m, 25); go<Key, 4, 2, 8, 255>(4, 6 * m, 30); go<int, 4, 3, 5, 2>(4, 5 * m, 40); go<int, 2, 4, 8, 0>(4, 4 * m, 30);
		go<int, 8, 1, 4, 0>(4, 4 * m, 22); go<Key, 8, 2, 6, 0>(4, 2 * m, 34);
		return 0;
	}
	go<int, 1, 1, 8, 0>(mode, 3 * m, 20);
	go<int, 2, 1, 3, 0>(mode, 6 * m, 25);
	go<Key, 2, 2, 1, 0>(mode, 5 * m, 25);
	go<int, 4, 1, 3, 7>(mode, 6 * m, 30);
	go<int, 4, 2, 5, 0>(mode, 6 * m, 40);
	go<Key, 4, 3, 3, 0>(mode, 6 * m, 50);
	go<int, 8, 2, 8, 255>(mode, 5 * m, 60);
	go<Key, 8, 4, 7, 100>(mode, 5 * m, 80);
	go<int, 16, 3, 6, 1>(mode, 4 * m, 80);
	go<int, 32, 6, 3, 0>(mode, 3 * m, 100);
	go<int, 256, 4, 8, 0>(mode, 3 * m, 100);
	go<int, 1024, 1, 8, 0>(mode, 3 * m, 60);
	go<int, 131072, 2, 8, 0>(mode, m, 40); go<Key, 65536, 3, 7, 9>(mode, m, 40);
	return 0;
}
