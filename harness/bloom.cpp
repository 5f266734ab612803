// Driver of BloomFilter: random and scripted histories over many instances.
#include "tr.hpp"
#include <bloom_filter.hpp>
struct Big { double pad[3]; int id; char tail; };
template <class E> E make(int id);
template <> int make<int>(int id) { return id; }
template <> unsigned char make<unsigned char>(int id) { return (unsigned char)id; }
template <> double make<double>(int id) { return id + 0.25; }
template <> Big make<Big>(int id) { Big b; memset(&b, 0, sizeof b); b.id = id; b.pad[1] = id * 0.5; b.tail = 'x'; return b; }
static int ident(int* e) { return *e; }
static int ident(unsigned char* e) { return *e; }
static int ident(double* e) { return (int)*e; }
static int ident(Big* e) { return e->id; }
static std::vector<std::vector<int>> tab; // element -> hash values
static int bad_ident = 0;
template <class E, int I> unsigned int hash_fn(E* e) {
	int id = ident(e);
	if (id < 0 || id >= (int)tab.size()) { bad_ident++; return 0; }
	return (unsigned int)tab[id][I];
}
template <class E, int N> struct Fill { static void go(unsigned int (**h)(E*)) { h[N - 1] = hash_fn<E, N - 1>; Fill<E, N - 1>::go(h); } };
template <class E> struct Fill<E, 0> { static void go(unsigned int (**h)(E*)) {} };

static std::string cfg_json(int bits) {
	return tr::Obj().i("bits", bits).raw("h", tr::arr(tab.begin(), tab.end(), [](std::vector<int> const& v) { return tr::ints(v); })).end();
}
template <class E, int BITS, int K> struct Run {
	typedef BloomFilter<E, BITS, K> F;
	F* f; tr::Rand& r;
	Run(tr::Rand& r) : r(r) {
		unsigned int (*h[K])(E*);
		Fill<E, K>::go(h);
		// place the filter in dirty memory: the constructor has to empty it
		static unsigned char mem[sizeof(F) + 64];
		tr::dirty(mem, sizeof mem);
		f = new (mem + (16 - ((size_t)mem % 16)) % 16) F(h);
		memset(h, 0, sizeof h); // the filter keeps its own copy
	}
	void probe(bool ptr) {
		std::vector<int> v;
		tr::about("probe");
		std::string s = "[";
		for (size_t e = 0; e < tab.size(); ++e) {
			E x = make<E>(e);
			bool a = ptr ? f->lookup(&x) : f->lookup(x);
			s += e ? "," : ""; s += a ? "true" : "false";
		}
		tr::ev(tr::op("probe").raw("r", s + "]"));
	}
	void add(int e, bool ptr) {
		tr::about("add");
		E x = make<E>(e);
		if (ptr) f->add(&x); else f->add(x);
		tr::ev(tr::op("add").i("e", e + 1));
	}
	void lookup(int e, bool ptr) {
		tr::about("lookup");
		E x = make<E>(e);
		bool a = ptr ? f->lookup(&x) : f->lookup(x);
		tr::ev(tr::op("lookup").i("e", e + 1).b("r", a));
	}
	void clear() { tr::about("clear"); f->clear(); tr::ev(tr::op("clear")); }
	void set(std::vector<int> const& s) {
		tr::about("set");
		std::vector<unsigned char> b(BITS, 0);
		for (int i : s) b[i] = 1;
		f->set(b.data());
		std::fill(b.begin(), b.end(), 1); // the filter must not keep the caller's array
		tr::ev(tr::op("set").ia("bits", s));
	}
	std::vector<int> rand_bits() {
		std::vector<int> s;
		int mode = r.n(4);
		for (int i = 0; i < BITS; ++i)
			if (mode == 0 ? false : mode == 1 ? true : mode == 2 ? r.n(2) : r.n(8) == 0) s.push_back(i);
		if (s.size() > 300) s.resize(300);
		return s;
	}
	void random_ops(int n) {
		probe(false);
		for (int i = 0; i < n; ++i) {
			int e = r.n(tab.size());
			switch (r.n(20)) {
			case 0: clear(); break;
			case 1: set(rand_bits()); break;
			case 2: case 3: case 4: case 5: lookup(e, r.n(2)); break;
			default: add(e, r.n(2));
			}
			if (BITS <= 64 || i % 7 == 0) probe(r.n(2));
		}
		probe(true);
	}
};
template <class E, int BITS, int K> void random_run(tr::Rand& r, int n, int reps) {
	for (int k = 0; k < reps; ++k) {
		tab.clear();
		int cap = sizeof(E) == 1 ? 200 : 400;
		// elements whose hashes all designate one bit make every bit observable
		if (BITS <= 70) for (int b = 0; b < BITS; ++b) tab.push_back(std::vector<int>(K, b));
		else { int pts[] = {0, 1, 7, 8, 9, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 32767, 32768, 65535, 65536, BITS / 2, BITS - 2, BITS - 1};
			for (int b : pts) if (b < BITS) tab.push_back(std::vector<int>(K, b)); }
		for (int i = 0; i < 25 && (int)tab.size() < cap; ++i) {
			std::vector<int> v;
			for (int j = 0; j < K; ++j) v.push_back(r.chance(1, 6) ? BITS - 1 : r.chance(1, 6) ? 0 : r.n(BITS));
			tab.push_back(v);
		}
		tr::begin(cfg_json(BITS));
		Run<E, BITS, K> run(r);
		run.random_ops(n);
		tr::end();
	}
}
int main(int argc, char** argv) {
	tr::init();
	tr::Rand r(tr::seed());
	if (argc > 1) { // scripts derived from the specification: 1 e = add, 2 = clear, 3 n bits.. = set
		tab = {{0, 1}, {1, 3}, {2, 2}, {3, 0}, {0, 0}};
		for (auto& s : tr::read_scripts(argv[1])) {
			tr::begin(cfg_json(4));
			Run<int, 4, 2> run(r);
			run.probe(false);
			for (size_t i = 0; i < s.size();) {
				if (s[i] == 1) { run.add(s[i + 1] - 1, i & 1); i += 2; }
				else if (s[i] == 2) { run.clear(); ++i; }
				else { int n = s[i + 1]; std::vector<int> b(s.begin() + i + 2, s.begin() + i + 2 + n); run.set(b); i += 2 + n; }
				run.probe(i & 1);
			}
			tr::end();
		}
		return 0;
	}
	int m = tr::thorough() ? 8 : 1;
	random_run<int, 1, 1>(r, 20, 3 * m);
	random_run<int, 2, 1>(r, 30, 3 * m);
	random_run<int, 3, 2>(r, 40, 4 * m);
	random_run<unsigned char, 7, 3>(r, 60, 4 * m);
	random_run<double, 8, 1>(r, 60, 4 * m);
	random_run<Big, 9, 2>(r, 60, 4 * m);
	random_run<int, 16, 4>(r, 60, 4 * m);
	random_run<Big, 31, 2>(r, 60, 4 * m);
	random_run<int, 33, 5>(r, 60, 4 * m);
	random_run<double, 64, 3>(r, 80, 4 * m);
	random_run<int, 65, 7>(r, 80, 4 * m);
	random_run<int, 255, 2>(r, 80, 3 * m);
	random_run<int, 256, 1>(r, 80, 3 * m);
	random_run<Big, 257, 3>(r, 80, 3 * m);
	random_run<double, 1000, 8>(r, 80, 3 * m);
	random_run<int, 70001, 3>(r, 80, 3 * m);
	if (bad_ident) { fprintf(stderr, "hash called with a foreign element\n"); }
	return 0;
}
