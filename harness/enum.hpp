// Enumeration of every sequence of random numbers of a grid, with exact weights.
#pragma once
#include "tr.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <vector>
typedef unsigned __int128 u128;
struct Enum {
	std::vector<int> digit, grid, step; size_t pos = 0; int M = 1, cur = 0;
	// draws count per step of the current run -> used to weigh it
	void start() { pos = 0; }
	double next() {
		if (pos == digit.size()) { digit.push_back(0); grid.push_back(M); step.push_back(cur); }
		double v = (digit[pos] + 0.5) / grid[pos];
		++pos;
		return v;
	}
	bool advance() { // to the next sequence; false at the end
		digit.resize(pos); grid.resize(pos); step.resize(pos);
		while (!digit.empty()) {
			if (++digit.back() < grid.back()) return true;
			digit.pop_back(); grid.pop_back(); step.pop_back();
		}
		return false;
	}
	std::map<int, int> key() const { std::map<int, int> m; for (size_t i = 0; i < pos; ++i) m[grid[i]]++; return m; }
};
struct Histogram {
	std::map<std::string, std::map<std::map<int, int>, unsigned long long>> h;
	void add(std::string const& outcome, Enum const& e) { h[outcome][e.key()]++; }
	static u128 gcd(u128 a, u128 b) { while (b) { u128 t = a % b; a = b; b = t; } return a; }
	std::string json() const {
		std::map<int, int> top;
		for (auto& o : h) for (auto& c : o.second) for (auto& g : c.first) if (top[g.first] < g.second) top[g.first] = g.second;
		std::vector<std::pair<std::string, u128>> out;
		u128 g = 0;
		for (auto& o : h) {
			u128 w = 0;
			for (auto& c : o.second) {
				u128 p = c.second;
				for (auto& t : top) { int used = c.first.count(t.first) ? c.first.at(t.first) : 0; for (int i = used; i < t.second; ++i) p *= t.first; }
				w += p;
			}
			out.push_back({o.first, w}); g = gcd(g, w);
		}
		std::string s = "[";
		for (size_t i = 0; i < out.size(); ++i) {
			u128 w = out[i].second / g;
			s += std::string(i ? "," : "") + "[" + out[i].first + "," + tr::num(w > 1000000000u ? 1000000000LL : (long long)w) + "]";
		}
		return s + "]";
	}
};
// Probabilities of the outcomes of run(), whose draws only matter through finitely many thresholds: the thresholds are found by bisection.
struct Measure {
	typedef std::map<long, double> Law;
	std::vector<double> script; size_t pos = 0; int G; long runs = 0;
	explicit Measure(int g) : G(g) {}
	double next() { double v = pos < script.size() ? script[pos] : 0.5; ++pos; return v; }
	static bool same(Law const& a, Law const& b) { if (a.size() != b.size()) return false; for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j) if (i->first != j->first || std::fabs(i->second - j->second) > 1e-9) return false; return true; }
	static void put(Law& t, Law const& l, double w) { for (auto& o : l) t[o.first] += w * o.second; }
	template <class F> void between(Law& t, double lo, Law const& a, double hi, Law const& b, F& run) {
		if (same(a, b)) { put(t, a, hi - lo); return; }
		if (hi - lo < 1e-14) { put(t, a, (hi - lo) / 2); put(t, b, (hi - lo) / 2); return; }
		double mid = lo + (hi - lo) / 2; Law m = at(mid, run); between(t, lo, a, mid, m, run); between(t, mid, m, hi, b, run);
	}
	template <class F> Law at(double x, F& run) { script.push_back(x); Law l = law(run); script.pop_back(); return l; }
	template <class F> Law law(F& run) {
		if (++runs > 30000000 || script.size() > 8) { tr::about("more draws than expected"); abort(); }
		pos = 0; long o = run(); if (pos <= script.size()) return {{o, 1.0}};
		std::vector<double> xs; for (int i = 0; i < G; ++i) xs.push_back((i + 0.5) / G);
		for (int i = 53; i > 3; i -= 4) { xs.push_back(std::ldexp(1.0, -i)); xs.push_back(1 - std::ldexp(1.0, -i)); }
		std::sort(xs.begin(), xs.end());
		Law t, a = at(0, run); double x = 0;
		for (double y : xs) { Law b = at(y, run); between(t, x, a, y, b, run); a = b; x = y; }
		put(t, a, 1 - x); return t;
	}
	static std::string json(Law const& l) { std::string s = "["; for (auto& o : l) s += (s.size() > 1 ? ",[" : "[") + std::to_string(o.first) + "," + tr::dbl(o.second) + "]"; return s + "]"; }
};
inline int lcm(int a, int b) { int x = a, y = b; while (y) { int t = x % y; x = y; y = t; } return a / x * b; }
