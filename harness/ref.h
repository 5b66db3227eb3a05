// Independent reference definitions on plain vectors of int.
#ifndef REF_H
#define REF_H
#include "vh.h"
#include <numeric>
#include <ringing/common.h>
#include <ringing/row.h>
#include <ringing/change.h>
#include <ringing/bell.h>
typedef std::vector<int> P;
inline std::string ps(const P &p) { std::string s = "["; for (size_t i = 0; i < p.size(); ++i) s += (i ? "," : "") + std::to_string(p[i]); return s + "]"; }
inline P of(const ringing::row &r) { P p; for (int i = 0; i < r.bells(); ++i) p.push_back(r[i]); return p; }
inline std::vector<ringing::bell> bells(const P &p) { return std::vector<ringing::bell>(p.begin(), p.end()); }
inline ringing::row mk(const P &p) { return ringing::row(bells(p)); }
inline bool isperm(const P &p) { std::vector<bool> f(p.size()); for (int x : p) { if (x < 0 || x >= (int)p.size() || f[x]) return false; f[x] = true; } return true; }
inline P ident(int n) { P p(n); std::iota(p.begin(), p.end(), 0); return p; }
inline int at(const P &p, int i) { return i < (int)p.size() ? p[i] : i; }
inline P mul(const P &a, const P &b) { P r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) r[i] = at(a, at(b, i)); return r; }
inline P inv(const P &a) { P r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[a[i]] = i; return r; }
inline P rndperm(int n) { P p = ident(n); std::shuffle(p.begin(), p.end(), vh::rng()); return p; }
inline std::vector<P> allperms(int n) { std::vector<P> v; P p = ident(n); do v.push_back(p); while (std::next_permutation(p.begin(), p.end())); return v; }
inline P power(const P &a, long n) { P x = n < 0 ? inv(a) : a, r = ident(a.size()); unsigned long k = n < 0 ? 0ul - n : n; while (k) { if (k & 1) r = mul(r, x); x = mul(x, x); k >>= 1; } return r; }
// a change is the set of its places, or the involution it is
inline std::vector<std::vector<int> > allchanges(int n) { // ascending lists of left positions of swaps
  std::vector<std::vector<int> > out, cur(1);
  struct R { static void go(int i, int n, std::vector<int> &c, std::vector<std::vector<int> > &o) { if (i + 1 >= n) { o.push_back(c); return; } go(i + 1, n, c, o); c.push_back(i); go(i + 2, n, c, o); c.pop_back(); } };
  std::vector<int> c; R::go(0, n, c, out); return out;
}
inline P invol(const std::vector<int> &sw, int n) { P p = ident(n); for (int s : sw) std::swap(p[s], p[s + 1]); return p; }
inline ringing::change mkch(const std::vector<int> &sw, int n) { ringing::change c(n); for (int s : sw) c.swappair(s); return c; }
inline P chp(const ringing::change &c, int n) { P p; for (int i = 0; i < n; ++i) { ringing::bell b(i); b *= c; p.push_back(b); } return p; }
inline std::vector<int> rndchange(int n) { std::vector<int> s; for (int i = 0; i + 1 < n; ++i) if (vh::rnd(3)) { s.push_back(i); ++i; } return s; }
static const char *const SYMS = "1234567890ETABCDFGHJKLMNPQRSUVWYZ";
inline std::string bstr(int b) { return b < 33 ? std::string(1, SYMS[b]) : "{" + std::to_string(b + 1) + "}"; }
inline std::string rstr(const P &p) { std::string s; for (int b : p) s += bstr(b); return s; }
#endif
