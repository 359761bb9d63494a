// Core of the monitoring harness: random numbers, reports, exact geometry,
// mesh snapshots. Nothing in here takes a verdict from the code under test.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <functional>
#include <cmath>
#include <unordered_map>
#include <unistd.h>
#include <climits>

namespace vh {

// ------------------------------------------------------------------ rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); } // inclusive
  bool p(double q) { return u() < q; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ULL + b * 0xD6E8FEB86659FD93ULL + 0x1234567);
  return r.next();
}

// ------------------------------------------------------------ reporting
inline std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  return buf;
}
struct Violation { std::string prop, key, msg; };

// One Report per case. Written line by line so that a crash loses nothing.
struct Report {
  int fd = 1;
  std::map<std::string, long> events;    // property -> oracle evaluations
  std::map<std::string, long> stats;     // free-form counters
  std::vector<Violation> viol;
  uint64_t sig = 1469598103934665603ULL; // signature of what was observed
  std::string tag;                        // current step
  void line(const std::string& s) {
    std::string t = s + "\n";
    size_t o = 0;
    while (o < t.size()) { ssize_t n = ::write(fd, t.data() + o, t.size() - o); if (n <= 0) break; o += n; }
  }
  static std::string clean(std::string s) { for (auto& c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
  void step(const std::string& s) { tag = s; line("STEP\t" + clean(s)); }
  void ev(const std::string& p, long n = 1) { events[p] += n; }
  void st(const std::string& p, long n = 1) { stats[p] += n; }
  void violation(const std::string& p, const std::string& key, const std::string& msg) {
    viol.push_back({p, key, msg});
    if (viol.size() < 60) line("VIOL\t" + p + "\t" + clean(key) + "\t" + clean("[" + tag + "] " + msg));
  }
  void h(uint64_t x) { sig = (sig ^ x) * 1099511628211ULL; }
  void finish() {
    for (auto& e : events) line(fmt("EV\t%s\t%ld", e.first.c_str(), e.second));
    for (auto& e : stats) line(fmt("ST\t%s\t%ld", e.first.c_str(), e.second));
    line(fmt("SIG\t%016llx", (unsigned long long)sig));
  }
};

// ------------------------------------------------------- exact geometry
struct P { double x = 0, y = 0; };
inline bool operator==(const P& a, const P& b) { return a.x == b.x && a.y == b.y; }
inline bool operator!=(const P& a, const P& b) { return !(a == b); }
inline bool operator<(const P& a, const P& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
inline P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; }
inline P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; }
inline P operator*(double s, P a) { return {s * a.x, s * a.y}; }
inline double dist(P a, P b) { return std::hypot(a.x - b.x, a.y - b.y); }

typedef __float128 Q;
// twice the signed area of (a,b,c); 113 bits: exact for the coordinates used
inline Q area2(P a, P b, P c) {
  return ((Q)b.x - (Q)a.x) * ((Q)c.y - (Q)a.y) - ((Q)b.y - (Q)a.y) * ((Q)c.x - (Q)a.x);
}
inline int orient(P a, P b, P c) { Q v = area2(a, b, c); return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline Q poly_area(const std::vector<P>& p) {
  Q s = 0; size_t n = p.size();
  for (size_t i = 0; i + 2 < n + 0 && i + 2 <= n - 1; ++i) s += area2(p[0], p[i + 1], p[i + 2]);
  return s / 2;
}
inline bool on_seg(P a, P b, P c) { // c on closed segment ab
  return orient(a, b, c) == 0 && std::min(a.x, b.x) <= c.x && c.x <= std::max(a.x, b.x) &&
         std::min(a.y, b.y) <= c.y && c.y <= std::max(a.y, b.y);
}
inline bool seg_cross_proper(P a, P b, P c, P d) {
  int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
  return o1 * o2 < 0 && o3 * o4 < 0;
}
inline bool seg_intersect(P a, P b, P c, P d) { // closed segments share a point
  if (seg_cross_proper(a, b, c, d)) return true;
  return on_seg(a, b, c) || on_seg(a, b, d) || on_seg(c, d, a) || on_seg(c, d, b);
}
inline double dist_pt_seg(P p, P a, P b) {
  double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
inline double seg_seg_dist(P a, P b, P c, P d) {
  if (seg_intersect(a, b, c, d)) return 0;
  return std::min(std::min(dist_pt_seg(a, c, d), dist_pt_seg(b, c, d)), std::min(dist_pt_seg(c, a, b), dist_pt_seg(d, a, b)));
}
// exact even-odd test; returns 1 inside, 0 on boundary, -1 outside
inline int point_in_poly(P q, const std::vector<P>& r) {
  bool in = false; size_t n = r.size();
  for (size_t i = 0; i < n; ++i) {
    P a = r[i], b = r[(i + 1) % n];
    if (on_seg(a, b, q)) return 0;
    if ((a.y > q.y) != (b.y > q.y)) {
      int o = orient(a, b, q);
      if (b.y < a.y) o = -o;
      if (o > 0) in = !in;
    }
  }
  return in ? 1 : -1;
}
inline bool simple_poly(const std::vector<P>& p) {
  size_t n = p.size();
  for (size_t i = 0; i < n; ++i) {
    if (p[i] == p[(i + 1) % n]) return false;
    for (size_t j = i + 1; j < n; ++j) {
      P a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
      if ((i + 1) % n == j) { if (on_seg(a, b, d) || on_seg(c, d, a)) { if (n > 2) return false; } continue; }
      if ((j + 1) % n == i) { if (on_seg(c, d, b) || on_seg(a, b, c)) return false; continue; }
      if (seg_intersect(a, b, c, d)) return false;
    }
  }
  return true;
}

// --------------------------------------------------------------- snapshot
struct SElem { std::vector<int> v; int color = 0; };
struct SEdge { int a = -1, b = -1, color = 0; bool fixed = false, ghost = false; bool twin = false; P ta, tb; };
struct Snap {
  std::vector<P> V;
  std::vector<char> vfixed, vbdry, vql;
  std::vector<double> vsize;
  std::vector<SElem> E;     // quads first, then triangles (the writer's order)
  size_t nq = 0, nt = 0;
  std::vector<SEdge> B, I;
  bool ok = true; std::string why;
  double diam() const {
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& p : V) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    return V.empty() ? 1 : std::hypot(x1 - x0, y1 - y0);
  }
  std::vector<P> pts(const SElem& e) const { std::vector<P> r; for (int i : e.v) r.push_back(V[i]); return r; }
  Q area() const { Q s = 0; for (auto& e : E) s += poly_area(pts(e)); return s; }
  uint64_t hash() const {
    uint64_t h = 1469598103934665603ULL;
    auto add = [&](uint64_t x) { h = (h ^ x) * 1099511628211ULL; h ^= h >> 29; };
    auto d = [&](double v) { uint64_t u; memcpy(&u, &v, 8); add(u); };
    for (auto& p : V) { d(p.x); d(p.y); }
    for (auto& e : E) { for (int v : e.v) add(v); add(e.color + 77); }
    for (auto& e : B) { add(e.a); add(e.b); add(e.color); }
    for (auto& e : I) { add(e.a); add(e.b); }
    return h;
  }
};

} // namespace vh
