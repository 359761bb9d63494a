// Independent oracles over mesh snapshots and domain specifications.
#pragma once
#include "core.hpp"

namespace vh {

// ---------------------------------------------------------- specification
// What the user asked for, kept apart from the library's own Domain object.
struct Ring {
  bool exterior = true;
  std::vector<P> pts;                       // exterior CCW, interior CW
  std::vector<int> colors;                  // colour of edge pts[i] -> pts[i+1]
  std::vector<std::array<double, 2>> props; // local size, range (<=0: none)
  int build = 0;  // 0 edges, 1 coordinates, 2 coordinates reversed, 3 csv, 4 csv reversed,
                  // 5 rectangle, 6 circle, 7 square, 8 triangle
  double sp[4] = {0, 0, 0, 0};              // shape parameters
  int rot = 0;                              // rotation of the user's listing
};
struct SizeFn {
  int kind = 0; double a = 1, b = 0, c = 0, d = 1; P o;
  double operator()(P p) const {
    switch (kind) {
      case 0: return a;
      case 1: return std::max(0.25 * a, std::min(2.5 * a, a + b * (p.x - o.x) + c * (p.y - o.y)));
      case 2: { double r2 = (p.x - o.x) * (p.x - o.x) + (p.y - o.y) * (p.y - o.y); return a - b * std::exp(-r2 / (d * d)); }
      case 3: return a * (1.0 + b * std::sin(c * (p.x - o.x)) * std::cos(c * (p.y - o.y)));
    }
    return a;
  }
};
struct Spec {
  std::vector<Ring> rings;
  struct FV { P p; double s, r; };
  std::vector<FV> fv;
  std::vector<std::array<int, 2>> fe;       // indices into fv; <0: ring vertex -(1+ring*1000+i)
  SizeFn f;
  int mesh_id = 0, color = 0;
  std::string desc;
  double scale = 1;
  bool merge_collinear = false; // straight runs of one marker count as one edge (quad layers may slide vertices along them)
  P fpt(int i) const { if (i >= 0) return fv[i].p; int k = -i - 1; return rings[k / 1000].pts[k % 1000]; }
  Q area() const { Q s = 0; for (auto& r : rings) s += poly_area(r.pts); return s; }
  int inside(P p) const { // 1 strictly inside, 0 on boundary, -1 outside
    int res = 1;
    for (auto& r : rings) {
      int k = point_in_poly(p, r.pts);
      if (k == 0) return 0;
      if (r.exterior ? k < 0 : k > 0) res = -1;
    }
    return res;
  }
  double dist_bdry(P p) const {
    double d = 1e300;
    for (auto& r : rings) for (size_t i = 0; i < r.pts.size(); ++i)
      d = std::min(d, dist_pt_seg(p, r.pts[i], r.pts[(i + 1) % r.pts.size()]));
    return d;
  }
  double diam() const {
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& r : rings) for (auto& p : r.pts) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
    return std::hypot(x1 - x0, y1 - y0);
  }
};

// size function of a domain as documented
inline double size_oracle(const Spec& s, P p) {
  double hf = s.f(p), h = hf;
  for (auto& r : s.rings) { size_t n = r.pts.size(); for (size_t i = 0; i < n; ++i) {
    P v[2] = {r.pts[i], r.pts[(i + 1) % n]}; double el = dist(v[0], v[1]), R = std::max(hf / el, el / hf);
    for (int k = 0; k < 2; ++k) { auto& pr = r.props[(i + k) % n]; double sg = R * (pr[1] <= 0 ? el : pr[1]), d = dist(p, v[k]), z = std::exp(-(d / sg) * (d / sg)); h = std::min(h, z * std::min(pr[0] <= 0 ? hf : pr[0], el) + (1 - z) * hf); }
  } }
  for (auto& f : s.fv) if (f.s > 0) { double sg = f.r <= 0 ? hf : f.r, d = dist(p, f.p), z = std::exp(-(d / sg) * (d / sg)); h = std::min(h, z * f.s + (1 - z) * hf); }
  return h;
}

typedef std::pair<int, int> EK;
inline EK ek(int a, int b) { return a < b ? EK(a, b) : EK(b, a); }

struct EdgeUse { int n = 0; int e[2] = {-1, -1}; bool fwd[2] = {false, false}; };
inline std::map<EK, EdgeUse> edge_use(const Snap& s) {
  std::map<EK, EdgeUse> m;
  for (size_t k = 0; k < s.E.size(); ++k) {
    auto& v = s.E[k].v;
    for (size_t i = 0; i < v.size(); ++i) {
      int a = v[i], b = v[(i + 1) % v.size()];
      auto& u = m[ek(a, b)];
      if (u.n < 2) { u.e[u.n] = int(k); u.fwd[u.n] = a < b; }
      u.n++;
    }
  }
  return m;
}
typedef std::function<void(const std::string& key, const std::string& msg)> Sink;

inline std::string pstr(P p) { return fmt("(%.17g,%.17g)", p.x, p.y); }

// ---- every element is a simple, positively oriented polygon over mesh vertices
inline bool elements_valid(const Snap& s, const Sink& bad) {
  bool ok = true; int rep = 0;
  for (size_t k = 0; k < s.E.size() && rep < 5; ++k) {
    auto& e = s.E[k];
    bool idx = true;
    for (int v : e.v) if (v < 0 || v >= int(s.V.size())) idx = false;
    if (!idx) { bad("elem-vertex-unknown", fmt("element %zu refers to a vertex that is not in the mesh", k)); ok = false; rep++; continue; }
    auto p = s.pts(e);
    for (auto& q : p) if (!std::isfinite(q.x) || !std::isfinite(q.y)) { bad("nonfinite-vertex", fmt("element %zu has a non-finite vertex", k)); return false; }
    Q a = poly_area(p);
    if (!(a > 0)) { bad(e.v.size() == 4 ? "quad-not-ccw" : "tri-not-ccw", fmt("element %zu area %.3g at %s", k, (double)a, pstr(p[0]).c_str())); ok = false; rep++; continue; }
    if (e.v.size() == 4 && !simple_poly(p)) { bad("quad-not-simple", fmt("element %zu %s %s %s %s", k, pstr(p[0]).c_str(), pstr(p[1]).c_str(), pstr(p[2]).c_str(), pstr(p[3]).c_str())); ok = false; rep++; }
  }
  return ok;
}
inline int count_nonconvex(const Snap& s) {
  int n = 0;
  for (auto& e : s.E) if (e.v.size() == 4) {
    auto p = s.pts(e);
    for (int i = 0; i < 4; ++i) if (orient(p[i], p[(i + 1) % 4], p[(i + 2) % 4]) < 0) { n++; break; }
  }
  return n;
}

// ---- edge-to-edge conformity: used once <=> boundary edge, used twice in
//      opposite directions otherwise; no vertex unused
inline bool conforming(const Snap& s, const Sink& bad) {
  bool ok = true; int rep = 0;
  auto use = edge_use(s);
  std::map<EK, int> bd;
  for (auto& b : s.B) {
    if (b.a < 0 || b.b < 0) { bad("bdry-edge-vertex-unknown", "a boundary edge refers to a vertex that is not in the mesh"); return false; }
    if (++bd[ek(b.a, b.b)] > 1) { bad("bdry-edge-duplicate", fmt("boundary edge %s-%s listed twice", pstr(s.V[b.a]).c_str(), pstr(s.V[b.b]).c_str())); ok = false; }
  }
  for (auto& b : s.B) {
    auto it = use.find(ek(b.a, b.b));
    if (it == use.end()) { if (rep++ < 5) bad("bdry-edge-without-element", fmt("boundary edge %s-%s bounds no element", pstr(s.V[b.a]).c_str(), pstr(s.V[b.b]).c_str())); ok = false; continue; }
    if (it->second.n != 1) { if (rep++ < 5) bad("bdry-edge-multi", fmt("boundary edge %s-%s is used by %d elements", pstr(s.V[b.a]).c_str(), pstr(s.V[b.b]).c_str(), it->second.n)); ok = false; continue; }
    if (it->second.fwd[0] != (b.a < b.b)) { if (rep++ < 5) bad("bdry-edge-direction", "boundary edge does not have its element on its left"); ok = false; }
  }
  for (auto& u : use) {
    if (u.second.n == 1 && !bd.count(u.first)) { if (rep++ < 5) bad("open-edge", fmt("edge %s-%s has one element but is not a boundary edge", pstr(s.V[u.first.first]).c_str(), pstr(s.V[u.first.second]).c_str())); ok = false; }
    if (u.second.n > 2) { if (rep++ < 5) bad("edge-overused", fmt("edge %s-%s has %d elements", pstr(s.V[u.first.first]).c_str(), pstr(s.V[u.first.second]).c_str(), u.second.n)); ok = false; }
    if (u.second.n == 2 && u.second.fwd[0] == u.second.fwd[1]) { if (rep++ < 5) bad("edge-same-side", fmt("edge %s-%s has two elements on one side", pstr(s.V[u.first.first]).c_str(), pstr(s.V[u.first.second]).c_str())); ok = false; }
  }
  std::vector<char> used(s.V.size(), 0);
  for (auto& e : s.E) for (int v : e.v) used[v] = 1;
  for (size_t i = 0; i < s.V.size(); ++i) if (!used[i]) { if (rep++ < 5) bad("orphan-vertex", "vertex " + pstr(s.V[i]) + " belongs to no element"); ok = false; }
  return ok;
}

// ---- listed interior edges are exactly the edges shared by two elements
inline bool interior_edges_exact(const Snap& s, const Sink& bad) {
  bool ok = true; int rep = 0;
  auto use = edge_use(s);
  std::map<EK, int> in;
  for (auto& e : s.I) {
    if (e.a < 0 || e.b < 0) { bad("intr-edge-vertex-unknown", "an interior edge refers to a vertex that is not in the mesh"); return false; }
    if (++in[ek(e.a, e.b)] > 1) { if (rep++ < 5) bad("intr-edge-duplicate", fmt("interior edge %s-%s listed twice", pstr(s.V[e.a]).c_str(), pstr(s.V[e.b]).c_str())); ok = false; }
    auto it = use.find(ek(e.a, e.b));
    if (it == use.end() || it->second.n != 2) { if (rep++ < 5) bad("intr-edge-bogus", fmt("interior edge %s-%s is shared by %d elements", pstr(s.V[e.a]).c_str(), pstr(s.V[e.b]).c_str(), it == use.end() ? 0 : it->second.n)); ok = false; }
  }
  for (auto& u : use) if (u.second.n == 2 && !in.count(u.first)) { if (rep++ < 5) bad("intr-edge-missing", fmt("shared edge %s-%s is not listed", pstr(s.V[u.first.first]).c_str(), pstr(s.V[u.first.second]).c_str())); ok = false; }
  return ok;
}

// ---- the boundary edges of the mesh subdivide the domain's boundary edges,
//      in direction and with their markers
// only_rings: if set, restrict to edges passing the predicate
struct Orig { P a, b; int color; std::vector<std::array<double, 2>> iv; };
inline bool boundary_cover_edges(const Snap& s, std::vector<Orig> O, double tol, const Sink& bad_geo, const Sink& bad_col);
inline bool boundary_cover(const Snap& s, const Spec& sp, const Sink& bad_geo, const Sink& bad_col, double tolrel = 1e-9) {
  double tol = tolrel * std::max(1.0, sp.diam());
  std::vector<Orig> O;
  for (auto& r : sp.rings) {
    size_t n = r.pts.size(), st = 0;
    auto corner = [&](size_t i) { // the user's point i separates two edges that cannot be told to be one
      if (!sp.merge_collinear) return true;
      P a = r.pts[(i + n - 1) % n], b = r.pts[i], c = r.pts[(i + 1) % n];
      return r.colors[(i + n - 1) % n] != r.colors[i] || dist_pt_seg(b, a, c) > tol;
    };
    while (st < n && !corner(st)) ++st;
    for (size_t k = 0; k < n; ++k) {
      size_t i = (st + k) % n, j = i;
      if (!corner(i)) continue;
      do j = (j + 1) % n; while (!corner(j));
      O.push_back({r.pts[i], r.pts[j], r.colors[i], {}});
    }
  }
  return boundary_cover_edges(s, O, tol, bad_geo, bad_col);
}
inline bool boundary_cover_edges(const Snap& s, std::vector<Orig> O, double tol, const Sink& bad_geo, const Sink& bad_col) {
  bool ok = true; int rep = 0;
  for (auto& b : s.B) {
    P p = s.V[b.a], q = s.V[b.b];
    int best = -1; double bd = 1e300;
    for (size_t k = 0; k < O.size(); ++k) {
      double d = std::max(dist_pt_seg(p, O[k].a, O[k].b), dist_pt_seg(q, O[k].a, O[k].b));
      double dir = (q.x - p.x) * (O[k].b.x - O[k].a.x) + (q.y - p.y) * (O[k].b.y - O[k].a.y);
      if (dir <= 0) continue;
      if (d < bd) { bd = d; best = int(k); }
    }
    if (best < 0 || bd > tol) { if (rep++ < 5) bad_geo("bdry-off-domain", fmt("mesh boundary edge %s-%s is not on a domain edge (distance %.3g)", pstr(p).c_str(), pstr(q).c_str(), bd)); ok = false; continue; }
    auto& o = O[best];
    double L = dist(o.a, o.b);
    auto par = [&](P x) { return ((x.x - o.a.x) * (o.b.x - o.a.x) + (x.y - o.a.y) * (o.b.y - o.a.y)) / L; };
    o.iv.push_back({par(p), par(q)});
    if (b.color != o.color) { if (rep++ < 5) bad_col("bdry-marker", fmt("mesh boundary edge %s-%s carries marker %d, its domain edge %d", pstr(p).c_str(), pstr(q).c_str(), b.color, o.color)); ok = false; }
  }
  for (auto& o : O) {
    double L = dist(o.a, o.b), t = 0;
    std::sort(o.iv.begin(), o.iv.end());
    bool good = true;
    for (auto& v : o.iv) { if (std::fabs(v[0] - t) > 4 * tol) good = false; t = v[1]; }
    if (std::fabs(t - L) > 4 * tol) good = false;
    if (!good) { if (rep++ < 5) bad_geo("bdry-gap", fmt("domain edge %s-%s is not covered exactly once by mesh boundary edges (%zu pieces)", pstr(o.a).c_str(), pstr(o.b).c_str(), o.iv.size())); ok = false; }
  }
  return ok;
}

// ---- brute-force overlap test used for incomplete meshes (n small)
inline bool no_overlaps(const Snap& s, const Sink& bad) {
  bool ok = true; int rep = 0;
  size_t n = s.E.size();
  std::vector<std::array<double, 4>> bb(n);
  for (size_t k = 0; k < n; ++k) { auto p = s.pts(s.E[k]); bb[k] = {1e300, -1e300, 1e300, -1e300};
    for (auto& q : p) { bb[k][0] = std::min(bb[k][0], q.x); bb[k][1] = std::max(bb[k][1], q.x); bb[k][2] = std::min(bb[k][2], q.y); bb[k][3] = std::max(bb[k][3], q.y); } }
  std::vector<size_t> ord(n); for (size_t i = 0; i < n; ++i) ord[i] = i;
  std::sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return bb[a][0] < bb[b][0]; });
  for (size_t x = 0; x < n && rep < 3; ++x) for (size_t y = x + 1; y < n && rep < 3; ++y) {
    size_t i = ord[x], j = ord[y];
    if (bb[j][0] >= bb[i][1]) break;
    if (bb[j][2] >= bb[i][3] || bb[i][2] >= bb[j][3]) continue;
    auto a = s.pts(s.E[i]), b = s.pts(s.E[j]);
    bool hit = false;
    for (size_t k = 0; k < a.size() && !hit; ++k) for (size_t l = 0; l < b.size() && !hit; ++l)
      if (seg_cross_proper(a[k], a[(k + 1) % a.size()], b[l], b[(l + 1) % b.size()])) hit = true;
    if (!hit) { // containment: centroid tests
      P ca{0, 0}, cb{0, 0}; for (auto& q : a) ca = ca + (1.0 / a.size()) * q; for (auto& q : b) cb = cb + (1.0 / b.size()) * q;
      if (point_in_poly(ca, a) > 0 && point_in_poly(ca, b) > 0) hit = true;
      if (point_in_poly(cb, b) > 0 && point_in_poly(cb, a) > 0) hit = true;
    }
    if (hit) { bad("elements-overlap", fmt("elements %zu and %zu overlap near %s", i, j, pstr(a[0]).c_str())); ok = false; rep++; }
  }
  return ok;
}

// ---- required points and segments are present in the mesh
inline bool points_present(const Snap& s, const std::vector<P>& pts, double tol, const Sink& bad, const char* key) {
  bool ok = true;
  for (auto& p : pts) {
    bool f = false;
    for (auto& v : s.V) if (dist(v, p) <= tol) { f = true; break; }
    if (!f) { bad(key, "no mesh vertex at " + pstr(p)); ok = false; }
  }
  return ok;
}
inline bool segment_is_mesh_path(const Snap& s, P a, P b, double tol, const Sink& bad, const char* key) {
  // element edges lying on ab must cover it
  auto use = edge_use(s);
  double L = dist(a, b);
  std::vector<std::array<double, 2>> iv;
  auto par = [&](P x) { return ((x.x - a.x) * (b.x - a.x) + (x.y - a.y) * (b.y - a.y)) / L; };
  for (auto& u : use) {
    P p = s.V[u.first.first], q = s.V[u.first.second];
    if (dist_pt_seg(p, a, b) > tol || dist_pt_seg(q, a, b) > tol) continue;
    double t0 = par(p), t1 = par(q); if (t0 > t1) std::swap(t0, t1);
    iv.push_back({t0, t1});
  }
  std::sort(iv.begin(), iv.end());
  double t = 0; bool ok = true;
  for (auto& v : iv) { if (v[0] > t + 4 * tol) { ok = false; break; } t = std::max(t, v[1]); }
  if (t < L - 4 * tol) ok = false;
  if (!ok) bad(key, fmt("segment %s-%s is not a path of mesh edges (%zu edges on it)", pstr(a).c_str(), pstr(b).c_str(), iv.size()));
  return ok;
}

} // namespace vh
