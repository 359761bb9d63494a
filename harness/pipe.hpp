// Pipeline workloads: build a mesh, apply operations, watch every step.
#pragma once
#include "bind.hpp"

namespace vh {

struct PipeOpt {
  GenOpt gen;
  double p_layer = 0.0, p_chunk = 0.0, p_exh = 0.0;
  int ops = 0;                       // post-processing operations
  bool op_t2q = true, op_ref = true, op_smooth = true;
  int max_refine_elems = 4000;
};

inline void use(Report& R, const std::string& p, const std::string& key, const std::string& msg) { R.violation(p, key, msg); }
inline Sink to(Report& R, const char* prop, const char* pre = "") {
  std::string P_ = prop, K = pre;
  return [&R, P_, K](const std::string& k, const std::string& m) { R.violation(P_, K + k, m); };
}
static const Sink QUIET = [](const std::string&, const std::string&) {};

inline double tol_of(const Spec& s) { return 1e-9 * std::max(1.0, s.diam()); }

inline bool full_ok(const Snap& s, const Spec& sp) {
  if (!elements_valid(s, QUIET) || !conforming(s, QUIET) || !boundary_cover(s, sp, QUIET, QUIET)) {
    // markers are not a matter of completeness
    return elements_valid(s, QUIET) && conforming(s, QUIET) && boundary_cover(s, sp, [](auto&, auto&) {}, [](auto&, auto&) {});
  }
  return true;
}
inline bool geo_ok(const Snap& s, const Spec& sp) {
  bool geo = true;
  boundary_cover(s, sp, [&](const std::string&, const std::string&) { geo = false; }, QUIET);
  return geo && elements_valid(s, QUIET) && conforming(s, QUIET);
}

// stored measures of elements and edges against their coordinates, location queries against positions (C30)
inline void check_metrics(T::Mesh& m, Report& R) {
  const char* C = "C30"; int rep = 0; long n = 0;
  auto bad = [&](const char* key, const Vec2d& at, double got, double want) { if (rep++ < 3) R.violation(C, key, fmt("at (%.17g,%.17g): %.17g, expected %.17g", at.x, at.y, got, want)); };
  auto p_of = [](const T::Vertex& v) { return P{v.xy().x, v.xy().y}; };
  auto elem = [&](auto& f, int k, auto& list, const char* kind) {
    std::vector<P> q; for (int i = 0; i < k; ++i) q.push_back(p_of(f.vertex(i)));
    double A = 0, lmin = 1e300, lmax = 0, amin = 9, amax = 0, per = 0; P c{0, 0};
    for (int i = 0; i < k; ++i) { P a = q[i], b = q[(i + 1) % k], z = q[(i + k - 1) % k]; A += .5 * ((a.x - q[0].x) * (b.y - q[0].y) - (a.y - q[0].y) * (b.x - q[0].x)); double l = dist(a, b); lmin = std::min(lmin, l); lmax = std::max(lmax, l); per += l; c.x += a.x / k; c.y += a.y / k;
      if (std::fabs(f.edgelength(i) - l) > 1e-9 * l) bad("edge-length", f.xy(), f.edgelength(i), l);
      P u = b - a, w = z - a; double t = std::fabs(std::atan2(u.x * w.y - u.y * w.x, u.x * w.x + u.y * w.y)); amin = std::min(amin, t); amax = std::max(amax, t);
      if (std::fabs(f.angle(i) - t) > 1e-6) bad("angle", f.xy(), f.angle(i), t); }
    double e = 1e-9 * per;
    if (std::fabs(f.area() - A) > e * per) bad("area", f.xy(), f.area(), A);
    if (std::fabs(f.min_edge_length() - lmin) > e) bad("min-edge-length", f.xy(), f.min_edge_length(), lmin);
    if (std::fabs(f.max_edge_length() - lmax) > e) bad("max-edge-length", f.xy(), f.max_edge_length(), lmax);
    if (std::fabs(f.min_angle() - amin) > 1e-6) bad("min-angle", f.xy(), f.min_angle(), amin);
    if (std::fabs(f.max_angle() - amax) > 1e-6) bad("max-angle", f.xy(), f.max_angle(), amax);
    double px = 1e-12 * (std::fabs(c.x) + std::fabs(c.y));
    if (std::hypot(f.xy().x - c.x, f.xy().y - c.y) > e + px) bad("centroid", f.xy(), f.xy().x, c.x);
    if (k == 3 && A > 1e-4 * per * per) { double r[3]; for (int i = 0; i < 3; ++i) r[i] = std::hypot(f.circumcenter().x - q[i].x, f.circumcenter().y - q[i].y); for (double y : r) if (std::fabs(y - f.circumradius()) > 1e-6 * per) bad("circumcircle", f.xy(), y, f.circumradius()); }
    if (f.mesh() != &m) bad("mesh-of-element", f.xy(), 0, 1);
    if (n++ % 7 == 0) { bool found = false; for (auto x : list.get_items(V2(c), .01 * lmin + 10 * px)) found |= x == &f; if (!found) bad(kind, f.xy(), 0, 1); }
  };
  for (auto& q : m.quads()) elem(*q, 4, m.quads(), "quad-not-found");
  for (auto& t : m.triangles()) elem(*t, 3, m.triangles(), "triangle-not-found");
  auto edge = [&](const T::Edge& e) {
    P a = p_of(e.v1()), b = p_of(e.v2()), d = b - a; double l = dist(a, b), px = 1e-12 * (std::fabs(a.x) + std::fabs(a.y) + l); ++n;
    if (std::fabs(e.length() - l) > 1e-9 * l) bad("length-of-edge", e.xy(), e.length(), l);
    if (std::hypot(e.tangent().x - d.x / l, e.tangent().y - d.y / l) > 1e-7) bad("tangent-of-edge", e.xy(), e.tangent().x, d.x / l);
    if (std::hypot(e.normal().x + d.y / l, e.normal().y - d.x / l) > 1e-7) bad("normal-of-edge", e.xy(), e.normal().x, -d.y / l);
    if (std::hypot(e.xy().x - .5 * (a.x + b.x), e.xy().y - .5 * (a.y + b.y)) > 1e-9 * l + px) bad("middle-of-edge", e.xy(), e.xy().x, .5 * (a.x + b.x));
  };
  for (auto& e : m.interior_edges()) edge(*e);
  for (auto& e : m.boundary_edges()) edge(*e);
  for (auto& v : m.vertices()) if (n++ % 5 == 0) { bool found = false; for (auto x : m.vertices().get_items(v->xy(), 1e-6)) found |= x == v.get(); if (!found) bad("vertex-not-found", v->xy(), 0, 1); }
  R.ev(C, n);
}

// the library's connectivity, as documented: facet_l/facet_r of edges, vertex
// -> facets, after the checker refreshed it
inline void check_connectivity(T::Mesh& m, const Snap& s, Report& R, const char* prop) {
  std::unordered_map<const void*, int> vid, fid;
  int i = 0; for (const auto& v : m.vertices()) vid[v.get()] = i++;
  i = 0; for (const auto& q : m.quads()) fid[static_cast<const T::Facet*>(q.get())] = i++;
  for (const auto& t : m.triangles()) fid[static_cast<const T::Facet*>(t.get())] = i++;
  auto use = edge_use(s);
  int rep = 0;
  auto left_right = [&](int a, int b, int& l, int& r) {
    l = r = -1; auto it = use.find(ek(a, b)); if (it == use.end()) return;
    for (int k = 0; k < std::min(2, it->second.n); ++k) ((it->second.fwd[k] == (a < b)) ? l : r) = it->second.e[k];
  };
  auto f_ix = [&](const T::Facet* f) { auto it = fid.find(f); return it == fid.end() ? -1 : it->second; };
  for (const auto& e : m.interior_edges()) {
    int l, r; left_right(vid[&e->v1()], vid[&e->v2()], l, r);
    if ((f_ix(e->facet_l()) != l || f_ix(e->facet_r()) != r) && rep++ < 4)
      R.violation(prop, "intr-edge-facets", fmt("interior edge %s-%s: left/right elements %d/%d, expected %d/%d", pstr(s.V[vid[&e->v1()]]).c_str(), pstr(s.V[vid[&e->v2()]]).c_str(), f_ix(e->facet_l()), f_ix(e->facet_r()), l, r));
  }
  for (const auto& e : m.boundary_edges()) {
    int l, r; left_right(vid[&e->v1()], vid[&e->v2()], l, r);
    if (f_ix(e->facet_l()) != l && rep++ < 4)
      R.violation(prop, "bdry-edge-facet", fmt("boundary edge %s-%s: left element %d, expected %d", pstr(s.V[vid[&e->v1()]]).c_str(), pstr(s.V[vid[&e->v2()]]).c_str(), f_ix(e->facet_l()), l));
  }
  // vertex -> elements
  std::vector<std::multiset<int>> inc(s.V.size());
  for (size_t k = 0; k < s.E.size(); ++k) for (int v : s.E[k].v) if (v >= 0) inc[v].insert(int(k));
  i = 0;
  for (const auto& v : m.vertices()) {
    std::multiset<int> got; for (auto f : v->facets()) got.insert(f_ix(f));
    if (got != inc[i] && rep++ < 4) R.violation(prop, "vertex-elements", fmt("vertex %s lists %zu adjacent elements, has %zu", pstr(s.V[i]).c_str(), got.size(), inc[i].size()));
    ++i;
  }
  // element -> neighbour across each of its edges (the edge between vertices i and i+1 has index i-1)
  auto nbrs = [&](const auto& f, int k) {
    auto& v = s.E[k].v; int n = int(v.size());
    for (int j = 0; j < n; ++j) {
      auto& u = use[ek(v[j], v[(j + 1) % n])]; if (u.n > 2) continue;
      int w = u.n == 2 ? (u.e[0] == k ? u.e[1] : u.e[0]) : -1, got = f_ix(f.neighbor((j + n - 1) % n));
      if (got != w && rep++ < 4) R.violation(prop, "element-neighbour", fmt("element %d (%d vertices): neighbour %d across the edge %s-%s, expected %d", k, n, got, pstr(s.V[v[j]]).c_str(), pstr(s.V[v[(j + 1) % n]]).c_str(), w));
    }
  };
  i = 0; for (const auto& q : m.quads()) nbrs(*q, i++);
  for (const auto& t : m.triangles()) nbrs(*t, i++);
  // boundary flag of vertices
  { std::vector<char> on(s.V.size(), 0); for (auto& e : s.B) { if (e.a >= 0) on[e.a] = 1; if (e.b >= 0) on[e.b] = 1; }
    for (size_t k = 0; k < s.V.size(); ++k) if (bool(s.vbdry[k]) != bool(on[k]) && (on[k] || std::string(prop) == "C03") && rep++ < 4) // vertices of former interfaces keep the flag after a merge
      R.violation(prop, "vertex-boundary-flag", fmt("vertex %s: flagged as boundary vertex %d, end of boundary edges %d", pstr(s.V[k]).c_str(), int(s.vbdry[k]), int(on[k]))); }
  // vertex -> edges
  std::vector<std::multiset<EK>> ed(s.V.size());
  for (auto L : {&s.I, &s.B}) for (auto& e : *L) if (e.a >= 0 && e.b >= 0) { ed[e.a].insert(ek(e.a, e.b)); ed[e.b].insert(ek(e.a, e.b)); }
  i = 0;
  for (const auto& v : m.vertices()) {
    std::multiset<EK> got; for (auto e : v->edges()) got.insert(ek(vid.count(&e->v1()) ? vid[&e->v1()] : -1, vid.count(&e->v2()) ? vid[&e->v2()] : -1));
    if (got != ed[i] && rep++ < 4) R.violation(prop, "vertex-edges", fmt("vertex %s lists %zu adjacent edges, has %zu", pstr(s.V[i]).c_str(), got.size(), ed[i].size()));
    ++i;
  }
  R.ev(prop, long(s.I.size() + s.B.size() + s.V.size() + s.E.size()));
}

// structural monitors on a mesh the library reports complete
inline void monitor_complete(const Snap& s, const Spec& sp, Report& R, const char* pElem = "C01", const char* pBd = "C02", const char* pConn = "C03") {
  elements_valid(s, to(R, pElem)); R.ev(pElem, long(s.E.size()));
  conforming(s, to(R, pElem)); R.ev(pElem, long(s.E.size()));
  boundary_cover(s, sp, to(R, pBd), to(R, pBd)); R.ev(pBd, long(s.B.size()));
  interior_edges_exact(s, to(R, pConn)); R.ev(pConn, long(s.I.size()));
  Q a = s.area(), d = sp.area();
  double rel = std::fabs((double)(a - d)) / std::max(1e-300, (double)d);
  if (!(rel < 1e-7)) R.violation(pElem, "area", fmt("elements cover %.12g, domain %.12g", (double)a, (double)d));
}
// points the mesh must keep: fixed vertices and the vertices seeded along fixed edges
inline std::vector<P> fixed_seeds(const Snap& s0, const Spec& sp, Report& R, const char* prop) {
  std::vector<P> pts; for (auto& f : sp.fv) pts.push_back(f.p);
  double tol = tol_of(sp);
  for (auto& e : sp.fe) {
    P a = sp.fpt(e[0]), b = sp.fpt(e[1]);
    std::vector<std::pair<double, P>> on;
    for (auto& v : s0.V) if (dist_pt_seg(v, a, b) <= tol) on.push_back({dist(a, v), v});
    std::sort(on.begin(), on.end(), [](auto& x, auto& y) { return x.first < y.first; });
    for (auto& x : on) pts.push_back(x.second);
    R.ev(prop);
    if (on.size() < 2 || on[0].first > tol || dist(on.back().second, b) > tol) { R.violation(prop, "fixed-edge-ends", "end point of a fixed edge is missing in the initial mesh"); continue; }
    for (size_t k = 0; k + 1 < on.size(); ++k) {
      double gap = on[k + 1].first - on[k].first, fm = 0;
      for (int q = 0; q <= 10; ++q) fm = std::max(fm, sp.f(on[k].second + (q / 10.0) * (on[k + 1].second - on[k].second)));
      if (gap > 1.5 * fm) R.st("seed.gap>1.5"); else if (gap > 1.2 * fm) R.st("seed.gap>1.2"); else R.st("seed.gap<=1.2");
    }
  }
  return pts;
}
inline void monitor_fixed(const Snap& s, const Spec& sp, const std::vector<P>& pts, Report& R, const char* prop) {
  if (pts.empty()) return;
  points_present(s, pts, tol_of(sp), to(R, prop), "fixed-vertex-missing"); R.ev(prop, long(pts.size()));
}
inline void monitor_colors(const Snap& s, int color, Report& R, const char* prop) {
  for (auto& e : s.E) if (e.color != color) { R.violation(prop, "elem-color", fmt("element colour %d in a mesh of colour %d", e.color, color)); return; }
  R.ev(prop, long(s.E.size()));
}
// a mesh under construction: the boundary is the one of the domain, elements carry the colour of the mesh
inline void monitor_partial(const Snap& s, const Spec& sp, Report& R, const char* prop) {
  boundary_cover(s, sp, to(R, prop, "partial-"), to(R, prop, "partial-"));
  monitor_colors(s, sp.color, R, prop);
  R.ev(prop, long(s.B.size()));
}

// --------------------------------------------------------------- operations
inline std::vector<P> sorted_pts(const Snap& s) { auto v = s.V; std::sort(v.begin(), v.end()); return v; }
typedef std::array<double, 5> BE5;
inline std::vector<BE5> bset(const Snap& s) { std::vector<BE5> r; for (auto& b : s.B) r.push_back({s.V[b.a].x, s.V[b.a].y, s.V[b.b].x, s.V[b.b].y, double(b.color)}); std::sort(r.begin(), r.end()); return r; }

// Tri-to-quad: merges pairs of triangles, keeps vertices, boundary, quads
inline void monitor_t2q(const Snap& a, const Snap& b, const Spec& sp, Report& R, const char* prop) {
  if (bset(a) != bset(b)) R.violation(prop, "t2q-boundary", "boundary edges changed");
  double rel = std::fabs((double)(a.area() - b.area())) / std::max(1e-300, (double)a.area());
  if (!(rel < 1e-12)) R.violation(prop, "t2q-area", fmt("area %.17g -> %.17g", (double)a.area(), (double)b.area()));
  if (elements_valid(a, QUIET)) elements_valid(b, to(R, prop, "t2q-"));
  conforming(b, to(R, prop, "t2q-"));
  interior_edges_exact(b, to(R, prop, "t2q-"));
  auto pa = sorted_pts(a), pb = sorted_pts(b);
  if (!std::includes(pa.begin(), pa.end(), pb.begin(), pb.end())) R.violation(prop, "t2q-vertex", "a vertex appeared or moved");
  if (b.E.size() > a.E.size()) R.violation(prop, "t2q-count", "number of elements grew");
  // no pair of adjacent triangles is left (every pair that can be merged is)
  R.ev(prop, long(b.E.size()));
  R.st("t2q.quads", long(b.nq)); R.st("t2q.tris", long(b.nt)); R.st("t2q.nonconvex", count_nonconvex(b)); R.st("t2q.lostverts", long(a.V.size()) - long(b.V.size()));
}

inline void monitor_refine(const Snap& a, const Snap& b, Report& R, const char* prop) {
  size_t E = a.B.size() + a.I.size();
  if (b.nt != 0 || b.nq != 3 * a.nt + 4 * a.nq) R.violation(prop, "refine-count", fmt("%zu tris %zu quads refined to %zu tris %zu quads", a.nt, a.nq, b.nt, b.nq));
  if (b.V.size() != a.V.size() + E + a.E.size()) R.violation(prop, "refine-vertices", fmt("%zu vertices, expected %zu", b.V.size(), a.V.size() + E + a.E.size()));
  if (b.B.size() != 2 * a.B.size()) R.violation(prop, "refine-bdry-count", fmt("%zu boundary edges refined to %zu", a.B.size(), b.B.size()));
  if (b.I.size() != 2 * a.I.size() + 3 * a.nt + 4 * a.nq) R.violation(prop, "refine-intr-count", fmt("%zu interior edges refined to %zu", a.I.size(), b.I.size()));
  conforming(b, to(R, prop, "refine-"));
  interior_edges_exact(b, to(R, prop, "refine-"));
  if (elements_valid(a, QUIET)) elements_valid(b, to(R, prop, count_nonconvex(a) ? "refine-ncvx-" : "refine-"));
  auto pa = sorted_pts(a), pb = sorted_pts(b);
  if (!std::includes(pb.begin(), pb.end(), pa.begin(), pa.end())) R.violation(prop, "refine-parent-vertex", "a parent vertex moved or vanished");
  double rel = std::fabs((double)(a.area() - b.area())) / std::max(1e-300, (double)a.area());
  if (!(rel < 1e-9)) R.violation(prop, "refine-area", fmt("area %.17g -> %.17g", (double)a.area(), (double)b.area()));
  // boundary: each old edge becomes two halves with its marker
  double tol = 1e-9 * std::max(1.0, a.diam());
  std::map<std::pair<P, P>, int> nb;
  std::multiset<std::array<double, 5>> halves;
  for (auto& e : b.B) halves.insert({a.diam() * 0 + b.V[e.a].x, b.V[e.a].y, b.V[e.b].x, b.V[e.b].y, double(e.color)});
  auto has = [&](P p, P q, int c) { for (auto& h : halves) if (std::fabs(h[0] - p.x) <= tol && std::fabs(h[1] - p.y) <= tol && std::fabs(h[2] - q.x) <= tol && std::fabs(h[3] - q.y) <= tol && int(h[4]) == c) return true; return false; };
  int rep = 0;
  if (a.B.size() <= 400) for (auto& e : a.B) { P p = a.V[e.a], q = a.V[e.b], m = 0.5 * (p + q); if ((!has(p, m, e.color) || !has(m, q, e.color)) && rep++ < 3) R.violation(prop, "refine-bdry-split", fmt("boundary edge %s-%s is not split into halves with its marker", pstr(p).c_str(), pstr(q).c_str())); }
  // colour areas: per colour, the area is conserved
  std::map<int, double> ca, cb;
  for (auto& e : a.E) ca[e.color] += (double)poly_area(a.pts(e));
  for (auto& e : b.E) cb[e.color] += (double)poly_area(b.pts(e));
  for (auto& c : ca) if (std::fabs(c.second - cb[c.first]) > 1e-9 * (double)a.area()) R.violation(prop, "refine-color", fmt("colour %d covers %.12g before, %.12g after", c.first, c.second, cb[c.first]));
  R.ev(prop, long(b.E.size()));
}

inline void monitor_smooth(const Snap& a, const Snap& b, const Spec& sp, bool ql, Report& R, const char* prop, bool valid_before) {
  if (a.V.size() != b.V.size() || a.E.size() != b.E.size() || a.B.size() != b.B.size() || a.I.size() != b.I.size()) { R.violation(prop, "smooth-topology", "entity counts changed"); return; }
  for (size_t i = 0; i < a.E.size(); ++i) if (a.E[i].v != b.E[i].v || a.E[i].color != b.E[i].color) { R.violation(prop, "smooth-topology", "an element changed its vertices or colour"); break; }
  std::vector<char> isb(a.V.size(), 0);
  for (auto& e : a.B) isb[e.a] = isb[e.b] = 1;
  long moved = 0;
  for (size_t i = 0; i < a.V.size(); ++i) {
    bool mv = a.V[i] != b.V[i];
    moved += mv;
    if (!mv) continue;
    if (isb[i]) { R.violation(prop, "smooth-boundary-moved", pstr(a.V[i]) + " -> " + pstr(b.V[i])); break; }
    for (auto& f : sp.fv) if (dist(f.p, a.V[i]) < tol_of(sp)) { R.violation(prop, "smooth-fixed-moved", pstr(a.V[i]) + " -> " + pstr(b.V[i])); break; }
    if (!ql && a.vql[i]) { R.violation(prop, "smooth-layer-moved", pstr(a.V[i]) + " -> " + pstr(b.V[i])); break; }
  }
  if (ql) { // vertices of layers over a straight piece of boundary keep their height
    auto crs = [](P u, P v) { return u.x * v.y - u.y * v.x; }; double sc = 0; for (auto& p : a.V) sc = std::max({sc, std::fabs(p.x), std::fabs(p.y)});
    for (size_t i = 0; i < a.V.size(); ++i) {
      if (!a.vql[i] || isb[i] || a.V[i] == b.V[i]) continue;
      P p = a.V[i]; double r = 1e300;
      for (auto& e : a.B) r = std::min(r, dist(p, .5 * (a.V[e.a] + a.V[e.b])));
      const SEdge* n = nullptr; bool ok = true; // the line all edges near the vertex lie on
      for (auto& e : a.B) if (dist_pt_seg(p, a.V[e.a], a.V[e.b]) <= r * (1 + 1e-6)) {
        P d = a.V[e.b] - a.V[e.a]; double L = std::hypot(d.x, d.y);
        if (dist(p, .5 * (a.V[e.a] + a.V[e.b])) <= r * (1 + 1e-6)) { double t = ((p.x - a.V[e.a].x) * d.x + (p.y - a.V[e.a].y) * d.y) / (L * L); if (t < 1e-6 || t > 1 - 1e-6) ok = false; }
        if (!n) n = &e;
        else { P c = a.V[n->b] - a.V[n->a]; double M = std::hypot(c.x, c.y); for (P q : {a.V[e.a], a.V[e.b]}) if (std::fabs(crs(c, q - a.V[n->a])) / M > 1e-9 * sc) ok = false; }
      }
      if (!n || !ok) continue;
      P c = a.V[n->b] - a.V[n->a]; double M = std::hypot(c.x, c.y), h0 = crs(c, p - a.V[n->a]) / M, h1 = crs(c, b.V[i] - a.V[n->a]) / M;
      R.st("smooth.height"); R.ev(prop);
      if (!(std::fabs(h0 - h1) <= 1e-7 * std::fabs(h0) + 1e-10 * sc)) { R.violation(prop, "smooth-layer-height", fmt("vertex %zu of a layer: distance to the boundary %.9g -> %.9g", i, h0, h1)); break; }
    }
  }
  if (valid_before) {
    elements_valid(b, to(R, prop, "smooth-"));
    conforming(b, to(R, prop, "smooth-"));
  }
  double rel = std::fabs((double)(a.area() - b.area())) / std::max(1e-300, (double)a.area());
  if (!(rel < 1e-9)) R.violation(prop, "smooth-area", fmt("area %.17g -> %.17g", (double)a.area(), (double)b.area()));
  R.ev(prop, long(a.V.size())); R.st("smooth.moved", moved);
}

// resolution of the boundary: an edge of the domain is divided into (about) as many pieces as element sizes fit into it
inline void monitor_division(const Snap& s, const Spec& sp, Report& R, const char* prop) {
  double tol = tol_of(sp);
  for (auto& r : sp.rings) for (size_t i = 0; i < r.pts.size(); ++i) {
    P a = r.pts[i], c = r.pts[(i + 1) % r.pts.size()]; double L = dist(a, c), N = 0, z0 = 1e300, z1 = 0; int n = 0, K = 200;
    for (int k = 0; k < K; ++k) { double z = size_oracle(sp, a + ((k + .5) / K) * (c - a)); N += L / K / z; z0 = std::min(z0, z); z1 = std::max(z1, z); }
    for (auto& e : s.B) if (dist_pt_seg(s.V[e.a], a, c) < tol && dist_pt_seg(s.V[e.b], a, c) < tol) {
      ++n; P u = s.V[e.a], w = s.V[e.b]; double q = dist(u, w) / (.5 * (size_oracle(sp, u) + size_oracle(sp, w)));
      if (q > 2) { R.violation(prop, "boundary-edge-length", fmt("a boundary edge at %s is %.3g times as long as the element size there", pstr(u).c_str(), q)); return; }
      if (z1 < 1.2 * z0 && q < .25 && dist(u, w) < .5 * L) { R.violation(prop, "boundary-edge-short", fmt("a boundary edge at %s is %.3g times as long as the element size there", pstr(u).c_str(), q)); return; }
    }
    R.ev(prop); R.st(n > 1 ? "size.divided" : "size.undivided");
    if (std::fabs(n - N) > (N < 1 ? 1 : .85 + .03 * N)) { R.violation(prop, "boundary-division", fmt("the domain edge %s - %s has room for %.2f element sizes and is divided into %d edges", pstr(a).c_str(), pstr(c).c_str(), N, n)); return; }
  }
}
// resolution of the interior of a complete triangulation
inline void monitor_resolution(const Snap& s, const Spec& sp, Report& R, const char* prop) {
  double mean = 0, need = 0, lo = 1e300, hi = 0; long n = 0;
  for (auto& e : s.I) { P a = s.V[e.a], c = s.V[e.b]; double q = dist(a, c) / size_oracle(sp, .5 * (a + c)); lo = std::min(lo, q); hi = std::max(hi, q); mean += q; ++n; }
  for (auto& e : s.E) { auto q = s.pts(e); P c; for (auto& p : q) c = c + (1. / q.size()) * p; double h = size_oracle(sp, c); need += (double)poly_area(q) / (h * h * std::sqrt(3.) / 4); }
  if (s.E.size() < 60 || !n) return;
  mean /= n; double rel = s.E.size() / need; R.ev(prop, n); R.st("size.meshes");
  if (hi > 9) R.violation(prop, "edge-too-long", fmt("an edge is %.3g times as long as the element size there", hi));
  if (lo < .05) R.violation(prop, "edge-too-short", fmt("an edge is %.3g times as long as the element size there", lo));
  if (mean > 2.3 || mean < .9) R.violation(prop, "mean-edge-length", fmt("the edges are on average %.3g times as long as the element size", mean));
  if (rel > 1.25 || rel < .3) R.violation(prop, "element-count", fmt("%zu elements, %.0f equilateral triangles of the element size fill the domain", s.E.size(), need));
}

struct Layer { P start, end; int n; double h, gr; };

inline bool smooth_op(T::MeshGenerator& G, T::Mesh& m, Rng& g, Report& R, bool& ql, bool& conv) {
  int kind = g.i(0, 2), it = g.p(.06) ? g.i(6, 15) : g.i(1, 5); double eps = g.p(0.4) ? 0.75 : g.p(.6) ? g.u(0.2, 1.0) : g.u(1.0, 3.0), dec = g.p(0.6) ? 1.0 : g.u(0.6, 1.0);
  ql = g.p(0.4);
  R.step(fmt("smooth kind=%d it=%d eps=%.3g decay=%.3g ql=%d", kind, it, eps, dec, int(ql)));
  if (kind == 0) return G.laplace_smoothing(m).epsilon(eps).decay(dec).quad_layer_smoothing(ql).smooth(it);
  if (kind == 1) return G.torsion_smoothing(m).epsilon(eps).decay(dec).quad_layer_smoothing(ql).smooth(it);
  return G.mixed_smoothing(m).epsilon(eps).decay(dec).quad_layer_smoothing(ql).smooth(it);
}

// One pipeline case
inline void run_pipe(Rng& g, const PipeOpt& o, Report& R) {
  Spec sp = gen_well_posed(g, o.gen);
  R.line("DESC\t" + sp.desc);
  R.step("build domain");
  bool tree = g.p(.4); double qs = g.pick(std::vector<double>{1024, 4096, 10000, 65536}); size_t qi = g.pick(std::vector<int>{1, 2, 3, 7, 20, 100, 400}), qd = g.i(12, 30); // parameters of the search trees
  Built b = tree ? build_domain(sp, qs, qi, qd) : build_domain(sp); if (tree) R.st("pipe.tree");
  T::MeshGenerator G;
  R.step("new_mesh");
  T::Mesh& m = G.new_mesh(*b.dom, sp.mesh_id, sp.color);
  Snap s0 = snapshot(m); check_metrics(m, R);
  boundary_cover(s0, sp, to(R, "C02", "init-"), to(R, "C02", "init-")); R.ev("C02", long(s0.B.size()));
  monitor_division(s0, sp, R, "C26");
  std::vector<P> seeds = fixed_seeds(s0, sp, R, "C10");
  bool layered = false;
  if (g.p(o.p_layer)) {
    int nl = g.i(1, 2);
    sp.merge_collinear = false;
    for (int k = 0; k < nl; ++k) {
      const Ring& r = sp.rings[g.i(0, int(sp.rings.size()) - 1)];
      int n = int(r.pts.size());
      int i = g.i(0, n - 1), j = g.p(0.5) ? i : g.i(0, n - 1);
      double el = 1e300; for (int q = 0; q < n; ++q) el = std::min(el, dist(r.pts[q], r.pts[(q + 1) % n]));
      double h = std::min(sp.f.a, el) * g.u(0.1, 0.5); int L = g.i(1, 4); double gr = g.u(1.0, 1.6);
      R.step(fmt("quad layer ring pt %d->%d of %d L=%d h=%.3g gr=%.3g", i, j, n, L, h, gr));
      bool ret = G.quad_layer_generation(m).n_layers(L).first_height(h).growth_rate(gr).starting_position(V2(r.pts[i])).ending_position(V2(r.pts[j])).generate_elements();
      Snap s1 = snapshot(m); check_metrics(m, R);
      R.st(ret ? "layer.true" : "layer.false"); R.st("layer.quads", long(s1.nq));
      monitor_partial(s1, sp, R, "C11");
      layered = true;
    }
  }
  bool ret = false, exh = false, chunked = g.p(o.p_chunk);
  if (chunked) {
    int step = g.i(1, 40);
    long guard = 0; size_t last = size_t(-1), had = snapshot(m).E.size(); int same = 0;
    R.step(fmt("triangulate in chunks of %d", step));
    for (;;) {
      ret = G.triangulation(m).n_elements(step).generate_elements();
      Snap s1 = snapshot(m); check_metrics(m, R);
      R.ev("C04"); if (s1.E.size() > had + size_t(step)) R.violation("C04", "too-many-elements", fmt("a call for %d elements generated %zu", step, s1.E.size() - had));
      had = s1.E.size();
      if (s1.E.size() == last) same++; else same = 0;
      last = s1.E.size();

      T::MeshChecker c(m, *b.dom);
      if (c.check_completeness()) break;
      if (same > 2 || ++guard > 3000) break;
    }
    R.st("chunk.rounds", guard);
    G.triangulation(m).n_elements(0);
    if (layered) R.st("chunk.layered");
  } else {
    R.step("triangulate");
    if (g.p(o.p_exh)) exh = true, ret = G.triangulation(m).generate_elements_exhaustive();
    else ret = G.triangulation(m).generate_elements();
  }
  R.step("check completeness");
  T::MeshChecker chk(m, *b.dom);
  bool comp = chk.check_completeness();
  Snap s = snapshot(m); check_metrics(m, R);
  bool truth = geo_ok(s, sp);
  R.ev("C04");
  if (comp != truth) R.violation("C04", comp ? "false-complete" : "false-incomplete", fmt("reported complete=%d, independent check %d", comp, truth));
  R.st(comp ? "mesh.complete" : "mesh.incomplete"); R.st("mesh.elements", long(s.E.size())); R.st("mesh.vertices", long(s.V.size()));
  R.st(ret ? "tri.true" : "tri.false");
  if (!layered && !(exh && sp.fv.size() + sp.fe.size())) { // the exhaustive search alone places no vertices and can not reach fixed ones
    R.ev("C25"); R.st(exh ? "whole.exhaustive" : "whole.mesh");
    if (!ret || !comp) R.violation("C25", "well-posed-incomplete", fmt("triangulation returned %d, mesh complete: %d (%zu elements)", ret, comp, s.E.size()));
    else if (!exh && !chunked) monitor_resolution(s, sp, R, "C26");
  }
  if (ret != comp && !layered) R.st(fmt("ret%d-comp%d", ret, comp));
  R.h(s.hash());
  if (!comp) {   // later operations on a mesh whose generation failed
    bool refi = false;   // triangulation is not meant to continue a refined mesh
    for (int k = 0; k < o.ops; ++k) {
      int c = g.i(0, 4); Snap a = snapshot(m); check_metrics(m, R); R.st("op.on-incomplete");
      if (c == 0) { R.step("refine incomplete mesh"); bool rr = G.quad_refinement(m).refine(); refi |= rr; R.ev("C06"); Snap z = snapshot(m); check_metrics(m, R);
        if (!rr && a.hash() != z.hash()) R.violation("C06", "refuse-changed", "a refused refinement changed the mesh");
        if (rr && (z.nt || z.nq != 3 * a.nt + 4 * a.nq)) R.violation("C06", "refine-count", fmt("%zu triangles, %zu quads give %zu triangles, %zu quads", a.nt, a.nq, z.nt, z.nq)); }
      else if (c == 1) { R.step("tri2quad on incomplete mesh"); G.tri2quad_modification(m).modify(); }
      else if (c <= 3) { bool ql, cv; smooth_op(G, m, g, R, ql, cv); }
      else if (!refi) { R.step("triangulate again"); G.triangulation(m).generate_elements(); }
      R.step("after " + R.tag); Snap z = snapshot(m); check_metrics(m, R);
      boundary_cover(z, sp, to(R, "C02", "incomplete-"), to(R, "C02", "incomplete-")); R.ev("C02", long(z.B.size()));
      R.ev("C04"); if (T::MeshChecker(m, *b.dom).check_completeness() && !geo_ok(z, sp)) R.violation("C04", "post-false-complete", "after " + R.tag + ": an incomplete mesh is reported complete");
    }
    return;
  }
  monitor_complete(s, sp, R);
  check_connectivity(m, s, R, "C03");
  monitor_fixed(s, sp, seeds, R, "C10");
  monitor_colors(s, sp.color, R, "C01");
  bool refined = false;
  for (int k = 0; k < o.ops; ++k) {
    int c = g.i(0, 5);
    Snap a = snapshot(m); check_metrics(m, R);
    if (c == 0 && o.op_t2q) {
      R.step("tri2quad");
      G.tri2quad_modification(m).modify();
      Snap z = snapshot(m); check_metrics(m, R);
      monitor_t2q(a, z, sp, R, "C05");
      R.st("op.t2q");
    } else if (c <= 2 && o.op_ref && int(a.E.size()) * 4 < o.max_refine_elems) {
      R.step("refine");
      bool rr = G.quad_refinement(m).refine();
      Snap z = snapshot(m); check_metrics(m, R);
      R.ev("C06");
      if (!rr) R.violation("C06", "refine-refused", "refinement of a stand-alone mesh refused");
      monitor_refine(a, z, R, "C06");
      refined = true; R.st("op.refine");
    } else if (o.op_smooth) {
      bool ql, cv; smooth_op(G, m, g, R, ql, cv);
      Snap z = snapshot(m); check_metrics(m, R);
      monitor_smooth(a, z, sp, ql, R, "C07", elements_valid(a, QUIET));
      R.st("op.smooth");
    }
    R.step("after " + R.tag);
    Snap z = snapshot(m); check_metrics(m, R);
    boundary_cover(z, sp, to(R, "C02", "post-"), to(R, "C02", "post-")); R.ev("C02", long(z.B.size()));
    T::MeshChecker c2(m, *b.dom);
    bool cp = c2.check_completeness();
    bool tr = geo_ok(z, sp);
    R.ev("C04"); if (cp != tr) R.violation("C04", cp ? "post-false-complete" : "post-false-incomplete", fmt("after %s: reported %d, independent %d", R.tag.c_str(), cp, tr));
    check_connectivity(m, z, R, "C03");
    monitor_fixed(z, sp, seeds, R, "C10");
    monitor_colors(z, sp.color, R, "C01");
    R.h(z.hash());
  }
  (void)refined;
}

} // namespace vh
