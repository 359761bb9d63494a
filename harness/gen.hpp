// Workload generators: domain specifications.
#pragma once
#include "oracle.hpp"

namespace vh {

inline Ring make_ring(std::vector<P> p, bool ext) {
  Ring r; r.exterior = ext;
  bool ccw = poly_area(p) > 0;
  if (ccw != ext) std::reverse(p.begin(), p.end());
  r.pts = p;
  r.colors.assign(p.size(), ext ? 1 : 2);
  r.props.assign(p.size(), {0.0, 0.0});
  return r;
}

inline std::vector<P> star_poly(Rng& g, P c, double rmin, double rmax, int n) {
  std::vector<P> p; double a0 = g.u(0, 2 * M_PI);
  std::vector<double> w; double sum = 0;
  for (int i = 0; i < n; ++i) { w.push_back(g.u(0.5, 1.5)); sum += w.back(); }
  double a = a0;
  for (int i = 0; i < n; ++i) { double r = g.u(rmin, rmax); p.push_back({c.x + r * cos(a), c.y + r * sin(a)}); a += 2 * M_PI * w[i] / sum; }
  return p;
}
// histogram polygon: axis-aligned, many collinear relations
inline std::vector<P> comb_poly(Rng& g, P o, double w, double hmin, double hmax, int n) {
  std::vector<P> p; p.push_back(o); p.push_back({o.x + n * w, o.y});
  double last = -1;
  for (int i = n - 1; i >= 0; --i) {
    double hgt = hmin + (hmax - hmin) * g.i(0, 3) / 3.0;
    if (hgt != last) { // step
      p.push_back({o.x + (i + 1) * w, o.y + hgt});
      p.push_back({o.x + i * w, o.y + hgt});
    } else p.back() = {o.x + i * w, o.y + hgt};
    last = hgt;
  }
  return p;
}

struct GenOpt {
  int target = 300;             // rough element count
  bool allow_holes = true, allow_fixed = true, allow_fixed_edges = false, allow_local = true, allow_shape = true;
  bool convexish = false;
  bool file_builds = true;
};

inline double min_feature(const std::vector<P>& p) {
  double d = 1e300; size_t n = p.size();
  for (size_t i = 0; i < n; ++i) {
    d = std::min(d, dist(p[i], p[(i + 1) % n]));
    for (size_t j = i + 2; j < n; ++j) { if ((j + 1) % n == i) continue; d = std::min(d, seg_seg_dist(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])); }
  }
  return d;
}

inline Spec gen_spec(Rng& g, const GenOpt& o) {
  Spec s;
  double S = g.pick(std::vector<double>{0.6, 1, 1, 2, 5, 10, 40});
  s.scale = S;
  P c{g.p(0.3) ? 0 : g.u(-20, 20), g.p(0.3) ? 0 : g.u(-20, 20)};
  if (g.p(0.3)) { c.x = std::round(c.x); c.y = std::round(c.y); }
  int fam = g.i(0, o.convexish ? 3 : 6);
  std::vector<P> ext;
  std::string d;
  Ring R;
  bool shaped = false;
  if (fam == 0) {
    double w = S * g.u(0.6, 2), h = S * g.u(0.6, 2);
    if (g.p(0.4)) h = w;
    ext = {{c.x - 0.5 * w, c.y - 0.5 * h}, {c.x + 0.5 * w, c.y - 0.5 * h}, {c.x + 0.5 * w, c.y + 0.5 * h}, {c.x - 0.5 * w, c.y + 0.5 * h}};
    R = make_ring(ext, true); d = "rect";
    if (o.allow_shape && g.p(0.5)) { R.build = h == w ? 7 : 5; R.sp[0] = w; R.sp[1] = h; shaped = true; }
  } else if (fam == 1) {
    int n = g.i(3, 40); double r = S * g.u(0.5, 1.2);
    for (int i = 0; i < n; ++i) { double a = i * (2.0 * M_PI / n); ext.push_back({c.x + r * cos(a), c.y + r * sin(a)}); }
    R = make_ring(ext, true); d = "circle"; 
    if (o.allow_shape && g.p(0.6)) { R.build = 6; R.sp[0] = r; R.sp[1] = n; shaped = true; }
  } else if (fam == 2) {
    double a = S * g.u(1, 2), r = a / std::sqrt(3.0);
    for (int i = 0; i < 3; ++i) { double t = i * (2.0 * M_PI / 3); ext.push_back({c.x + r * cos(t), c.y + r * sin(t)}); }
    R = make_ring(ext, true); d = "triangle";
    if (o.allow_shape && g.p(0.6)) { R.build = 8; R.sp[0] = a; shaped = true; }
  } else if (fam == 3) {
    ext = star_poly(g, c, 0.8 * S, 1.0 * S, g.i(4, 9)); R = make_ring(ext, true); d = "near-convex";
  } else if (fam == 4) {
    ext = star_poly(g, c, 0.35 * S, 1.2 * S, g.i(5, 14)); R = make_ring(ext, true); d = "star";
  } else if (fam == 5) {
    int n = g.i(2, 5); ext = comb_poly(g, {c.x - S, c.y - 0.5 * S}, 2 * S / n, 0.4 * S, 1.5 * S, n); R = make_ring(ext, true); d = "comb";
  } else {
    // polygon with collinear extra points on its edges
    auto b = star_poly(g, c, 0.7 * S, 1.0 * S, g.i(3, 6));
    for (size_t i = 0; i < b.size(); ++i) { ext.push_back(b[i]); if (g.p(0.6)) { P q = b[(i + 1) % b.size()]; double t = g.p(0.5) ? 0.5 : g.u(0.25, 0.75); ext.push_back(b[i] + t * (q - b[i])); } }
    R = make_ring(ext, true); d = "subdivided";
  }
  // colours
  int cm = g.i(0, 2);
  for (size_t i = 0; i < R.colors.size(); ++i) R.colors[i] = shaped ? 3 : cm == 0 ? 1 : cm == 1 ? int(i) + 1 : g.i(0, 4);
  if (!shaped) { R.build = g.i(0, o.file_builds ? 4 : 2); R.rot = g.i(0, int(R.pts.size()) - 1); }
  s.rings.push_back(R);
  double A = std::fabs((double)poly_area(R.pts));
  // mesh size: triangle area ~ 0.433 h^2
  double h = std::sqrt(A / (0.433 * std::max(4.0, o.target * g.u(0.15, 1.3))));
  // holes
  int nh = o.allow_holes && g.p(0.45) ? g.i(1, 3) : 0;
  for (int k = 0; k < nh; ++k) {
    for (int att = 0; att < 40; ++att) {
      P hc{c.x + S * g.u(-0.9, 0.9), c.y + S * g.u(-0.9, 0.9)};
      double r = S * g.u(0.06, 0.25);
      if (s.inside(hc) <= 0 || s.dist_bdry(hc) < r * 1.15 + 0.04 * S) continue;
      Ring H; int t = g.i(0, 4); bool sh = false;
      if (t == 0) { int n = g.i(3, 20); std::vector<P> p; for (int i = 0; i < n; ++i) { double a = i * (2.0 * M_PI / n); p.push_back({hc.x + r * cos(a), hc.y + r * sin(a)}); } H = make_ring(p, false); if (o.allow_shape && g.p(0.5)) { sh = true; H.build = 6; H.sp[0] = r; H.sp[1] = n; } }
      else if (t == 1) { double w = r * 1.3, hh = g.p(.4) ? w : r * g.u(0.5, 1.3); H = make_ring({{hc.x - .5 * w, hc.y - .5 * hh}, {hc.x + .5 * w, hc.y - .5 * hh}, {hc.x + .5 * w, hc.y + .5 * hh}, {hc.x - .5 * w, hc.y + .5 * hh}}, false); if (o.allow_shape && g.p(0.6)) { sh = true; H.build = hh == w ? 7 : 5; H.sp[0] = w; H.sp[1] = hh; } }
      else if (t == 4) { std::vector<P> p; for (int i = 0; i < 3; ++i) { double a = i * (2.0 * M_PI / 3); p.push_back({hc.x + r * cos(a), hc.y + r * sin(a)}); } H = make_ring(p, false); if (o.allow_shape && g.p(0.7)) { sh = true; H.build = 8; H.sp[0] = r * std::sqrt(3.0); } }
      else if (t == 2) { H = make_ring(star_poly(g, hc, 0.6 * r, r, g.i(3, 8)), false); }
      else { double a = g.u(0, M_PI); P dd{r * cos(a), r * sin(a)}, nn{-0.15 * dd.y, 0.15 * dd.x}; H = make_ring({hc - dd - nn, hc + dd - nn, hc + dd + nn, hc - dd + nn}, false); }
      for (size_t i = 0; i < H.colors.size(); ++i) H.colors[i] = sh ? 7 : cm == 0 ? 2 : 10 * (k + 1) + (cm == 1 ? int(i) : g.i(0, 2));
      if (!sh) { H.build = g.i(0, o.file_builds ? 4 : 2); H.rot = g.i(0, int(H.pts.size()) - 1); }
      // shapes: remember centre
      H.sp[2] = hc.x; H.sp[3] = hc.y;
      s.rings.push_back(H);
      d += fmt("+hole%d/%zu", t, H.pts.size());
      break;
    }
  }
  s.rings[0].sp[2] = c.x; s.rings[0].sp[3] = c.y;
  // size function
  s.f.kind = g.i(0, 3); s.f.o = c;
  s.f.a = h;
  if (s.f.kind == 1) { s.f.b = g.u(-0.25, 0.25) * h / S * 1.5; s.f.c = g.u(-0.25, 0.25) * h / S * 1.5; }
  if (s.f.kind == 2) { s.f.b = g.u(0.2, 0.7) * h; s.f.d = g.u(0.3, 0.8) * S; s.f.o = {c.x + S * g.u(-.5, .5), c.y + S * g.u(-.5, .5)}; }
  if (s.f.kind == 3) { s.f.b = g.u(0.1, 0.4); s.f.c = g.u(1, 3) / S; }
  // local sizes at boundary vertices
  if (o.allow_local && g.p(0.35)) {
    for (auto& r : s.rings) {
      if (r.build >= 5) { if (g.p(0.6)) { double a = g.u(0.4, 1.0) * h, b = g.u(0.5, 2) * h; for (auto& q : r.props) q = {a, b}; } continue; }
      for (auto& q : r.props) if (g.p(0.15)) q = {g.u(0.35, 1.0) * h, g.u(0.5, 2.0) * h};
    }
    d += "+local";
  }
  // fixed vertices
  if (o.allow_fixed && g.p(0.4)) {
    int n = g.i(1, 4);
    for (int k = 0; k < n; ++k) for (int att = 0; att < 30; ++att) {
      P p{c.x + S * g.u(-1, 1), c.y + S * g.u(-1, 1)};
      if (s.inside(p) <= 0 || s.dist_bdry(p) < 0.8 * h) continue;
      bool ok = true; for (auto& q : s.fv) if (dist(q.p, p) < 1.2 * h) ok = false;
      if (!ok) continue;
      s.fv.push_back({p, g.p(0.5) ? g.u(0.3, 0.9) * h : 0.0, g.p(0.7) ? g.u(0.5, 2.0) * h : 0.0});
      break;
    }
    d += fmt("+fv%zu", s.fv.size());
  }
  if (o.allow_fixed_edges && s.fv.size() >= 2) {
    int m = g.i(1, 3);
    for (int k = 0; k < m; ++k) for (int att = 0; att < 20; ++att) {
      int i = g.i(0, int(s.fv.size()) - 1), j = g.i(0, int(s.fv.size()) - 1);
      if (i == j) continue;
      P a = s.fv[i].p, b = s.fv[j].p;
      bool ok = true;
      for (auto& e : s.fe) {
        P u = s.fpt(e[0]), v = s.fpt(e[1]);
        if ((e[0] == i && e[1] == j) || (e[0] == j && e[1] == i)) ok = false;
        int sh = (e[0] == i) + (e[0] == j) + (e[1] == i) + (e[1] == j);
        if (sh == 0 && seg_seg_dist(a, b, u, v) < 0.6 * h) ok = false;
        if (sh == 1) { // angle between them
          P w = (e[0] == i || e[0] == j) ? u : v, x = (w == u) ? v : u, y = (w == a) ? b : a;
          double c1 = ((x.x - w.x) * (y.x - w.x) + (x.y - w.y) * (y.y - w.y)) / (dist(x, w) * dist(y, w));
          if (c1 > 0.5) ok = false;
        }
      }
      for (size_t q = 0; q < s.fv.size(); ++q) if (int(q) != i && int(q) != j && dist_pt_seg(s.fv[q].p, a, b) < 0.6 * h) ok = false;
      for (auto& r : s.rings) for (size_t q = 0; q < r.pts.size(); ++q) if (seg_seg_dist(a, b, r.pts[q], r.pts[(q + 1) % r.pts.size()]) < 0.6 * h) ok = false;
      if (!ok) continue;
      s.fe.push_back({i, j}); break;
    }
    d += fmt("+fe%zu", s.fe.size());
  }
  s.color = g.i(0, 5);
  s.mesh_id = g.i(0, 3);
  s.desc = d + fmt(" S=%g h=%.3g f%d b%d", S, h, s.f.kind, s.rings[0].build);
  return s;
}

// a spec is well posed if rings are simple, disjoint and nested as intended,
// with a minimum separation relative to its size
inline bool well_posed(const Spec& s, double rel = 0.01) {
  double m = rel * s.diam();
  for (size_t i = 0; i < s.rings.size(); ++i) {
    auto& p = s.rings[i].pts;
    if (!simple_poly(p)) return false;
    if (min_feature(p) < m) return false;
    size_t n = p.size();
    for (size_t k = 0; k < n; ++k) { // no spikes
      P a = p[(k + n - 1) % n], b = p[k], c = p[(k + 1) % n];
      double cs = ((a.x - b.x) * (c.x - b.x) + (a.y - b.y) * (c.y - b.y)) / (dist(a, b) * dist(c, b));
      if (cs > 0.92) return false;
    }
    for (size_t j = i + 1; j < s.rings.size(); ++j) {
      auto& q = s.rings[j].pts;
      for (size_t k = 0; k < n; ++k) for (size_t l = 0; l < q.size(); ++l)
        if (seg_seg_dist(p[k], p[(k + 1) % n], q[l], q[(l + 1) % q.size()]) < m) return false;
      if (i == 0 && point_in_poly(q[0], p) <= 0) return false;
      if (i > 0 && (point_in_poly(q[0], p) >= 0 || point_in_poly(p[0], q) >= 0)) return false;
    }
  }
  return true;
}

inline Spec gen_well_posed(Rng& g, const GenOpt& o) {
  for (int i = 0; i < 200; ++i) { Spec s = gen_spec(g, o); if (well_posed(s)) return s; }
  GenOpt q = o; q.allow_holes = false; q.convexish = true;
  for (;;) { Spec s = gen_spec(g, q); if (well_posed(s, 1e-4)) return s; }
}

} // namespace vh
