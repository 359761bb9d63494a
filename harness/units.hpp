// Workloads for the parts below the mesh generator: spatial container,
// geometric predicates, size function, boundary shapes, invalid input,
// repeatability.
#pragma once
#include "pipe.hpp"
#include "io.hpp"
#include <list>

namespace vh {

// ------------------------------------------------------------- container (C14)
struct Item : public CppUtils::ContainerEntry<Item> {
  static long alive;
  int id; bool told = false;
  Item(double x, double y, int i) : ContainerEntry(x, y), id(i) { ++alive; }
  Item(const Item&) = delete;
  ~Item() { --alive; }
  void container_destructor() override { told = true; }
};
inline long Item::alive = 0;
inline bool odd_rect(Item* i, const Vec2d& a, const Vec2d& b) { return (i->id & 1) && CppUtils::in_on_rect(i->xy(), a, b); }
inline bool odd_circ(Item* i, const Vec2d& c, const double r2) { return (i->id & 1) && (i->xy() - c).norm_sqr() < r2; }

inline void run_cont(Rng& g, Report& R) {
  const char* C = "C14";
  double S = g.pick(std::vector<double>{10000, 16, 1, 100, 37, 2});
  size_t items = g.pick(std::vector<size_t>{1, 2, 3, 5, 10, 40, 100}); size_t depth = g.pick(std::vector<size_t>{1, 3, 6, 12, 25});
  int style = g.i(0, 4); int n = g.i(20, 400);
  double TS = g.p(.12) ? DBL_MAX : g.p(.1) ? S * 1024 : S;   // extent of the tree
  R.line(fmt("DESC\tcontainer tree=%g scale=%g max_items=%zu max_depth=%zu style=%d ops=%d", TS, S, items, depth, style, n));
  { CppUtils::Container<Item> K{TS, items, depth};
  struct M { int id; double x, y; Item* p; };
  std::list<M> model; std::vector<Item*> dead; int next = 0;
  P cl{S * g.u(-.4, .4), S * g.u(-.4, .4)};
  auto coord = [&]() -> P {
    double L = 0.5 * S;
    switch (style) {
      case 0: return {g.u(-L, L), g.u(-L, L)};
      case 1: { int k = 1 << g.i(0, 6); return {-L + S * g.i(0, k) / k, -L + S * g.i(0, k) / k}; } // borders of cells
      case 2: return {cl.x + S * 0.001 * g.u(-1, 1), cl.y + S * 0.001 * g.u(-1, 1)};
      case 3: if (!model.empty() && g.p(.5)) { auto it = model.begin(); std::advance(it, g.i(0, int(model.size()) - 1)); return {it->x, it->y}; } return {g.u(-L, L), g.u(-L, L)};
    }
    if (g.p(.5)) { int k = 1 << g.i(0, 9); return {-L + S * g.i(0, k) / k, g.u(-L, L)}; }
    return {g.u(-L, L), g.u(-L, L)};
  };
  auto pickm = [&]() { auto it = model.begin(); std::advance(it, g.i(0, int(model.size()) - 1)); return it; };
  auto ids = [](const std::vector<Item*>& v) { std::multiset<int> s; for (auto i : v) s.insert(i->id); return s; };
  size_t maxn = 0; long q = 0;
  for (int k = 0; k < n && R.viol.size() < 3; ++k) {
    int op = g.i(0, 11);
    if (op <= 3 || model.empty()) {
      P p = coord(); int id = next++;
      if (model.empty() || g.p(.7)) { Item& it = K.push_back(p.x, p.y, id); model.push_back({id, p.x, p.y, &it}); }
      else { auto m = pickm(); Item& it = K.insert(m->p->pos(), p.x, p.y, id); model.insert(m, {id, p.x, p.y, &it}); }
    } else if (op == 4 || op == 5) {
      auto m = pickm(); Item* p = m->p; bool ok = K.remove(*p); R.ev(C);
      if (!ok) R.violation(C, "remove-failed", fmt("removing item %d failed", m->id));
      if (!p->told) R.violation(C, "remove-callback", "the item was not told about its removal");
      if (p->in_container()) R.violation(C, "remove-flag", "a removed item claims to be in the container");
      dead.push_back(p); model.erase(m);
    } else if (op <= 7) {
      auto m = pickm(); P p = g.p(.5) ? coord() : P{m->x + S * 0.003 * g.u(-1, 1), m->y + S * 0.003 * g.u(-1, 1)};
      p.x = std::max(-.5 * S, std::min(.5 * S, p.x)); p.y = std::max(-.5 * S, std::min(.5 * S, p.y));
      bool ok = K.update(*m->p, V2(p)); R.ev(C);
      if (!ok) R.violation(C, "update-failed", fmt("moving item %d failed", m->id));
      m->x = p.x; m->y = p.y;
    } else if (op == 8) {
      if (g.p(.2)) { K.clear_waste(); dead.clear(); }
      else if (g.p(.1)) { K.sort([](const std::unique_ptr<Item>& a, const std::unique_ptr<Item>& b) { return a->id < b->id; }); model.sort([](const M& a, const M& b) { return a.id < b.id; }); }
    }
    maxn = std::max(maxn, model.size());
    // queries
    if (g.p(.6)) {
      P a = coord(), b = coord(); if (g.p(.3)) { a.x -= S; b.y += S; }
      Vec2d lo{std::min(a.x, b.x), std::min(a.y, b.y)}, hi{std::max(a.x, b.x), std::max(a.y, b.y)};
      std::multiset<int> w, wo; for (auto& m : model) if (m.x >= lo.x && m.x <= hi.x && m.y >= lo.y && m.y <= hi.y) { w.insert(m.id); if (m.id & 1) wo.insert(m.id); }
      auto got = ids(K.get_items(lo, hi)); R.ev(C); ++q;
      if (got != w) R.violation(C, "rect-query", fmt("rectangle query found %zu of %zu items (container of %zu)", got.size(), w.size(), model.size()));
      if (g.p(.2)) { std::vector<Item*> f; K.quad_tree().get_items(lo, hi, f, &odd_rect); R.ev(C); if (ids(f) != wo) R.violation(C, "rect-query-fun", fmt("rectangle query with a custom predicate found %zu of %zu items", f.size(), wo.size())); }
      R.h(w.size());
    }
    if (g.p(.6)) {
      P c = coord(); double r = S * std::pow(10, g.u(-4, 0.3)); if (!model.empty() && g.p(.3)) { auto m = pickm(); c = {m->x, m->y}; if (g.p(.3)) r = 1e-9; }
      std::multiset<int> w, wo; bool tie = false;
      for (auto& m : model) { double d = (Vec2d{m.x, m.y} - V2(c)).norm_sqr(); if (std::fabs(d - r * r) <= 1e-12 * r * r) tie = true; if (d < r * r) { w.insert(m.id); if (m.id & 1) wo.insert(m.id); } }
      if (!tie) { auto got = ids(K.get_items(V2(c), r)); R.ev(C); ++q; if (got != w) R.violation(C, "circle-query", fmt("circle query found %zu of %zu items (container of %zu)", got.size(), w.size(), model.size())); R.h(w.size() + 1000);
        if (g.p(.2)) { std::vector<Item*> f; K.quad_tree().get_items(V2(c), r, f, &odd_circ); R.ev(C); if (ids(f) != wo) R.violation(C, "circle-query-fun", "circle query with a custom predicate is wrong"); } }
    }
    if (g.p(.5)) {
      P c = coord(); if (g.p(.2)) { c.x *= g.u(1, 3); c.y *= g.u(1, 3); }
      Item* it = K.get_nearest(V2(c)); R.ev(C); ++q;
      double best = 1e300; for (auto& m : model) best = std::min(best, (Vec2d{m.x, m.y} - V2(c)).norm_sqr());
      if ((it == nullptr) != model.empty()) R.violation(C, "nearest-null", fmt("nearest item of a container of %zu items is %s", model.size(), it ? "set" : "null"));
      else if (it && std::fabs((it->xy() - V2(c)).norm_sqr() - best) > 1e-12 * (best + 1e-300)) R.violation(C, "nearest-wrong", fmt("nearest item is at distance^2 %.17g, the smallest is %.17g", (it->xy() - V2(c)).norm_sqr(), best));
      if (it && !it->in_container()) R.violation(C, "nearest-dead", "a removed item was found");
    }
    if (g.p(.3)) {
      R.ev(C);
      if (K.size() != model.size() || K.quad_tree().size() != model.size()) R.violation(C, "size", fmt("size %zu, tree %zu, expected %zu", K.size(), K.quad_tree().size(), model.size()));
      auto mi = model.begin(); bool same = true; size_t i = 0;
      for (auto& it : K) { if (mi == model.end() || it.get() != mi->p || it->id != mi->id || it->x() != mi->x || it->y() != mi->y) { same = false; break; } ++mi; ++i; }
      if (!same || mi != model.end()) R.violation(C, "order", fmt("iteration differs from the insertion history at position %zu", i));
      if (!model.empty()) { size_t j = g.i(0, int(model.size()) - 1); auto m = model.begin(); std::advance(m, j); if (&K[j] != m->p || &K.back() != model.back().p || &K.front() != model.front().p) R.violation(C, "access", "element access is wrong"); }
      if (Item::alive != long(model.size() + dead.size())) R.violation(C, "lifetime", fmt("%ld items alive, expected %zu", Item::alive, model.size() + dead.size()));
      for (auto& m : model) if (!m.p->in_container()) { R.violation(C, "flag", "an item of the container claims to be removed"); break; }
    }
  }
  R.st("cont.max-items", long(maxn)); R.st("cont.queries", q); R.st("cont.leafs", K.quad_tree().n_leafs()); R.h(K.quad_tree().n_leafs());
  }
  R.ev(C); if (Item::alive != 0) R.violation(C, "lifetime-end", fmt("%ld items leaked", Item::alive));
}

// --------------------------------------------------------- predicates (C24)
inline void run_pred(Rng& g, Report& R) {
  const char* C = "C24"; using namespace CppUtils;
  double U = g.pick(std::vector<double>{1, 0.5, 0.125, 4, 10}); int N = g.pick(std::vector<int>{2, 3, 5, 9});
  double ox = U * g.i(-3, 3), oy = U * g.i(-3, 3);
  R.line(fmt("DESC\tpredicates lattice %d unit %g", N, U));
  auto rp = [&]() { return P{ox + U * g.i(0, N), oy + U * g.i(0, N)}; };
  auto strict = [](P a, P b, P c) { return on_seg(a, b, c) && c != a && c != b && a != b; };
  auto inter = [&](P a, P b, P c, P d) { return seg_cross_proper(a, b, c, d) || strict(a, b, c) || strict(a, b, d) || strict(c, d, a) || strict(c, d, b); };
  auto bad = [&](const char* k, std::initializer_list<P> ps) { std::string m; for (auto& p : ps) m += pstr(p) + " "; R.violation(C, k, m); };
  for (int t = 0; t < 300 && R.viol.size() < 4; ++t) {
    P a = rp(), b = rp(), c = rp(), d = rp(), e = rp(), f = rp(), h = rp();
    int o = orient(a, b, c);
    auto O = orientation(V2(a), V2(b), V2(c)); R.ev(C);
    if ((o > 0) != (O == Orientation::CCW) || (o < 0) != (O == Orientation::CW) || (o == 0) != (O == Orientation::CL)) bad("orientation", {a, b, c});
    if (is_left(V2(a), V2(b), V2(c)) != (o > 0)) bad("is_left", {a, b, c});
    if (is_lefton(V2(a), V2(b), V2(c)) != (o >= 0)) bad("is_lefton", {a, b, c});
    if (in_segment(V2(a), V2(b), V2(c)) != strict(a, b, c)) bad("in_segment", {a, b, c});
    if (a != b && in_on_segment(V2(a), V2(b), V2(c)) != on_seg(a, b, c)) bad("in_on_segment", {a, b, c});
    if (line_line_crossing(V2(a), V2(b), V2(c), V2(d)) != seg_cross_proper(a, b, c, d)) bad("line_line_crossing", {a, b, c, d});
    if (line_line_intersection(V2(a), V2(b), V2(c), V2(d)) != inter(a, b, c, d)) bad("line_line_intersection", {a, b, c, d});
    R.ev(C, 6); R.h(uint64_t(o + 1) * 3 + inter(a, b, c, d));
    { bool w = inter(a, b, c, d) || inter(a, b, d, e) || inter(a, b, e, c); if (line_tri_intersection(V2(a), V2(b), V2(c), V2(d), V2(e)) != w) bad("line_tri_intersection", {a, b, c, d, e});
      bool x = seg_cross_proper(a, b, c, d) || seg_cross_proper(a, b, d, e) || seg_cross_proper(a, b, e, c); if (line_tri_crossing(V2(a), V2(b), V2(c), V2(d), V2(e)) != x) bad("line_tri_crossing", {a, b, c, d, e}); R.ev(C, 2); }
    { bool w = inter(a, b, c, d) || inter(a, b, d, e) || inter(a, b, e, f) || inter(a, b, f, c); if (line_quad_intersection(V2(a), V2(b), V2(c), V2(d), V2(e), V2(f)) != w) bad("line_quad_intersection", {a, b, c, d, e, f}); R.ev(C); }
    auto multi = [&](std::vector<P> u, std::vector<P> v) { for (size_t i = 0; i < u.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if (inter(u[i], u[(i + 1) % u.size()], v[j], v[(j + 1) % v.size()])) return true; return false; };
    P i1 = rp();
    if (tri_tri_intersection(V2(a), V2(b), V2(c), V2(d), V2(e), V2(f)) != multi({a, b, c}, {d, e, f})) bad("tri_tri_intersection", {a, b, c, d, e, f});
    if (tri_quad_intersection(V2(a), V2(b), V2(c), V2(d), V2(e), V2(f), V2(h)) != multi({a, b, c}, {d, e, f, h})) bad("tri_quad_intersection", {a, b, c, d, e, f, h});
    if (quad_quad_intersection(V2(a), V2(b), V2(c), V2(i1), V2(d), V2(e), V2(f), V2(h)) != multi({a, b, c, i1}, {d, e, f, h})) bad("quad_quad_intersection", {a, b, c, i1, d, e, f, h});
    R.ev(C, 3);
    if (o > 0) { // (a,b,c) counter-clockwise
      int in = point_in_poly(d, {a, b, c});
      if (in_triangle(V2(d), V2(a), V2(b), V2(c)) != (in > 0)) bad("in_triangle", {d, a, b, c});
      if (in_on_triangle(V2(d), V2(a), V2(b), V2(c)) != (in >= 0)) bad("in_on_triangle", {d, a, b, c});
      R.ev(C, 2);
      if (orient(b, c, e) > 0 && orient(c, e, a) > 0 && orient(e, a, b) > 0) { // convex quad
        int iq = point_in_poly(d, {a, b, c, e});
        if (in_quad(V2(d), V2(a), V2(b), V2(c), V2(e)) != (iq > 0)) bad("in_quad", {d, a, b, c, e});
        if (in_on_quad(V2(d), V2(a), V2(b), V2(c), V2(e)) != (iq >= 0)) bad("in_on_quad", {d, a, b, c, e});
        R.ev(C, 2); R.st("pred.convex-quads");
      }
    }
    if (a != b) { double w = dist_pt_seg(c, a, b), x = distance_point_edge_sqr(V2(c), V2(a), V2(b)); R.ev(C); if (std::fabs(x - w * w) > 1e-12 * (1 + w * w)) bad("distance_point_edge", {c, a, b}); }
    { Vec2d lo1{std::min(a.x, b.x), std::min(a.y, b.y)}, hi1{std::max(a.x, b.x), std::max(a.y, b.y)}, lo2{std::min(c.x, d.x), std::min(c.y, d.y)}, hi2{std::max(c.x, d.x), std::max(c.y, d.y)};
      bool w = !(hi1.x < lo2.x || hi2.x < lo1.x || hi1.y < lo2.y || hi2.y < lo1.y);
      if (rect_overlap(lo1, hi1, lo2, hi2) != w) bad("rect_overlap", {a, b, c, d});
      bool on = e.x >= lo1.x && e.x <= hi1.x && e.y >= lo1.y && e.y <= hi1.y, in = e.x > lo1.x && e.x < hi1.x && e.y > lo1.y && e.y < hi1.y;
      if (in_on_rect(V2(e), lo1, hi1) != on || in_rect(V2(e), lo1, hi1) != in) bad("in_rect", {e, a, b}); R.ev(C, 3); }
    if (segment_overlap(V2(a), V2(b), V2(c), V2(d)) != ((a == c && b == d) || (a == d && b == c))) bad("segment_overlap", {a, b, c, d});
    { std::vector<P> p{a, b, c, d, e}; std::vector<Vec2d> v; for (auto& x : p) v.push_back(V2(x)); double w = 0; for (int i = 0; i < 5; ++i) w += p[i].x * p[(i + 1) % 5].y - p[(i + 1) % 5].x * p[i].y;
      R.ev(C); if (std::fabs(polygon_area(v) - w / 2) > 1e-9 * (1 + std::fabs(w))) bad("polygon_area", {a, b, c, d, e}); }
  }
  // point location in domains
  Spec sp = gen_well_posed(g, GenOpt());
  R.line("DESC\tpredicates + point location in " + sp.desc);
  Built B = build_domain(sp); double D = sp.diam();
  double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& p : sp.rings[0].pts) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  std::vector<double> ys; for (auto& r : sp.rings) for (auto& p : r.pts) ys.push_back(p.y);
  long in = 0;
  for (int t = 0; t < 400; ++t) {
    P p{g.u(x0 - .2 * D, x1 + .2 * D), g.p(.4) ? g.pick(ys) : g.u(y0 - .2 * D, y1 + .2 * D)};
    if (sp.dist_bdry(p) < 1e-7 * D) continue;
    int k = sp.inside(p); in += k > 0; R.ev(C);
    if (B.dom->is_inside(V2(p)) != (k > 0)) R.violation(C, "point-in-domain", fmt("point %s is reported %s the domain", pstr(p).c_str(), k > 0 ? "outside" : "inside"));
    T::Vertex v(p.x, p.y); if (B.dom->is_inside(v) != (k > 0)) R.violation(C, "vertex-in-domain", pstr(p));
    if (R.viol.size() > 4) break;
  }
  for (auto& p : sp.rings[0].pts) { R.ev(C); if (sp.rings.size() == 1 && !B.dom->is_inside(V2(p))) R.violation(C, "corner-in-domain", "a corner of the exterior boundary is reported outside: " + pstr(p)); }
  R.ev(C); double A = (double)sp.area(); if (std::fabs(B.dom->area() - A) > 1e-10 * (1 + D * D + 400)) R.violation(C, "domain-area", fmt("area %.15g, expected %.15g", B.dom->area(), A));
  R.st("pred.inside", in); R.h(in);
}

// ------------------------------------------------------- size function (C15)
inline void run_size(Rng& g, Report& R) {
  const char* C = "C15"; GenOpt o; o.target = 80; Spec sp = gen_well_posed(g, o);
  if (g.p(.5)) for (auto& r : sp.rings) if (r.build < 5) for (auto& q : r.props) if (g.p(.3)) q = {g.u(.1, 2) * sp.f.a, g.p(.3) ? 0 : g.u(.2, 3) * sp.f.a};
  R.line("DESC\tsize function of " + sp.desc);
  Built B = build_domain(sp); double D = sp.diam();
  P c = sp.rings[0].pts[0];
  auto probe = [&](const char* st) {
    for (int t = 0; t < 60; ++t) {
      P p{c.x + D * g.u(-1, 1), c.y + D * g.u(-1, 1)};
      if (t % 3 == 0) { auto& r = g.pick(sp.rings); p = r.pts[g.i(0, int(r.pts.size()) - 1)]; }
      if (t % 7 == 0 && !sp.fv.empty()) p = g.pick(sp.fv).p;
      double h = B.dom->size_function(V2(p)), w = size_oracle(sp, p), f = sp.f(p); R.ev(C);
      if (!(std::fabs(h - w) <= 1e-9 * (std::fabs(w) + 1e-12))) { R.violation(C, std::string(st) + "size-value", fmt("size at %s is %.17g, expected %.17g (user function %.17g)", pstr(p).c_str(), h, w, f)); return; }
      if (!(h > 0) || h > f * (1 + 1e-12)) { R.violation(C, std::string(st) + "size-range", fmt("size %.17g outside (0,%.17g]", h, f)); return; }
      R.st(w < f * (1 - 1e-9) ? "size.reduced" : "size.user-value"); R.h(uint64_t(h * 1e6));
    }
  };
  probe("");
  // export on a grid
  { unsigned nx = g.i(1, 23), ny = g.i(1, 17); P a{std::round(c.x * 8) / 8 - 1, std::round(c.y * 8) / 8 - 2}, b{a.x + std::ceil(D), a.y + std::ceil(D) + 1};
    std::ostringstream os; B.dom->export_size_function(os, V2(a), V2(b), nx, ny); R.ev(C);
    std::istringstream is(os.str()); std::string l; std::getline(is, l); double q[4]; unsigned mx = 0, my = 0;
    if (sscanf(l.c_str(), "SIZE-FUNCTION %lf %lf %lf %lf %u %u", q, q + 1, q + 2, q + 3, &mx, &my) != 6 || mx != nx || my != ny || !near5(q[0], a.x) || !near5(q[1], a.y) || !near5(q[2], b.x) || !near5(q[3], b.y)) R.violation(C, "export-header", l);
    std::vector<double> v; std::string all; while (std::getline(is, l)) { std::istringstream ls(l); std::string cell; while (std::getline(ls, cell, ',')) { char* e; double d = strtod(cell.c_str(), &e); if (e == cell.c_str()) { R.violation(C, "export-format", l); break; } v.push_back(d); } }
    if (v.size() != size_t(nx) * ny) R.violation(C, "export-count", fmt("%zu values on a %ux%u grid", v.size(), nx, ny));
    else for (unsigned j = 0; j < ny; ++j) for (unsigned i = 0; i < nx; ++i) { P p{a.x + i * (b.x - a.x) / nx, a.y + j * (b.y - a.y) / ny}; R.ev(C); if (!near5(v[j * nx + i], size_oracle(sp, p))) { R.violation(C, "export-value", fmt("grid point %u,%u: %g, expected %g", i, j, v[j * nx + i], size_oracle(sp, p))); i = nx; j = ny; } } }
  // meshing does not change the size function of the domain
  T::MeshGenerator G; R.step("mesh"); T::Mesh& m = G.new_mesh(*B.dom, 0, 0); G.triangulation(m).generate_elements(); probe("after-meshing-");
  // values belong to the domain and its present state, whatever was evaluated before
  { R.step("two domains"); Spec q = sp; q.f.a *= g.u(1.2, 2.5); if (g.p(.3)) { q.f.kind = 0; } for (auto& r : q.rings) if (r.build < 5) for (auto& x : r.props) if (g.p(.3)) x[0] *= .7; Built E = build_domain(q); T::Domain* d[2] = {B.dom.get(), E.dom.get()}; const Spec* s2[2] = {&sp, &q}; P p = c;
    auto one = [&](int k, const char* st) { double h = d[k]->size_function(V2(p)), w = size_oracle(*s2[k], p); R.ev(C); R.st("size.alternating"); if (!(std::fabs(h - w) <= 1e-9 * (std::fabs(w) + 1e-12))) { R.violation(C, std::string("size-") + st, fmt("size at %s is %.17g, expected %.17g", pstr(p).c_str(), h, w)); return false; } return true; };
    bool ok = true; for (int t = 0; t < 80 && ok; ++t) { if (g.p(.3)) p = g.p(.3) ? g.pick(g.pick(sp.rings).pts) : P{c.x + D * g.u(-1, 1), c.y + D * g.u(-1, 1)}; ok = one(g.i(0, 1), "of-another-domain"); }
    for (int t = 0; t < 4 && ok; ++t) { p = P{c.x + D * g.u(-1, 1), c.y + D * g.u(-1, 1)}; if (!(ok = one(0, "before-a-change"))) break;
      if (g.p(.5)) { double s = sp.f.a * g.u(.2, .9), r = g.p(.3) ? 0 : D * g.u(.1, .6); P v{p.x + D * g.u(-.1, .1), p.y + D * g.u(-.1, .1)}; B.dom->add_fixed_vertex(v.x, v.y, s, r); sp.fv.push_back({v, s, r}); ok = one(0, "after-a-fixed-vertex"); }
      else { sp.f.a *= g.u(1.1, 1.6); SizeFn f = sp.f; B.dom->user_size_function() = [f](const Vec2d& x) { return f(P{x.x, x.y}); }; ok = one(0, "after-a-new-function"); } } }
  R.ev(C, 60);
  // invalid values must stop the program (checked in a child)
}

} // namespace vh
