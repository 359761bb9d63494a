// Workloads with several adjacent meshes in one generator: interfaces, merges,
// re-use of the generator.
#pragma once
#include "pipe.hpp"
#include "io.hpp"

namespace vh {

struct Side { std::vector<P> pts; int c[2] = {-1, -1}; int col[2] = {1, 1}; int line = -1; }; // c[0] on its left
struct Patch {
  std::vector<Side> sides;
  struct Loop { bool ext; std::vector<std::pair<int, bool>> s; }; // side, forward
  struct Cell { std::vector<Loop> loops; double h; int color, id; SizeFn f; };
  std::vector<Cell> cells;
  std::string desc;
};

inline Patch gen_patch(Rng& g, int target) {
  Patch p;
  double S = g.pick(std::vector<double>{1, 2, 5, 10, 30});
  int fam = g.i(0, 4);
  P o{g.p(.5) ? 0 : std::round(g.u(-9, 9)), g.p(.5) ? 0 : g.u(-9, 9)};
  int ncell = 0;
  auto subdiv = [&](P a, P b, int m) { std::vector<P> r{a}; for (int k = 1; k <= m; ++k) r.push_back(a + (double(k) / (m + 1)) * (b - a)); r.push_back(b); return r; };
  if (fam <= 2) { // jittered lattice
    int nx = g.i(1, 3), ny = g.i(1, 3); if (nx * ny == 1) nx = 2;
    double jit = fam == 0 ? 0 : g.u(0.0, 0.22);
    std::vector<std::vector<P>> L(nx + 1, std::vector<P>(ny + 1));
    for (int i = 0; i <= nx; ++i) for (int j = 0; j <= ny; ++j) L[i][j] = {o.x + S * (i + jit * g.u(-1, 1)), o.y + S * (j + jit * g.u(-1, 1))};
    auto cid = [&](int i, int j) { return i < 0 || j < 0 || i >= nx || j >= ny ? -1 : i * ny + j; };
    std::map<std::array<int, 3>, int> sid;
    auto mk = [&](P a, P b, int l, int r) { Side s; s.pts = subdiv(a, b, g.p(.5) ? 0 : g.i(1, 2)); s.c[0] = l; s.c[1] = r; s.col[0] = g.i(0, 6); s.col[1] = g.i(0, 6); p.sides.push_back(s); return int(p.sides.size()) - 1; };
    for (int i = 0; i < nx; ++i) for (int j = 0; j <= ny; ++j) sid[{i, j, 0}] = mk(L[i][j], L[i + 1][j], cid(i, j), cid(i, j - 1));
    for (int i = 0; i <= nx; ++i) for (int j = 0; j < ny; ++j) sid[{i, j, 1}] = mk(L[i][j], L[i][j + 1], cid(i - 1, j), cid(i, j));
    ncell = nx * ny;
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) {
      Patch::Cell c; c.loops.push_back({true, {{sid[{i, j, 0}], true}, {sid[{i + 1, j, 1}], true}, {sid[{i, j + 1, 0}], false}, {sid[{i, j, 1}], false}}});
      p.cells.push_back(c);
    }
    p.desc = fmt("lattice %dx%d jitter %.2f", nx, ny, jit);
  } else if (fam == 4) { // brick wall: an edge may have several neighbours
    int rows = g.i(2, 3), W = g.i(2, 4); double u = .9 * S, sk = g.p(.5) ? 0 : g.u(-.3, .3), ro = g.p(.5) ? 0 : g.u(0, 6.28);
    auto at = [&](double x, double y) { double X = u * x + sk * S * y, Y = S * y; return P{o.x + X * cos(ro) - Y * sin(ro), o.y + X * sin(ro) + Y * cos(ro)}; };
    std::vector<std::vector<int>> br(rows), id(rows);
    for (int j = 0; j < rows; ++j) { br[j] = {0}; for (int x = 1; x < W; ++x) if (g.p(.5)) br[j].push_back(x); br[j].push_back(W); for (size_t k = 0; k + 1 < br[j].size(); ++k) id[j].push_back(ncell++); }
    if (ncell == 1) return gen_patch(g, target);
    auto cell = [&](int j, int x) { if (j < 0 || j >= rows) return -1; for (size_t k = 0; k + 1 < br[j].size(); ++k) if (br[j][k] <= x && x < br[j][k + 1]) return id[j][k]; return -1; };
    auto mk = [&](P a, P b, int l, int r, int line) { Side s; s.pts = subdiv(a, b, g.p(.7) ? 0 : 1); s.c[0] = l; s.c[1] = r; if (l < 0) { std::reverse(s.pts.begin(), s.pts.end()); std::swap(s.c[0], s.c[1]); } s.col[0] = g.i(0, 6); s.col[1] = g.i(0, 6); s.line = line; p.sides.push_back(s); return int(p.sides.size()) - 1; };
    std::vector<std::vector<std::pair<int, int>>> hs(rows + 1); // per line: (start x, side)
    for (int j = 0; j <= rows; ++j) { std::set<int> b; if (j > 0) b.insert(br[j - 1].begin(), br[j - 1].end()); if (j < rows) b.insert(br[j].begin(), br[j].end()); std::vector<int> v(b.begin(), b.end());
      for (size_t k = 0; k + 1 < v.size(); ++k) hs[j].push_back({v[k], mk(at(v[k], j), at(v[k + 1], j), cell(j, v[k]), cell(j - 1, v[k]), j)}); }
    for (int j = 0; j < rows; ++j) { std::vector<int> vs; for (size_t k = 0; k < br[j].size(); ++k) vs.push_back(mk(at(br[j][k], j), at(br[j][k], j + 1), k ? id[j][k - 1] : -1, k + 1 < br[j].size() ? id[j][k] : -1, -1));
      for (size_t k = 0; k + 1 < br[j].size(); ++k) { Patch::Loop l{true, {}}; int me = id[j][k];
        auto add = [&](int sd) { l.s.push_back({sd, p.sides[sd].c[0] == me}); };
        for (auto& h : hs[j]) if (h.first >= br[j][k] && h.first < br[j][k + 1]) add(h.second);
        add(vs[k + 1]);
        for (auto h = hs[j + 1].rbegin(); h != hs[j + 1].rend(); ++h) if (h->first >= br[j][k] && h->first < br[j][k + 1]) add(h->second);
        add(vs[k]); Patch::Cell c; c.loops.push_back(l); p.cells.push_back(c); } }
    p.desc = fmt("bricks %d rows, %d cells", rows, ncell);
  } else { // nested: outer ring, core, optionally core cut in two
    int n = g.i(3, 9); P c{o.x, o.y};
    auto in = star_poly(g, c, 0.35 * S, 0.55 * S, n);
    if (poly_area(in) < 0) std::reverse(in.begin(), in.end());
    double W = S * g.u(0.9, 1.3);
    std::vector<P> ex{{c.x - W, c.y - W}, {c.x + W, c.y - W}, {c.x + W, c.y + W}, {c.x - W, c.y + W}};
    Patch::Cell out, core; Patch::Loop le{true, {}}, li{false, {}}, lc{true, {}};
    for (int k = 0; k < 4; ++k) { Side s; s.pts = subdiv(ex[k], ex[(k + 1) % 4], g.i(0, 2)); s.c[0] = 0; s.col[0] = k + 1; p.sides.push_back(s); le.s.push_back({int(p.sides.size()) - 1, true}); }
    for (int k = 0; k < n; ++k) { Side s; s.pts = subdiv(in[k], in[(k + 1) % n], g.p(.7) ? 0 : 1); s.c[0] = 1; s.c[1] = 0; s.col[0] = 20 + k; s.col[1] = g.i(10, 12); p.sides.push_back(s); lc.s.push_back({int(p.sides.size()) - 1, true}); }
    for (int k = n - 1; k >= 0; --k) li.s.push_back({4 + k, false});
    out.loops = {le, li}; core.loops = {lc};
    p.cells = {out, core}; ncell = 2;
    p.desc = fmt("nested %d", n);
  }
  for (int k = 0; k < ncell; ++k) {
    auto& c = p.cells[k]; c.color = g.i(0, 4) + 5 * k; c.id = k;
    c.h = S * std::sqrt(1.0 / (0.433 * target)) * g.u(0.7, 1.6); c.f.kind = g.p(.6) ? 0 : 3; c.f.a = c.h; c.f.b = g.u(.1, .35); c.f.c = g.u(.5, 2) / S; c.f.o = o;
  }
  return p;
}

// specification of one cell; order[k] = position of cell k in the creation order
inline Spec cell_spec(const Patch& p, int k, const std::vector<int>& order, std::vector<char>& thin, Rng& g) {
  Spec sp; auto& c = p.cells[k];
  for (auto& l : c.loops) {
    Ring r; r.exterior = l.ext;
    int last = -1; // line of the previous side if that is one of an earlier neighbour
    for (auto& s : l.s) {
      auto& sd = p.sides[s.first];
      int me = sd.c[0] == k ? 0 : 1, ot = sd.c[1 - me];
      bool later = ot >= 0 && order[ot] < order[k];
      std::vector<P> q = sd.pts;
      if (later && thin[s.first]) q = {q.front(), q.back()};     // the later domain lists the shared side as one edge
      if (!s.second) std::reverse(q.begin(), q.end());
      int col = later ? sd.col[1 - me] : sd.col[me];
      if (sd.line >= 0 && later && sd.line == last && !thin.empty() && thin[s.first]) continue;  // one domain edge along several neighbours
      last = later && thin[s.first] ? sd.line : -1;
      for (size_t i = 0; i + 1 < q.size(); ++i) { r.pts.push_back(q[i]); r.colors.push_back(col); r.props.push_back({0.0, 0.0}); }
    }
    r.build = g.i(0, 4); r.rot = g.i(0, int(r.pts.size()) - 1);
    sp.rings.push_back(r);
  }
  sp.f = c.f; sp.color = c.color; sp.mesh_id = c.id; sp.desc = p.desc;
  if (g.p(.4)) { // fixed vertices, sometimes a fixed edge between two of them
    double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300;
    for (auto& q : sp.rings[0].pts) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
    int nf = g.i(1, 3);
    for (int t = 0; t < nf; ++t) for (int att = 0; att < 20; ++att) {
      P q{g.u(x0, x1), g.u(y0, y1)};
      if (sp.inside(q) <= 0 || sp.dist_bdry(q) < 0.8 * c.h) continue;
      bool ok = true; for (auto& o : sp.fv) ok &= dist(o.p, q) > 1.2 * c.h;
      if (!ok) continue;
      sp.fv.push_back({q, g.p(.5) ? g.u(.3, .9) * c.h : 0.0, g.p(.7) ? g.u(.5, 2.) * c.h : 0.0}); break;
    }
    if (sp.fv.size() >= 2 && g.p(.4)) {
      P a = sp.fv[0].p, b = sp.fv[1].p; bool ok = true;
      for (auto& r : sp.rings) for (size_t q = 0; q < r.pts.size(); ++q) ok &= seg_seg_dist(a, b, r.pts[q], r.pts[(q + 1) % r.pts.size()]) > 0.6 * c.h;
      for (size_t q = 2; q < sp.fv.size(); ++q) ok &= dist_pt_seg(sp.fv[q].p, a, b) > 0.6 * c.h;
      if (ok) sp.fe.push_back({0, 1});
    }
  }
  return sp;
}

typedef std::vector<double> PolyKey;
inline std::multiset<PolyKey> elem_set(const Snap& s) {
  std::multiset<PolyKey> r;
  for (auto& e : s.E) {
    auto p = s.pts(e); size_t b = 0; for (size_t i = 1; i < p.size(); ++i) if (p[i] < p[b]) b = i;
    PolyKey k{double(e.color)}; for (size_t i = 0; i < p.size(); ++i) { k.push_back(p[(b + i) % p.size()].x); k.push_back(p[(b + i) % p.size()].y); }
    r.insert(k);
  }
  return r;
}

struct Multi {
  Report& R; Rng& g; Patch p;
  std::vector<int> order, pos; std::vector<char> thin;
  std::vector<Spec> spec; std::vector<Built> built;
  std::vector<std::unique_ptr<Built>> extra;
  T::MeshGenerator G;
  struct Live { T::Mesh* m; std::set<int> cells; bool complete; bool refined = false; bool closed = true; T::Domain* dom = nullptr; };
  std::map<int, std::vector<P>> seeds; // fixed points of the cells
  std::vector<Live> live;
  double tol;
  Multi(Report& r, Rng& gg) : R(r), g(gg) {}

  // expected boundary of a union of cells
  std::vector<Orig> want(const std::set<int>& cs) {
    std::vector<Orig> O;
    for (size_t i = 0; i < p.sides.size(); ++i) {
      auto& s = p.sides[i];
      bool a = cs.count(s.c[0]), b = s.c[1] >= 0 && cs.count(s.c[1]);
      if (a == b) continue;
      int me = a ? 0 : 1, ot = s.c[1 - me];
      bool later = ot >= 0 && order[ot] < order[s.c[me]];
      int col = later ? s.col[1 - me] : s.col[me];
      std::vector<P> q = s.pts; if (!a) std::reverse(q.begin(), q.end());
      O.push_back({q.front(), q.back(), col, {}});
    }
    return O;
  }
  double want_area(const std::set<int>& cs) { double a = 0; for (int c : cs) a += (double)spec_area(c); return a; }
  Q spec_area(int c) { return spec[c].area(); }

  void check_state(const Live& l, const char* prop, const std::string& pre) {
    Snap s = snapshot(*l.m); check_metrics(*l.m, R);
    boundary_cover_edges(s, want(l.cells), tol, to(R, prop, pre.c_str()), to(R, prop, pre.c_str())); R.ev(prop, long(s.B.size()));
    if (!l.complete) return;
    for (int c : l.cells) for (auto& q : seeds[c]) {
      bool there = false, fix = false; for (size_t i = 0; i < s.V.size(); ++i) if (dist(s.V[i], q) <= tol) { there = true; fix |= s.vfixed[i]; }
      R.ev("C10"); if (l.cells.size() > 1) R.st("multi.fixed-after-merge");
      if (!there) R.violation("C10", pre + "fixed-vertex-missing", "no mesh vertex at the fixed position " + pstr(q));
      else if (!fix) R.violation("C10", pre + "fixed-vertex-free", "the vertex at the fixed position " + pstr(q) + " is not fixed any more");
    }
    elements_valid(s, to(R, prop, pre.c_str())); conforming(s, to(R, prop, pre.c_str())); interior_edges_exact(s, to(R, prop, pre.c_str()));
    double rel = std::fabs((double)s.area() - want_area(l.cells)) / want_area(l.cells);
    if (!(rel < 1e-7)) R.violation(prop, pre + "area", fmt("elements cover %.12g, cells %.12g", (double)s.area(), want_area(l.cells)));
    R.ev(prop, long(s.E.size()));
    // colours: per colour the area of the cells of that colour
    std::map<int, double> have, exp; for (auto& e : s.E) have[e.color] += (double)poly_area(s.pts(e));
    for (int c : l.cells) exp[p.cells[c].color] += (double)spec_area(c);
    for (auto& x : exp) if (std::fabs(have[x.first] - x.second) > 1e-7 * want_area(l.cells)) R.violation(prop, pre + "color-area", fmt("colour %d covers %.12g, expected %.12g", x.first, have[x.first], x.second));
    for (auto& x : have) if (!exp.count(x.first)) R.violation(prop, pre + "color-unknown", fmt("unexpected element colour %d", x.first));
  }
  // twin edges of all live meshes: symmetric, reversed, and exactly on the shared sides
  void check_interfaces(const char* prop) {
    std::map<const T::Edge*, int> owner;
    for (size_t i = 0; i < live.size(); ++i) for (const auto& e : live[i].m->boundary_edges()) owner[e.get()] = int(i);
    std::map<std::array<double, 4>, int> where;
    auto key = [](const T::Edge& e) { return std::array<double, 4>{e.v1().xy().x, e.v1().xy().y, e.v2().xy().x, e.v2().xy().y}; };
    auto rkey = [](const T::Edge& e) { return std::array<double, 4>{e.v2().xy().x, e.v2().xy().y, e.v1().xy().x, e.v1().xy().y}; };
    for (size_t i = 0; i < live.size(); ++i) for (const auto& e : live[i].m->boundary_edges()) where[key(*e)] = int(i);
    int rep = 0;
    for (size_t i = 0; i < live.size(); ++i) for (const auto& e : live[i].m->boundary_edges()) {
      P mid{0.5 * (e->v1().xy().x + e->v2().xy().x), 0.5 * (e->v1().xy().y + e->v2().xy().y)};
      int nb = -1;
      for (auto& s : p.sides) if (s.c[0] >= 0 && s.c[1] >= 0) {
        if (dist_pt_seg(mid, s.pts.front(), s.pts.back()) > tol) continue;
        int me = live[i].cells.count(s.c[0]) ? 0 : live[i].cells.count(s.c[1]) ? 1 : -1; if (me < 0) continue;
        for (size_t j = 0; j < live.size(); ++j) if (j != i && live[j].cells.count(s.c[1 - me])) nb = int(j);
      }
      T::Edge* t = e->twin_edge();
      R.ev(prop);
      if (nb < 0) { if (t && rep++ < 4) R.violation(prop, "twin-spurious", "an edge without neighbour mesh is linked to a neighbour edge at " + pstr(mid)); continue; }
      R.st("multi.interface-edges");
      auto it = where.find(rkey(*e));
      if (it == where.end() || it->second != nb) { if (rep++ < 4) R.violation(prop, "interface-mismatch", "an interface edge has no counterpart in the neighbour mesh at " + pstr(mid)); continue; }
      if (!t || !owner.count(t)) { if (rep++ < 4) R.violation(prop, "twin-missing", "interface edge is not linked to its counterpart at " + pstr(mid)); continue; }
      if (owner[t] != nb || key(*t) != rkey(*e)) { if (rep++ < 4) R.violation(prop, "twin-wrong", "interface edge is linked to a wrong edge at " + pstr(mid)); continue; }
      if (t->twin_edge() != e.get() && rep++ < 4) R.violation(prop, "twin-asymmetric", "interface edges are not linked mutually at " + pstr(mid));
      if (t->color() != e->color() && rep++ < 4) R.violation(prop, "twin-color", "interface edges carry different markers at " + pstr(mid));
    }
  }
  void finish_mesh(Live& l) {
    int k = *l.cells.begin(); bool layered = false;
    if (g.p(0.2)) {
      layered = true; auto& r = spec[k].rings[g.i(0, int(spec[k].rings.size()) - 1)];
      int n = int(r.pts.size()), i = g.i(0, n - 1), j = g.p(.5) ? i : g.i(0, n - 1);
      double el = 1e300; for (int q = 0; q < n; ++q) el = std::min(el, dist(r.pts[q], r.pts[(q + 1) % n]));
      R.step(fmt("quad layer in cell %d, point %d to %d", k, i, j));
      G.quad_layer_generation(*l.m).n_layers(g.i(1, 3)).first_height(std::min(p.cells[k].h, el) * g.u(.1, .4)).growth_rate(g.u(1.0, 1.5)).starting_position(V2(r.pts[i])).ending_position(V2(r.pts[j])).generate_elements();
      R.st("multi.layer"); check_interfaces("C09");
    }
    R.step(fmt("triangulate cell %d", k));
    if (g.p(0.25)) { // in portions
      for (int q = 0; q < 400; ++q) { G.triangulation(*l.m).n_elements(15).generate_elements(); if (T::MeshChecker(*l.m, *built[k].dom).check_completeness()) break; }
      G.triangulation(*l.m).n_elements(0);
    } else G.triangulation(*l.m).generate_elements();
    l.complete = T::MeshChecker(*l.m, *built[k].dom).check_completeness();
    Snap s = snapshot(*l.m); check_metrics(*l.m, R);
    bool truth = elements_valid(s, QUIET) && conforming(s, QUIET);
    R.ev("C04"); if (l.complete != truth) R.violation("C04", "multi-verdict", fmt("cell %d: reported complete=%d, independent check %d", k, l.complete, truth));
    R.st(l.complete ? "multi.complete" : "multi.incomplete");
    if (!layered) { R.ev("C25"); R.st("whole.neighbour"); if (!l.complete) R.violation("C25", "neighbour-incomplete", fmt("cell %d next to %zu other meshes can not be meshed completely", k, live.size() - 1)); }
  }
  void random_op(Live& l, const char* prop, int force = -1) {
    if (!l.complete) return;
    Snap a = snapshot(*l.m); check_metrics(*l.m, R); int c = force >= 0 ? force : g.i(0, 3);
    Spec sp; sp.rings = spec[0].rings; for (int k : l.cells) for (auto& q : seeds[k]) sp.fv.push_back({q, 0, 0});
    auto color_areas = [&](const Snap& b, const char* P_) {
      std::map<int, double> x, y; for (auto& e : a.E) x[e.color] += (double)poly_area(a.pts(e)); for (auto& e : b.E) y[e.color] += (double)poly_area(b.pts(e));
      for (auto& q : x) if (std::fabs(q.second - y[q.first]) > 1e-9 * (double)a.area()) R.violation(P_, "op-color-area", fmt("colour %d covers %.12g before, %.12g after", q.first, q.second, y[q.first]));
      if (x.size() > 1) R.st(std::string("multi.op-several-colours"));
    };
    if (c == 0) {
      R.step("tri2quad on live mesh"); G.tri2quad_modification(*l.m).modify(); Snap b = snapshot(*l.m); check_metrics(*l.m, R);
      monitor_t2q(a, b, sp, R, "C05"); color_areas(b, "C05"); R.st("multi.t2q");
    } else if (c == 1) {
      bool tw = false; for (auto& e : a.B) tw |= e.twin;
      if (a.E.size() > 1200 && !tw) return;
      if (!tw && l.cells.size() != p.cells.size()) return; // keep the model simple: lone neighbours that come later would not match
      R.step("refine live mesh"); bool ok = G.quad_refinement(*l.m).refine(); Snap b = snapshot(*l.m); check_metrics(*l.m, R);
      R.ev("C06");
      if (ok == tw) R.violation("C06", "refine-verdict", fmt("refinement returned %d with%s interface edges", ok, tw ? "" : "out"));
      if (tw && a.hash() != b.hash()) R.violation("C06", "refine-refused-changed", "a refused refinement changed the mesh");
      if (ok) { monitor_refine(a, b, R, "C06"); color_areas(b, "C06"); l.refined = true; }
      R.st(tw ? "multi.refine-refused" : "multi.refine");
    } else {
      R.step("smooth live mesh"); bool ql, cv; std::vector<char> isb(a.V.size(), 0); for (auto& e : a.B) isb[e.a] = isb[e.b] = 1;
      smooth_op(G, *l.m, g, R, ql, cv); Snap b = snapshot(*l.m); check_metrics(*l.m, R); R.st("multi.smooth");
      monitor_smooth(a, b, sp, ql, R, "C07", elements_valid(a, QUIET));
      if (a.V.size() != b.V.size()) return;
      // vertices on shared sides stay where they are, also after a merge
      for (size_t i = 0; i < a.V.size(); ++i) if (a.V[i] != b.V[i]) {
        bool on = isb[i]; for (auto& s : p.sides) if (dist_pt_seg(a.V[i], s.pts.front(), s.pts.back()) < tol && !l.refined) on = true;
        R.ev(prop);
        if (on) { R.violation(prop, "op-interface-moved", "smoothing moved an interface or boundary vertex " + pstr(a.V[i])); break; }
      }
    }
    check_state(l, prop, "after-op-");
  }
  void try_merge(const char* prop, const char* propI) {
    int n = int(live.size()); if (n < 2) return;
    int i = g.i(0, n - 1), j = g.i(0, n - 2); if (j >= i) ++j;
    if (!live[i].complete || !live[j].complete) return;
    Snap a = snapshot(*live[i].m), b = snapshot(*live[j].m);
    bool adj = false;
    for (auto& s : p.sides) if (s.c[1] >= 0) { if ((live[i].cells.count(s.c[0]) && live[j].cells.count(s.c[1])) || (live[i].cells.count(s.c[1]) && live[j].cells.count(s.c[0]))) adj = true; }
    size_t before = G.size();
    R.step(fmt("merge mesh with %zu cells into mesh with %zu cells (adjacent: %d)", live[j].cells.size(), live[i].cells.size(), adj));
    bool ok = G.merge_meshes(*live[i].m, *live[j].m);
    R.ev(prop);
    if (ok != adj) { R.violation(prop, "merge-verdict", fmt("merge returned %d for %sadjacent meshes", ok, adj ? "" : "non-")); if (!ok) return; }
    if (!ok) {
      if (G.size() != before) R.violation(prop, "merge-refused-size", "a refused merge changed the number of meshes");
      if (snapshot(*live[i].m).hash() != a.hash() || snapshot(*live[j].m).hash() != b.hash()) R.violation(prop, "merge-refused-changed", "a refused merge changed a mesh");
      R.st("multi.merge-refused"); return;
    }
    if (G.size() != before - 1) R.violation(prop, "merge-size", fmt("%zu meshes before, %zu after the merge", before, G.size()));
    bool found = false, gone = true; for (size_t q = 0; q < G.size(); ++q) found |= &G.mesh(q) == live[i].m;
    (void)gone;
    if (!found) { R.violation(prop, "merge-receiver-lost", "the receiver is no longer a mesh of the generator"); return; }
    Snap c = snapshot(*live[i].m); check_metrics(*live[i].m, R);
    auto ea = elem_set(a), eb = elem_set(b), ec = elem_set(c); ea.insert(eb.begin(), eb.end());
    R.ev(prop, long(ec.size()));
    if (ea != ec) R.violation(prop, "merge-elements", fmt("elements are not the union of both meshes (%zu of %zu+%zu)", ec.size(), a.E.size(), b.E.size()));
    std::set<P> pv(a.V.begin(), a.V.end()); pv.insert(b.V.begin(), b.V.end());
    std::multiset<P> cv(c.V.begin(), c.V.end());
    if (cv.size() != pv.size() || !std::equal(pv.begin(), pv.end(), cv.begin())) R.violation(prop, "merge-vertices", fmt("%zu vertices, union has %zu", cv.size(), pv.size()));
    // properties of the vertices go along
    std::map<P, std::array<char, 3>> fl; // (vertices of a common edge become fixed)
    for (auto q : {&a, &b}) for (size_t t = 0; t < q->V.size(); ++t) { auto& z = fl[q->V[t]]; z[0] |= q->vfixed[t]; z[1] |= q->vql[t]; z[2]++; }
    for (size_t t = 0; t < c.V.size(); ++t) { auto& z = fl[c.V[t]]; R.ev(prop);
      if (z[0] && !c.vfixed[t]) { R.violation(prop, "merge-fixed-flag", fmt("vertex %s: fixed %d before, %d after the merge", pstr(c.V[t]).c_str(), int(z[0]), int(c.vfixed[t]))); break; }
      if (z[2] == 1 && z[1] != c.vql[t]) { R.violation(prop, "merge-layer-flag", fmt("vertex %s: in a quad layer %d before, %d after the merge", pstr(c.V[t]).c_str(), int(z[1]), int(c.vql[t]))); break; } }
    // boundary: symmetric difference of both boundaries
    auto ba = bset(a), bb = bset(b), bc = bset(c); std::multiset<BE5> w;
    std::set<std::array<double, 4>> ra, rb; for (auto& x : ba) ra.insert({x[0], x[1], x[2], x[3]}); for (auto& x : bb) rb.insert({x[0], x[1], x[2], x[3]});
    for (auto& x : ba) if (!rb.count({x[2], x[3], x[0], x[1]})) w.insert(x);
    for (auto& x : bb) if (!ra.count({x[2], x[3], x[0], x[1]})) w.insert(x);
    if (std::vector<BE5>(w.begin(), w.end()) != bc) R.violation(prop, "merge-boundary", fmt("%zu boundary edges after the merge, expected %zu with their markers", bc.size(), w.size()));
    live[i].cells.insert(live[j].cells.begin(), live[j].cells.end());
    live.erase(live.begin() + j); if (j < i) --i;
    R.st("multi.merged");
    check_state(live[i], prop, "merged-");
    check_connectivity_after(live[i], prop);
    check_interfaces(propI);
  }
  // write one live mesh and compare the file, neighbours included
  void check_write(const char* pT, const char* pV) {
    size_t i = g.i(0, int(live.size()) - 1); Live& l = live[i];
    std::string f = g_tmp + "/multi";
    bool vtu = g.p(.25);
    R.step(vtu ? "write vtu" : "write txt");
    bool ok = G.write_mesh(*l.m, f, vtu ? T::MeshExportType::VTU : T::MeshExportType::TXT);
    R.ev(vtu ? pV : pT);
    if (!ok) { R.violation(vtu ? pV : pT, "write-failed", "writing a mesh file failed"); return; }
    Snap s = snapshot(*l.m); check_metrics(*l.m, R); auto use = edge_use(s);
    T::Domain* d = l.dom; auto size = [d](P p) { return d->size_function(V2(p)); };
    if (vtu) { check_vtu(slurp(f + ".vtu"), s, size, R, pV); return; }
    std::vector<std::vector<double>> iface;
    std::map<std::array<double, 4>, std::pair<int, int>> other; // directed edge -> element, colour in the other meshes
    for (size_t j = 0; j < live.size(); ++j) if (j != i) {
      Snap o = snapshot(*live[j].m); check_metrics(*live[j].m, R); auto u = edge_use(o);
      for (auto& e : o.B) { int a, b; lr(u, e.a, e.b, a, b); other[{o.V[e.a].x, o.V[e.a].y, o.V[e.b].x, o.V[e.b].y}] = {a, a >= 0 ? o.E[a].color : INT_MIN}; }
    }
    for (auto& e : s.B) {
      auto it = other.find({s.V[e.b].x, s.V[e.b].y, s.V[e.a].x, s.V[e.a].y}); if (it == other.end()) continue;
      if (it->second.first < 0) { R.st("io.txt-skip-open-neighbour"); return; } // the neighbour has no elements there yet
      int a, b; lr(use, e.a, e.b, a, b); if (a < 0) { R.st("io.txt-skip-open"); return; }
      iface.push_back({double(e.a), double(e.b), double(a), double(it->second.first), double(it->second.second)});
    }
    if (!iface.empty()) R.st("io.txt-with-interfaces");
    check_txt(slurp(f + ".txt"), s, p.cells.empty() ? 0 : l.m->id(), iface, size, R, pT);
  }
  void check_connectivity_after(Live& l, const char* prop) {
    T::MeshCleanup::setup_facet_connectivity(*l.m);
    Snap s = snapshot(*l.m); check_metrics(*l.m, R);
    check_connectivity(*l.m, s, R, prop);
  }

  void run(int target, const char* pM, const char* pI, const char* pH) {
    p = gen_patch(g, target);
    int n = int(p.cells.size());
    order.assign(n, 0); pos.resize(n); for (int i = 0; i < n; ++i) pos[i] = i;
    for (int i = n - 1; i > 0; --i) std::swap(pos[i], pos[g.i(0, i)]);
    for (int i = 0; i < n; ++i) order[pos[i]] = i;
    thin.resize(p.sides.size()); for (auto& t : thin) t = g.p(.4);
    R.line("DESC\tmulti " + p.desc);
    spec.resize(n); built.resize(n);
    for (int k = 0; k < n; ++k) { spec[k] = cell_spec(p, k, order, thin, g); built[k] = g.p(.2) ? build_domain(spec[k], g.pick(std::vector<double>{1024, 4096, 10000, 65536}), g.pick(std::vector<int>{1, 2, 5, 20, 100}), g.i(12, 30)) : build_domain(spec[k]); }
    double x0 = 1e300, x1 = -1e300; for (auto& s : p.sides) for (auto& q : s.pts) { x0 = std::min({x0, q.x, q.y}); x1 = std::max({x1, q.x, q.y}); }
    tol = 1e-9 * std::max(1.0, 2 * (x1 - x0));
    int mode = g.i(0, 2); // 0: mesh one after the other, 1: create all first, 2: mixed
    std::vector<int> todo = pos; std::vector<int> pend;
    bool early = g.p(.5); // merge while cells are missing
    while (!todo.empty() || !pend.empty()) {
      bool create = !todo.empty() && (mode == 1 || pend.empty() || (mode == 2 && g.p(.5)));
      if (create) {
        int k = todo.front(); todo.erase(todo.begin());
        R.step(fmt("new_mesh for cell %d (%d of %d)", k, order[k] + 1, n));
        T::Mesh& m = G.new_mesh(*built[k].dom, spec[k].mesh_id, spec[k].color);
        live.push_back({&m, {k}, false}); live.back().dom = built[k].dom.get();
        seeds[k] = fixed_seeds(snapshot(m), spec[k], R, "C10");
        check_state(live.back(), pI, "created-");
        check_interfaces(pI);
        pend.push_back(k);
      } else {
        int q = g.i(0, int(pend.size()) - 1), k = pend[q]; pend.erase(pend.begin() + q);
        for (auto& l : live) if (l.cells.count(k)) { finish_mesh(l); check_state(l, pI, "meshed-"); }
        check_interfaces(pI);
        if (g.p(.3)) check_write("C12", "C13");
        if (early && g.p(.4)) try_merge(pM, pI);
        if (g.p(.3)) { random_op(live[g.i(0, int(live.size()) - 1)], pI); check_interfaces(pI); }
      }
    }
    for (int t = 0; t < 3 * n; ++t) { if (g.p(.5)) try_merge(pM, pI); else if (g.p(.3)) check_write("C12", "C13"); else if (g.p(.5)) { random_op(live[g.i(0, int(live.size()) - 1)], pM); check_interfaces(pI); } }
    // everything in one mesh: operations over several colours
    for (int t = 0; t < 3; ++t) { static const int seq[] = {0, 1, 1, 2, -1}; Live& l = live[0]; if (live.size() == 1 && l.complete && g.p(.8)) { random_op(l, pM, g.pick(std::vector<int>(seq, seq + 5))); check_interfaces(pI); } }
    check_write("C12", "C13");
    reuse(pH);
    for (auto& l : live) R.h(snapshot(*l.m).hash());
  }
  // further meshes in the same generator give what a fresh generator gives
  void reuse(const char* pH) {
    for (int t = 0; t < 2; ++t) {
      GenOpt o; o.target = 80; o.allow_holes = false; o.file_builds = false;
      Spec sp = gen_well_posed(g, o);
      double off = 500.0 + 200 * t; // away from all other meshes
      for (auto& r : sp.rings) { for (auto& q : r.pts) { q.x += off; } r.sp[2] += off; if (r.build >= 5) r.build = 1; }
      for (auto& f : sp.fv) f.p.x += off;
      sp.f.o.x += off;
      uint64_t s0 = g.next();
      auto work = [&](T::MeshGenerator& H, Built& b) {
        Rng q(s0); Report dummy; dummy.fd = -1;
        T::Mesh& m = H.new_mesh(*b.dom, sp.mesh_id, sp.color);
        H.triangulation(m).n_elements(0).generate_elements();
        Snap s1 = snapshot(m); check_metrics(m, R);
        if (T::MeshChecker(m, *b.dom).check_completeness()) {
          if (q.p(.5)) H.tri2quad_modification(m).modify();
          if (q.p(.5)) { bool ql, cv; smooth_op(H, m, q, dummy, ql, cv); }
          if (q.p(.5)) H.quad_refinement(m).refine();
        }
        return snapshot(m);
      };
      R.step("fresh generator"); Built b1 = build_domain(sp); T::MeshGenerator F; Snap f = work(F, b1);
      extra.push_back(std::make_unique<Built>(build_domain(sp)));
      R.step("used generator"); Snap u = work(G, *extra.back());
      R.ev(pH); R.st("multi.reuse");
      if (f.hash() != u.hash()) R.violation(pH, "generator-history", fmt("a mesh made by a used generator (%zu elements) differs from the one of a fresh generator (%zu elements)", u.E.size(), f.E.size()));
      // merge with something random afterwards must be refused (not adjacent)
      if (!live.empty() && g.p(.5)) { R.step("merge with a remote mesh"); bool ok = G.merge_meshes(*live[0].m, G.mesh(G.size() - 1)); R.ev("C08"); if (ok) R.violation("C08", "merge-remote", "meshes without a common edge were merged"); }
    }
  }
};

inline void run_multi(Rng& g, Report& R, int target = 40) { Multi m(R, g); m.run(target, "C08", "C09", "C18"); }

} // namespace vh
