// Invalid input, boundary shapes, domain editing, repeatability, mesh files,
// completeness verdicts, quad layers, element sizes.
#pragma once
#include "units.hpp"
#include <sys/wait.h>
#include <sys/stat.h>

namespace vh {
inline uint64_t nhash(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; return h; }

// runs fn in a child; returns the wait status, err = what it wrote to stderr
inline int in_child(const std::function<void()>& fn, std::string& err) {
  std::string f = g_tmp + "/child.err"; fflush(0);
  pid_t p = fork();
  if (p == 0) { int e = open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); try { fn(); } catch (const std::exception& x) { fprintf(stderr, "exception: %s\n", x.what()); fflush(0); _exit(42); } fflush(0); _exit(0); }
  int st = 0; waitpid(p, &st, 0); err = slurp(f); return st;
}

// ------------------------------------------------------------ invalid (C16)
// proper crossing of two polylines with a margin, so that no tolerance decides
inline bool crosses_clearly(P a, P b, P c, P d, double m) {
  if (!seg_cross_proper(a, b, c, d)) return false;
  double la = dist(a, b), lc = dist(c, d);
  auto off = [&](P p, P u, P v, double l) { return std::fabs((double)area2(u, v, p)) / l; };
  return off(c, a, b, la) > m && off(d, a, b, la) > m && off(a, c, d, lc) > m && off(b, c, d, lc) > m;
}
inline void run_invalid(Rng& g, Report& R) {
  const char* C = "C16"; GenOpt o; o.target = 60; o.allow_shape = false;
  int kind = g.i(0, 9);
  Spec sp = gen_well_posed(g, o); for (auto& r : sp.rings) r.build = g.p(.5) ? 0 : r.build;
  double D = sp.diam(), M = 0.01 * D;
  T::MeshGenerator G;
  auto expect_empty = [&](T::Domain& dom, const std::string& what) {
    R.step("mesh an invalid domain: " + what); R.ev(C); R.st("invalid." + what); R.h(nhash(what));
    size_t n0 = G.size();
    T::Mesh& m = G.new_mesh(dom, 1, 1);
    (void)n0;
    if (m.vertices().size() || m.quads().size() || m.triangles().size() || m.boundary_edges().size() || m.interior_edges().size()) R.violation(C, "accepted-" + what, fmt("a mesh with %zu vertices was initialised for a domain that is invalid (%s)", m.vertices().size(), what.c_str()));
    else { R.ev(C); if (G.triangulation(m).generate_elements()) R.violation(C, "meshed-" + what, "triangulation of an invalid domain reports success");
      Snap s = snapshot(m); if (!s.E.empty()) R.violation(C, "elements-" + what, fmt("%zu elements for an invalid domain", s.E.size()));
      T::MeshChecker k(m, dom); R.ev(C); if (k.check_completeness()) R.violation(C, "complete-" + what, "an invalid domain is reported as completely meshed"); }
  };
  R.line(fmt("DESC\tinvalid kind %d on %s", kind, sp.desc.c_str()));
  if (kind == 0) { // no boundary / no exterior / boundary without edges
    Spec q = sp; int w = g.i(0, 2);
    SizeFn f = q.f; T::Domain d([f](const Vec2d& p) { return f(P{p.x, p.y}); });
    if (w == 0) expect_empty(d, "no-boundary");
    else if (w == 1) { q.rings.resize(1); auto& b = d.add_interior_boundary(); std::vector<Vec2d> c; for (auto& p : q.rings[0].pts) c.push_back(V2(p)); b.set_shape_from_coordinates(c, std::vector<int>(c.size(), 1)); expect_empty(d, "no-exterior"); }
    else { Built B = build_domain(q); if (g.p(.5)) B.dom->add_exterior_boundary(); else B.dom->add_interior_boundary(); expect_empty(*B.dom, "empty-boundary"); }
  } else if (kind == 1) { // open boundary
    SizeFn f = sp.f; T::Domain d([f](const Vec2d& p) { return f(P{p.x, p.y}); });
    size_t gapring = g.i(0, int(sp.rings.size()) - 1);
    for (size_t k = 0; k < sp.rings.size(); ++k) { auto& r = sp.rings[k]; T::Boundary& b = r.exterior ? d.add_exterior_boundary() : d.add_interior_boundary(); std::vector<T::Vertex*> v; for (auto& p : r.pts) v.push_back(&d.add_vertex(p.x, p.y)); size_t n = v.size(), skip = k == gapring ? size_t(g.i(0, int(n) - 1)) : n + 1; for (size_t i = 0; i < n; ++i) if (i != skip) b.add_edge(*v[i], *v[(i + 1) % n], 1); }
    expect_empty(d, "open-boundary");
  } else if (kind == 2) { // self-intersection
    bool ok = false;
    for (int t = 0; t < 200 && !ok; ++t) {
      Spec q = sp; auto& r = q.rings[g.i(0, int(q.rings.size()) - 1)]; int n = int(r.pts.size()); if (n < 4) continue;
      std::swap(r.pts[g.i(0, n - 1)], r.pts[g.i(0, n - 1)]); r.build = 0;
      if (g.p(.3)) r.pts[g.i(0, n - 1)] = {r.pts[0].x + D * g.u(-1.5, 1.5), r.pts[0].y + D * g.u(-1.5, 1.5)};
      for (int i = 0; i < n && !ok; ++i) for (int j = i + 2; j < n && !ok; ++j) if ((j + 1) % n != i && crosses_clearly(r.pts[i], r.pts[i + 1], r.pts[j], r.pts[(j + 1) % n], M)) ok = true;
      if (ok) { sp = q; }
    }
    if (ok) { R.line("DESC\tself-intersecting variant of " + sp.desc); Built B = build_domain(sp); expect_empty(*B.dom, "self-intersection"); }
  } else if (kind == 3) { // two boundaries cross
    bool ok = false; P ec{0, 0}; for (auto& p : sp.rings[0].pts) ec = ec + (1.0 / sp.rings[0].pts.size()) * p;
    for (int t = 0; t < 200 && !ok; ++t) {
      Spec q = sp; P c = g.pick(sp.rings[0].pts); if (g.p(.5)) c = 0.5 * (c + ec);
      double r = D * g.u(0.02, 0.5); Ring H = make_ring(star_poly(g, c, .7 * r, r, g.i(3, 9)), false); H.build = g.i(0, 2); q.rings.push_back(H);
      for (size_t a = 0; a + 1 < q.rings.size() && !ok; ++a) for (size_t i = 0; i < q.rings[a].pts.size() && !ok; ++i) for (size_t j = 0; j < H.pts.size() && !ok; ++j) if (crosses_clearly(q.rings[a].pts[i], q.rings[a].pts[(i + 1) % q.rings[a].pts.size()], H.pts[j], H.pts[(j + 1) % H.pts.size()], 0.3 * M)) ok = true;
      if (ok) sp = q;
    }
    if (ok) { R.line("DESC\tcrossing boundaries, variant of " + sp.desc); Built B = build_domain(sp); expect_empty(*B.dom, "crossing-boundaries"); }
  } else if (kind == 4 || kind == 5) { // broken boundary files
    auto& r = sp.rings[0]; std::vector<P> p; std::vector<int> c; std::vector<std::array<double, 2>> pr; listing(r, p, c, pr);
    std::string f = g_tmp + "/bad.csv"; int w = g.i(0, 6); size_t at = g.i(0, int(p.size()) - 1); std::string what;
    FILE* h = fopen(f.c_str(), "w");
    for (size_t i = 0; i < p.size(); ++i) {
      if (i != at) { fprintf(h, "%.17g,%.17g,%d\n", p[i].x, p[i].y, c[i]); continue; }
      switch (w) {
        case 0: fprintf(h, "%.17g,abc,%d\n", p[i].x, c[i]); what = "csv-text"; break;
        case 1: fprintf(h, "%.17g,%.17g\n", p[i].x, p[i].y); what = "csv-no-marker"; break;
        case 2: fprintf(h, "%.17g,%.17g,-%d\n", p[i].x, p[i].y, 1 + c[i]); what = "csv-negative-marker"; break;
        case 3: fprintf(h, "%.17g\n", p[i].x); what = "csv-one-column"; break;
        case 4: fprintf(h, "%.17g,%.17g,99999999999999999999\n", p[i].x, p[i].y); what = "csv-huge-marker"; break;
        case 5: fprintf(h, ",%.17g,%d\n", p[i].y, c[i]); what = "csv-empty-cell"; break;
        case 6: fprintf(h, "%.17g,%.17g,%d,x,1\n", p[i].x, p[i].y, c[i]); what = "csv-bad-size"; break;
      }
    }
    fclose(h);
    if (kind == 5 && g.p(.5)) { f = g_tmp + "/does-not-exist.csv"; what = "csv-missing"; }
    SizeFn sf = sp.f; T::Domain d([sf](const Vec2d& q) { return sf(P{q.x, q.y}); }); auto& b = d.add_exterior_boundary();
    bool thrown = false; std::string msg; R.step("read " + what); R.st("invalid." + what); R.h(nhash(what));
    try { b.set_shape_from_csv(f); } catch (const std::exception& e) { thrown = true; msg = e.what(); }
    R.ev(C, 2);
    if (!thrown) R.violation(C, "accepted-" + what, "an unreadable boundary file was accepted");
    else if (msg.empty()) R.violation(C, "silent-" + what, "no error message");
    if (b.size() != 0 || d.vertices().size() != 0) R.violation(C, "partial-" + what, "a rejected boundary file left edges or vertices behind");
    b.set_shape_square(1, V2(P{0, 0}), 1.0); R.ev(C); if (b.size() != 4) R.violation(C, "unusable-" + what, "the boundary can not be defined after a rejected file");
  } else if (kind == 6) { // size function not positive
    int w = g.i(0, 3); Spec q = sp; q.rings[0].build = 1; std::string err; P o2 = q.rings[0].pts[0]; double a = q.f.a;
    R.step("size function that is not positive"); R.st("invalid.size"); R.h(w);
    int st = in_child([&]() {
      T::Domain d([w, o2, a, D](const Vec2d& p) { double x = (p.x - o2.x) / D; switch (w) { case 0: return 0.0; case 1: return -a; case 2: return std::nan(""); } return std::fabs(x) < 0.05 ? a : -1.0; });
      auto& b = d.add_exterior_boundary(); std::vector<Vec2d> c; for (auto& p : q.rings[0].pts) c.push_back(V2(p)); b.set_shape_from_coordinates(c, q.rings[0].colors);
      T::MeshGenerator H; T::Mesh& m = H.new_mesh(d); H.triangulation(m).generate_elements(); }, err);
    R.ev(C);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) R.violation(C, "bad-size-function", fmt("a size function that is not positive ended with status %d", st));
    else if (err.empty()) R.violation(C, "bad-size-silent", "no error message for a size function that is not positive");
  } else if (kind == 7) { // meshes of other generators
    sp.rings.resize(1); sp.fv.clear(); Built B = build_domain(sp); T::MeshGenerator H; T::Mesh& m = H.new_mesh(*B.dom); int w = g.i(0, 4); std::string err; R.step("operate on the mesh of another generator"); R.st("invalid.foreign"); R.h(100 + w);
    R.ev(C, 3);
    if (G.is_valid(m) || !H.is_valid(m)) R.violation(C, "foreign-valid", "validity of a mesh is reported wrongly");
    if (G.write_mesh(m, g_tmp + "/foreign", T::MeshExportType::TXT)) R.violation(C, "foreign-written", "a mesh of another generator was written");
    Built B2 = build_domain(sp); T::Mesh& own = G.new_mesh(*B2.dom); if (G.merge_meshes(own, m) || G.merge_meshes(m, own)) R.violation(C, "foreign-merged", "a mesh of another generator was merged");
    uint64_t h0 = snapshot(m).hash();
    int st = in_child([&]() { switch (w) { case 0: G.triangulation(m).generate_elements(); break; case 1: G.quad_refinement(m).refine(); break; case 2: G.mixed_smoothing(m).smooth(1); break; case 3: G.tri2quad_modification(m).modify(); break; case 4: G.mesh(99); } }, err);
    R.ev(C); if (!WIFEXITED(st) || WEXITSTATUS(st) != 1 || err.empty()) R.violation(C, "foreign-op", fmt("operation on a foreign mesh ended with status %d", st));
    if (snapshot(m).hash() != h0) R.violation(C, "foreign-changed", "a refused operation changed the mesh");
  } else if (kind == 8) { // files that can not be written
    sp.rings.resize(1); sp.fv.clear(); Built B = build_domain(sp); T::Mesh& m = G.new_mesh(*B.dom); G.triangulation(m).generate_elements(); uint64_t h0 = snapshot(m).hash();
    bool vtu = g.p(.5); std::string f = g_tmp + (g.p(.5) ? "/no/such/dir/mesh" : "/dirmesh"); if (f.back() == 'h' && f.find("/no/") == std::string::npos) { mkdir((f + ".txt").c_str(), 0700); mkdir((f + ".vtu").c_str(), 0700); }
    R.step("write to a file that can not be opened"); R.st("invalid.unwritable"); R.h(200 + vtu); R.ev(C);
    if (G.write_mesh(m, f, vtu ? T::MeshExportType::VTU : T::MeshExportType::TXT)) R.violation(C, "unwritable", "writing to a file that can not be opened reports success");
    if (snapshot(m).hash() != h0) R.violation(C, "unwritable-changed", "a failed write changed the mesh");
  } else { // meaningless quad layer requests
    Built B = build_domain(sp); T::Mesh& m = G.new_mesh(*B.dom); int w = g.i(0, 2); R.step("quad layer request without sense"); R.st("invalid.layer"); R.h(300 + w);
    P far{sp.rings[0].pts[0].x + 3 * D, sp.rings[0].pts[0].y}; P s = w == 0 ? far : sp.rings[0].pts[0], e = w == 1 ? far : s;
    Snap a = snapshot(m); bool ret = G.quad_layer_generation(m).n_layers(w == 2 ? 0 : 2).first_height(.1 * sp.f.a).growth_rate(1.2).starting_position(V2(s)).ending_position(V2(e)).generate_elements();
    R.st(ret ? "invalid.layer-true" : "invalid.layer-false"); R.ev(C); Snap b = snapshot(m);
    boundary_cover(b, sp, to(R, C, "layer-"), to(R, C, "layer-"));
    if (w == 2 && !b.E.empty()) R.violation(C, "zero-layers", "elements for a request of zero layers");
    (void)a;
  }
  // whatever was refused: the generator still does its work
  { GenOpt o2; o2.target = 50; o2.allow_holes = false; o2.file_builds = false; Spec q = gen_well_posed(g, o2); for (auto& r : q.rings) { for (auto& p : r.pts) p.x += 800; r.sp[2] += 800; if (r.build >= 5) r.build = 1; } for (auto& f : q.fv) f.p.x += 800; q.f.o.x += 800;
    R.step("mesh a valid domain afterwards"); Built B1 = build_domain(q), B2 = build_domain(q); T::MeshGenerator F; T::Mesh& m1 = F.new_mesh(*B1.dom); F.triangulation(m1).generate_elements(); T::Mesh& m2 = G.new_mesh(*B2.dom); G.triangulation(m2).generate_elements();
    R.ev(C); if (snapshot(m1).hash() != snapshot(m2).hash()) R.violation(C, "generator-affected", "a refused input affects later meshes"); }
}

// ------------------------------------------------------------- shapes (C21)
inline std::vector<std::array<double, 7>> edge_list(const T::Boundary& b) {
  std::vector<std::array<double, 7>> v;
  for (const auto& e : b) v.push_back({e->v1().x(), e->v1().y(), e->v2().x(), e->v2().y(), double(e->color()), e->v1().mesh_size(), e->v1().size_range()});
  return v;
}
inline void run_shape(Rng& g, Report& R) {
  const char* C = "C21"; bool ext = g.p(.5); T::Domain d; T::Boundary& b = ext ? d.add_exterior_boundary() : d.add_interior_boundary();
  int kind = g.i(0, 6); double S = std::pow(10, g.u(-1, 2)); P c{g.u(-50, 50), g.u(-50, 50)}; int col = g.i(0, 99); double ms = g.p(.5) ? 0 : g.u(.01, 1), mr = g.p(.5) ? 0 : g.u(.01, 1);
  std::vector<P> pts; std::vector<int> cols; std::vector<std::array<double, 2>> pr; double tol = 1e-12 * (S + 100);
  if (kind == 0) { double w = S, h = S * g.u(.1, 4); b.set_shape_rectangle(col, V2(c), w, h, ms, mr); pts = {{c.x - w / 2, c.y - h / 2}, {c.x + w / 2, c.y - h / 2}, {c.x + w / 2, c.y + h / 2}, {c.x - w / 2, c.y + h / 2}}; }
  else if (kind == 1) { b.set_shape_square(col, V2(c), S, ms, mr); double w = S; pts = {{c.x - w / 2, c.y - w / 2}, {c.x + w / 2, c.y - w / 2}, {c.x + w / 2, c.y + w / 2}, {c.x - w / 2, c.y + w / 2}}; }
  else if (kind == 2) { int n = g.i(3, 60); b.set_shape_circle(col, V2(c), S, n, ms, mr); for (int i = 0; i < n; ++i) pts.push_back({c.x + S * cos(2 * M_PI * i / n), c.y + S * sin(2 * M_PI * i / n)}); }
  else if (kind == 3) { b.set_shape_triangle(col, V2(c), S, ms, mr); for (int i = 0; i < 3; ++i) pts.push_back({c.x + S / std::sqrt(3.0) * cos(2 * M_PI * i / 3), c.y + S / std::sqrt(3.0) * sin(2 * M_PI * i / 3)}); }
  bool listed = kind >= 4; std::string style;
  if (!listed) { cols.assign(pts.size(), col); pr.assign(pts.size(), {ms, mr}); if (!ext) { std::reverse(pts.begin(), pts.end()); } }
  else {
    Ring r = make_ring(star_poly(g, c, .5 * S, S, g.i(3, 12)), ext); for (auto& x : r.colors) x = g.i(0, 9); for (auto& x : r.props) x = {g.p(.5) ? 0 : g.u(.1, 2), g.p(.5) ? 0 : g.u(.1, 2)};
    r.rot = g.i(0, int(r.pts.size()) - 1); r.build = g.p(.5) ? 1 : 2; std::vector<P> lp; std::vector<int> lc; std::vector<std::array<double, 2>> lpr; listing(r, lp, lc, lpr);
    pts = r.pts; cols = r.colors; pr = r.props;
    if (kind == 4) { std::vector<Vec2d> v, q; for (auto& p : lp) v.push_back(V2(p)); for (auto& p : lpr) q.push_back(Vec2d{p[0], p[1]}); if (g.p(.7)) b.set_shape_from_coordinates(v, lc, q); else { b.set_shape_from_coordinates(v, lc); for (auto& p : pr) p = {-1, -1}; } }
    else { // csv with variations of the layout
      bool full = g.p(.6), ragged = full && g.p(.4), sp = g.p(.5), crlf = g.p(.2), noeol = g.p(.3), exp = g.p(.2), extra = full && g.p(.2); std::string f = g_tmp + "/shape.csv"; FILE* h = fopen(f.c_str(), "wb");
      for (size_t i = 0; i < lp.size(); ++i) { const char* s = sp ? (g.p(.5) ? ", " : " ,\t") : ","; const char* nf = exp ? "%.17e" : "%.17g"; std::string l = fmt(nf, lp[i].x) + s + fmt(nf, lp[i].y) + s + fmt("%d", lc[i]); int cut = ragged ? g.i(0, 2) : 0; // columns left out in this line
        if (cut) for (size_t q = 0; q < pts.size(); ++q) if (pts[q] == lp[i]) { pr[q][1] = 0; if (cut == 2) pr[q][0] = 0; }
        if (full && cut < 2) l += s + fmt(nf, lpr[i][0]); if (full && !cut) l += s + fmt(nf, lpr[i][1]); if (extra && !cut) l += ",comment"; if (crlf) l += "\r"; if (i + 1 < lp.size() || !noeol) l += "\n"; fputs(l.c_str(), h); }
      fclose(h); if (!full) for (auto& p : pr) p = {0, 0}; style = fmt(" full=%d ragged=%d blanks=%d crlf=%d noeol=%d exp=%d extra=%d", full, ragged, sp, crlf, noeol, exp, extra); b.set_shape_from_csv(f); }
    tol = 0;
  }
  R.line(fmt("DESC\tshape %d %s S=%.3g points=%zu", kind, ext ? "exterior" : "interior", S, pts.size()) + style);
  auto got = edge_list(b); size_t n = pts.size(); R.ev(C, long(n)); R.st(fmt("shape.%d", kind));
  for (auto& e : got) { R.h(uint64_t(std::fabs(e[0]) * 1e9)); }
  auto bad = [&](const char* k, const std::string& m) { R.violation(C, k, m); };
  if (got.size() != n) { bad("edge-count", fmt("%zu edges, expected %zu", got.size(), n)); return; }
  if (d.vertices().size() != n) bad("vertex-count", fmt("%zu vertices, expected %zu", d.vertices().size(), n));
  for (size_t i = 0; i < n; ++i) if (got[i][2] != got[(i + 1) % n][0] || got[i][3] != got[(i + 1) % n][1]) { bad("not-closed", fmt("edge %zu does not end where the next one starts", i)); return; }
  size_t s = n; for (size_t i = 0; i < n; ++i) if (std::fabs(got[i][0] - pts[0].x) <= tol && std::fabs(got[i][1] - pts[0].y) <= tol) s = i;
  if (s == n) { bad("vertex-missing", "no edge starts at " + pstr(pts[0])); return; }
  for (size_t i = 0; i < n; ++i) {
    auto& e = got[(s + i) % n];
    if (std::fabs(e[0] - pts[i].x) > tol || std::fabs(e[1] - pts[i].y) > tol) { bad("vertex", fmt("vertex %zu at (%.17g,%.17g), expected %s", i, e[0], e[1], pstr(pts[i]).c_str())); break; }
    if (int(e[4]) != cols[i]) { bad("marker", fmt("edge from %s carries marker %d, expected %d", pstr(pts[i]).c_str(), int(e[4]), cols[i])); break; }
    if (e[5] != pr[i][0] || e[6] != pr[i][1]) { bad("local-size", fmt("vertex %s has local size %g,%g, expected %g,%g", pstr(pts[i]).c_str(), e[5], e[6], pr[i][0], pr[i][1])); break; }
  }
  std::vector<P> q; for (auto& e : got) q.push_back({e[0], e[1]}); R.ev(C);
  if ((poly_area(q) > 0) != ext) bad("orientation", ext ? "an exterior boundary is not counter-clockwise" : "an interior boundary is not clockwise");
  // area and point tests agree with the polygon
  R.ev(C); double A = (double)poly_area(pts); if (std::fabs(b.area() - A) > 1e-10 * (S * S + 2500 + std::fabs(A))) bad("area", fmt("area %.15g, expected %.15g", b.area(), A));
  if (kind == 2) { T::Domain e; auto& bb = e.add_exterior_boundary(); bb.set_shape_circle(1, V2(c), S, g.i(0, 2)); R.ev(C); if (bb.size() != 0) bad("circle-degenerate", "a circle of less than three segments has edges"); }
  // a defined boundary is not overwritten
  b.set_shape_square(5, V2(P{0, 0}), 1.0); R.ev(C); if (edge_list(b) != got) bad("overwritten", "a second shape changed a boundary that is defined already");
}

// ---------------------------------------- editing and repeatability (C18)
inline Snap make_mesh(T::MeshGenerator& G, T::Domain& d, const Spec& sp, uint64_t seed, Report& R, const char* what) {
  Rng q(seed); Report dummy; dummy.fd = -1; R.step(what);
  T::Mesh& m = G.new_mesh(d, sp.mesh_id, sp.color);
  if (q.p(.4)) { auto& r = q.pick(sp.rings); int n = int(r.pts.size()); P a = r.pts[q.i(0, n - 1)]; G.quad_layer_generation(m).n_layers(q.i(1, 3)).first_height(sp.f.a * q.u(.1, .3)).growth_rate(1.3).starting_position(V2(a)).ending_position(V2(a)).generate_elements(); }
  G.triangulation(m).show_progress(what[0] != 'f').generate_elements();
  if (T::MeshChecker(m, d).check_completeness()) {
    int k = q.i(0, 3);
    for (int i = 0; i < k; ++i) { int c = q.i(0, 3); if (c == 0) G.tri2quad_modification(m).modify(); else if (c == 1) { if (m.n_elements() < 600) G.quad_refinement(m).refine(); } else { bool ql, cv; smooth_op(G, m, q, dummy, ql, cv); } }
  }
  return snapshot(m);
}
inline void run_repeat(Rng& g, Report& R) {
  const char* C = "C18"; GenOpt o; o.target = 120; o.allow_fixed_edges = g.p(.3); Spec sp = gen_well_posed(g, o); R.line("DESC\trepeat " + sp.desc); uint64_t s0 = g.next();
  Built b1 = build_domain(sp); T::MeshGenerator G1; Snap a = make_mesh(G1, *b1.dom, sp, s0, R, "first run");
  std::vector<std::unique_ptr<char[]>> junk; for (int i = 0; i < g.i(10, 3000); ++i) junk.push_back(std::make_unique<char[]>(size_t(g.i(8, 400)))); // other heap layout
  for (size_t i = 0; i < junk.size(); i += 2) junk[i].reset();
  { Built b2 = build_domain(sp); T::MeshGenerator G2; Snap b = make_mesh(G2, *b2.dom, sp, s0, R, "second run"); R.ev(C); R.st("repeat.again"); if (a.hash() != b.hash()) R.violation(C, "not-repeatable", fmt("the same calls give %zu and %zu elements, or different coordinates", a.E.size(), b.E.size())); }
  { // domain used again by a second generator
    T::MeshGenerator G3; Snap b = make_mesh(G3, *b1.dom, sp, s0, R, "same domain again"); R.ev(C); R.st("repeat.same-domain"); if (a.hash() != b.hash()) R.violation(C, "domain-changed", "meshing the same domain object again gives another mesh"); }
  { // an edited domain: things added and removed again leave no trace
    Spec q = sp; q.fe.clear(); SizeFn f = sp.f; Built e; 
    e.dom = std::make_unique<T::Domain>([f](const Vec2d& p) { return f(P{p.x, p.y}); }); T::Domain& D = *e.dom; P c = sp.rings[0].pts[0];
    int where = g.i(0, 2); auto clutter = [&](int w) {
      if (w != where) return;
      auto& v = D.add_fixed_vertex(c.x + 0.31, c.y + 0.17, 0.2, 0.4); auto& u = D.add_fixed_vertex(c.x + 0.61, c.y + 0.47); auto& ed = D.add_fixed_edge(v, u); D.remove_fixed_edge(ed); D.remove_fixed_vertex(v); D.remove_fixed_vertex(u);
      auto& lone = D.add_vertex(c.x - .7, c.y + .4); D.remove_vertex(lone); };
    clutter(0);
    for (auto& r : sp.rings) { auto& B = r.exterior ? D.add_exterior_boundary() : D.add_interior_boundary(); std::vector<T::Vertex*> vs; for (size_t i = 0; i < r.pts.size(); ++i) vs.push_back(&D.add_vertex(r.pts[i].x, r.pts[i].y, r.props[i][0], r.props[i][1])); for (size_t i = 0; i < vs.size(); ++i) B.add_edge(*vs[i], *vs[(i + 1) % vs.size()], r.colors[i]); }
    clutter(1);
    for (auto& v : sp.fv) D.add_fixed_vertex(v.p.x, v.p.y, v.s, v.r);
    clutter(2);
    for (auto& r : q.rings) { r.build = 0; r.rot = 0; } Built clean = build_domain(q);
    T::MeshGenerator G4, G5; Snap x = make_mesh(G4, *clean.dom, q, s0, R, "clean domain"), y = make_mesh(G5, D, q, s0, R, "edited domain"); R.ev(C); R.st("repeat.edited"); if (x.hash() != y.hash()) R.violation(C, "edit-history", fmt("a domain with fixed vertices and edges added and removed again gives %zu elements instead of %zu", y.E.size(), x.E.size())); }
  { // more meshes in one generator do not influence each other
    T::MeshGenerator G6; std::vector<Spec> other; std::vector<Built> ob; std::vector<T::Mesh*> om;
    for (int k = 0; k < 2; ++k) { GenOpt o2; o2.target = 40; o2.allow_holes = false; o2.file_builds = false; Spec q = gen_well_posed(g, o2); double off = 400 + 300 * k; for (auto& r : q.rings) { for (auto& p : r.pts) p.x += off; r.sp[2] += off; if (r.build >= 5) r.build = 1; } for (auto& v : q.fv) v.p.x += off; q.f.o.x += off; other.push_back(q); ob.push_back(build_domain(q)); }
    om.push_back(&G6.new_mesh(*ob[0].dom)); if (g.p(.5)) G6.triangulation(*om[0]).n_elements(g.i(1, 20)).generate_elements();
    om.push_back(&G6.new_mesh(*ob[1].dom)); uint64_t h0 = snapshot(*om[0]).hash(), h1 = snapshot(*om[1]).hash();
    Built b7 = build_domain(sp); Snap b = make_mesh(G6, *b7.dom, sp, s0, R, "third mesh of a generator"); R.ev(C, 2); R.st("repeat.third");
    if (a.hash() != b.hash()) R.violation(C, "neighbour-influence", "other, distant meshes of the generator change the result");
    if (snapshot(*om[0]).hash() != h0 || snapshot(*om[1]).hash() != h1) R.violation(C, "bystander-changed", "working on one mesh changed another, distant mesh"); }
  R.h(a.hash());
}

// ------------------------------------------------- mesh files (C12, C13)
inline void run_write(Rng& g, Report& R) {
  GenOpt o; o.target = 80; o.allow_fixed_edges = g.p(.3); Spec sp = gen_well_posed(g, o); sp.mesh_id = g.i(0, 400); R.line("DESC\twrite " + sp.desc);
  Built b = build_domain(sp); T::MeshGenerator G; T::Mesh& m = G.new_mesh(*b.dom, sp.mesh_id, sp.color); T::Domain* d = b.dom.get();
  auto size = [&](P p) { return size_oracle(sp, p); }; int nfile = 0;
  auto write_all = [&](const char* stage) {
    R.step(std::string("write ") + stage); R.st(std::string("write.") + stage); std::string f = fmt("%s/m%d", g_tmp.c_str(), nfile++); bool suf = g.p(.5), dot = g.p(.2); if (dot) f += ".v1";
    uint64_t h0 = snapshot(m).hash(); R.ev("C12", 2); R.ev("C13", 2);
    if (!G.write_mesh(m, f + (suf ? ".txt" : ""), T::MeshExportType::TXT)) R.violation("C12", "write-failed", "writing a text file failed");
    if (!G.write_mesh(m, f + (suf ? ".vtu" : ""), T::MeshExportType::VTU)) R.violation("C13", "write-failed", "writing a vtu file failed");
    bool ok1, ok2; std::string t = slurp(f + ".txt", &ok1), v = slurp(f + ".vtu", &ok2); remove((f + ".txt").c_str()); remove((f + ".vtu").c_str());
    if (!ok1) { R.violation("C12", "file-name", "no file " + f + ".txt"); return; } if (!ok2) { R.violation("C13", "file-name", "no file " + f + ".vtu"); return; }
    Snap s = snapshot(m); check_metrics(m, R); if (s.hash() != h0) R.violation("C12", "write-changed", "writing changed the mesh");
    check_txt(t, s, sp.mesh_id, {}, size, R, "C12"); check_vtu(v, s, size, R, "C13");
    std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); auto fl = std::cout.flags(); auto pc = std::cout.precision(); G.write_mesh(m, "", T::MeshExportType::COUT); std::cout.rdbuf(old); std::cout.flags(fl); std::cout.precision(pc); R.ev("C12"); if (os.str() != t) R.violation("C12", "cout", "the console output differs from the text file");
    R.h(s.hash());
  };
  if (g.p(.5)) write_all("initial");
  if (g.p(.3)) { auto& r = g.pick(sp.rings); P a = g.pick(r.pts); G.quad_layer_generation(m).n_layers(g.i(1, 3)).first_height(sp.f.a * g.u(.1, .3)).growth_rate(1.3).starting_position(V2(a)).ending_position(V2(a)).generate_elements(); if (g.p(.5)) write_all("layered"); }
  if (g.p(.5)) { G.triangulation(m).n_elements(g.i(1, 60)).generate_elements(); write_all("partial"); G.triangulation(m).n_elements(0); }
  G.triangulation(m).generate_elements(); bool comp = T::MeshChecker(m, *d).check_completeness(); write_all(comp ? "complete" : "incomplete");
  if (!comp) return;
  for (int k = 0, n = g.i(1, 3); k < n; ++k) { int c = g.i(0, 2); Report dummy; dummy.fd = -1; bool ql, cv; if (c == 0) G.tri2quad_modification(m).modify(); else if (c == 1) { if (m.n_elements() < 500) G.quad_refinement(m).refine(); } else smooth_op(G, m, g, dummy, ql, cv); write_all(c == 0 ? "tri2quad" : c == 1 ? "refined" : "smoothed"); }
}

// ---------------------------------------------------- verdicts (C04)
inline void run_verdict(Rng& g, Report& R) {
  const char* C = "C04"; GenOpt o; o.target = 60; Spec sp = gen_well_posed(g, o); R.line("DESC\tverdict " + sp.desc);
  Built b = build_domain(sp); T::MeshGenerator G; T::Mesh& m = G.new_mesh(*b.dom, 0, sp.color);
  auto ask = [&](const char* st) { R.step(st); bool c = T::MeshChecker(m, *b.dom).check_completeness(); Snap s = snapshot(m); bool t = geo_ok(s, sp); R.ev(C); R.st(std::string("verdict.") + st + (c ? ".complete" : ".open")); R.h(s.hash()); if (c != t) R.violation(C, std::string(st) + (c ? "-false-complete" : "-false-incomplete"), fmt("%zu elements, %zu vertices: reported complete=%d, independent check %d", s.E.size(), s.V.size(), c, t)); return c; };
  ask("initial");
  for (int k = 0; k < 40; ++k) { bool r = G.triangulation(m).n_elements(g.i(1, 12)).generate_elements(); (void)r; if (ask("partial")) break; }
  G.triangulation(m).n_elements(0).generate_elements(); bool c = ask("done");
  { bool ret = G.triangulation(m).generate_elements(); R.ev(C); if (ret != c) R.st("verdict.return-differs"); Snap s = snapshot(m); if (c && !ret) R.violation(C, "return-complete-false", "triangulating a complete mesh reports failure"); if (!c && ret && !geo_ok(s, sp)) R.violation(C, "return-true-incomplete", "triangulation reports success although the mesh is incomplete"); }
  if (!c) return;
  // another domain: same mesh, wrong area
  { Spec q = sp; P ce = q.rings[0].pts[0]; double s = g.p(.5) ? g.u(1.001, 1.5) : g.u(.7, .999); for (auto& r : q.rings) { for (auto& p : r.pts) p = ce + s * (p - ce); r.sp[0] *= s; r.sp[2] = ce.x + s * (r.sp[2] - ce.x); r.sp[3] = ce.y + s * (r.sp[3] - ce.y); r.build = 0; r.rot = 0; }
    q.fv.clear(); q.fe.clear(); Built o2 = build_domain(q); R.step("against another domain"); R.ev(C); R.st("verdict.other-domain"); if (T::MeshChecker(m, *o2.dom).check_completeness()) R.violation(C, "other-domain", fmt("the mesh is reported to cover a domain of %.6g times the extent", s)); }
  // a hole in the mesh: elements removed
  { Snap s = snapshot(m); int n = int(m.triangles().size()); if (n == 0) return; int k = g.i(0, n - 1); auto it = m.triangles().begin(); std::advance(it, k); R.step("remove an element"); m.remove_triangle(**it); R.ev(C); R.st("verdict.removed"); if (T::MeshChecker(m, *b.dom).check_completeness()) R.violation(C, "removed-element", "a mesh with a missing element is reported complete"); }
}

// ---------------------------------------------------- quad layers (C11)
// a closed layer along a convex boundary with room for it
inline void run_layerb(Rng& g, Report& R) {
  const char* C = "C11"; Spec sp; double S = g.pick(std::vector<double>{1, 2, 5, 20}); P c{g.u(-9, 9), g.u(-9, 9)};
  bool inner = g.p(.5); int n = g.i(6, 24); double r = S;
  auto poly = [&](double rad, int k, double jit) { std::vector<P> p; double a0 = g.u(0, 6.28); for (int i = 0; i < k; ++i) { double a = a0 + 2 * M_PI * (i + jit * g.u(-.2, .2)) / k; p.push_back({c.x + rad * cos(a), c.y + rad * sin(a)}); } return p; };
  double chord = 2 * r * sin(M_PI / n);
  if (inner) { Ring e = make_ring(poly(4 * r, g.i(8, 16), 0), true); Ring h = make_ring(poly(r, n, .5), false); sp.rings = {e, h}; }
  else sp.rings = {make_ring(poly(r, n, .5), true)};
  Ring& L = sp.rings[inner ? 1 : 0]; for (auto& x : L.colors) x = 7;
  for (auto& q : sp.rings) { q.build = g.i(0, 2); q.rot = g.i(0, int(q.pts.size()) - 1); }
  sp.f.kind = 0; sp.f.a = std::min(chord, S) * g.u(.35, .8); sp.color = g.i(0, 5);
  bool fine = g.p(.4); // thin layers, where nothing but the request determines the heights
  int nl = fine ? g.i(3, 6) : g.i(1, 4); double gr = fine ? g.u(1.2, 1.9) : g.u(1.0, 1.3), tot = (inner ? 0.8 : 0.45) * r * g.u(.2, 1), sum = 0, x = 1; for (int i = 0; i < nl; ++i) { sum += x; x *= gr; }
  if (fine) tot = std::min(tot, .5 * sp.f.a);
  double h1 = std::min(tot / sum, 0.5 * sp.f.a);
  R.line(fmt("DESC\tlayer %s n=%d layers=%d h=%.3g growth=%.3g size=%.3g", inner ? "around hole" : "along exterior", n, nl, h1, gr, sp.f.a));
  Built b = build_domain(sp); T::MeshGenerator G; T::Mesh& m = G.new_mesh(*b.dom, 0, sp.color); Snap s0 = snapshot(m);
  int i0 = g.i(0, n - 1), len = g.p(.5) ? n : g.i(2, n - 2); P st = L.pts[i0], en = L.pts[(i0 + len) % n]; bool open_ = len < n; R.step(open_ ? "generate layer on a section" : "generate layer");
  bool ret = G.quad_layer_generation(m).n_layers(nl).first_height(h1).growth_rate(gr).starting_position(V2(st)).ending_position(V2(en)).generate_elements();
  Snap s = snapshot(m); R.ev(C); size_t nb = 0; double tol = tol_of(sp); auto onL = [&](P p) { for (int i = i0; i < i0 + len; ++i) if (dist_pt_seg(p, L.pts[i % n], L.pts[(i + 1) % n]) < tol) return true; return false; };
  for (auto& e : s.B) if (onL(s.V[e.a]) && onL(s.V[e.b])) ++nb;
  long df = long(nb * nl) - long(s.nq); R.st(df ? "layerb.inexact" : "layerb.exact"); if (open_) R.st("layerb.section"); R.st("layerb.quads", long(s.nq)); R.st("layerb.tris", long(s.nt));
  R.ev(C, 6);
  if (!ret) R.violation(C, "benign-refused", "a layer along a convex boundary with room for it is reported as failed");
  if (df < 0 || df > std::max(8.0, .3 * nb * nl) || s.nt > 8) R.violation(C, "benign-count", fmt("%zu quads and %zu triangles for %d layers on %zu boundary edges", s.nq, s.nt, nl, nb));
  // heights of all layers: distance of the vertices from the boundary
  std::vector<double> H{0}; { double y = h1; for (int i = 0; i < nl; ++i) { H.push_back(H.back() + y); y *= gr; } }
  std::vector<double> dv(s.V.size());
  for (size_t i = 0; i < s.V.size(); ++i) { double dd = 1e300; for (int q = 0; q < n; ++q) dd = std::min(dd, dist_pt_seg(s.V[i], L.pts[q], L.pts[(q + 1) % n])); dv[i] = dd; }
  std::set<int> lv; for (size_t k = 0; k < s.nq; ++k) lv.insert(s.E[k].v.begin(), s.E[k].v.end());
  std::vector<int> per(nl + 1); double worst = 0; std::vector<double> off; for (int i : lv) { int bi = 0; for (int k = 0; k <= nl; ++k) if (std::fabs(dv[i] - H[k]) < std::fabs(dv[i] - H[bi])) bi = k; ++per[bi]; double o = bi ? std::fabs(dv[i] - H[bi]) / (H[bi] - H[bi - 1]) : 0; worst = std::max(worst, (dv[i] - H.back()) / H.back()); off.push_back(o); }
  std::sort(off.begin(), off.end()); double med = off.empty() ? 0 : off[off.size() / 2];
  if (fine) { // distance from the lines through the boundary edges (at corners, the bisector is longer than the height)
    std::vector<double> of2;
    for (int i : lv) { double ld = inner ? -1e300 : 1e300;
      for (int q = 0; q < n; ++q) { P u = L.pts[q], w = L.pts[(q + 1) % n]; double sd = ((w.x - u.x) * (s.V[i].y - u.y) - (w.y - u.y) * (s.V[i].x - u.x)) / dist(u, w); ld = inner ? std::max(ld, sd) : std::min(ld, sd); }
      int bi = 0; for (int k = 0; k <= nl; ++k) if (std::fabs(ld - H[k]) < std::fabs(ld - H[bi])) bi = k;
      of2.push_back(bi ? std::fabs(ld - H[bi]) / (H[bi] - H[bi - 1]) : std::fabs(ld) / h1); }
    std::sort(of2.begin(), of2.end());
    double mx = of2.empty() ? 0 : of2.back(), md = of2.empty() ? 0 : of2[of2.size() / 2]; R.ev(C, long(of2.size())); R.st("layerb.thin");
    if (open_ ? md > 1e-6 || mx > .4 : mx > 1e-6) R.violation(C, "thin-height", fmt("layer vertices are up to %.3g (half of them %.3g) layer heights off the requested heights", mx, md));
  }
  if (med > .5) R.violation(C, "benign-height", fmt("half of the layer vertices are more than %.2g layer heights away from the requested heights", med));
  if (worst > .4) R.violation(C, "benign-too-high", fmt("layer reaches %.3g times the requested total height", 1 + worst));
  for (int k = 1; k <= nl; ++k) if (per[k] < .2 * nb) R.violation(C, "benign-missing-layer", fmt("layer %d has %d vertices at the height requested for it, the boundary %zu edges", k, per[k], nb));
  elements_valid(s, to(R, C, "benign-")); no_overlaps(s, to(R, C, "benign-")); boundary_cover(s, sp, to(R, C, "benign-"), to(R, C, "benign-"));
  for (auto& e : s.E) if (e.color != sp.color) { R.violation(C, "benign-colour", "an element of the layer has not the colour of the mesh"); break; }
  R.step("triangulate the rest"); G.triangulation(m).generate_elements(); bool comp = T::MeshChecker(m, *b.dom).check_completeness(); R.st(comp ? "layerb.complete" : "layerb.incomplete"); R.h(s.hash());
  if (!comp) R.violation(C, "benign-incomplete", "the domain can not be meshed completely after the layer");
  else { Snap f = snapshot(m); R.ev(C, 2); if (!geo_ok(f, sp)) R.violation(C, "benign-final", "the mesh with a layer is reported complete, but is no valid partition");
    std::set<std::array<double, 8>> q; auto key = [](const Snap& z, const SElem& e) { std::vector<std::array<double, 2>> v; for (int i : e.v) v.push_back({z.V[i].x, z.V[i].y}); std::sort(v.begin(), v.end()); std::array<double, 8> k; for (int i = 0; i < 4; ++i) { k[2 * i] = v[i][0]; k[2 * i + 1] = v[i][1]; } return k; };
    for (size_t k = 0; k < f.nq; ++k) q.insert(key(f, f.E[k])); size_t lost = 0; for (size_t k = 0; k < s.nq; ++k) lost += !q.count(key(s, s.E[k])); R.st("layerb.lost", long(lost)); if (lost > 4) R.violation(C, "benign-lost", fmt("%zu quads of the layer are lost when the rest is triangulated", lost)); }
}

} // namespace vh
