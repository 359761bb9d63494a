// The command line application (C20).
#include "prog.hpp"
#include "size_function.h"
#if defined(__SANITIZE_ADDRESS__)
#define APP "/tqmesh_san"
#else
#define APP "/tqmesh"
#endif

// ------------------------------------------------------------- application
static std::string expr_of(const SizeFn& f, Rng& g) {
  auto n = [&](double v) { return fmt(v < 0 ? "(%.17g)" : "%.17g", v); };
  std::string x = "(x-" + n(f.o.x) + ")", y = "(y-" + n(f.o.y) + ")", sp = g.p(.5) ? " " : "";
  switch (f.kind) {
    case 0: return n(f.a);
    case 1: return "max(" + n(0.25 * f.a) + "," + sp + "min(" + n(2.5 * f.a) + "," + n(f.a) + sp + "+" + sp + n(f.b) + "*" + x + "+" + n(f.c) + "*" + y + "))";
    case 2: return n(f.a) + sp + "-" + sp + n(f.b) + "*exp(-(" + x + "^2+" + y + "*" + y + ")/" + n(f.d * f.d) + ")";
  }
  return n(f.a) + "*(1+" + n(f.b) + sp + "*sin(" + n(f.c) + "*" + x + ")*cos(" + n(f.c) + "*" + y + "))";
}
struct AMesh { Spec sp; std::string expr, algo, format, prefix; int refine = 0, smooth = 2; bool sql = false; std::vector<Layer> layers; bool defaults = false; bool vlist = false, open = false; std::vector<std::string> csv; };

// para text of one mesh; the rings with build 0 use the vertex list
static std::string emit(AMesh& a, Rng& g, int drop = -1) {
  std::vector<std::string> items; Spec& s = a.sp; std::string t;
  auto cm = [&]() { return g.p(.2) ? std::string("  # some remark") : std::string(); };
  auto n = [&](double v) { return fmt("%.17g", v); };
  if (drop != 0) items.push_back("Output file prefix: " + a.prefix + cm() + "\n");
  if (drop != 1) items.push_back("Output file format: " + a.format + "\n");
  if (drop != 2) items.push_back("Element size: " + a.expr + cm() + "\n");
  if (!a.defaults || s.color != 0) items.push_back(fmt("Element color: %d\n", s.color));
  if (!a.defaults || a.algo != "Triangulation") items.push_back("Meshing algorithm: " + a.algo + "\n");
  if (!a.defaults || a.refine) items.push_back(fmt("Number of quad refinements: %d\n", a.refine));
  if (!a.defaults || a.smooth != 2) items.push_back(fmt("Number of smoothing iterations: %d\n", a.smooth));
  if (!a.defaults || a.sql) items.push_back(fmt("Smooth quad layers: %d\n", int(a.sql)));
  // keep the order of layers and of boundaries of one kind
  std::string lay; for (auto& l : a.layers) lay += "Add quad layers: (" + n(l.start.x) + ", " + n(l.start.y) + "), (" + n(l.end.x) + "," + n(l.end.y) + "), " + fmt("%d", l.n) + ", " + n(l.h) + ", " + n(l.gr) + "\n";
  if (lay.size()) items.push_back(lay);
  std::string vl; int nv = 0; std::string bd;
  auto prop = [&](std::array<double, 2> q) { return q[0] <= 0 && q[1] <= 0 && g.p(.7) ? std::string() : ", " + n(q[0]) + ", " + n(q[1]); };
  for (auto& r : s.rings) {
    std::string w = r.exterior ? "exterior" : "interior"; size_t m = r.pts.size();
    if (r.build == 0) {
      std::string e; for (size_t k = 0; k < m; ++k) { size_t i = (k + r.rot) % m; vl += n(r.pts[i].x) + ", " + n(r.pts[i].y) + prop(r.props[i]) + "\n"; e += fmt("  %d, %d, %d\n", nv + int(k), nv + int((k + 1) % m), r.colors[i]); }
      if (a.open) e.erase(0, e.find('\n') + 1); nv += int(m); bd += "Define " + w + " boundary edges:\n" + e + "End " + w + " boundary edges\n";
    } else if (r.build <= 4) {
      std::vector<P> p; std::vector<int> c; std::vector<std::array<double, 2>> pr; listing(r, p, c, pr);
      if (r.build <= 2) { bd += "Define " + w + " boundary:\n"; for (size_t i = 0; i < m; ++i) bd += "  " + n(p[i].x) + ", " + n(p[i].y) + fmt(", %d", c[i]) + prop(pr[i]) + "\n"; bd += "End " + w + " boundary\n"; }
      else { std::string f = write_csv(p, c, pr); a.csv.push_back(f); bd += "Define " + w + " boundary from CSV file: " + f + "\n"; }
    } else {
      std::string c = fmt("%d, ", r.colors[0]) + n(r.sp[2]) + ", " + n(r.sp[3]) + ", ";
      if (r.build == 5) bd += "Define " + w + " rectangular boundary: " + c + n(r.sp[0]) + ", " + n(r.sp[1]);
      if (r.build == 6) bd += "Define " + w + " circular boundary: " + c + n(r.sp[0]) + fmt(", %d", int(r.sp[1]));
      if (r.build == 7) bd += "Define " + w + " squared boundary: " + c + n(r.sp[0]);
      if (r.build == 8) bd += "Define " + w + " triangular boundary: " + c + n(r.sp[0]);
      bd += prop(r.props[0]) + cm() + "\n";
    }
  }
  if (vl.size()) items.push_back("Define boundary vertices:\n" + vl + "End boundary vertices\n");
  if (s.fv.size()) { std::string f = "Define fixed vertices:\n"; for (auto& v : s.fv) f += n(v.p.x) + ", " + n(v.p.y) + prop({v.s, v.r}) + "\n"; items.push_back(f + "End fixed vertices\n"); }
  if (s.fe.size()) { std::string f = "Define fixed edges:\n"; for (auto& e : s.fe) f += fmt("%d, %d\n", nv + e[0], nv + e[1]); items.push_back(f + "End fixed edges\n"); }
  if (bd.size()) items.push_back(bd);
  for (size_t i = items.size(); i > 1; --i) std::swap(items[i - 1], items[g.i(0, int(i) - 1)]);
  t += "Define mesh:\n"; for (auto& i : items) { if (g.p(.2)) t += "# Element size: 77\n"; if (g.p(.2)) t += "\n"; std::istringstream is(i); std::string l; while (std::getline(is, l)) t += "  " + l + "\n"; } t += "End mesh\n";
  return t;
}

// the same mesh through the library, in the order documented for the application
static T::Mesh* build_lib(AMesh& a, int id, T::MeshGenerator& G, std::vector<std::unique_ptr<T::Domain>>& keep, const CppUtils::Vec2d*, double extent, bool& comp, std::string& txt, std::string& vtu, Report& R) {
  Spec& s = a.sp; auto f = init_size_function(a.expr);
  keep.push_back(std::make_unique<T::Domain>(f, extent)); T::Domain& D = *keep.back();
  std::vector<std::vector<T::Vertex*>> rv(s.rings.size()); std::vector<T::Vertex*> fv;
  for (size_t k = 0; k < s.rings.size(); ++k) { auto& r = s.rings[k]; if (r.build) continue; size_t m = r.pts.size(); for (size_t j = 0; j < m; ++j) { size_t i = (j + r.rot) % m; rv[k].push_back(&D.add_vertex(r.pts[i].x, r.pts[i].y, r.props[i][0], r.props[i][1])); } }
  for (auto& v : s.fv) fv.push_back(&D.add_fixed_vertex(v.p.x, v.p.y, v.s, v.r));
  size_t nc = 0; std::vector<std::string> csv(s.rings.size()); for (size_t k = 0; k < s.rings.size(); ++k) if (s.rings[k].build == 3 || s.rings[k].build == 4) csv[k] = a.csv[nc++];
  auto add = [&](size_t k) {
    auto& r = s.rings[k]; T::Boundary& B = r.exterior ? D.add_exterior_boundary() : D.add_interior_boundary(); Vec2d c{r.sp[2], r.sp[3]}; double ms = r.props[0][0], mr = r.props[0][1]; size_t m = r.pts.size();
    if (r.build == 0) for (size_t j = a.open ? 1 : 0; j < m; ++j) B.add_edge(*rv[k][j], *rv[k][(j + 1) % m], r.colors[(j + r.rot) % m]);
    else if (r.build <= 2) { std::vector<P> p; std::vector<int> col; std::vector<std::array<double, 2>> pr; listing(r, p, col, pr); std::vector<Vec2d> vp, vr; for (auto& q : p) vp.push_back(V2(q)); for (auto& q : pr) vr.push_back(Vec2d{q[0], q[1]}); B.set_shape_from_coordinates(vp, col, vr); }
    else if (r.build <= 4) B.set_shape_from_csv(csv[k]);
    else if (r.build == 5) B.set_shape_rectangle(r.colors[0], c, r.sp[0], r.sp[1], ms, mr);
    else if (r.build == 6) B.set_shape_circle(r.colors[0], c, r.sp[0], size_t(r.sp[1]), ms, mr);
    else if (r.build == 7) B.set_shape_square(r.colors[0], c, r.sp[0], ms, mr);
    else B.set_shape_triangle(r.colors[0], c, r.sp[0], ms, mr); };
  add(0);
  auto rank = [](int b) { return b == 0 ? 0 : b <= 2 ? 1 : b == 5 ? 2 : b == 6 ? 3 : b == 7 ? 4 : b == 8 ? 5 : 6; };
  for (int q = 0; q < 7; ++q) for (size_t k = 1; k < s.rings.size(); ++k) if (rank(s.rings[k].build) == q) add(k);
  for (auto& e : s.fe) D.add_fixed_edge(*fv[e[0]], *fv[e[1]]);
  T::Mesh& m = G.new_mesh(D, id, s.color);
  for (auto& l : a.layers) G.quad_layer_generation(m).n_layers(l.n).first_height(l.h).growth_rate(l.gr).starting_position(V2(l.start)).ending_position(V2(l.end)).generate_elements();
  G.triangulation(m).generate_elements(); if (a.algo == "Tri-to-Quad") G.tri2quad_modification(m).modify();
  if (G.size() > 1) { T::Mesh& o = G.mesh(0); G.merge_meshes(m, o); }
  for (int i = 0; i < a.refine; ++i) G.quad_refinement(m).refine();
  G.mixed_smoothing(m).quad_layer_smoothing(a.sql).smooth(a.smooth);
  std::string p = g_tmp + "/lib"; G.write_mesh(m, p, T::MeshExportType::TXT); G.write_mesh(m, p, T::MeshExportType::VTU); txt = slurp(p + ".txt"); vtu = slurp(p + ".vtu");
  comp = T::MeshChecker(m, D).check_completeness();
  return &m;
}
static double extent_of(const Spec& s) { if (s.rings[0].build) return DBL_MAX; double e = 0; for (auto& r : s.rings) if (r.build == 0) for (auto& p : r.pts) e = std::max(e, std::max(std::fabs(p.x), std::fabs(p.y))); return 2.1 * e; }
static void run_app(Rng& g, Report& R) {
  const char* C = "C20"; std::string exe = env("TQH_BIN", "/tmp/b") + APP, dir = g_tmp + "/run"; { std::string rm = "rm -rf " + dir; if (system(rm.c_str())) {} } mkdir(dir.c_str(), 0700);
  auto finish = [](AMesh& a, Rng& g, int i) {
    a.expr = expr_of(a.sp.f, g); a.algo = g.p(.4) ? "Tri-to-Quad" : "Triangulation"; a.refine = g.p(.25) ? 1 : 0; a.smooth = g.p(.5) ? 2 : g.i(0, 4); a.sql = g.p(.3); a.defaults = g.p(.4);
    a.format = g.pick(std::vector<std::string>{"TXT", "txt", "VTU", "vtu", "COUT"}); a.prefix = fmt("./mesh%d", i); if (g.p(.4)) a.sp.color = 0;
  };
  auto layer = [&](AMesh& a) { auto& r = g.pick(a.sp.rings); Layer l; l.start = g.pick(r.pts); l.end = g.p(.6) ? l.start : g.pick(r.pts); l.n = g.p(.2) ? g.i(4, 7) : g.i(1, 3); l.h = a.sp.f.a * (l.n > 3 ? g.u(.02, .06) : g.u(.1, .3)); l.gr = g.u(1, 1.4); a.layers.push_back(l); };
  std::vector<AMesh> A; int kind = g.i(0, 9);
  if (kind <= 4) { // one mesh
    AMesh a; GenOpt o; o.target = 90; o.allow_fixed_edges = g.p(.4); a.sp = gen_well_posed(g, o); finish(a, g, 0);
    if (g.p(.3)) for (int q = g.i(1, 2); q > 0; --q) layer(a);
    A.push_back(a);
  } else if (kind <= 7) { // neighbouring meshes, each merged with the former ones
    Patch p = gen_patch(g, 30); std::vector<int> order(p.cells.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = int(i); std::vector<char> thin(p.sides.size(), 0);
    int all = g.i(0, 2); // boundary definitions: mixed, all by vertices, all by coordinates
    for (size_t i = 0; i < p.cells.size() && i < 4; ++i) { AMesh a; a.sp = cell_spec(p, int(i), order, thin, g); for (auto& r : a.sp.rings) { if (all == 1) r.build = 0; else if (all == 2 && r.build == 0) r.build = 1; } finish(a, g, int(i)); if (g.p(.25)) layer(a); A.push_back(a); }
    if (g.p(.15)) { // a mesh of a domain that has no closed boundary comes first
      AMesh b = A[0]; for (auto& r : b.sp.rings) r.build = 0; b.sp.rings.resize(1); b.sp.fv.clear(); b.sp.fe.clear(); b.layers.clear(); b.open = true; b.csv.clear(); for (auto& x : A) { x.prefix += "b"; } b.refine = 0; b.format = "TXT"; b.prefix = "./mesh0"; A.insert(A.begin(), b); if (A.size() > 2) A.resize(2); }
  }
  if (!A.empty()) {
    std::string t, out; for (auto& a : A) { if (g.p(.3)) t += "# comment\n\n"; t += emit(a, g); }
    { std::ofstream o(dir + "/in.para"); o << t; }
    R.line(fmt("DESC\tapplication, %zu meshes: %s", A.size(), A[0].sp.desc.c_str())); R.step("run the application");
    int st = spawn({exe, "in.para"}, dir, out); R.ev(C); R.h(std::hash<std::string>()(t));
    if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { if (WIFSIGNALED(st) || WEXITSTATUS(st) == 77) R.violation("C17", "app-sanitizer", out.substr(out.size() > 2500 ? out.size() - 2500 : 0)); R.violation(C, "app-crash", fmt("the application ended with wait status %d: ", st) + out.substr(out.size() > 300 ? out.size() - 300 : 0)); return; }
    T::MeshGenerator G; std::vector<std::unique_ptr<T::Domain>> keep; bool all = true; std::string txt, vtu; double area = 0, ext = 0; bool fullgeo = true;
    for (size_t i = 0; i < A.size(); ++i) {
      R.step(fmt("mesh %zu through the library", i)); auto& a = A[i]; bool comp;
      // expressions
      auto f = init_size_function(a.expr); for (int q = 0; q < 12; ++q) { P p{a.sp.rings[0].pts[0].x + a.sp.diam() * g.u(-1, 1), a.sp.rings[0].pts[0].y + a.sp.diam() * g.u(-1, 1)}; double v = f(V2(p)), w = a.sp.f(p); R.ev(C); if (!(std::fabs(v - w) <= 1e-12 * std::fabs(w))) { R.violation(C, "size-expression", fmt("expression %s at %s gives %.17g, expected %.17g", a.expr.c_str(), pstr(p).c_str(), v, w)); break; } }
      build_lib(a, int(i), G, keep, nullptr, ext = std::max(ext, extent_of(a.sp)), comp, txt, vtu, R); all &= comp; area += (double)a.sp.area(); R.ev(C); if (!comp) fullgeo = false;
      if (a.format == "COUT") { if (out.find(txt) == std::string::npos) R.violation(C, "app-console", fmt("mesh %zu is not printed as the library generates it", i)); R.st("app.cout"); }
      else { bool v = a.format == "VTU" || a.format == "vtu", ok; std::string got = slurp(dir + "/" + a.prefix + (v ? ".vtu" : ".txt"), &ok); R.st(v ? "app.vtu" : "app.txt");
        if (!ok) R.violation(C, "app-no-file", "no output file " + a.prefix); else if (got != (v ? vtu : txt)) R.violation(C, "app-mesh", fmt("mesh %zu of the application differs from the mesh the library generates for the same parameters (%zu / %zu bytes)", i, got.size(), (v ? vtu : txt).size())); }
    }
    R.ev(C); R.st(all ? "app.complete" : "app.incomplete"); if (A.size() > 1) R.st("app.multi");
    if ((WEXITSTATUS(st) == 0) != all) R.violation(C, "app-exit", fmt("exit status %d, meshes complete: %d", WEXITSTATUS(st), all));
    if (WEXITSTATUS(st) == 1 && out.find("ERROR") == std::string::npos) R.violation(C, "app-silent", "failure without error message");
    // the (merged) result of the last mesh covers all domains
    TxtFile tf = parse_txt(txt); R.ev(C);
    if (!tf.ok) R.violation(C, "app-format", tf.why);
    else if (fullgeo) { Snap s = snap_of_txt(tf); double A0 = (double)s.area(); if (std::fabs(A0 - area) > 1e-4 * (1 + area) * 10) R.violation(C, "app-area", fmt("the merged mesh covers %.9g, the domains %.9g", A0, area));
      for (auto& u : edge_use(s)) if (u.second.n > 2) { R.violation(C, "app-merge-topology", "an edge of the merged mesh is shared by more than two elements"); break; }
      size_t single = 0; for (auto& u : edge_use(s)) single += u.second.n == 1; if (single != tf.sec["BOUNDARYEDGES"].size() + tf.sec["INTERFACEEDGES"].size()) R.violation(C, "app-merge-edges", fmt("%zu element edges without partner, %zu boundary edges", single, tf.sec["BOUNDARYEDGES"].size())); }
    for (auto& a : A) for (auto& f : a.csv) remove(f.c_str());
    return;
  }
  // ---- refused input
  AMesh a; GenOpt o; o.target = 60; o.allow_shape = false; a.sp = gen_well_posed(g, o); finish(a, g, 0); std::string what; int drop = -1, w = g.i(0, 13);
  for (auto& r : a.sp.rings) if (r.build > 2) r.build = 1;
  a.format = w == 9 && g.p(.5) ? "VTU" : "TXT"; bool expect_fail = true; std::string file = "in.para", t;
  auto sub = [&](const std::string& x, const std::string& y) { size_t p = t.find(x); if (p == std::string::npos) return false; t.replace(p, x.size(), y); return true; };
  switch (w) {
    case 0: drop = 0; what = "no output prefix"; break;
    case 1: drop = 1; what = "no output format"; break;
    case 2: drop = 2; what = "no element size"; break;
    case 3: a.expr = g.pick(std::vector<std::string>{"0.1*(x", "foo(x)", "0.1 0.2", "z*2", "1+", "x+*y"}); what = "broken size expression"; break;
    case 4: a.algo = "Quadtree"; what = "unknown algorithm"; break;
    case 5: case 6: for (auto& r : a.sp.rings) r.build = 0; what = "vertex index out of range"; break;
    case 7: { auto& r = a.sp.rings[g.i(0, int(a.sp.rings.size()) - 1)]; r.build = 1; r.colors[g.i(0, int(r.colors.size()) - 1)] = -g.i(1, 3); } what = "negative marker"; break;
    case 8: what = "missing boundary file"; break;
    case 9: a.prefix = "./no/such/dir/mesh"; what = "unwritable output"; break;
    case 10: file = "none.para"; what = "missing input file"; break;
    case 11: { auto& r = a.sp.rings[0]; if (r.pts.size() < 4) { what = ""; break; } r.build = 0; what = "open boundary"; break; }
    case 13: for (auto& r : a.sp.rings) r.build = 0; what = "index of a fixed edge out of range"; break;
    case 12: a.expr = g.pick(std::vector<std::string>{"0", "-0.5", "0/0", "0.1-x*x-100"}); what = "size not positive"; break;
  }
  if (what.empty()) return;
  t = emit(a, g, drop);
  if (w == 5 || w == 6) { size_t tot = 0; for (auto& r : a.sp.rings) tot += r.pts.size(); tot += a.sp.fv.size(); size_t ri = g.i(0, int(a.sp.rings.size()) - 1); std::string key = std::string("Define ") + (a.sp.rings[ri].exterior ? "exterior" : "interior") + " boundary edges:\n"; size_t p = t.find(key); if (p == std::string::npos) return; size_t q = t.find(',', p); size_t e = t.find(',', q + 1); t.replace(q + 1, e - q - 1, fmt(" %zu", w == 5 ? tot : tot + size_t(g.i(1, 1000)))); }
  if (w == 13) { size_t tot = 0; for (auto& r : a.sp.rings) tot += r.pts.size(); tot += a.sp.fv.size(); size_t bad = g.p(.6) ? tot : tot + g.i(1, 9); std::string k = "End mesh\n"; if (!a.sp.fe.empty() || !sub(k, "  Define fixed edges:\n" + (g.p(.5) ? fmt("0, %zu\n", bad) : fmt("%zu, 0\n", bad)) + "  End fixed edges\n" + k)) return; }
  if (w == 8) { std::string k = "End mesh\n"; if (!sub(k, "  Define interior boundary from CSV file: ./missing.csv\n" + k)) return; }
  if (w == 11) { std::string key = "Define exterior boundary edges:\n"; size_t p = t.find(key); if (p == std::string::npos) return; p += key.size(); size_t e = t.find('\n', p); t.erase(p, e - p + 1); }
  if (file == "in.para" && g.p(.35)) { // a valid mesh comes first
    AMesh b; GenOpt o2; o2.target = 40; o2.allow_shape = false; o2.allow_holes = false; b.sp = gen_well_posed(g, o2); finish(b, g, 7); for (auto& r : b.sp.rings) { if (r.build > 2) r.build = 1; for (auto& p : r.pts) p.x += 900; r.sp[2] += 900; } b.sp.fv.clear(); b.sp.fe.clear(); b.expr = fmt("%.17g", b.sp.f.a); b.format = "TXT"; t = emit(b, g) + t; what += ", in the second mesh"; }
  { std::ofstream of(dir + "/in.para"); of << t; }
  R.line("DESC\tapplication, " + what + ": " + a.sp.desc); R.step("run the application"); std::string out; int st = spawn({exe, file}, dir, out); R.ev(C, 2); R.st("app.refused." + what); R.h(name_hash(what + a.sp.desc));
  if (!WIFEXITED(st) || WEXITSTATUS(st) == 77) R.violation("C17", "app-sanitizer", what + ": " + out.substr(out.size() > 2500 ? out.size() - 2500 : 0));
  if (!WIFEXITED(st)) R.violation(C, "refused-crash", fmt("%s: the application was ended by signal %d", what.c_str(), WTERMSIG(st)));
  else if (WEXITSTATUS(st) == 0) R.violation(C, "refused-accepted", what + ": the application reports success");
  else if (out.find("ERROR") == std::string::npos && w != 12) R.violation(C, "refused-silent", what + ": no error message");
  if (w != 9 && w != 11 && !slurp(dir + "/mesh0.txt").empty()) R.violation(C, "refused-output", what + ": a mesh was written");
}

static bool run_case(const std::string& prof, Rng& g, Report& R) {
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::ERROR);
  if (prof == "app") run_app(g, R);
  else return false;
  return true;
}
int main(int argc, char** argv) { return run_main(argc, argv, run_case, g_tmp); }
