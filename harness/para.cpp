// Parameter files (C19) and convert2foam (C22).
#include "prog.hpp"

// ------------------------------------------------------------ parameter files
struct ParaModel {
  // one definition in the file, in order; key index selects the parameter
  struct Def { int kind, key; std::vector<std::vector<std::string>> rows; };  // kind 0 scalar 1 vector 2 matrix
};
static std::string pad(Rng& g) { return std::string(g.i(0, 3), ' '); }
static std::string num(Rng& g, bool integer) { if (integer) return fmt("%d", g.i(-999, 999)); switch (g.i(0, 3)) { case 0: return fmt("%d", g.i(-50, 50)); case 1: return fmt("%.17g", g.u(-100, 100)); case 2: return fmt("%.3e", g.u(-1, 1) * std::pow(10, g.i(-8, 8))); } return fmt("%.4f", g.u(-10, 10)); }

static void run_para(Rng& g, Report& R) {
  const char* C = "C19";
  int nb = g.i(0, 3);             // blocks; 0: everything at top level
  bool blocks = nb > 0; if (!blocks) nb = 1;
  struct Key { std::string a, b; int kind; size_t n; bool integer, dflt; };
  static const char* words[] = {"Alpha", "Beta value", "Gamma", "Delta list", "Epsilon", "Zeta x", "Eta", "Theta points"};
  std::vector<Key> keys; int nk = g.i(2, 8);
  for (int i = 0; i < nk; ++i) { Key k; k.kind = g.i(0, 2); k.n = k.kind == 0 ? 1 : g.i(1, 6); k.integer = g.p(.4); k.dflt = k.kind > 0 && g.p(.5); k.a = std::string(words[i]) + ":"; k.b = std::string("End ") + words[i]; keys.push_back(k); }
  const double DV = -1;
  typedef std::vector<double> Row;
  std::vector<std::vector<std::vector<std::vector<Row>>>> want(nb, std::vector<std::vector<std::vector<Row>>>(nk)); // block, key, occurrence, rows
  std::string t; auto noise = [&]() { switch (g.i(0, 5)) { case 0: t += "\n"; break; case 1: t += pad(g) + "# comment, with Alpha: 17 and End Alpha\n"; break; case 2: t += "some unrelated text 1, 2, 3\n"; break; case 3: t += "#\n"; } };
  std::vector<std::string> stray;
  for (int b = 0; b < nb; ++b) {
    noise(); if (blocks) t += pad(g) + "Open block:" + pad(g) + "\n";
    std::vector<int> seq; for (int k = 0; k < nk; ++k) for (int c = g.p(.2) ? 0 : g.p(.3) ? g.i(2, 3) : 1; c > 0; --c) seq.push_back(k);
    for (size_t i = seq.size(); i > 1; --i) std::swap(seq[i - 1], seq[g.i(0, int(i) - 1)]);
    for (int ki : seq) {
      auto& k = keys[ki]; noise(); std::vector<Row> rows;
      auto row = [&](bool last_comment) { Row r; std::string l; size_t m = k.dflt && g.p(.4) ? size_t(g.i(1, int(k.n))) : k.n; static const char* op[] = {"", "(", "["}; static const char* cl[] = {"", ")", "]"}; int br = g.i(0, 5) % 3 * (g.p(.3));
        for (size_t i = 0; i < m; ++i) { std::string v = num(g, k.integer); r.push_back(strtod(v.c_str(), 0)); l += pad(g) + (i == 0 ? op[br] : "") + v + (i + 1 == m ? cl[br] : "") + (g.p(.3) ? " " : ""); if (i + 1 < m) l += ","; }
        while (r.size() < k.n) r.push_back(DV);
        if (last_comment && g.p(.3)) l += " # remark, 5, 6";
        rows.push_back(r); return l; };
      if (k.kind == 0) { std::string v = num(g, k.integer); rows.push_back({strtod(v.c_str(), 0)}); t += pad(g) + k.a + pad(g) + v + pad(g) + (g.p(.3) ? "# remark 99" : "") + "\n"; }
      else if (k.kind == 1) { std::string l = row(true); t += pad(g) + k.a + l + "\n"; }
      else { t += pad(g) + k.a + (g.p(.3) ? "   " : "") + "\n"; for (int r = g.i(1, 5); r > 0; --r) { if (g.p(.15)) t += " # 7, 7, 7\n"; t += row(false) + "\n"; } t += pad(g) + k.b + "\n"; }
      want[b][ki].push_back(rows);
    }
    if (blocks) { noise(); t += pad(g) + "Close block\n"; }
  }
  noise();
  R.line(fmt("DESC\tparameter file: %d blocks, %d keys, %zu bytes", blocks ? nb : 0, nk, t.size())); R.h(std::hash<std::string>()(t));
  std::string f = g_tmp + "/p.para"; { std::ofstream o(f); o << t; }
  CppUtils::ParaReader top(f);
  CppUtils::ParaReader* rd = &top;
  if (blocks) { top.new_block_parameter("blk", "Open block:", "Close block"); rd = &top.get_block("blk"); }
  for (int i = 0; i < nk; ++i) { auto& k = keys[i]; std::string n = fmt("k%d", i);
    if (k.kind == 0) { if (k.integer) rd->new_scalar_parameter<int>(n, k.a); else rd->new_scalar_parameter<double>(n, k.a); }
    else if (k.kind == 1) { if (k.integer) rd->new_vector_parameter<int>(n, k.a, k.n); else rd->new_vector_parameter<double>(n, k.a, k.n); }
    else { if (k.integer) rd->new_matrix_parameter<int>(n, k.a, k.b, k.n); else rd->new_matrix_parameter<double>(n, k.a, k.b, k.n); } }
  auto bad = [&](const std::string& key, const std::string& m) { R.violation(C, key, m + " | file: " + t.substr(0, 500)); };
  { R.ev(C, 2); bool thrown = false; try { rd->new_scalar_parameter<int>("k0", "Other:"); } catch (const std::exception&) { thrown = true; } if (!thrown) bad("duplicate-name", "a second parameter of the same name was accepted");
    thrown = false; try { rd->get_value<int>("nobody"); } catch (const std::exception&) { thrown = true; } if (!thrown) bad("unknown-name", "unknown parameter name accepted"); }
  for (int b = 0; b < nb; ++b) {
    if (blocks) { R.ev(C); if (!top.query("blk")) { bad("block-missing", fmt("block %d of %d was not found", b, nb)); return; } }
    std::vector<int> seq; for (int k = 0; k < nk; ++k) seq.push_back(k); for (size_t i = seq.size(); i > 1; --i) std::swap(seq[i - 1], seq[g.i(0, int(i) - 1)]);
    for (int ki : seq) {
      auto& k = keys[ki]; std::string n = fmt("k%d", ki); auto& W = want[b][ki];
      auto one = [&](auto z) {
        typedef decltype(z) V;
        for (size_t o = 0; o <= W.size(); ++o) {
          bool got = k.dflt ? rd->query<V>(n, true, V(DV)) : rd->query<V>(n); R.ev(C);
          if (got != (o < W.size())) { bad(got ? "extra-occurrence" : "missed-occurrence", fmt("query %zu of \"%s\" in block %d gives %d, the file defines it %zu times", o, k.a.c_str(), b, got, W.size())); return; }
          if (!got) break;
          auto& p = rd->get_parameter<V>(n); auto& rows = W[o];
          if (p.rows() != rows.size() || p.columns() != k.n) { bad("shape", fmt("\"%s\" has %zux%zu values, file %zux%zu", k.a.c_str(), p.rows(), p.columns(), rows.size(), k.n)); return; }
          if (!rd->found(n)) bad("found", "found() is false after a successful query");
          for (size_t r = 0; r < rows.size(); ++r) for (size_t c = 0; c < k.n; ++c) { R.ev(C); V v = rd->get_value<V>(c, r, n); if (double(v) != double(V(rows[r][c]))) { bad("value", fmt("\"%s\"[%zu][%zu] is %.17g, file says %.17g", k.a.c_str(), r, c, double(v), rows[r][c])); return; } }
          if (k.kind == 0 && double(rd->get_value<V>(n)) != double(V(rows[0][0]))) bad("scalar", "scalar access differs");
          if (k.kind == 1 && double(rd->get_value<V>(k.n - 1, n)) != double(V(rows[0][k.n - 1]))) bad("vector", "vector access differs");
        }
        if (b == 0 && W.empty() ) { bool thrown = false; try { rd->get_value<V>(n); } catch (const std::exception&) { thrown = true; } R.ev(C); if (!thrown) bad("value-not-found", "the value of a parameter that is not in the file was returned"); }
      };
      if (k.integer) one(int(0)); else one(double(0));
      if (R.viol.size()) return;
    }
  }
  if (blocks) { R.ev(C); if (top.query("blk")) bad("extra-block", "more blocks found than defined"); }
  { R.ev(C); bool thrown = false; try { CppUtils::ParaReader x(g_tmp + "/none.para"); } catch (const std::exception&) { thrown = true; } if (!thrown) R.violation(C, "missing-file", "a missing parameter file was accepted"); }
}

// ------------------------------------------------------------- convert2foam
static bool foam_list(const std::string& f, long& n, std::vector<std::string>& rows) {
  bool ok; std::string t = slurp(f, &ok); if (!ok) return false; size_t b = t.find("\n}\n"); if (b == std::string::npos) return false;
  std::istringstream is(t.substr(b + 3)); std::string l; n = -1; bool in = false; while (std::getline(is, l)) { if (l.empty()) continue; if (n < 0) { n = atol(l.c_str()); continue; } if (l == "(") { in = true; continue; } if (l == ")") return in; if (in) rows.push_back(l); } return false;
}
static void run_foam(Rng& g, Report& R) {
  const char* C = "C22"; std::string dir = g_tmp + "/foam"; mkdir(dir.c_str(), 0700); std::string cmd = "rm -rf " + dir + "/case"; if (system(cmd.c_str())) {}
  // a mesh with several markers, possibly merged from two
  std::string txt; double z = g.p(.5) ? 1.0 : std::round(g.u(.1, 9) * 100) / 100; R.step("generate"); int id = g.i(0, 9);
  { T::MeshGenerator G; GenOpt o; o.target = g.pick(std::vector<int>{2, 20, 80, 200}); Spec sp = gen_well_posed(g, o); if (g.p(.5)) for (auto& r : sp.rings) if (r.build < 5) for (auto& c : r.colors) c = g.i(0, 30);
    R.line("DESC\tconvert2foam " + sp.desc); Built b = build_domain(sp); T::Mesh& m = G.new_mesh(*b.dom, id, sp.color); G.triangulation(m).generate_elements(); if (!T::MeshChecker(m, *b.dom).check_completeness()) { R.st("foam.incomplete"); return; }
    if (g.p(.5)) G.tri2quad_modification(m).modify(); if (g.p(.2)) G.quad_refinement(m).refine(); if (g.p(.3)) G.mixed_smoothing(m).smooth(1);
    if (!G.write_mesh(m, dir + "/m", T::MeshExportType::TXT)) { R.violation(C, "foam-input", "no mesh file"); return; } txt = slurp(dir + "/m.txt"); }
  TxtFile t = parse_txt(txt); if (!t.ok) { R.violation(C, "foam-input", t.why); return; } Snap s = snap_of_txt(t); R.h(s.hash());
  R.step("convert"); std::string out; std::vector<std::string> a{"python3-vt", env("TQH_REPO", "/repo") + "/scripts/convert2foam.py", "m.txt", "case"}; if (z != 1.0) { a.push_back(g.p(.5) ? "-e" : "--extrusion"); a.push_back(fmt("%.2f", z)); }
  int st = spawn(a, dir, out); R.ev(C); if (!WIFEXITED(st) || WEXITSTATUS(st)) { R.violation(C, "foam-failed", "convert2foam failed: " + out.substr(out.size() > 400 ? out.size() - 400 : 0)); return; }
  std::string pm = dir + "/case/constant/polyMesh/"; long np, nf, no, nn, nbd; std::vector<std::string> pr, fr, own, nei, br;
  if (!foam_list(pm + "points", np, pr) || !foam_list(pm + "faces", nf, fr) || !foam_list(pm + "owner", no, own) || !foam_list(pm + "neighbour", nn, nei) || !foam_list(pm + "boundary", nbd, br)) { R.violation(C, "foam-format", "a polyMesh file is missing or has no list"); return; }
  auto bad = [&](const char* k, const std::string& m) { R.violation(C, k, m); };
  R.ev(C, 8); size_t nv = s.V.size(), ne = s.E.size();
  if (np != long(pr.size()) || nf != long(fr.size()) || no != long(own.size()) || nn != long(nei.size())) bad("foam-counts", "a list has another length than it announces");
  std::vector<std::array<double, 3>> P3; for (auto& l : pr) { std::array<double, 3> p; if (sscanf(l.c_str(), "(%lf %lf %lf)", &p[0], &p[1], &p[2]) != 3) { bad("foam-point", l); return; } P3.push_back(p); }
  if (P3.size() != 2 * nv) { bad("foam-points", fmt("%zu points for %zu vertices", P3.size(), nv)); return; }
  for (size_t i = 0; i < 2 * nv; ++i) { auto& p = P3[i]; auto& v = s.V[i % nv]; auto nr = [](double a, double b) { return std::fabs(a - b) <= 5.1e-6 * std::max(1.0, std::fabs(b)) ; }; if (!nr(p[0], v.x) || !nr(p[1], v.y) || std::fabs(p[2] - (i < nv ? 0 : z)) > 1e-5 * z) { bad("foam-point-value", fmt("point %zu is (%g %g %g), vertex (%g %g)", i, p[0], p[1], p[2], v.x, v.y)); break; } }
  std::vector<std::vector<int>> F; for (auto& l : fr) { int n, c = 0; if (sscanf(l.c_str(), "%d(%n", &n, &c) != 1 || n < 3 || n > 4) { bad("foam-face", l); return; } std::vector<int> f; const char* q = l.c_str() + c; for (int i = 0; i < n; ++i) { char* e; f.push_back(int(strtol(q, &e, 10))); q = e; } if (*q != ')') { bad("foam-face", l); return; } for (int v : f) if (v < 0 || v >= int(2 * nv)) { bad("foam-face-index", l); return; } F.push_back(f); }
  auto use = edge_use(s); size_t ni = 0, nb = 0; for (auto& u : use) (u.second.n == 2 ? ni : nb)++;
  if (F.size() != ni + nb + 2 * ne || own.size() != F.size() || nei.size() != ni) { bad("foam-face-count", fmt("%zu faces, %zu owners, %zu neighbours for %zu interior, %zu boundary edges, %zu elements", F.size(), own.size(), nei.size(), ni, nb, ne)); return; }
  // faces: prisms over the elements. every cell is closed, normals point from owner to neighbour
  std::vector<std::array<double, 3>> sum(ne, {0, 0, 0}); std::vector<double> vol(ne, 0); std::vector<int> cnt(ne, 0); std::set<std::vector<int>> seen; std::vector<std::vector<int>> cellset(ne);
  for (size_t i = 0; i < F.size(); ++i) {
    int o = atoi(own[i].c_str()), n = i < nei.size() ? atoi(nei[i].c_str()) : -1; if (o < 0 || o >= int(ne) || n >= int(ne) || (i < nei.size() && n <= o)) { bad("foam-owner", fmt("face %zu has owner %d and neighbour %d", i, o, n)); return; }
    auto k = F[i]; std::sort(k.begin(), k.end()); if (!seen.insert(k).second) { bad("foam-face-twice", fmt("face %zu is listed twice", i)); return; }
    std::array<double, 3> A{0, 0, 0}, c{0, 0, 0}; for (int v : F[i]) for (int d = 0; d < 3; ++d) c[d] += P3[v][d] / F[i].size();
    for (size_t j = 0; j < F[i].size(); ++j) { auto& p = P3[F[i][j]]; auto& q = P3[F[i][(j + 1) % F[i].size()]]; double a1 = p[0] - c[0], a2 = p[1] - c[1], a3 = p[2] - c[2], b1 = q[0] - c[0], b2 = q[1] - c[1], b3 = q[2] - c[2]; A[0] += .5 * (a2 * b3 - a3 * b2); A[1] += .5 * (a3 * b1 - a1 * b3); A[2] += .5 * (a1 * b2 - a2 * b1); }
    double fl = A[0] * c[0] + A[1] * c[1] + A[2] * c[2];
    for (int d = 0; d < 3; ++d) sum[o][d] += A[d]; vol[o] += fl / 3; cnt[o]++; cellset[o].insert(cellset[o].end(), F[i].begin(), F[i].end()); if (n >= 0) { for (int d = 0; d < 3; ++d) sum[n][d] -= A[d]; vol[n] -= fl / 3; cnt[n]++; cellset[n].insert(cellset[n].end(), F[i].begin(), F[i].end()); }
  }
  double Dm = s.diam() + 50;
  for (size_t k = 0; k < ne; ++k) { R.ev(C, 3);
    double ar = (double)poly_area(s.pts(s.E[k])); if (std::fabs(sum[k][0]) + std::fabs(sum[k][1]) + std::fabs(sum[k][2]) > 1e-3 * Dm * (z + 1) * 1e-1 + 1e-9) { bad("foam-open-cell", fmt("cell %zu is not closed", k)); break; }
    if (std::fabs(vol[k] - ar * z) > 1e-3 * Dm * (z + 1)) { bad("foam-volume", fmt("cell %zu has volume %g, expected %g", k, vol[k], ar * z)); break; }
    if (cnt[k] != int(s.E[k].v.size()) + 2) { bad("foam-cell-faces", fmt("cell %zu has %d faces", k, cnt[k])); break; }
    std::set<int> vs(cellset[k].begin(), cellset[k].end()), w; for (int v : s.E[k].v) { w.insert(v); w.insert(v + int(nv)); } if (vs != w) { bad("foam-cell-vertices", fmt("cell %zu does not use the vertices of element %zu", k, k)); break; } }
  // exact orientation of the side faces: (a,b,b',a') with the owner to the left of a->b
  for (size_t i = 0; i < ni + nb; ++i) { R.ev(C); std::vector<int> lo, hi; for (int v : F[i]) (v < int(nv) ? lo : hi).push_back(v); if (F[i].size() != 4 || lo.size() != 2 || hi.size() != 2 || std::set<int>{lo[0] + int(nv), lo[1] + int(nv)} != std::set<int>(hi.begin(), hi.end())) { bad("foam-side-face", fmt("face %zu is no prism side", i)); break; }
    int a1 = -1, b1 = -1; for (int j = 0; j < 4; ++j) if (F[i][j] < int(nv) && F[i][(j + 1) % 4] < int(nv)) { a1 = F[i][j]; b1 = F[i][(j + 1) % 4]; } if (a1 < 0) { bad("foam-side-face", fmt("face %zu has a twisted vertex order", i)); break; }
    int l, r; lr(use, a1, b1, l, r); int o = atoi(own[i].c_str()), n = i < nei.size() ? atoi(nei[i].c_str()) : -1; if (l != o || r != n) { bad("foam-side-orientation", fmt("face %zu from %d to %d has owner %d and neighbour %d, the mesh has %d and %d", i, a1, b1, o, n, l, r)); break; } }
  for (size_t i = ni + nb; i < F.size(); ++i) { bool top = F[i][0] >= int(nv); double ar = 0; size_t m = F[i].size(); for (size_t j = 0; j < m; ++j) { auto& p = P3[F[i][j]]; auto& q = P3[F[i][(j + 1) % m]]; ar += p[0] * q[1] - q[0] * p[1]; } R.ev(C); size_t o = atoi(own[i].c_str()); double real = (double)poly_area(s.pts(s.E[o])); if (real > 1e-4 * Dm && (ar > 0) != top) { bad("foam-cap-orientation", fmt("face %zu points into the cell", i)); break; } if (top != (i >= ni + nb + ne)) { bad("foam-cap-order", "base and top faces are mixed"); break; } }
  // patches
  struct Pt { std::string n; long nf = -1, sf = -1; }; std::vector<Pt> pt; for (auto& l : br) { char nm[64]; long v; std::string q = l; while (!q.empty() && q[0] == ' ') q.erase(0, 1); if (sscanf(q.c_str(), "nFaces %ld", &v) == 1) { if (pt.size()) pt.back().nf = v; } else if (sscanf(q.c_str(), "startFace %ld", &v) == 1) { if (pt.size()) pt.back().sf = v; } else if (q[0] != '{' && q[0] != '}' && q.compare(0, 4, "type") && sscanf(q.c_str(), "%60s", nm) == 1) pt.push_back({nm, -1, -1}); }
  std::map<int, std::set<EK>> mk; for (auto& e : t.sec["BOUNDARYEDGES"]) mk[int(e[3])].insert(ek(int(e[0]), int(e[1])));
  R.ev(C, 3); if (nbd != long(pt.size()) || pt.size() != mk.size() + 2) { bad("foam-patch-count", fmt("%zu patches for %zu markers", pt.size(), mk.size())); return; }
  long start = long(ni); size_t pi = 0; std::set<std::string> names;
  for (auto& m : mk) { auto& p = pt[pi++]; R.ev(C); names.insert(p.n); if (p.sf != start || p.nf != long(m.second.size())) { bad("foam-patch", fmt("patch %s for marker %d has %ld faces from %ld, expected %zu from %ld", p.n.c_str(), m.first, p.nf, p.sf, m.second.size(), start)); return; } for (long i = p.sf; i < p.sf + p.nf; ++i) { std::vector<int> lo; for (int v : F[i]) if (v < int(nv)) lo.push_back(v); if (lo.size() != 2 || !m.second.count(ek(lo[0], lo[1]))) { bad("foam-patch-face", fmt("face %ld of patch %s is not on an edge with marker %d", i, p.n.c_str(), m.first)); return; } } start += p.nf; }
  for (int q = 0; q < 2; ++q) { auto& p = pt[pi++]; names.insert(p.n); if (p.sf != start || p.nf != long(ne)) { bad("foam-patch-caps", fmt("patch %s has %ld faces from %ld", p.n.c_str(), p.nf, p.sf)); return; } start += p.nf; }
  if (names.size() != pt.size()) bad("foam-patch-name", "patches share a name");
  R.st("foam.cells", long(ne)); R.st("foam.patches", long(pt.size())); R.st("foam.converted");
}

static bool run_case(const std::string& prof, Rng& g, Report& R) {
  CppUtils::LOG_PROPERTIES.set_level(CppUtils::ERROR);
  if (prof == "para") run_para(g, R);
  else if (prof == "foam") run_foam(g, R);
  else return false;
  return true;
}
int main(int argc, char** argv) { return run_main(argc, argv, run_case, g_tmp); }
