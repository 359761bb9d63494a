// Parsers and oracles for the mesh files.
#pragma once
#include "pipe.hpp"

namespace vh {

inline std::string slurp(const std::string& f, bool* ok = nullptr) {
  std::ifstream i(f, std::ios::binary); if (ok) *ok = bool(i);
  std::stringstream s; s << i.rdbuf(); return s.str();
}

// rows of a section of the text format
struct TxtFile { std::map<std::string, std::vector<std::vector<double>>> sec; std::vector<std::string> order; int id = 0; bool ok = false; std::string why; };
inline TxtFile parse_txt(const std::string& text) {
  TxtFile t; std::istringstream in(text); std::string l;
  static const std::vector<std::string> names{"VERTICES", "INTERIOREDGES", "BOUNDARYEDGES", "INTERFACEEDGES", "FRONT", "QUADS", "TRIANGLES", "QUADNEIGHBORS", "TRIANGLENEIGHBORS", "SIZEFUNCTION"};
  if (!std::getline(in, l) || sscanf(l.c_str(), "MESH %d", &t.id) != 1) { t.why = "no MESH line"; return t; }
  while (std::getline(in, l)) {
    char nm[64]; long n;
    if (sscanf(l.c_str(), "%60s %ld", nm, &n) != 2) { t.why = "unexpected line: " + l; return t; }
    if (std::find(names.begin(), names.end(), nm) == names.end()) { t.why = std::string("unknown section ") + nm; return t; }
    if (t.sec.count(nm)) { t.why = std::string("repeated section ") + nm; return t; }
    auto& rows = t.sec[nm]; t.order.push_back(nm);
    for (long i = 0; i < n; ++i) {
      if (!std::getline(in, l)) { t.why = std::string("truncated section ") + nm; return t; }
      std::vector<double> r; const char* p = l.c_str();
      for (;;) {
        char* e; double v = strtod(p, &e);
        if (e == p) { t.why = std::string("unreadable number in section ") + nm + ": " + l; return t; }
        r.push_back(v); p = e; while (*p == ' ') ++p;
        if (*p == ',') ++p; else break;
      }
      if (*p) { t.why = std::string("trailing text in section ") + nm + ": " + l; return t; }
      rows.push_back(r);
    }
  }
  for (auto& n : names) if (!t.sec.count(n)) { t.why = "missing section " + n; return t; }
  t.ok = true; return t;
}
// data arrays of the VTU format have six significant digits
inline bool near6(double a, double b) { return std::fabs(a - b) <= 5e-6 + 1e-5 * std::fabs(b); }
inline bool near5(double a, double b) { return std::fabs(a - b) <= 5.0001e-6 + 1e-14 * std::fabs(b); }

// expected connectivity of a snapshot
struct Conn { std::map<EK, EdgeUse> use; };
inline void lr(const std::map<EK, EdgeUse>& use, int a, int b, int& l, int& r) {
  l = r = -1; auto it = use.find(ek(a, b)); if (it == use.end()) return;
  for (int k = 0; k < std::min(2, it->second.n); ++k) ((it->second.fwd[k] == (a < b)) ? l : r) = it->second.e[k];
}

// iface: expected rows (v1,v2,left,neighbour element,neighbour colour), sorted
inline void check_txt(const std::string& text, const Snap& s, int id, const std::vector<std::vector<double>>& iface,
                      const std::function<double(P)>& size, Report& R, const char* prop) {
  TxtFile t = parse_txt(text);
  R.ev(prop);
  if (!t.ok) { R.violation(prop, "txt-format", t.why); return; }
  auto bad = [&](const char* k, const std::string& m) { R.violation(prop, k, m); };
  if (t.id != id) bad("txt-id", fmt("mesh id %d written as %d", id, t.id));
  auto& V = t.sec["VERTICES"];
  if (V.size() != s.V.size()) bad("txt-vertex-count", fmt("%zu vertices, file lists %zu", s.V.size(), V.size()));
  else for (size_t i = 0; i < V.size(); ++i) if (V[i].size() != 2 || !near5(V[i][0], s.V[i].x) || !near5(V[i][1], s.V[i].y)) { bad("txt-vertex", fmt("vertex %zu %s written wrongly", i, pstr(s.V[i]).c_str())); break; }
  auto use = edge_use(s); bool nm = false; std::set<EK> bk; for (auto& e : s.B) bk.insert(ek(e.a, e.b));
  // only in meshes reported incomplete: left/right and neighbours are not defined for overlapping elements
  for (auto& u : use) if (u.second.n > 2 || (u.second.n == 2 && (u.second.fwd[0] == u.second.fwd[1] || bk.count(u.first)))) nm = true;
  auto rows = [](std::vector<std::vector<double>> v) { std::sort(v.begin(), v.end()); return v; };
  std::vector<std::vector<double>> ie, be, fe, q, tr, qn, tn;
  for (auto& e : s.I) { int l, r; lr(use, e.a, e.b, l, r); if (l >= 0 && r >= 0) ie.push_back({double(e.a), double(e.b), double(l), double(r)}); else fe.push_back({double(e.a), double(e.b), -1}); }
  for (auto& e : s.B) { int l, r; lr(use, e.a, e.b, l, r); if (l >= 0) be.push_back({double(e.a), double(e.b), double(l), double(e.color)}); else fe.push_back({double(e.a), double(e.b), -1}); }
  if (!nm && rows(t.sec["INTERIOREDGES"]) != rows(ie)) bad("txt-interior-edges", fmt("interior edges differ from the mesh (%zu rows, expected %zu)", t.sec["INTERIOREDGES"].size(), ie.size()));
  if (!nm && rows(t.sec["BOUNDARYEDGES"]) != rows(be)) bad("txt-boundary-edges", fmt("boundary edges differ from the mesh (%zu rows, expected %zu)", t.sec["BOUNDARYEDGES"].size(), be.size()));
  if (!nm && rows(t.sec["FRONT"]) != rows(fe)) bad("txt-front", fmt("front edges differ from the mesh (%zu rows, expected %zu)", t.sec["FRONT"].size(), fe.size()));
  if (rows(t.sec["INTERFACEEDGES"]) != rows(iface)) {
    std::string d; auto a = rows(t.sec["INTERFACEEDGES"]), b = rows(iface);
    for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (a[i] != b[i]) { for (double x : a[i]) d += fmt("%g ", x); d += "instead of "; for (double x : b[i]) d += fmt("%g ", x); break; }
    bad("txt-interface-edges", fmt("interface edges differ (%zu rows, expected %zu) ", a.size(), b.size()) + d);
  }
  for (size_t k = 0; k < s.E.size(); ++k) {
    auto& v = s.E[k].v; std::vector<double> r(v.begin(), v.end()); r.push_back(s.E[k].color); (v.size() == 4 ? q : tr).push_back(r);
    std::vector<double> nb(v.size());
    for (size_t i = 0; i < v.size(); ++i) {
      auto& u = use[ek(v[i], v[(i + 1) % v.size()])]; double o = u.n == 2 ? (u.e[0] == int(k) ? u.e[1] : u.e[0]) : -1;
      nb[(i + v.size() - 1) % v.size()] = o;
    }
    (v.size() == 4 ? qn : tn).push_back(nb);
  }
  if (t.sec["QUADS"] != q) bad("txt-quads", "quads differ from the mesh");
  if (t.sec["TRIANGLES"] != tr) bad("txt-triangles", "triangles differ from the mesh");
  if (!nm && t.sec["QUADNEIGHBORS"] != qn) bad("txt-quad-neighbors", "neighbours of quads differ from the mesh");
  if (!nm && t.sec["TRIANGLENEIGHBORS"] != tn) {
    std::string d; auto& a = t.sec["TRIANGLENEIGHBORS"]; for (size_t i = 0; i < std::min(a.size(), tn.size()); ++i) if (a[i] != tn[i]) { d = fmt(" triangle %zu: ", i); for (double x : a[i]) d += fmt("%g ", x); d += "instead of "; for (double x : tn[i]) d += fmt("%g ", x); break; }
    bad("txt-triangle-neighbors", "neighbours of triangles differ from the mesh" + d); }
  auto& F = t.sec["SIZEFUNCTION"];
  if (F.size() != s.V.size()) bad("txt-size-count", fmt("%zu size function values for %zu vertices", F.size(), s.V.size()));
  else if (size) for (size_t i = 0; i < F.size(); ++i) if (F[i].size() != 1 || !near5(F[i][0], size(s.V[i]))) { bad("txt-size", fmt("size function at vertex %zu written as %g, is %g", i, F[i][0], size(s.V[i]))); break; }
  R.ev(prop, long(s.V.size() + s.E.size() + s.B.size() + s.I.size()));
  R.st("io.txt");
}

// --------------------------------------------------------------------- VTU
inline bool xml_array(const std::string& x, const std::string& name, std::vector<double>& v) {
  size_t p = x.find("Name=\"" + name + "\""); if (p == std::string::npos) return false;
  p = x.find('>', p); size_t e = x.find("</DataArray>", p); if (p == std::string::npos || e == std::string::npos) return false;
  std::string b = x.substr(p + 1, e - p - 1); const char* c = b.c_str(); char* n;
  for (;;) { while (*c && isspace((unsigned char)*c)) ++c; if (!*c) break; double d = strtod(c, &n); if (n == c) return false; v.push_back(d); c = n; }
  return true;
}
inline double ang(P a, P b, P c) { // at b
  P u = a - b, v = c - b; return std::atan2(std::fabs(u.x * v.y - u.y * v.x), u.x * v.x + u.y * v.y) * 180 / M_PI;
}
inline void check_vtu(const std::string& x, const Snap& s, const std::function<double(P)>& size, Report& R, const char* prop) {
  R.ev(prop); R.st("io.vtu");
  auto bad = [&](const char* k, const std::string& m) { R.violation(prop, k, m); };
  long np = -1, nc = -1; size_t p = x.find("NumberOfPoints=\""); if (p != std::string::npos) np = atol(x.c_str() + p + 16);
  p = x.find("NumberOfCells=\""); if (p != std::string::npos) nc = atol(x.c_str() + p + 15);
  if (np != long(s.V.size()) || nc != long(s.E.size())) bad("vtu-counts", fmt("header announces %ld points and %ld cells, mesh has %zu and %zu", np, nc, s.V.size(), s.E.size()));
  for (const char* tag : {"<VTKFile", "</VTKFile>", "<UnstructuredGrid", "</UnstructuredGrid>", "<Piece", "</Piece>", "<Points>", "</Points>", "<Cells>", "</Cells>", "</PointData>", "</CellData>"}) if (x.find(tag) == std::string::npos) bad("vtu-structure", std::string("missing ") + tag);
  std::vector<double> pt; p = x.find("<Points>");
  { size_t a = p == std::string::npos ? p : x.find("<DataArray", p), b = a == std::string::npos ? a : x.find('>', a), e = b == std::string::npos ? b : x.find("</DataArray>", b);
    if (e == std::string::npos) { bad("vtu-structure", "no point coordinates"); return; }
    std::istringstream is(x.substr(b + 1, e - b - 1)); double d; while (is >> d) pt.push_back(d); }
  if (pt.size() != 3 * s.V.size()) { bad("vtu-points", fmt("%zu coordinates for %zu vertices", pt.size(), s.V.size())); return; }
  for (size_t i = 0; i < s.V.size(); ++i) if (!near5(pt[3 * i], s.V[i].x) || !near5(pt[3 * i + 1], s.V[i].y) || pt[3 * i + 2] != 0) { bad("vtu-points", fmt("vertex %zu %s written wrongly", i, pstr(s.V[i]).c_str())); break; }
  std::vector<double> co, of, ty, col, sf, ql, fx, el, ma, cq;
  if (!xml_array(x, "connectivity", co) || !xml_array(x, "offsets", of) || !xml_array(x, "types", ty) || !xml_array(x, "element_color", col) || !xml_array(x, "size_function", sf) || !xml_array(x, "in_quad_layer", ql) || !xml_array(x, "fixed_vertices", fx) || !xml_array(x, "edge_length", el) || !xml_array(x, "max_angle", ma) || !xml_array(x, "cell_quality", cq)) { bad("vtu-structure", "a data array is missing or unreadable"); return; }
  std::vector<double> wc, wo, wt, wl; double o = 0;
  for (auto& e : s.E) { for (int v : e.v) wc.push_back(v); o += e.v.size(); wo.push_back(o); wt.push_back(e.v.size() == 4 ? 9 : 5); wl.push_back(e.color); }
  if (co != wc) bad("vtu-connectivity", "cell connectivity differs from the mesh");
  if (of != wo) bad("vtu-offsets", "cell offsets differ from the mesh");
  if (ty != wt) bad("vtu-types", "cell types differ from the mesh");
  if (col != wl) bad("vtu-color", "element colours differ from the mesh");
  if (sf.size() != s.V.size() || ql.size() != s.V.size() || fx.size() != s.V.size() || el.size() != s.E.size() || ma.size() != s.E.size() || cq.size() != s.E.size()) { bad("vtu-data-count", "a data array has the wrong length"); return; }
  for (size_t i = 0; i < s.V.size(); ++i) if (ql[i] != s.vql[i] || fx[i] != s.vfixed[i]) { bad("vtu-flags", fmt("flags of vertex %zu are wrong", i)); break; }
  if (size) for (size_t i = 0; i < s.V.size(); ++i) if (!near6(sf[i], size(s.V[i]))) { bad("vtu-size", fmt("size function at vertex %zu written as %g, is %g", i, sf[i], size(s.V[i]))); break; }
  for (size_t k = 0; k < s.E.size(); ++k) {
    auto q = s.pts(s.E[k]); double L = 0, A = 0; size_t n = q.size();
    for (size_t i = 0; i < n; ++i) { L = std::max(L, dist(q[i], q[(i + 1) % n])); A = std::max(A, ang(q[(i + n - 1) % n], q[i], q[(i + 1) % n])); }
    if (!near6(el[k], L)) { bad("vtu-edge-length", fmt("largest edge of cell %zu written as %g, is %g", k, el[k], L)); break; }
    if (std::fabs(ma[k] - A) > 2e-3) { bad("vtu-max-angle", fmt("largest angle of cell %zu written as %g, is %g", k, ma[k], A)); break; }
  }
  R.ev(prop, long(s.V.size() + s.E.size()));
}

} // namespace vh
