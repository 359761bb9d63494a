// Workloads for the numeric helpers and for logging.
#pragma once
#include "units2.hpp"
#include "Matrix.h"

namespace vh {

// ------------------------------------------- vectors, matrices, helpers (C27)
template <class TT, size_t N> inline void vec_case(Rng& g, Report& R, const char* C, const std::function<TT()>& val) {
  typedef CppUtils::VecND<TT, N> V; typedef std::array<TT, N> A; A a, b; TT c = val();
  for (size_t i = 0; i < N; ++i) { a[i] = val(); b[i] = val(); }
  if (g.p(.2)) b = a; if (g.p(.1)) for (auto& x : b) x = -x; if (g.p(.1)) a[g.i(0, int(N) - 1)] = 0;
  const V x(a), y(b); double m = 1; for (size_t i = 0; i < N; ++i) m = std::max({m, std::fabs(double(a[i])), std::fabs(double(b[i]))});
  auto bad = [&](const char* op) { std::string s; for (auto q : a) s += fmt(" %.17g", double(q)); s += " /"; for (auto q : b) s += fmt(" %.17g", double(q)); R.violation(C, std::string("vec-") + op, fmt("%zu components: wrong result of ", N) + op + " for" + s + fmt(" / %.17g", double(c))); };
  auto cmp = [&](const V& v, const std::function<TT(size_t)>& f, const char* op) { R.ev(C); for (size_t i = 0; i < N; ++i) if (!(v[i] == f(i))) { bad(op); return; } };
  cmp(x + y, [&](size_t i) { return TT(a[i] + b[i]); }, "+"); cmp(x - y, [&](size_t i) { return TT(a[i] - b[i]); }, "-"); cmp(x * y, [&](size_t i) { return TT(a[i] * b[i]); }, "*"); cmp(-x, [&](size_t i) { return TT(-a[i]); }, "negation");
  cmp(x + c, [&](size_t i) { return TT(a[i] + c); }, "+scalar"); cmp(c + x, [&](size_t i) { return TT(a[i] + c); }, "scalar+"); cmp(x - c, [&](size_t i) { return TT(a[i] - c); }, "-scalar");
  cmp(x * c, [&](size_t i) { return TT(a[i] * c); }, "*scalar"); cmp(c * x, [&](size_t i) { return TT(a[i] * c); }, "scalar*");
  bool nz = c != 0; for (auto q : b) nz &= q != 0;
  if (nz) { cmp(x / y, [&](size_t i) { return TT(a[i] / b[i]); }, "/"); cmp(x / c, [&](size_t i) { return TT(a[i] / c); }, "/scalar"); }
  { V v(x); v += y; cmp(v, [&](size_t i) { return TT(a[i] + b[i]); }, "+="); v = x; v -= y; cmp(v, [&](size_t i) { return TT(a[i] - b[i]); }, "-="); v = x; v *= y; cmp(v, [&](size_t i) { return TT(a[i] * b[i]); }, "*="); v = x; v += c; cmp(v, [&](size_t i) { return TT(a[i] + c); }, "+=scalar"); v = x; v -= c; cmp(v, [&](size_t i) { return TT(a[i] - c); }, "-=scalar"); v = x; v *= c; cmp(v, [&](size_t i) { return TT(a[i] * c); }, "*=scalar");
    if (nz) { v = x; v /= y; cmp(v, [&](size_t i) { return TT(a[i] / b[i]); }, "/="); v = x; v /= c; cmp(v, [&](size_t i) { return TT(a[i] / c); }, "/=scalar"); } }
  { V v(x), w = y; V u(std::move(w)); w = v; v[0] = TT(a[0] + 1); v.x = TT(a[0] + 2); cmp(w, [&](size_t i) { return a[i]; }, "copy"); cmp(u, [&](size_t i) { return b[i]; }, "move"); cmp(v, [&](size_t i) { return i ? a[i] : TT(a[0] + 2); }, "component access"); std::vector<V> L; for (int k = 0; k < 5; ++k) L.push_back(k % 2 ? x : y); L.erase(L.begin()); cmp(L[0], [&](size_t i) { return a[i]; }, "copy in containers"); L[0].y = c; R.ev(C); if (!(L[0][1] == c) || !(L[2][1] == a[1])) bad("access in containers"); }
  if (x.x != a[0] || x.y != a[1]) bad("x/y");
  double d = 0, n2 = 0, e = 1e-13 * N * m * m; for (size_t i = 0; i < N; ++i) d += double(a[i]) * double(b[i]), n2 += double(a[i]) * double(a[i]);
  R.ev(C, 8);
  if (!(std::fabs(double(CppUtils::dot(x, y)) - d) <= e) || !(std::fabs(double(x.dot(y)) - d) <= e)) bad("dot");
  if (!(std::fabs(double(x.norm_sqr()) - n2) <= e)) bad("norm_sqr");
  if (std::is_floating_point<TT>::value && !(std::fabs(double(x.norm()) - std::sqrt(n2)) <= 1e-13 * N * m)) bad("norm");
  double s = 0, pr = 1; for (auto q : a) s += double(q), pr *= double(q); if (!(std::fabs(double(x.sum()) - s) <= 1e-13 * N * m)) bad("sum"); if (!(std::fabs(double(x.product()) - pr) <= 1e-13 * N * std::pow(m, N))) bad("product");
  if (!(x.min() == *std::min_element(a.begin(), a.end())) || !(x.max() == *std::max_element(a.begin(), a.end()))) bad("min/max");
  bool eq = a == b; if ((x == y) != eq || (x != y) == eq || !(x == x)) bad("==");
  { V z; bool zero = true; for (auto q : a) zero &= q == 0; if (!z.is_zero() || x.is_zero() != zero) bad("is_zero"); }
  if constexpr (N == 2) { double w = double(a[0]) * b[1] - double(a[1]) * b[0]; if (!(std::fabs(double(CppUtils::cross(x, y)) - w) <= e) || !(std::fabs(double(x.cross(y)) - w) <= e)) bad("cross"); }
  if constexpr (N == 3) { double w[3] = {double(a[1]) * b[2] - double(a[2]) * b[1], double(a[2]) * b[0] - double(a[0]) * b[2], double(a[0]) * b[1] - double(a[1]) * b[0]}; auto u = CppUtils::cross(x, y); auto v = x.cross(y); for (int i = 0; i < 3; ++i) if (!(std::fabs(double(u[i]) - w[i]) <= e) || !(std::fabs(double(v[i]) - w[i]) <= e)) { bad("cross"); break; } if (x.z != a[2]) bad("z"); }
  if constexpr (std::is_same<TT, double>::value) { double l = 0; for (auto q : b) l += q * q; if (n2 > 1e-6 && l > 1e-6) { double ca = std::max(-1., std::min(1., d / std::sqrt(n2 * l))), w = std::acos(ca); R.ev(C); for (double t : {CppUtils::angle(x, y), x.angle(y)}) if (!(std::fabs(std::cos(t) - ca) <= 1e-9) || !(t >= 0 && t <= M_PI + 1e-9) || !(std::fabs(t - w) < 1e-6)) { bad("angle"); break; } } }
  R.st("math.vector"); R.h(uint64_t(std::llround(d * 1e6)));
}
inline void run_math(Rng& g, Report& R) {
  const char* C = "C27"; R.line("DESC\tvectors, matrices and numeric helpers");
  R.step("vector arithmetic");
  for (int k = 0; k < 30; ++k) {
    double sc = std::pow(10, g.i(-3, 3)); auto dv = [&]() { return g.p(.1) ? double(g.i(-3, 3)) : g.u(-sc, sc); }; auto iv = [&]() { return g.i(-50, 50); };
    switch (g.i(0, 5)) { case 0: vec_case<double, 2>(g, R, C, dv); break; case 1: vec_case<double, 3>(g, R, C, dv); break; case 2: vec_case<double, 4>(g, R, C, dv); break; case 3: vec_case<int, 2>(g, R, C, iv); break; case 4: vec_case<int, 3>(g, R, C, iv); break; case 5: vec_case<int, 4>(g, R, C, iv); break; }
  }
  R.step("matrices");
  for (int k = 0; k < 6; ++k) {
    struct M { CppUtils::Matrix<double> m; int r, c; std::vector<double> v; }; std::vector<M> L;
    auto same = [&](const M& x, const char* op) { R.ev(C); bool ok = x.m.rows() == x.r && x.m.columns() == x.c && x.m.size() == x.v.size(); if (ok) for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) ok &= x.m[i][j] == x.v[size_t(i) * x.c + j]; if (!ok) R.violation(C, std::string("matrix-") + op, fmt("a %d x %d matrix is wrong after ", x.r, x.c) + op); return ok; };
    for (int q = 0; q < 12; ++q) {
      int w = L.empty() ? 0 : g.i(0, 6); R.st("math.matrix");
      if (w <= 1) { int r = g.i(1, 5), c = g.i(1, 5); M x{CppUtils::Matrix<double>(r, c), r, c, std::vector<double>(size_t(r) * c, 0.)}; same(x, "creation"); L.push_back(x); }
      else if (w == 2) { int r = g.i(1, 5), c = g.i(1, 5); std::vector<double> d(size_t(r) * c); for (auto& x : d) x = g.u(-9, 9); L.push_back({CppUtils::Matrix<double>(d.data(), r, c), r, c, d}); }
      else if (w == 3) { M& x = L[g.i(0, int(L.size()) - 1)]; for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) x.m[i][j] = x.v[size_t(i) * x.c + j] = g.u(-9, 9); }
      else if (w == 4) { size_t i = g.i(0, int(L.size()) - 1), j = g.i(0, int(L.size()) - 1); L[i].m = L[j].m; L[i].r = L[j].r; L[i].c = L[j].c; auto t = L[j].v; L[i].v = t; }
      else if (w == 5 && L.size() > 1) { size_t i = g.i(0, int(L.size()) - 1), j = (i + g.i(1, int(L.size()) - 1)) % L.size(); L[i].m.swap(L[j].m); std::swap(L[i].r, L[j].r); std::swap(L[i].c, L[j].c); std::swap(L[i].v, L[j].v); if (!same(L[i], "swap") || !same(L[j], "swap")) break; }
      else if (w == 6) { M& x = L[g.i(0, int(L.size()) - 1)]; int r = x.r + g.i(0, 3); x.m.resize(r, x.c); x.r = r; x.v.resize(size_t(r) * x.c, 0.); same(x, "resize"); }
      bool ok = true; for (auto& x : L) ok &= same(x, "a sequence of operations"); if (!ok) break;
    }
  }
  R.step("helpers");
  for (int k = 0; k < 20; ++k) {
    double a = g.u(-5, 5), b = g.p(.2) ? a : g.u(-5, 5), lo = std::min(a, b), hi = std::max(a, b), x = g.u(-9, 9); int n = g.i(-100, 100), M = g.i(1, 17); R.ev(C, 6); R.st("math.helper");
    auto bad = [&](const char* s) { R.violation(C, std::string("helper-") + s, fmt("%s is wrong for %.17g %.17g %.17g %d %d", s, a, b, x, n, M)); };
    if (CppUtils::MIN(a, b) != lo) bad("MIN"); if (CppUtils::MAX(a, b) != hi) bad("MAX"); if (CppUtils::ABS(a) != std::fabs(a)) bad("ABS");
    int md = CppUtils::MOD(n, M); if (md < 0 || md >= M || (n - md) % M) bad("MOD"); if (CppUtils::CLAMP(x, lo, hi) != std::min(hi, std::max(lo, x))) bad("CLAMP");
    double y = std::nextafter(a, 9), z = a * (1 + g.pick(std::vector<double>{1e-12, 1e-9, 1e-3})); if (!CppUtils::EQ(a, a) || !CppUtils::EQ(a, y) || CppUtils::EQ(a, z) || CppUtils::EQ(a, -a) || !CppUtils::EQ0(0.0) || CppUtils::EQ0(a) || CppUtils::EQ(a, b) != (a == b) || !CppUtils::EQ(a, a + .01, .02) || CppUtils::EQ(a, a + .03, .02, 0.)) bad("EQ"); for (double k : {1e-17, 1e-30, 1e-100, 1e17, 1e100}) if (!CppUtils::EQ(a * k, std::nextafter(a * k, 1e300)) || CppUtils::EQ(a * k, z * k) || CppUtils::EQ(a * k, -a * k) || CppUtils::EQ0(a * k)) { bad("EQ (small and large numbers)"); break; }
    std::vector<double> v(g.i(0, 12)); for (auto& q : v) q = g.p(.5) ? g.i(0, 4) : g.u(0, 4); auto ix = CppUtils::argsort(v); std::vector<size_t> w(v.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = i; std::stable_sort(w.begin(), w.end(), [&](size_t i, size_t j) { return v[i] < v[j]; }); R.ev(C); if (ix != w) bad("argsort");
  }
}

// ------------------------------------------------------------ logging (C28)
inline std::string no_escapes(const std::string& s, bool& any) { std::string r; any = false; for (size_t i = 0; i < s.size(); ++i) if (s[i] == 27) { any = true; while (i < s.size() && s[i] != 'm') ++i; } else r += s[i]; return r; }
inline void run_log(Rng& g, Report& R) {
  using namespace CppUtils; const char* C = "C28"; R.line("DESC\tlogging"); R.step("logging"); auto& P_ = LOG_PROPERTIES;
  std::ostringstream so[3]; std::ostream* st[3] = {&std::cout, &std::cerr, &std::clog}; std::streambuf* old[3]; for (int i = 0; i < 3; ++i) old[i] = st[i]->rdbuf(so[i].rdbuf());
  std::string want[7]; std::string files[4]; int target[4]; const LogLevel lv[4] = {ERROR, WARNING, INFO, DEBUG}; std::string head[4] = {"[ERROR] ", "[WARNING] ", "[INFO] ", "[DEBUG] "}; // 0-2 streams, 3-6 files
  int level = INFO; bool hd = true, nl = true, col = true; P_.set_level(INFO); P_.show_header(true); P_.use_newline(true); P_.use_color(true); P_.set_error_header(head[0]); P_.set_warn_header(head[1]); P_.set_info_header(head[2]); P_.set_debug_header(head[3]);
  auto set = [&](int k, OStreamType t, const std::string& f) { if (k == 0) P_.set_error_ostream(t, f); else if (k == 1) P_.set_warn_ostream(t, f); else if (k == 2) P_.set_info_ostream(t, f); else P_.set_debug_ostream(t, f); };
  for (int k = 0; k < 4; ++k) { bool file = g.p(.4); files[k] = file ? fmt("%s/log%d.txt", g_tmp.c_str(), k) : ""; target[k] = file ? 3 + k : g.i(0, 2); set(k, file ? TO_FILE : OStreamType(target[k]), files[k]); }
  long n = 0, esc = 0;
  for (int q = 0, N = g.i(5, 60); q < N; ++q) {
    int w = g.i(0, 12);
    if (w == 0) { level = g.i(0, 3); P_.set_level(lv[level]); }
    else if (w == 1) { hd = g.p(.5); P_.show_header(hd); } else if (w == 2) { nl = g.p(.7); P_.use_newline(nl); } else if (w == 3) { col = g.p(.5); P_.use_color(col); }
    else if (w == 4) { int k = g.i(0, 3); head[k] = fmt("<%d|%d> ", k, q); if (k == 0) P_.set_error_header(head[k]); else if (k == 1) P_.set_warn_header(head[k]); else if (k == 2) P_.set_info_header(head[k]); else P_.set_debug_header(head[k]); }
    else { int k = g.i(0, 3); double x = g.i(-99, 99) / 4.; std::string t = fmt("message %d of %d ", q, k); size_t before = target[k] < 3 ? so[target[k]].str().size() : 0; if (g.p(.2)) LOG(lv[k], g.pick(std::vector<LogColor>{RED, GREEN, CYAN})) << t << x << "," << q; else LOG(lv[k]) << t << x << "," << q; ++n;
      R.ev(C); std::string part = target[k] < 3 ? so[target[k]].str().substr(before) : ""; // colour codes of this message
      if (target[k] < 3 && k <= level) { size_t a = part.find('\033'), z = part.rfind('\033'), tx = part.find("message"), te = part.rfind("," + std::to_string(q)); bool ok = col ? a == 0 && z != a && z > te && tx != std::string::npos && part.compare(z, 4, "\033[0m") == 0 : a == std::string::npos; if (!ok) { R.violation(C, "log-colour", fmt("colour %s: message '%s'", col ? "on" : "off", part.c_str())); break; } }
      if (k <= level) { std::ostringstream o; if (hd) o << head[k]; o << t << x << "," << q; if (nl) o << "\n"; want[target[k]] += o.str(); } }
    if (P_.level() != lv[level]) { R.violation(C, "log-level", "the level is not the one set"); break; }
  }
  for (int k = 0; k < 4; ++k) set(k, TO_COUT, ""); // closes the files
  for (int i = 0; i < 3; ++i) st[i]->rdbuf(old[i]);
  P_.set_level(ERROR); P_.show_header(true); P_.use_newline(true); P_.use_color(true);
  for (int i = 0; i < 7; ++i) {
    if (i >= 3 && files[i - 3].empty()) continue;
    std::string got = i < 3 ? so[i].str() : slurp(files[i - 3]); bool e; std::string plain = no_escapes(got, e); R.ev(C, 2); esc += e; if (i >= 3) remove(files[i - 3].c_str());
    if (plain != want[i]) { size_t z = 0; while (z < plain.size() && z < want[i].size() && plain[z] == want[i][z]) ++z; R.violation(C, i < 3 ? "log-stream" : "log-file", fmt("output of %s differs from the messages at position %zu: '%s' instead of '%s'", i == 0 ? "cout" : i == 1 ? "cerr" : i == 2 ? "clog" : "a log file", z, plain.substr(z, 40).c_str(), want[i].substr(z, 40).c_str())); }
    if (i >= 3 && e) R.violation(C, "log-file-colour", "colour codes in a log file"); if (i < 3 && want[i].empty() && !got.empty()) R.violation(C, "log-disabled", "output for messages of disabled levels");
    R.h(std::hash<std::string>()(want[i]));
  }
  R.ev(C, n); R.st("log.messages", n); R.st("log.coloured", esc);
}

// ------------------------------------------- editing domains (C29)
inline void run_edit(Rng& g, Report& R) {
  const char* C = "C29"; GenOpt o; o.target = g.p(.5) ? 40 : 100; Spec sp = gen_well_posed(g, o); sp.fe.clear(); for (auto& r : sp.rings) { r.build = 0; r.rot = 0; }
  R.line("DESC\tedit " + sp.desc); SizeFn f = sp.f; T::Domain D([f](const Vec2d& p) { return f(P{p.x, p.y}); });
  struct B { Ring r; std::vector<T::Vertex*> v; bool decoy = false; int at = 0; }; std::vector<B> bs; // boundaries as they should be
  struct F { Spec::FV v; T::Vertex* p; bool decoy; }; std::vector<F> fs; struct FE { T::Edge* e; size_t a, b; }; std::vector<FE> fes; std::vector<T::Vertex*> loose, reuse;
  auto box = [&]() { double x0 = 1e300, x1 = -1e300, y0 = 1e300, y1 = -1e300; for (auto& r : sp.rings) for (auto& q : r.pts) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); } double w = .2 * (x1 - x0); return P{g.u(x0 - w, x1 + w), g.u(y0 - w, y1 + w)}; };
  auto fill = [&](size_t k) { B& b = bs[k]; size_t n = b.v.size(); for (size_t i = 0; i < n; ++i) D[k].add_edge(*b.v[i], *b.v[(i + 1) % n], b.r.colors[i]); };
  auto add = [&](const Ring& r, bool decoy) { B b; b.r = r; b.decoy = decoy; if (r.exterior) D.add_exterior_boundary(); else D.add_interior_boundary(); for (size_t i = 0; i < r.pts.size(); ++i) b.v.push_back(&D.add_vertex(r.pts[i].x, r.pts[i].y, r.props[i][0], r.props[i][1])); bs.push_back(b); fill(bs.size() - 1); };
  auto fresh = [&]() { Spec q = sp; q.rings.clear(); q.fv.clear(); q.fe.clear(); for (auto& b : bs) q.rings.push_back(b.r); for (auto& x : fs) q.fv.push_back(x.v); return q; };
  auto check = [&](const char* what) {
    Spec q = fresh(); R.ev(C, 4); double a = double(q.area()), sc = 0; size_t ne = 0, n = 0; for (auto& r : q.rings) { sc += std::fabs(double(poly_area(r.pts))); ne += r.pts.size(); }
    if (D.size() != bs.size()) R.violation(C, "edit-boundaries", fmt("%zu boundaries instead of %zu after ", D.size(), bs.size()) + what);
    if (!(std::fabs(D.area() - a) <= 1e-9 * (1 + sc))) { R.violation(C, "edit-area", fmt("area %.17g instead of %.17g after ", D.area(), a) + what); return false; }
    for (size_t k = 0; k < bs.size(); ++k) { B& b = bs[k]; auto& L = D[k]; size_t m = b.v.size(); if (L.size() != m) { R.violation(C, "edit-edges", fmt("%zu edges instead of %zu after ", L.size(), m) + what); return false; } n += m; if (!m) continue;
      size_t i = 0; T::Edge* e = nullptr; for (auto& x : L) { e = x.get(); if (&e->v1() != b.v[i] || &e->v2() != b.v[(i + 1) % m] || e->color() != b.r.colors[i] || !e->on_boundary()) { R.violation(C, "edit-edge", fmt("edge %zu of boundary %zu is wrong after ", i, k) + what); return false; } ++i; }
      i = g.i(0, int(m) - 1); e = L.get_edge(*b.v[i], *b.v[(i + 1) % m], true); R.ev(C, 5); auto wrong = [&](const char* fn) { R.violation(C, std::string("edit-") + fn, std::string(fn) + " of a boundary is wrong after " + what); return false; };
      if (!e || &e->v1() != b.v[i] || &e->v2() != b.v[(i + 1) % m]) return wrong("get_edge");
      if (m > 2 && (L.get_edge(*b.v[(i + 1) % m], *b.v[i], true) || L.get_edge(*b.v[(i + 1) % m], *b.v[i]) != e)) return wrong("get_edge (direction)");
      if (L.get_edge(*b.v[i], 1) != e || L.get_edge(*b.v[(i + 1) % m], 2) != e || !L.get_edge(*b.v[i], 0)) return wrong("get_edge (position)");
      T::Edge *nx = e->get_next_edge(), *pv = e->get_prev_edge(); if (!nx || &nx->v1() != b.v[(i + 1) % m] || &nx->v2() != b.v[(i + 2) % m]) return wrong("get_next_edge"); if (!pv || &pv->v2() != b.v[i] || &pv->v1() != b.v[(i + m - 1) % m]) return wrong("get_prev_edge");
      if (!L.is_traversable(*e, *pv)) return wrong("is_traversable");
      P c = box(); double dm = 1e300; for (auto& p : b.r.pts) dm = std::min(dm, dist(p, c)); auto& cv = L.get_closest_vertex(V2(c)); if (!(std::fabs(dist(P{cv.x(), cv.y()}, c) - dm) <= 1e-9 * (1 + dm))) return wrong("get_closest_vertex"); }
    if (D.fixed_vertices().size() != fs.size()) R.violation(C, "edit-fixed", fmt("%zu fixed vertices instead of %zu after ", D.fixed_vertices().size(), fs.size()) + what); if (D.fixed_edges().size() != fes.size()) R.violation(C, "edit-fixed-edges", fmt("%zu fixed edges instead of %zu after ", D.fixed_edges().size(), fes.size()) + what);
    for (size_t i = 0; i < fes.size(); ++i) if (&fes[i].e->v1() != fs[fes[i].a].p || &fes[i].e->v2() != fs[fes[i].b].p || !fes[i].e->is_fixed()) { R.violation(C, "edit-fixed-edge", std::string("a fixed edge changed after ") + what); return false; }
    for (int k = 0; k < 3; ++k) { P c = box(); double d = 1e300; for (auto& r : q.rings) for (size_t i = 0; i < r.pts.size(); ++i) d = std::min(d, dist_pt_seg(c, r.pts[i], r.pts[(i + 1) % r.pts.size()])); if (d < 1e-4) continue; bool in = true; for (auto& r : q.rings) { if (r.pts.empty()) { in &= !r.exterior; continue; } bool w = false; for (size_t i = 0, m = r.pts.size(); i < m; ++i) { P a = r.pts[i], z = r.pts[(i + 1) % m]; if ((a.y > c.y) != (z.y > c.y) && c.x < a.x + (c.y - a.y) / (z.y - a.y) * (z.x - a.x)) w = !w; } in &= r.exterior == w; } R.ev(C, 2); if (D.is_inside(V2(c)) != in) { R.violation(C, "edit-inside", fmt("(%.17g,%.17g) is %s the domain after ", c.x, c.y, in ? "not inside" : "inside") + what); return false; }
      double h = size_oracle(q, c), h2 = D.size_function(V2(c)); if (!(std::fabs(h - h2) <= 1e-9 * (1 + h))) { R.violation(C, "edit-size", fmt("size %.17g instead of %.17g after ", h2, h) + what); return false; } }
    return true; };
  std::vector<Ring> todo = sp.rings; size_t nfv = 0, ops = 0; bool ok = true; std::string log;
  auto decoy_ring = [&]() { Ring r; r.exterior = g.p(.3); int n = g.i(3, 7); P c = box(); double rad = g.u(.3, 3); for (int i = 0; i < n; ++i) { double a = 2 * M_PI * i / n + g.u(0, .3); r.pts.push_back({c.x + rad * std::cos(a), c.y + rad * std::sin(a)}); r.colors.push_back(g.i(1, 9)); r.props.push_back({g.p(.3) ? g.u(.1, 1) : 0., g.p(.3) ? g.u(.2, 1) : 0.}); } if (!r.exterior) std::reverse(r.pts.begin(), r.pts.end()); return r; };
  auto remove_b = [&](size_t k) { auto v = bs[k].v; D.remove_boundary(k); bs.erase(bs.begin() + k); return v; };
  while (ok && ops < 60) {
    ++ops; int w = g.i(0, 13); bool more = !todo.empty() || nfv < sp.fv.size(); if (!more && g.p(.1)) break; std::string what;
    if (w <= 2 && !todo.empty()) { add(todo.front(), false); todo.erase(todo.begin()); what = "adding a boundary"; }
    else if (w == 3 && nfv < sp.fv.size()) { auto& v = sp.fv[nfv++]; fs.push_back({v, &D.add_fixed_vertex(v.p.x, v.p.y, v.s, v.r), false}); what = "adding a fixed vertex"; }
    else if (w == 4) { add(decoy_ring(), true); what = "adding a further boundary"; }
    else if (w == 5) { P c = box(); double s = g.u(.1, .5), r = g.u(.2, .9); fs.push_back({{c, s, r}, &D.add_fixed_vertex(c.x, c.y, s, r), true}); what = "adding a further fixed vertex"; }
    else if (w == 6 && fs.size() > 1) { size_t a = g.i(0, int(fs.size()) - 1), b = (a + g.i(1, int(fs.size()) - 1)) % fs.size(); fes.push_back({&D.add_fixed_edge(*fs[a].p, *fs[b].p), a, b}); what = "adding a fixed edge"; }
    else if (w == 7 && !fes.empty()) { size_t i = g.i(0, int(fes.size()) - 1); D.remove_fixed_edge(*fes[i].e); fes.erase(fes.begin() + i); what = "removing a fixed edge"; }
    else if (w == 8) { std::vector<size_t> c; for (size_t i = 0; i < fs.size(); ++i) { bool u = false; for (auto& e : fes) u |= e.a == i || e.b == i; if (fs[i].decoy && !u) c.push_back(i); } if (c.empty()) continue; size_t i = g.pick(c); D.remove_fixed_vertex(*fs[i].p); fs.erase(fs.begin() + i); for (auto& e : fes) { e.a -= e.a > i; e.b -= e.b > i; } what = "removing a fixed vertex"; }
    else if (w == 9) { std::vector<size_t> c; for (size_t i = 0; i < bs.size(); ++i) if (bs[i].decoy) c.push_back(i); if (c.empty()) continue; auto v = remove_b(g.pick(c)); if (g.p(.5)) for (auto* x : v) D.remove_vertex(*x); what = "removing a boundary"; }
    else if (w == 10 && !bs.empty()) { // the last boundary is defined anew with the same vertices
      B b = bs.back(); bool clear = g.p(.5); size_t k = bs.size() - 1; if (clear) { D[k].clear_edges(); Ring r = b.r; bs[k].r.pts.clear(); bs[k].v.clear(); bs[k].r.colors.clear(); bs[k].r.props.clear(); if (!(ok = check("clearing a boundary"))) break; bs[k] = b; } else { remove_b(k); if (!(ok = check("removing the last boundary"))) break; if (b.r.exterior) D.add_exterior_boundary(); else D.add_interior_boundary(); bs.push_back(b); }
      if (bs[k].decoy) for (auto& c : bs[k].r.colors) c = g.i(1, 9); fill(k); what = "defining a boundary anew with the same vertices"; }
    else if (w == 11) { P c = box(); loose.push_back(&D.add_vertex(c.x, c.y)); what = "adding a vertex"; }
    else if (w == 12 && !loose.empty()) { D.remove_vertex(*loose.back()); loose.pop_back(); what = "removing a vertex"; }
    else if (w == 13 && !bs.empty()) { size_t k = g.i(0, int(bs.size()) - 1); B& b = bs[k]; size_t n = b.v.size(), i = g.i(0, int(n) - 1); if (n > 12 || (!b.decoy && (b.r.props[i][0] > 0) != (b.r.props[(i + 1) % n][0] > 0))) continue; /* keeps the mesh small */ T::Edge* e = D[k].get_edge(*b.v[i], *b.v[(i + 1) % n], true); if (!e) { ok = check("a search"); break; } double s = g.pick(std::vector<double>{.5, .3, .75}); auto pr = D[k].split_edge(*e, D.vertices(), s); R.ev(C); if (!pr.first || !pr.second) { R.violation(C, "edit-split", "an edge was not split"); ok = false; break; }
      T::Vertex& v = pr.first->v2(); P a = b.r.pts[i], z = b.r.pts[(i + 1) % n], m{v.x(), v.y()}; double t = dist(a, m) / dist(a, z); auto pa = b.r.props[i], pz = b.r.props[(i + 1) % n]; auto near = [](double x, double y) { return std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x)); };
      if (!(near(t, s) || near(t, 1 - s)) || dist_pt_seg(m, a, z) > 1e-9 * (1 + dist(a, z)) || &pr.second->v1() != &v || !near(v.mesh_size(), pa[0] + t * (pz[0] - pa[0])) || !near(v.size_range(), pa[1] + t * (pz[1] - pa[1]))) { R.violation(C, "edit-split", fmt("splitting an edge at %g: new vertex at %g", s, t)); ok = false; break; }
      b.r.pts.insert(b.r.pts.begin() + i + 1, m); b.v.insert(b.v.begin() + i + 1, &v); b.r.colors.insert(b.r.colors.begin() + i, b.r.colors[i]); b.r.props.insert(b.r.props.begin() + i + 1, {v.mesh_size(), v.size_range()}); what = "splitting an edge"; }
    else continue;
    R.step(what); R.st("edit.ops"); ok = check(what.c_str());
  }
  if (!ok) return;
  // put everything in place and mesh the result
  while (!todo.empty()) { add(todo.front(), false); todo.erase(todo.begin()); } for (; nfv < sp.fv.size(); ++nfv) { auto& v = sp.fv[nfv]; fs.push_back({v, &D.add_fixed_vertex(v.p.x, v.p.y, v.s, v.r), false}); }
  while (!fes.empty()) { D.remove_fixed_edge(*fes.back().e); fes.pop_back(); } for (size_t i = fs.size(); i-- > 0;) if (fs[i].decoy) { D.remove_fixed_vertex(*fs[i].p); fs.erase(fs.begin() + i); } for (size_t i = bs.size(); i-- > 0;) if (bs[i].decoy) remove_b(i);
  if (!check("the last changes")) return;
  Spec q = fresh(); Built b = build_domain(q); uint64_t s0 = g.next(); T::MeshGenerator G1, G2; Snap x = make_mesh(G1, *b.dom, q, s0, R, "mesh of a new domain"), y = make_mesh(G2, D, q, s0, R, "mesh of the edited domain"); R.ev(C); R.st("edit.meshed");
  if (x.hash() != y.hash()) R.violation(C, "edit-mesh", fmt("the edited domain gives %zu elements, a new one in the same state %zu", y.E.size(), x.E.size()));
  R.h(y.hash());
}

} // namespace vh
