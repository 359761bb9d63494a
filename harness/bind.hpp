// Binding between specifications and the library under test (public API only).
#pragma once
#include "gen.hpp"
#include <iostream>
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <stdlib.h>
#include <fstream>
#include <sstream>
#include "TQMesh.h"

namespace vh {
namespace T = TQMesh;
using CppUtils::Vec2d;

inline Vec2d V2(P p) { return Vec2d{p.x, p.y}; }

inline std::string g_tmp = "/tmp";   // scratch directory of this process

struct Built {
  std::unique_ptr<T::Domain> dom;
  std::vector<T::Vertex*> fv;
  std::vector<std::vector<T::Vertex*>> rv;
};

inline std::string write_csv(const std::vector<P>& p, const std::vector<int>& c, const std::vector<std::array<double, 2>>& pr) {
  static int n = 0;
  std::string f = fmt("%s/b%d.csv", g_tmp.c_str(), n++);
  FILE* o = fopen(f.c_str(), "w");
  for (size_t i = 0; i < p.size(); ++i) fprintf(o, "%.17g, %.17g, %d, %.17g, %.17g\n", p[i].x, p[i].y, c[i], pr[i][0], pr[i][1]);
  fclose(o);
  return f;
}

// The listing the user gives for a ring: possibly reversed and rotated; the
// marker at position i belongs to the edge from point i to point i+1.
inline void listing(const Ring& r, std::vector<P>& p, std::vector<int>& c, std::vector<std::array<double, 2>>& pr) {
  size_t n = r.pts.size();
  bool rev = r.build == 2 || r.build == 4;
  p.clear(); c.clear(); pr.clear();
  for (size_t k = 0; k < n; ++k) {
    size_t i = (k + r.rot) % n;
    if (!rev) { p.push_back(r.pts[i]); c.push_back(r.colors[i]); pr.push_back(r.props[i]); }
    else { size_t a = n - 1 - i; p.push_back(r.pts[a]); c.push_back(r.colors[(a + n - 1) % n]); pr.push_back(r.props[a]); }
  }
}

inline Built build_domain(const Spec& s, double qscale = 10000.0, size_t qitems = 100, size_t qdepth = 25) {
  Built b;
  SizeFn f = s.f;
  b.dom = std::make_unique<T::Domain>([f](const Vec2d& p) { return f(P{p.x, p.y}); }, qscale, qitems, qdepth);
  T::Domain& D = *b.dom;
  for (auto& r : s.rings) {
    T::Boundary& B = r.exterior ? D.add_exterior_boundary() : D.add_interior_boundary();
    std::vector<T::Vertex*> vs;
    Vec2d c{r.sp[2], r.sp[3]};
    double ms = r.props[0][0], mr = r.props[0][1];
    if (r.build == 0) {
      size_t n = r.pts.size();
      for (size_t k = 0; k < n; ++k) { size_t i = (k + r.rot) % n; vs.push_back(&D.add_vertex(r.pts[i].x, r.pts[i].y, r.props[i][0], r.props[i][1])); }
      for (size_t k = 0; k < n; ++k) B.add_edge(*vs[k], *vs[(k + 1) % n], r.colors[(k + r.rot) % n]);
    } else if (r.build <= 4) {
      std::vector<P> p; std::vector<int> col; std::vector<std::array<double, 2>> pr;
      listing(r, p, col, pr);
      if (r.build <= 2) {
        std::vector<Vec2d> vp, vr; for (auto& q : p) vp.push_back(V2(q)); for (auto& q : pr) vr.push_back(Vec2d{q[0], q[1]});
        B.set_shape_from_coordinates(vp, col, vr);
      } else B.set_shape_from_csv(write_csv(p, col, pr));
    } else if (r.build == 5) B.set_shape_rectangle(r.colors[0], c, r.sp[0], r.sp[1], ms, mr);
    else if (r.build == 6) B.set_shape_circle(r.colors[0], c, r.sp[0], size_t(r.sp[1]), ms, mr);
    else if (r.build == 7) B.set_shape_square(r.colors[0], c, r.sp[0], ms, mr);
    else if (r.build == 8) B.set_shape_triangle(r.colors[0], c, r.sp[0], ms, mr);
  }
  for (auto& v : s.fv) b.fv.push_back(&D.add_fixed_vertex(v.p.x, v.p.y, v.s, v.r));
  for (auto& e : s.fe) D.add_fixed_edge(*b.fv[e[0]], *b.fv[e[1]]);
  return b;
}

inline Snap snapshot(T::Mesh& m) {
  Snap s;
  std::unordered_map<const void*, int> id;
  for (const auto& v : m.vertices()) {
    id[v.get()] = int(s.V.size());
    s.V.push_back({v->xy().x, v->xy().y});
    s.vfixed.push_back(v->is_fixed()); s.vbdry.push_back(v->on_boundary()); s.vql.push_back(v->in_quad_layer());
  }
  auto ix = [&](const void* p) { auto it = id.find(p); return it == id.end() ? -1 : it->second; };
  for (const auto& q : m.quads()) { SElem e; for (size_t i = 0; i < 4; ++i) e.v.push_back(ix(&q->vertex(i))); e.color = q->color(); s.E.push_back(e); }
  s.nq = s.E.size();
  for (const auto& q : m.triangles()) { SElem e; for (size_t i = 0; i < 3; ++i) e.v.push_back(ix(&q->vertex(i))); e.color = q->color(); s.E.push_back(e); }
  s.nt = s.E.size() - s.nq;
  for (const auto& e : m.boundary_edges()) { SEdge x; x.a = ix(&e->v1()); x.b = ix(&e->v2()); x.color = e->color(); x.fixed = e->is_fixed(); x.ghost = e->is_ghost(); x.twin = e->twin_edge() != nullptr; s.B.push_back(x); }
  for (const auto& e : m.interior_edges()) { SEdge x; x.a = ix(&e->v1()); x.b = ix(&e->v2()); x.color = e->color(); x.fixed = e->is_fixed(); x.ghost = e->is_ghost(); s.I.push_back(x); }
  return s;
}

} // namespace vh
