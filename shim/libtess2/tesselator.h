// Stand-in for libtess2 (not available offline): slab decomposition of the region selected by the
// winding rule. Output triangles are counter-clockwise and do not overlap.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstring>
#include <map>
#include <utility>
#include <vector>
typedef float TESSreal;
typedef int TESSindex;
#define TESS_UNDEF (~(TESSindex)0)
enum TessWindingRule { TESS_WINDING_ODD, TESS_WINDING_NONZERO, TESS_WINDING_POSITIVE, TESS_WINDING_NEGATIVE, TESS_WINDING_ABS_GEQ_TWO };
enum TessElementType { TESS_POLYGONS, TESS_CONNECTED_POLYGONS, TESS_BOUNDARY_CONTOURS };
struct TESSalloc;
struct TESStesselator {
  struct P { double x, y; };
  std::vector<std::vector<P>> contours;
  std::vector<TESSreal> verts;
  std::vector<TESSindex> vidx, elems;
  int n_elems = 0;
};
inline TESStesselator* tessNewTess(TESSalloc*) { return new TESStesselator; }
inline void tessDeleteTess(TESStesselator* t) { delete t; }
inline void tessAddContour(TESStesselator* t, int size, const void* p, int stride, int count) {
  std::vector<TESStesselator::P> c;
  for (int i = 0; i < count; ++i) { float v[2]; std::memcpy(v, (const char*)p + (size_t)i * stride, sizeof v); c.push_back({v[0], v[1]}); }
  (void)size; t->contours.push_back(std::move(c));
}
inline int tessTesselate(TESStesselator* t, int rule, int, int, int, const TESSreal*) {
  using P = TESStesselator::P;
  struct E { P a, b; int w; };  // a.y < b.y
  std::vector<E> es; std::vector<double> ys; std::map<std::pair<float, float>, int> input; int n = 0;
  double lo = 1e300, hi = -1e300;
  for (auto& c : t->contours) for (auto& p : c) { if (!std::isfinite(p.x) || !std::isfinite(p.y)) return 0; input.emplace(std::pair((float)p.x, (float)p.y), n++); ys.push_back(p.y); lo = std::min({lo, p.x, p.y}); hi = std::max({hi, p.x, p.y}); }
  for (auto& c : t->contours) for (size_t i = 0; i < c.size(); ++i) { P a = c[i], b = c[(i + 1) % c.size()]; if (a.y == b.y) continue; if (a.y < b.y) es.push_back({a, b, 1}); else es.push_back({b, a, -1}); }
  for (size_t i = 0; i < es.size(); ++i) for (size_t j = 0; j < i; ++j) {
    P r{es[i].b.x - es[i].a.x, es[i].b.y - es[i].a.y}, s{es[j].b.x - es[j].a.x, es[j].b.y - es[j].a.y};
    double d = r.x * s.y - r.y * s.x; if (d == 0) continue;
    double qx = es[j].a.x - es[i].a.x, qy = es[j].a.y - es[i].a.y, u = (qx * s.y - qy * s.x) / d, v = (qx * r.y - qy * r.x) / d;
    if (u < 0 || u > 1 || v < 0 || v > 1) continue;
    ys.push_back(es[i].a.y + u * r.y);
  }
  for (double& y : ys) y = (float)y;
  std::sort(ys.begin(), ys.end()); ys.erase(std::unique(ys.begin(), ys.end()), ys.end());
  std::map<std::pair<float, float>, int> out;
  auto vert = [&](double x, double y) { auto k = std::pair((float)x, (float)y); auto [it, isnew] = out.emplace(k, (int)out.size());
    if (isnew) { t->verts.push_back(k.first); t->verts.push_back(k.second); auto f = input.find(k); t->vidx.push_back(f == input.end() ? TESS_UNDEF : f->second); } return it->second; };
  auto tri = [&](int a, int b, int c) { if (a == b || b == c || a == c) return;
    for (int v : {a, b, c}) t->elems.push_back(v);
    for (int k = 0; k < 3; ++k) t->elems.push_back(TESS_UNDEF); ++t->n_elems; };
  for (size_t s = 0; s + 1 < ys.size(); ++s) {
    double y0 = ys[s], y1 = ys[s + 1]; struct X { double x0, x1; int w; }; std::vector<X> xs;
    for (auto& e : es) { if (e.a.y > y0 || e.b.y < y1) { double m = (y0 + y1) / 2; if (!(e.a.y < m && e.b.y > m)) continue; }
      auto at = [&](double y) { return y <= e.a.y ? e.a.x : y >= e.b.y ? e.b.x : e.a.x + (e.b.x - e.a.x) * ((y - e.a.y) / (e.b.y - e.a.y)); };
      xs.push_back({at(y0), at(y1), e.w}); }
    std::stable_sort(xs.begin(), xs.end(), [](const X& a, const X& b) { return a.x0 + a.x1 < b.x0 + b.x1; });
    int w = 0;
    for (size_t i = 0; i + 1 < xs.size(); ++i) { w += xs[i].w;
      bool in = rule == TESS_WINDING_ODD ? (w & 1) : rule == TESS_WINDING_NONZERO ? w != 0 : rule == TESS_WINDING_POSITIVE ? w > 0 : rule == TESS_WINDING_NEGATIVE ? w < 0 : std::abs(w) >= 2;
      if (!in) continue;
      if (xs[i].x0 == xs[i + 1].x0 && xs[i].x1 == xs[i + 1].x1) continue;
      int a = vert(xs[i].x0, y0), b = vert(xs[i + 1].x0, y0), c = vert(xs[i + 1].x1, y1), d = vert(xs[i].x1, y1);
      tri(a, b, c); tri(a, c, d); }
  }
  std::map<std::pair<int, int>, int> edge;
  for (int e = 0; e < t->n_elems; ++e) for (int k = 0; k < 3; ++k) edge[{t->elems[6 * e + k], t->elems[6 * e + (k + 1) % 3]}] = e;
  for (int e = 0; e < t->n_elems; ++e) for (int k = 0; k < 3; ++k) { auto f = edge.find({t->elems[6 * e + (k + 1) % 3], t->elems[6 * e + k]}); if (f != edge.end()) t->elems[6 * e + 3 + k] = f->second; }
  return 1;
}
inline int tessGetVertexCount(TESStesselator* t) { return (int)t->vidx.size(); }
inline const TESSreal* tessGetVertices(TESStesselator* t) { return t->verts.data(); }
inline const TESSindex* tessGetVertexIndices(TESStesselator* t) { return t->vidx.data(); }
inline int tessGetElementCount(TESStesselator* t) { return t->n_elems; }
inline const TESSindex* tessGetElements(TESStesselator* t) { return t->elems.data(); }
