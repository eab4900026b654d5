// Printing of geometry values in counterexamples.
#pragma once
#include "engine/pbt.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/point.h"
#include "ink/geometry/quad.h"
#include "ink/geometry/rect.h"
#include "ink/geometry/segment.h"
#include "ink/geometry/triangle.h"
#include "ink/geometry/vec.h"
namespace ink {
inline std::string pbt_show(const Vec& v) { return "<" + pbt::Show(v.x) + ", " + pbt::Show(v.y) + ">"; }
inline std::string pbt_show(const Point& v) { return "(" + pbt::Show(v.x) + ", " + pbt::Show(v.y) + ")"; }
inline std::string pbt_show(const Segment& v) { return pbt_show(v.start) + "->" + pbt_show(v.end); }
inline std::string pbt_show(const Triangle& v) { return "tri" + pbt_show(v.p0) + pbt_show(v.p1) + pbt_show(v.p2); }
inline std::string pbt_show(const Rect& r) { return pbt::Cat("rect[", r.XMin(), ", ", r.YMin(), " .. ", r.XMax(), ", ", r.YMax(), "]"); }
inline std::string pbt_show(const Quad& q) { return pbt::Cat("quad[", q.Center().x, ", ", q.Center().y, " w ", q.Width(), " h ", q.Height(), " rot ", q.Rotation().ValueInRadians(), " shear ", q.ShearFactor(), "]"); }
inline std::string pbt_show(const AffineTransform& t) { return pbt::Cat("affine[", t.A(), ", ", t.B(), ", ", t.C(), "; ", t.D(), ", ", t.E(), ", ", t.F(), "]"); }
}  // namespace ink
