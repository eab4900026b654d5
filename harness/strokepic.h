// Everything one can see of a finished stroke.
#pragma once
#include <string>
#include <vector>

#include "harness/strokegen.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/strokes/stroke.h"

namespace sg {
using ink::Stroke;
using Inputs = std::vector<StrokeInput>;
inline bool SameInputs(const StrokeInputBatch& b, const Inputs& v) {
  if (b.Size() != v.size()) return false;
  for (size_t k = 0; k < v.size(); ++k) if (!ig::Same(b.Get(k), v[k])) return false;
  return true;
}
inline bool SameBrush(const Brush& a, const Brush& b) {
  if (a.GetSize() != b.GetSize() || a.GetEpsilon() != b.GetEpsilon() || !(a.GetColor() == b.GetColor()) || a.CoatCount() != b.CoatCount()) return false;
  if (a.GetFamily().GetUri() != b.GetFamily().GetUri() || a.GetFamily().GetInputModel().index() != b.GetFamily().GetInputModel().index()) return false;
  for (uint32_t k = 0; k < a.CoatCount(); ++k) if (!(a.GetCoats()[k].tips == b.GetCoats()[k].tips && a.GetCoats()[k].paint == b.GetCoats()[k].paint)) return false;
  return true;
}
struct Picture {
  std::string shape, text;
  std::vector<std::vector<std::byte>> bytes;
};
inline Picture Of(const Stroke& s) {
  Picture p;
  p.text = absl::StrCat(s.GetInputs(), s.GetBrush());
  p.shape = absl::StrCat(s.GetShape().RenderGroupCount());
  for (uint32_t g = 0; g < s.GetShape().RenderGroupCount(); ++g) {
    absl::StrAppend(&p.shape, "|", s.GetShape().OutlineCount(g));
    for (uint32_t o = 0; o < s.GetShape().OutlineCount(g); ++o)
      for (auto v : s.GetShape().Outline(g, o)) absl::StrAppend(&p.shape, ",", v.mesh_index, ":", v.vertex_index);
    for (auto& m : s.GetShape().RenderGroupMeshes(g)) {
      absl::StrAppend(&p.shape, " ", m.Format());
      auto r = m.Bounds().AsRect();
      if (r) absl::StrAppend(&p.shape, " ", pbt::Show(r));
      p.bytes.emplace_back(m.RawVertexData().begin(), m.RawVertexData().end());
      p.bytes.emplace_back(m.RawIndexData().begin(), m.RawIndexData().end());
    }
  }
  return p;
}
inline bool SameShape(const Picture& a, const Picture& b) { return a.shape == b.shape && a.bytes == b.bytes; }
inline bool Same(const Picture& a, const Picture& b) { return a.text == b.text && SameShape(a, b); }

}  // namespace sg
