// What a canvas is told to draw for a stroke, remembered by a stand-in for Skia, against what the stroke and its brush are.
#include <array>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "engine/pbt.h"
#include "fake/fake_skia.h"
#include "harness/strokegen.h"
#include "ink/brush/brush.h"
#include "ink/color/color.h"
#include "ink/color/color_space.h"
#include "ink/geometry/affine_transform.h"
#include "ink/geometry/mesh.h"
#include "ink/geometry/mesh_format.h"
#include "ink/geometry/mutable_mesh.h"
#include "ink/geometry/partitioned_mesh.h"
#include "ink/rendering/bitmap.h"
#include "ink/rendering/skia/common_internal/mesh_specification_data.h"
#include "ink/rendering/skia/native/internal/create_mesh_specification.h"
#include "ink/rendering/skia/native/internal/mesh_uniform_data.h"
#include "ink/rendering/skia/native/skia_renderer.h"
#include "ink/rendering/texture_bitmap_store.h"
#include "ink/strokes/in_progress_stroke.h"
#include "ink/strokes/internal/stroke_vertex.h"
#include "ink/strokes/stroke.h"

using ink::AffineTransform;
using ink::Bitmap;
using ink::Brush;
using ink::BrushCoat;
using ink::BrushFamily;
using ink::BrushPaint;
using ink::Color;
using ink::ColorSpace;
using ink::InProgressStroke;
using ink::Mesh;
using ink::MeshFormat;
using ink::MutableMesh;
using ink::PartitionedMesh;
using ink::Point;
using ink::SkiaRenderer;
using ink::Stroke;
using ink::StrokeInputBatch;
using ink::Uri;
using ink::Vec;
using pbt::Ctx;
using sg::Gen;
using Data = ink::skia_common_internal::MeshSpecificationData;
using L = BrushPaint::TextureLayer;

namespace {
// --- bitmaps ---
struct AnyBitmap : Bitmap {
  AnyBitmap(int w, int h, int pixel, int color, int space, std::vector<uint8_t> d)
      : Bitmap(w, h, (PixelFormat)pixel, (Color::Format)color, (ColorSpace)space), data(std::move(d)) {}
  absl::Span<const uint8_t> GetPixelData() const override { return data; }
  std::vector<uint8_t> data;
};
struct Picture {  // what a bitmap is, as plain numbers
  int w, h, pixel, color, space;
  std::vector<uint8_t> data;
};
constexpr int kFormats = 3, kSpaces = 2;
bool Ok(const Picture& p) {
  return p.w > 0 && p.h > 0 && p.pixel == 0 && p.color >= 0 && p.color < kFormats && p.space >= 0 && p.space < kSpaces && p.data.size() == (uint64_t)p.w * p.h * 4;
}
Picture AnyPicture(Ctx& c, bool good) {
  Picture p{c.Int(1, 6), c.Int(1, 6), 0, c.Int(0, kFormats - 1), c.Int(0, kSpaces - 1), {}};
  size_t n = (size_t)p.w * p.h * 4;
  if (!good) switch (c.Choice(6)) {
    case 0: p.w = c.PickOf({0, -1, -p.w}); break;
    case 1: p.h = c.PickOf({0, -1, -p.h}); break;
    case 2: p.pixel = c.PickOf({1, -1, 7}); break;
    case 3: p.color = c.PickOf({kFormats, -1, 99}); break;
    case 4: p.space = c.PickOf({kSpaces, -1, 99}); break;
    case 5: n = c.PickOf<size_t>({n - 1, n + 1, n / 2, n + 4, 0}); break;
    default: if (c.Bool()) p.w += 1; else p.h += 1; break;
  }
  for (size_t k = 0; k < n; ++k) p.data.push_back((uint8_t)c.Choice(255));
  return p;
}
std::string ShowPicture(const Picture& p) { return pbt::Cat(p.w, "x", p.h, " pixel format ", p.pixel, " color format ", p.color, " color space ", p.space, " bytes ", p.data.size()); }

struct Store : ink::TextureBitmapStore {
  std::map<std::string, Picture> have;
  absl::StatusOr<absl::Nonnull<std::shared_ptr<Bitmap>>> GetTextureBitmap(const Uri& u) const override {
    auto it = have.find(absl::StrCat(u));
    if (it == have.end()) return absl::NotFoundError("no such texture");
    const Picture& p = it->second;
    return std::shared_ptr<Bitmap>(std::make_shared<AnyBitmap>(p.w, p.h, p.pixel, p.color, p.space, p.data));
  }
};

// --- what a paint should look like ---
struct Node {
  const Picture* image = nullptr;
  SkTileMode wx{}, wy{};
  double m[6] = {};
  bool know_matrix = true;
  int mode = -1;  // inner node
  std::vector<Node> kids;  // dst, src
};
const SkBlendMode kModes[12] = {SkBlendMode::kModulate, SkBlendMode::kDstIn, SkBlendMode::kDstOut, SkBlendMode::kSrcATop, SkBlendMode::kSrcIn, SkBlendMode::kSrcOver,
                                SkBlendMode::kDstOver, SkBlendMode::kSrc, SkBlendMode::kDst, SkBlendMode::kSrcOut, SkBlendMode::kDstATop, SkBlendMode::kXor};
const SkTileMode kWraps[3] = {SkTileMode::kRepeat, SkTileMode::kMirror, SkTileMode::kClamp};
SkBlendMode Mode(BrushPaint::BlendMode m) {
  using B = BrushPaint::BlendMode;
  switch (m) {
    case B::kModulate: return kModes[0];
    case B::kDstIn: return kModes[1];
    case B::kDstOut: return kModes[2];
    case B::kSrcAtop: return kModes[3];
    case B::kSrcIn: return kModes[4];
    case B::kSrcOver: return kModes[5];
    case B::kDstOver: return kModes[6];
    case B::kSrc: return kModes[7];
    case B::kDst: return kModes[8];
    case B::kSrcOut: return kModes[9];
    case B::kDstAtop: return kModes[10];
    case B::kXor: return kModes[11];
  }
  return SkBlendMode::kClear;
}
SkTileMode Wrap(BrushPaint::TextureWrap w) {
  return w == BrushPaint::TextureWrap::kRepeat ? kWraps[0] : w == BrushPaint::TextureWrap::kMirror ? kWraps[1] : kWraps[2];
}
bool Neutral(const L& l) {
  return l.opacity == 1 && l.keyframes.empty() && l.rotation == ink::Angle() && l.rotation_jitter == ink::Angle() && l.size_jitter == Vec{0, 0} && l.offset_jitter == Vec{0, 0};
}
Node Leaf(const L& l, const Picture& p, float brush_size, const StrokeInputBatch& in) {
  Node n;
  n.image = &p, n.wx = Wrap(l.wrap_x), n.wy = Wrap(l.wrap_y);
  n.know_matrix = l.size_unit != BrushPaint::TextureSizeUnit::kStrokeSize;
  double unit = l.size_unit == BrushPaint::TextureSizeUnit::kBrushSize ? brush_size : 1;
  double ox = 0, oy = 0;
  if (!in.IsEmpty()) {
    Point at = l.origin == BrushPaint::TextureOrigin::kFirstStrokeInput ? in.Get(0).position : l.origin == BrushPaint::TextureOrigin::kLastStrokeInput ? in.Get(in.Size() - 1).position : Point{0, 0};
    ox = at.x, oy = at.y;
  }
  double sx = unit * l.size.x, sy = unit * l.size.y;
  double m[6] = {sx / p.w, 0, sx * l.offset.x + ox, 0, sy / p.h, sy * l.offset.y + oy};
  std::copy(m, m + 6, n.m);
  return n;
}
// A part of what is drawn: one mesh, or all the paths of a coat.
struct Item {
  bool path = false;
  std::vector<uint8_t> vertices;
  std::vector<uint16_t> triangles;
  size_t vertex_count = 0;
  std::vector<Point> at;
  std::shared_ptr<Data> data;
  std::map<Data::UniformId, std::array<float, 4>> unpack;
  bool know_paint = true;
  std::optional<Node> tree;
  std::optional<SkBlendMode> mode;
  int mapping = 0;
  std::vector<std::vector<std::pair<float, float>>> contours;
  float opacity = 1;
};
struct Expected {
  absl::Status status;
  bool either = false;  // an image that was loaded before: it may or may not be needed again
  std::vector<Item> items;
  AffineTransform t;
  std::optional<Color> color;
};

// The renderer under test with all it may know.
struct World {
  Ctx& c;
  std::shared_ptr<Store> store;
  SkiaRenderer renderer{store};
  sk_sp<GrDirectContext> gpu = sk_make_sp<GrDirectContext>();
  std::map<std::string, bool> loaded;

  // The paint of one coat, or why it cannot be drawn.
  void Paint(const BrushPaint& p, float brush_size, const StrokeInputBatch& in, Expected& e, Item& it) {
    it.mapping = p.texture_layers.empty() ? -1 : (int)p.texture_layers[0].mapping;
    for (size_t k = 0; k < p.texture_layers.size(); ++k) {
      const L& l = p.texture_layers[k];
      if (!Neutral(l)) it.know_paint = false;
      if (!store) { e.status = absl::FailedPreconditionError(""); return; }
      auto f = store->have.find(absl::StrCat(l.color_texture_uri));
      if (f == store->have.end()) { e.status = absl::NotFoundError(""); return; }
      if (!Ok(f->second)) { e.status = absl::InvalidArgumentError(""); return; }
      if (SkBitmap::fail_alloc) {
        if (!loaded[f->first]) { e.status = absl::InternalError(""); return; }
        e.either = true;
      }
      loaded[f->first] = true;
      Node leaf = Leaf(l, f->second, brush_size, in);
      if (!it.tree) {
        it.tree = leaf;
      } else {
        Node n;
        n.mode = (int)Mode(p.texture_layers[k - 1].blend_mode);
        n.kids = {leaf, *it.tree};
        it.tree = n;
      }
      it.mode = Mode(l.blend_mode);
    }
  }
  Expected Expect(bool gpu_on, const Stroke& s, const AffineTransform& t) {
    Expected e;
    e.t = t;
    const PartitionedMesh& shape = s.GetShape();
    for (uint32_t g = 0; g < shape.RenderGroupCount(); ++g) {
      auto meshes = shape.RenderGroupMeshes(g);
      if (meshes.empty()) continue;
      e.color = s.GetBrush().GetColor();
      const BrushCoat& coat = s.GetBrush().GetCoats()[g];
      if (!gpu_on) {
        Item it;
        it.path = true, it.opacity = coat.tips[0].opacity_multiplier;
        for (uint32_t o = 0; o < shape.OutlineCount(g); ++o) {
          it.contours.emplace_back();
          for (auto v : shape.Outline(g, o)) { Point p = meshes[v.mesh_index].VertexPosition(v.vertex_index); it.contours.back().push_back({p.x, p.y}); }
        }
        e.items.push_back(it);
        continue;
      }
      Item proto;
      Paint(coat.paint, s.GetBrush().GetSize(), s.GetInputs(), e, proto);
      if (!e.status.ok()) return e;
      auto data = Data::CreateForStroke(shape.RenderGroupFormat(g));
      if (!data.ok()) { e.status = absl::InvalidArgumentError(""); return e; }
      proto.data = std::make_shared<Data>(*data);
      for (const Mesh& m : meshes) {
        Item it = proto;
        auto raw = m.RawVertexData();
        it.vertices.assign((const uint8_t*)raw.data(), (const uint8_t*)raw.data() + raw.size());
        it.vertex_count = m.VertexCount();
        for (uint32_t k = 0; k < m.VertexCount(); ++k) it.at.push_back(m.VertexPosition(k));
        for (uint32_t k = 0; k < m.TriangleCount(); ++k) for (auto i : m.TriangleIndices(k)) it.triangles.push_back((uint16_t)i);
        auto a = m.Format().Attributes();
        for (int k = 0; k < (int)a.size(); ++k) {
          std::optional<Data::UniformId> id;
          if (a[k].id == MeshFormat::AttributeId::kPosition) id = Data::UniformId::kPositionUnpackingTransform;
          if (a[k].id == MeshFormat::AttributeId::kSideDerivative) id = Data::UniformId::kSideDerivativeUnpackingTransform;
          if (a[k].id == MeshFormat::AttributeId::kForwardDerivative) id = Data::UniformId::kForwardDerivativeUnpackingTransform;
          if (!id) continue;
          auto& p = m.VertexAttributeUnpackingParams(k);
          it.unpack[*id] = {p.components[0].offset, p.components[0].scale, p.components[1].offset, p.components[1].scale};
        }
        e.items.push_back(it);
      }
    }
    return e;
  }
  Expected Expect(bool gpu_on, const InProgressStroke& s, const AffineTransform& t) {
    Expected e;
    e.t = t;
    const Brush* b = s.GetBrush();
    if (!b) return e;
    for (uint32_t g = 0; g < b->CoatCount(); ++g) {
      if (s.GetMeshBounds(g).IsEmpty()) continue;
      e.color = b->GetColor();
      const BrushCoat& coat = b->GetCoats()[g];
      const MutableMesh& m = s.GetMesh(g);
      Item it;
      if (!gpu_on) {
        it.path = true, it.opacity = coat.tips[0].opacity_multiplier;
        for (auto o : s.GetCoatOutlines(g)) {
          if (o.empty()) continue;
          it.contours.emplace_back();
          for (auto v : o) { Point p = m.VertexPosition(v); it.contours.back().push_back({p.x, p.y}); }
        }
        e.items.push_back(it);
        continue;
      }
      if (m.TriangleCount() == 0) continue;
      Paint(coat.paint, b->GetSize(), s.GetInputs(), e, it);
      if (!e.status.ok()) return e;
      it.data = std::make_shared<Data>(Data::CreateForInProgressStroke());
      auto raw = m.RawVertexData();
      it.vertices.assign((const uint8_t*)raw.data(), (const uint8_t*)raw.data() + raw.size());
      it.vertex_count = m.VertexCount();
      for (uint32_t k = 0; k < m.VertexCount(); ++k) it.at.push_back(m.VertexPosition(k));
      for (uint32_t k = 0; k < m.TriangleCount(); ++k) for (auto i : m.TriangleIndices(k)) it.triangles.push_back((uint16_t)i);
      e.items.push_back(it);
    }
    return e;
  }

  std::string Same(const SkShader* s, const Node& n) {
    if (!s) return "no shader";
    if (n.mode >= 0) {
      if (!s->mode) return "an image where layers are combined";
      if (*s->mode != (SkBlendMode)n.mode) return pbt::Cat("layers combined by mode ", *s->mode, ", expected ", n.mode);
      std::string r = Same(s->dst.get(), n.kids[0]);
      if (!r.empty()) return "dst: " + r;
      r = Same(s->src.get(), n.kids[1]);
      return r.empty() ? r : "src: " + r;
    }
    if (!s->image) return "combined layers where there is one image";
    const SkImageInfo& i = s->image->info;
    const Picture& p = *n.image;
    if (i.w != p.w || i.h != p.h || i.type != kRGBA_8888_SkColorType || s->image->pixels != p.data) return pbt::Cat("image is not ", ShowPicture(p), " but ", i.w, "x", i.h);
    bool premul = p.color == (int)Color::Format::kPremultipliedAlpha, gamma = p.color == (int)Color::Format::kGammaEncoded;
    if (i.alpha != (premul ? kPremul_SkAlphaType : kUnpremul_SkAlphaType)) return pbt::Cat("alpha type ", i.alpha, " for ", ShowPicture(p));
    if (!i.space) return "no color space";
    if (i.space->linear == gamma || i.space->p3 != (p.space == (int)ColorSpace::kDisplayP3)) return pbt::Cat("color space linear ", i.space->linear, " p3 ", i.space->p3, " for ", ShowPicture(p));
    if (s->wrap_x != n.wx || s->wrap_y != n.wy) return pbt::Cat("tile modes ", s->wrap_x, " ", s->wrap_y, ", expected ", n.wx, " ", n.wy);
    if (!n.know_matrix) return "";
    double scale = 1e-6;
    for (double v : n.m) scale = std::max(scale, std::fabs(v));
    if (!s->local.affine) return "the texture is drawn in perspective";
    for (int k = 0; k < 6; ++k)
      if (!(std::fabs(s->local.m[k] - n.m[k]) <= 1e-5 * (k % 3 == 2 ? scale : std::fabs(n.m[k])))) return pbt::Cat("texel to stroke matrix entry ", k, " is ", s->local.m[k], ", expected ", n.m[k]);
    return "";
  }
  template <typename T> static std::vector<T> Read(const std::vector<uint8_t>& v, size_t at, size_t n) {
    std::vector<T> r(n);
    if (at + n * sizeof(T) > v.size()) pbt::Fail("uniform-size", "a uniform lies outside of the data");
    std::memcpy(r.data(), v.data() + at, n * sizeof(T));
    return r;
  }
  void Check(const SkCanvas& canvas, const Expected& e) {
    size_t op = 0;
    std::array<float, 4> rgba{};
    if (e.color) { auto f = e.color->InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear); rgba = {f.r, f.g, f.b, f.a}; }
    float mat[16] = {e.t.A(), e.t.B(), 0, e.t.C(), e.t.D(), e.t.E(), 0, e.t.F(), 0, 0, 1, 0, 0, 0, 0, 1};
    for (size_t at = 0; at < e.items.size(); ++at) {
      const Item& it = e.items[at];
      if (it.path) {
        for (size_t k = 0; k < it.contours.size();) {
          PROP(op < canvas.ops.size() && canvas.ops[op].path, "path-missing", "contour ", k, " of part ", at);
          const auto& o = canvas.ops[op++];
          PROP(!std::memcmp(o.matrix.v, mat, sizeof mat), "path-matrix");
          PROP(o.path->fill == SkPathFillType::kWinding, "path-fill");
          PROP(o.paint.style == SkPaint::kFill_Style && o.paint.anti_alias && !o.paint.shader, "path-paint");
          float a = std::min(1.f, std::max(0.f, rgba[3] * it.opacity));
          const SkColor4f& p = o.paint.color;
          PROP(o.paint.color_linear && !o.paint.color_p3 && p.fR == rgba[0] && p.fG == rgba[1] && p.fB == rgba[2] && std::fabs(p.fA - a) <= 1e-6f, "path-color", "(", p.fR, ", ", p.fG, ", ", p.fB, ", ", p.fA, "), expected (", rgba[0], ", ", rgba[1], ", ", rgba[2], ", ", a, ")");
          PROP(!o.path->contours.empty(), "path-empty");
          for (auto& g : o.path->contours) {
            PROP(k < it.contours.size() && g.points == it.contours[k], "path-points", "contour ", k, " of part ", at, " has ", g.points.size(), " points");
            ++k;
          }
        }
        continue;
      }
      PROP(op < canvas.ops.size() && canvas.ops[op].mesh, "mesh-missing", "part ", at, " of ", e.items.size(), ", drawn ", canvas.ops.size());
      const auto& o = canvas.ops[op++];
      const SkMesh& m = *o.mesh;
      PROP(m.isValid(), "mesh-invalid");
      PROP(!std::memcmp(o.matrix.v, mat, sizeof mat), "matrix");
      PROP(m.mode == SkMesh::Mode::kTriangles && m.vcount == it.vertex_count && m.icount == it.triangles.size(), "counts", m.vcount, " vertices ", m.icount, " indices, expected ", it.vertex_count, " and ", it.triangles.size());
      PROP(m.vb->context == gpu.get() && m.ib->context == gpu.get(), "context");
      PROP(m.vb->size() >= m.voff + it.vertices.size() && !std::memcmp(m.vb->data.data() + m.voff, it.vertices.data(), it.vertices.size()), "vertices");
      auto ix = Read<uint16_t>(m.ib->data, m.ioff, m.icount);
      PROP(ix == it.triangles, "indices", ix, " expected ", it.triangles);
      float slack = 0;  // packed positions are not exact
      for (auto& p : it.at) slack = std::max({slack, 1e-5f * std::fabs(p.x), 1e-5f * std::fabs(p.y)});
      for (auto& p : it.at) PROP(m.bounds.fLeft - slack <= p.x && p.x <= m.bounds.fRight + slack && m.bounds.fTop - slack <= p.y && p.y <= m.bounds.fBottom + slack, "bounds", "(", p.x, ", ", p.y, ") is outside of ", m.bounds.fLeft, " ", m.bounds.fTop, " ", m.bounds.fRight, " ", m.bounds.fBottom);
      Specification(*m.spec, *it.data);
      PROP(o.uniforms.size() == m.spec->uniformSize(), "uniform-size");
      for (const auto& u : it.data->uniforms.Values()) {
        auto* s = m.spec->findUniform(Data::GetUniformName(u.id));
        PROP(s, "uniform-missing", Data::GetUniformName(u.id));
        if (u.id == Data::UniformId::kTextureMapping) {
          int v = Read<int>(o.uniforms, s->offset, 1)[0];
          if (it.mapping >= 0) PROP(v == it.mapping, "uniform-mapping", v, " expected ", it.mapping);
          else PROP(v == 0 || v == 1, "uniform-mapping", v);
          continue;
        }
        auto v = Read<float>(o.uniforms, s->offset, 4);
        std::array<float, 4> w{};
        if (u.id == Data::UniformId::kObjectToCanvasLinearComponent) w = {e.t.A(), e.t.D(), e.t.B(), e.t.E()};
        else if (u.id == Data::UniformId::kBrushColor) w = rgba;
        else w = it.unpack.at(u.id);
        PROP((std::equal(v.begin(), v.end(), w.begin())), "uniform", Data::GetUniformName(u.id), " is ", v, ", expected ", w, " for part ", at, " of ", e.items.size());
      }
      PROP(o.paint.color == SkColors::kWhite, "paint-color");
      if (!it.know_paint) continue;
      PROP(!!it.mode == !!o.blender && (!it.mode || o.blender->mode == *it.mode), "blend-with-brush", o.blender ? (int)o.blender->mode : -1, " expected ", it.mode ? (int)*it.mode : -1);
      if (!it.tree) PROP(!o.paint.shader, "shader-without-texture");
      else { std::string d = Same(o.paint.shader.get(), *it.tree); PROP(d.empty(), "texture", d, " for part ", at); }
    }
    PROP(op == canvas.ops.size(), "extra", canvas.ops.size(), " drawn, expected ", op);
  }
  void Specification(const SkMeshSpecification& s, const Data& d) {
    using T = SkMeshSpecification::Attribute::Type;
    using V = SkMeshSpecification::Varying::Type;
    PROP(s.attributes.size() == d.attributes.Values().size() && s.varyings.size() == d.varyings.Values().size() && (int)s.stride() == d.vertex_stride, "specification-size");
    for (size_t k = 0; k < s.attributes.size(); ++k) {
      auto& a = d.attributes.Values()[k];
      T t = a.type == Data::AttributeType::kFloat2 ? T::kFloat2 : a.type == Data::AttributeType::kFloat3 ? T::kFloat3 : T::kUByte4_unorm;
      PROP(s.attributes[k].type == t && (int)s.attributes[k].offset == a.offset && a.name == std::string_view(s.attributes[k].name.c_str()), "specification-attribute", k);
    }
    for (size_t k = 0; k < s.varyings.size(); ++k) {
      auto& a = d.varyings.Values()[k];
      PROP(s.varyings[k].type == (a.type == Data::VaryingType::kFloat2 ? V::kFloat2 : V::kFloat4) && a.name == std::string_view(s.varyings[k].name.c_str()), "specification-varying", k);
    }
    PROP(s.vertex_shader == d.vertex_shader_source && s.fragment_shader == d.fragment_shader_source, "specification-source");
    PROP(s.color_space && s.color_space->linear && !s.color_space->p3 && s.alpha == kPremul_SkAlphaType, "specification-color-space");
  }
};

bool Equal(const AffineTransform& a, const AffineTransform& b) { return a.A() == b.A() && a.B() == b.B() && a.C() == b.C() && a.D() == b.D() && a.E() == b.E() && a.F() == b.F(); }
AffineTransform AnyTransform(Ctx& c) {
  switch (c.Choice(3)) {
    case 0: return AffineTransform::Identity();
    case 1: return AffineTransform::Translate({c.Moderate(50), c.Moderate(50)});
    case 2: return AffineTransform::Scale(c.PickOf({2.f, -1.f, 0.1f, 0.f}), c.PickOf({1.f, 3.f}));
    default: return AffineTransform(c.Moderate(10), c.Moderate(10), c.Moderate(10), c.Moderate(10), c.Moderate(10), c.Moderate(10));
  }
}
Color AnyColor(Ctx& c) {
  return Color::FromFloat(c.Choice(8) / 8.f, c.Choice(8) / 8.f, c.Choice(8) / 8.f, c.Choice(4) / 4.f, c.PickOf({Color::Format::kGammaEncoded, Color::Format::kLinear}), c.PickOf({ColorSpace::kSrgb, ColorSpace::kDisplayP3}));
}
const char* const kUris[] = {"/texture:ta", "/texture:tb", "/texture:tc", "/texture:bad", "/texture:missing"};
BrushPaint AnyPaint(Ctx& c) {
  BrushPaint p;
  int n = c.Weighted({3, 3, 2, 2});
  auto m = (BrushPaint::TextureMapping)c.Int(0, 1);
  for (int k = 0; k < n; ++k) {
    bg::Gen b{c, 0, true};
    L l = c.Chance(1, 8) ? b.Layer(m) : L{};
    l.color_texture_uri = *Uri::Parse(kUris[c.Weighted({20, 20, 20, 1, 1})]);
    l.mapping = m;
    l.origin = (BrushPaint::TextureOrigin)c.Int(0, 2);
    l.size_unit = c.PickOf({BrushPaint::TextureSizeUnit::kStrokeCoordinates, BrushPaint::TextureSizeUnit::kBrushSize, BrushPaint::TextureSizeUnit::kStrokeSize});
    l.wrap_x = (BrushPaint::TextureWrap)c.Int(0, 2), l.wrap_y = (BrushPaint::TextureWrap)c.Int(0, 2);
    if (l.size_jitter == Vec{0, 0}) l.size = {c.PickOf({1.f, 10.f, 0.3f}), c.PickOf({1.f, 7.f, 0.3f})};
    l.offset = {c.PickOf({0.f, 0.5f, -0.25f}), c.PickOf({0.f, 0.75f, 2.f})};
    l.blend_mode = (BrushPaint::BlendMode)c.Int(0, 11);
    p.texture_layers.push_back(l);
  }
  return p;
}
Brush AnyBrush(Ctx& c) {
  Gen g{c};
  std::vector<BrushCoat> coats;
  int n = c.Chance(1, 10) ? 0 : c.Len(1, 3);
  for (int k = 0; k < n; ++k) {
    BrushCoat coat;
    ink::BrushTip t;
    t.scale = {c.PickOf({1.f, 0.5f}), c.PickOf({1.f, 2.f})};
    t.corner_rounding = c.PickOf({0.f, 1.f});
    t.opacity_multiplier = c.PickOf({1.f, 0.5f, 0.f, 2.f});
    if (c.Chance(1, 6)) t.particle_gap_distance_scale = 1;
    if (c.Chance(1, 3)) t.behaviors.push_back({{ink::BrushBehavior::ConstantNode{1}, ink::BrushBehavior::TargetNode{ink::BrushBehavior::Target::kHueOffsetInRadians, {0, 1}}}});
    if (c.Chance(1, 4)) t.behaviors.push_back({{ink::BrushBehavior::ConstantNode{1}, ink::BrushBehavior::TargetNode{ink::BrushBehavior::Target::kSizeMultiplier, {1, 0}}}});
    coat.tips.push_back(t);
    coat.paint = AnyPaint(c);
    coats.push_back(coat);
  }
  auto f = BrushFamily::Create(coats, "");
  if (!f.ok()) throw pbt::Discard{};
  float size = g.Size();
  auto b = Brush::Create(*f, AnyColor(c), size, size * c.PickOf({0.1f, 0.02f, 0.5f}));
  if (!b.ok()) throw pbt::Discard{};
  return *b;
}
StrokeInputBatch AnyInputs(Ctx& c, float size) {
  Gen g{c};
  Gen::Pen pen;
  return sg::Batch(g.Path(pen, ig::Gen{c}.Fmt(), size, c.Len(0, 5)));
}
// A shape that some other program may have stored: several meshes per coat, or vertices no renderer knows.
std::optional<Stroke> AnyStroke(Ctx& c) {
  Brush b = AnyBrush(c);
  StrokeInputBatch in = AnyInputs(c, b.GetSize());
  Stroke s(b, in);
  int kind = c.Weighted({3, 3, 1});
  if (kind == 0 || s.GetShape().RenderGroupCount() == 0) return s;
  uint32_t n = s.GetShape().RenderGroupCount();
  std::vector<std::vector<Mesh>> meshes(n);
  std::vector<std::vector<std::vector<PartitionedMesh::VertexIndexPair>>> outlines(n);
  if (kind == 1) {
    int parts = c.Int(2, 3);
    for (int k = 0; k < parts; ++k) {
      PartitionedMesh q = k == 0 ? s.GetShape() : Stroke(b, AnyInputs(c, b.GetSize())).GetShape();
      if (q.RenderGroupCount() != n) continue;
      for (uint32_t g = 0; g < n; ++g) {
        if (c.Chance(1, 6)) continue;
        size_t first = meshes[g].size();
        if (q.RenderGroupMeshes(g).empty()) continue;
        if (first && !(meshes[g][0].Format() == q.RenderGroupFormat(g))) continue;
        for (auto& m : q.RenderGroupMeshes(g)) meshes[g].push_back(m);
        for (uint32_t o = 0; o < q.OutlineCount(g); ++o) {
          outlines[g].emplace_back();
          for (auto v : q.Outline(g, o)) outlines[g].back().push_back({(uint16_t)(v.mesh_index + first), v.vertex_index});
        }
      }
    }
  } else {
    using A = MeshFormat::AttributeType;
    using I = MeshFormat::AttributeId;
    std::vector<std::pair<A, I>> at{{A::kFloat2PackedIn1Float, I::kPosition}};
    if (c.Bool()) at.push_back({A::kFloat1Unpacked, I::kCustom0});
    auto f = MeshFormat::Create(at, MeshFormat::IndexFormat::k16BitUnpacked16BitPacked);
    if (!f.ok()) throw pbt::Discard{};
    MutableMesh m(*f);
    m.AppendVertex({0, 0}), m.AppendVertex({1, 0}), m.AppendVertex({0, 2});
    m.AppendTriangleIndices({0, 1, 2});
    auto ms = m.AsMeshes();
    if (!ms.ok()) throw pbt::Discard{};
    uint32_t g = c.Choice(n - 1);
    meshes[g].push_back((*ms)[0]);
    outlines[g].push_back({{0, 0}, {0, 1}, {0, 2}});
  }
  std::vector<std::vector<absl::Span<const PartitionedMesh::VertexIndexPair>>> spans(n);
  std::vector<PartitionedMesh::MeshGroup> groups;
  for (uint32_t g = 0; g < n; ++g) {
    for (auto& o : outlines[g]) spans[g].push_back(o);
    groups.push_back({meshes[g], spans[g]});
  }
  auto shape = PartitionedMesh::FromMeshGroups(groups);
  if (!shape.ok()) throw pbt::Discard{};
  return Stroke(b, in, *shape);
}

void Reset() { SkBitmap::fail_alloc = false; }
struct Init { Init() { pbt::g_reset = Reset; } } init;
}  // namespace

PBT(Drawing, 6, "a mesh with a texture, several meshes or a changed drawable was drawn") {
  SkBitmap::fail_alloc = false;
  std::shared_ptr<Store> store;
  if (!c.Chance(1, 16)) {
    store = std::make_shared<Store>();
    for (int k = 0; k < 4; ++k) store->have[kUris[k]] = AnyPicture(c, k != 3);
    std::map<std::string, Picture> named;  // as the store is asked
    for (auto& [u, p] : store->have) named[absl::StrCat(*Uri::Parse(u))] = p;
    store->have = named;
  }
  World w{c, store};
  std::vector<Stroke> dry;
  struct Wet { InProgressStroke s; Gen::Pen pen; float size = 1; ig::Gen::Format fmt; };
  Wet wet;
  struct Held { SkiaRenderer::Drawable d; Expected e; };
  std::vector<Held> held;
  std::vector<std::unique_ptr<SkCanvas>> canvases;
  auto drawn = [&](const SkCanvas& canvas, const Expected& e) {
    w.Check(canvas, e);
    int meshes = 0;
    for (auto& i : e.items) meshes += !i.path, c.NonTrivial(!i.path && i.tree.has_value()), c.Label(i.path ? "path" : "mesh");
    c.NonTrivial(meshes > 1);
  };
  int ops = c.Int(2, 9);
  for (int k = 0; k < ops; ++k) {
    int op = c.Weighted({4, 3, 3, 2, 2, 2, 3, 1});
    if (op == 0 || (op == 1 && dry.empty())) {
      auto s = AnyStroke(c);
      dry.push_back(*s);
      c.Note("stroke ", dry.size() - 1, " brush ", s->GetBrush(), " inputs ", s->GetInputs(), " groups ", s->GetShape().RenderGroupCount());
      op = 1;
    }
    if (op == 7) {
      SkBitmap::fail_alloc = !SkBitmap::fail_alloc && c.Bool();
      c.Note("image allocation fails ", SkBitmap::fail_alloc);
    }
    if (op == 2 && c.Chance(2, 3)) {  // draw on
      if (!wet.s.GetBrush() || c.Chance(1, 4)) {
        Brush b = AnyBrush(c);
        c.Note("start ", b);
        wet.s.Start(b);
        wet.pen = {}, wet.size = b.GetSize(), wet.fmt = ig::Gen{c}.Fmt();
      }
      Gen g{c};
      auto in = g.Path(wet.pen, wet.fmt, wet.size, c.Len(0, 4));
      if (!wet.s.EnqueueInputs(sg::Batch(in), {}).ok()) throw pbt::Discard{};
      if (!wet.s.UpdateShape(ink::Duration32::Seconds(wet.pen.t)).ok()) throw pbt::Discard{};
      c.Note("draw on ", pbt::Show(in));
    }
    if (op == 1 || op == 2) {
      bool on = !c.Chance(1, 3), direct = c.Chance(1, 3);
      AffineTransform t = AnyTransform(c);
      const Stroke* s = op == 1 ? &dry[c.Choice(dry.size() - 1)] : nullptr;
      Expected e = s ? w.Expect(on, *s, t) : w.Expect(on, wet.s, t);
      c.Note(direct ? "draw " : "drawable ", s ? pbt::Cat("stroke ", s - dry.data()) : "wet", on ? " with" : " without", " gpu, transform ", t, " expected ", e.status.ToString(), " parts ", e.items.size());
      GrDirectContext* gpu = on ? w.gpu.get() : nullptr;
      canvases.push_back(std::make_unique<SkCanvas>());
      SkCanvas& canvas = *canvases.back();
      if (c.Bool()) canvas.setMatrix(SkM44(2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1));
      absl::Status got;
      if (direct) {
        got = s ? w.renderer.Draw(gpu, *s, t, canvas) : w.renderer.Draw(gpu, wet.s, t, canvas);
      } else {
        auto d = s ? w.renderer.CreateDrawable(gpu, *s, t) : w.renderer.CreateDrawable(gpu, wet.s, t);
        got = d.status();
        if (d.ok() && e.status.ok()) {
          PROP(Equal(d->ObjectToCanvas(), t), "object-to-canvas");
          d->Draw(canvas);
          if (held.size() < 6) held.push_back({*d, e});
        }
      }
      if (e.either && !got.ok()) continue;
      PROP(got.code() == e.status.code(), "status", got, " expected ", e.status);
      if (!got.ok()) { PROP(canvas.ops.empty(), "drawn-anyway"); c.Label("refused"); continue; }
      drawn(canvas, e);
    }
    if (op >= 3 && op <= 6 && held.empty()) continue;
    size_t at = held.empty() ? 0 : c.Choice(held.size() - 1);
    if (op == 3 && held.size() < 8) {
      if (c.Bool()) held.push_back(held[at]);
      else { Held h; h = held[at]; held.push_back(std::move(h)); }
      c.Note("copy ", at);
    }
    if (op == 4) {
      AffineTransform t = AnyTransform(c);
      c.Note("transform ", at, " ", t);
      held[at].d.SetObjectToCanvas(t), held[at].e.t = t;
      PROP(Equal(held[at].d.ObjectToCanvas(), t), "object-to-canvas");
    }
    if (op == 5 && !held[at].e.items.empty()) {
      PROP(held[at].d.HasBrushColor(), "has-color");
      Color color = AnyColor(c);
      c.Note("color ", at, " ", color);
      held[at].d.SetBrushColor(color), held[at].e.color = color;
      c.NonTrivial();
    }
    if (op == 6) {
      canvases.push_back(std::make_unique<SkCanvas>());
      c.Note("draw ", at);
      held[at].d.Draw(*canvases.back());
      drawn(*canvases.back(), held[at].e);
    }
  }
  for (auto& h : held) {
    SkCanvas canvas;
    h.d.Draw(canvas);
    drawn(canvas, h.e);
  }
  // What was drawn before has not changed since.
  for (auto& canvas : canvases)
    for (auto& o : canvas->ops)
      if (o.mesh && o.mesh->uniforms) PROP(!std::memcmp(o.mesh->uniforms->data(), o.uniforms.data(), o.uniforms.size()), "drawn-changed");
  SkBitmap::fail_alloc = false;
}

PBT(Bitmaps, 1, "a bitmap that is wrong in one way, or right") {
  Picture p = AnyPicture(c, c.Bool());
  c.Note(ShowPicture(p));
  AnyBitmap any(p.w, p.h, p.pixel, p.color, p.space, p.data);
  ink::VectorBitmap vec(p.w, p.h, (Bitmap::PixelFormat)p.pixel, (Color::Format)p.color, (ColorSpace)p.space, p.data);
  for (const Bitmap* b : {(const Bitmap*)&any, (const Bitmap*)&vec}) {
    PROP(b->width() == p.w && b->height() == p.h && (int)b->pixel_format() == p.pixel && (int)b->color_format() == p.color && (int)b->color_space() == p.space, "kept");
    auto d = b->GetPixelData();
    PROP((std::vector<uint8_t>(d.begin(), d.end()) == p.data), "pixels");
    auto s = ink::rendering_internal::ValidateBitmap(*b);
    PROP(s.ok() == Ok(p), "valid", s);
    if (!s.ok()) PROP(s.code() == absl::StatusCode::kInvalidArgument && !s.message().empty(), "valid-status", s);
  }
  if (p.pixel == 0) PROP(ink::PixelFormatBytesPerPixel(Bitmap::PixelFormat::kRgba8888) == 4, "bytes-per-pixel");
  c.NonTrivial();
}

PBT(Uniforms, 1, "a value was set while a copy or an earlier reading of the data was held") {
  // The values handed to the shaders: each holder sees what was set on it, and a reading never changes.
  using Id = Data::UniformId;
  using ink::skia_native_internal::MeshUniformData;
  std::optional<absl::StatusOr<Data>> data;
  MeshFormat format = ink::strokes_internal::StrokeVertex::FullMeshFormat();
  bool dry = c.Bool();
  if (dry) {
    auto s = AnyStroke(c);
    if (!s || s->GetShape().RenderGroupCount() == 0) throw pbt::Discard{};
    format = s->GetShape().RenderGroupFormat(0);
    data = Data::CreateForStroke(format);
  } else {
    data = Data::CreateForInProgressStroke(format);
  }
  if (!data->ok()) throw pbt::Discard{};
  auto spec = ink::skia_native_internal::CreateMeshSpecification(**data);
  PROP(spec.ok(), "specification", spec.status());
  std::vector<ink::MeshAttributeCodingParams> params;
  std::map<Id, std::vector<float>> start;
  for (auto& a : format.Attributes()) {
    ink::MeshAttributeCodingParams p;
    p.components.Resize(MeshFormat::ComponentCount(a.type));
    std::vector<float> flat;
    for (auto& k : p.components.Values()) k = {c.Int(-9, 9) / 4.f, c.Int(1, 9) / 8.f}, flat.push_back(k.offset), flat.push_back(k.scale);
    params.push_back(p);
    if (a.id == MeshFormat::AttributeId::kPosition) start[Id::kPositionUnpackingTransform] = flat;
    if (a.id == MeshFormat::AttributeId::kSideDerivative) start[Id::kSideDerivativeUnpackingTransform] = flat;
    if (a.id == MeshFormat::AttributeId::kForwardDerivative) start[Id::kForwardDerivativeUnpackingTransform] = flat;
  }
  struct Holder { MeshUniformData d; std::map<Id, std::vector<float>> want; };
  std::vector<Holder> all;
  std::vector<std::pair<sk_sp<const SkData>, std::vector<uint8_t>>> readings;
  auto has = [&](Id id) { for (auto& u : (*data)->uniforms.Values()) if (u.id == id) return true; return false; };
  auto bytes = [](const SkData& d) { return std::vector<uint8_t>((const uint8_t*)d.data(), (const uint8_t*)d.data() + d.size()); };
  if (dry) all.push_back({MeshUniformData(**spec, format.Attributes(), [&](int i) -> const ink::MeshAttributeCodingParams& { return params[i]; }), start});
  else all.push_back({MeshUniformData(**spec), {}});
  int ops = c.Int(1, 12);
  for (int k = 0; k < ops; ++k) {
    size_t at = c.Choice(all.size() - 1);
    Holder& h = all[at];
    int op = c.Choice(4);
    c.Note("op ", op, " on ", at);
    if (op <= 2 && (all.size() > 1 || !readings.empty())) c.NonTrivial();
    if (op == 0) {
      PROP(h.d.HasBrushColor() == has(Id::kBrushColor), "has-color");
      if (!h.d.HasBrushColor()) continue;
      Color color = AnyColor(c);
      h.d.SetBrushColor(color);
      auto f = color.InColorSpace(ColorSpace::kSrgb).AsFloat(Color::Format::kLinear);
      h.want[Id::kBrushColor] = {f.r, f.g, f.b, f.a};
    } else if (op == 1) {
      PROP(h.d.HasTextureMapping() == has(Id::kTextureMapping), "has-mapping");
      if (!h.d.HasTextureMapping()) continue;
      int m = c.Choice(1);
      h.d.SetTextureMapping((BrushPaint::TextureMapping)m);
      h.want[Id::kTextureMapping] = {(float)m};
    } else if (op == 2) {
      PROP(h.d.HasObjectToCanvasLinearComponent() == has(Id::kObjectToCanvasLinearComponent), "has-transform");
      if (!h.d.HasObjectToCanvasLinearComponent()) continue;
      AffineTransform t = AnyTransform(c);
      h.d.SetObjectToCanvasLinearComponent(t);
      h.want[Id::kObjectToCanvasLinearComponent] = {t.A(), t.D(), t.B(), t.E()};
    } else if (op == 3) {
      auto r = h.d.Get();
      PROP((r != nullptr) == ((*spec)->uniformSize() != 0), "reading");
      if (r) readings.push_back({r, bytes(*r)});
    } else if (all.size() < 5) {
      all.push_back(Holder(h));
    }
  }
  for (size_t at = 0; at < all.size(); ++at) {
    auto r = all[at].d.Get();
    if (!r) continue;
    PROP(r->size() == (*spec)->uniformSize(), "uniform-size");
    auto b = bytes(*r);
    for (auto& [id, w] : all[at].want) {
      if (!has(id)) continue;
      auto* u = (*spec)->findUniform(Data::GetUniformName(id));
      PROP(u, "uniform-missing", Data::GetUniformName(id));
      std::vector<float> v;
      if (id == Id::kTextureMapping) v = {(float)World::Read<int>(b, u->offset, 1)[0]};
      else { auto x = World::Read<float>(b, u->offset, 4); v.assign(x.begin(), x.end()); }
      PROP(v == w, "uniform-held", Data::GetUniformName(id), " of ", at, " is ", v, ", expected ", w);
    }
  }
  for (auto& [r, b] : readings) PROP(bytes(*r) == b, "reading-changed");
}
