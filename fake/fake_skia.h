// A stand-in for the part of Skia that the native renderer uses. It keeps what it is given, so that a
// harness can look at what would be drawn, and refuses what Skia documents as invalid.
#pragma once
#include <array>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

// --- references ---
class SkRefCnt {
 public:
  SkRefCnt() = default;
  SkRefCnt(const SkRefCnt&) = delete;
  SkRefCnt& operator=(const SkRefCnt&) = delete;
  virtual ~SkRefCnt() = default;
  void ref() const { ++refs_; }
  void unref() const { if (--refs_ == 0) delete this; }
  bool unique() const { return refs_ == 1; }
 private:
  mutable std::atomic<int> refs_{1};
};
template <typename T> class sk_sp {
 public:
  using element_type = T;
  constexpr sk_sp() = default;
  constexpr sk_sp(std::nullptr_t) {}
  explicit sk_sp(T* p) : p_(p) {}
  sk_sp(const sk_sp& o) : p_(o.p_) { if (p_) p_->ref(); }
  template <typename U> requires std::is_convertible_v<U*, T*> sk_sp(const sk_sp<U>& o) : p_(o.get()) { if (p_) p_->ref(); }
  sk_sp(sk_sp&& o) noexcept : p_(o.release()) {}
  template <typename U> requires std::is_convertible_v<U*, T*> sk_sp(sk_sp<U>&& o) : p_(o.release()) {}
  ~sk_sp() { reset(); }
  sk_sp& operator=(std::nullptr_t) { reset(); return *this; }
  sk_sp& operator=(const sk_sp& o) { sk_sp t(o); std::swap(p_, t.p_); return *this; }
  sk_sp& operator=(sk_sp&& o) noexcept { sk_sp t(std::move(o)); std::swap(p_, t.p_); return *this; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  T* get() const { return p_; }
  explicit operator bool() const { return p_; }
  T* release() { T* p = p_; p_ = nullptr; return p; }
  void reset(T* p = nullptr) { T* q = p_; p_ = p; if (q) q->unref(); }
 private:
  T* p_ = nullptr;
};
template <typename T, typename U> bool operator==(const sk_sp<T>& a, const sk_sp<U>& b) { return a.get() == b.get(); }
template <typename T> bool operator==(const sk_sp<T>& a, std::nullptr_t) { return !a.get(); }
template <typename T, typename... A> sk_sp<T> sk_make_sp(A&&... a) { return sk_sp<T>(new T(std::forward<A>(a)...)); }
template <typename T> sk_sp<T> sk_ref_sp(T* p) { if (p) p->ref(); return sk_sp<T>(p); }

template <typename T> class SkSpan {
 public:
  SkSpan() = default;
  SkSpan(T* p, size_t n) : p_(p), n_(n) {}
  template <typename C> requires requires(C& c) { c.data(); c.size(); } SkSpan(C&& c) : p_(c.data()), n_(c.size()) {}
  SkSpan(std::initializer_list<std::remove_const_t<T>> l) : p_(l.begin()), n_(l.size()) {}
  T* data() const { return p_; }
  size_t size() const { return n_; }
  bool empty() const { return !n_; }
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  T& operator[](size_t i) const { return p_[i]; }
 private:
  T* p_ = nullptr;
  size_t n_ = 0;
};
class SkString {
 public:
  SkString() = default;
  SkString(const char* s) : s_(s) {}
  SkString(const char* s, size_t n) : s_(s, n) {}
  explicit SkString(const std::string& s) : s_(s) {}
  explicit SkString(std::string_view s) : s_(s) {}
  const char* data() const { return s_.data(); }
  const char* c_str() const { return s_.c_str(); }
  size_t size() const { return s_.size(); }
  bool isEmpty() const { return s_.empty(); }
 private:
  std::string s_;
};
class SkData final : public SkRefCnt {
 public:
  static constexpr unsigned char kUnset = 0xCD;
  static sk_sp<SkData> MakeUninitialized(size_t n) { return sk_sp<SkData>(new SkData(std::vector<uint8_t>(n, kUnset))); }
  static sk_sp<SkData> MakeWithCopy(const void* p, size_t n) { return sk_sp<SkData>(new SkData(std::vector<uint8_t>((const uint8_t*)p, (const uint8_t*)p + n))); }
  static sk_sp<SkData> MakeEmpty() { return MakeUninitialized(0); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  const void* data() const { return v_.data(); }
  const uint8_t* bytes() const { return v_.data(); }
  void* writable_data() { return v_.data(); }
 private:
  explicit SkData(std::vector<uint8_t> v) : v_(std::move(v)) {}
  std::vector<uint8_t> v_;
};

// --- colors and images ---
using SkColor = uint32_t;
inline constexpr SkColor SK_ColorWHITE = 0xFFFFFFFF, SK_ColorBLACK = 0xFF000000, SK_ColorTRANSPARENT = 0;
struct SkColor4f {
  float fR, fG, fB, fA;
  static SkColor4f FromColor(SkColor c) { return {(c >> 16 & 255) / 255.f, (c >> 8 & 255) / 255.f, (c & 255) / 255.f, (c >> 24) / 255.f}; }
  bool operator==(const SkColor4f&) const = default;
};
namespace SkColors { inline constexpr SkColor4f kWhite{1, 1, 1, 1}; }
struct skcms_TransferFunction { float g, a, b, c, d, e, f; bool operator==(const skcms_TransferFunction&) const = default; };
struct skcms_Matrix3x3 { float vals[3][3]; };
namespace SkNamedTransferFn {
inline constexpr skcms_TransferFunction kSRGB{2.4f, 1 / 1.055f, 0.055f / 1.055f, 1 / 12.92f, 0.04045f, 0, 0}, kLinear{1, 1, 0, 0, 0, 0, 0};
}
namespace SkNamedGamut {
inline constexpr skcms_Matrix3x3 kSRGB{{{0.436065674f, 0.385147095f, 0.143066406f}, {0.222488403f, 0.716873169f, 0.060607910f}, {0.013916016f, 0.097076416f, 0.714096069f}}},
    kDisplayP3{{{0.515102f, 0.291965f, 0.157153f}, {0.241182f, 0.692236f, 0.0665819f}, {-0.00104941f, 0.0418818f, 0.784378f}}};
}
class SkColorSpace final : public SkRefCnt {
 public:
  bool p3 = false, linear = false;
  static sk_sp<SkColorSpace> MakeSRGB() { return MakeRGB(SkNamedTransferFn::kSRGB, SkNamedGamut::kSRGB); }
  static sk_sp<SkColorSpace> MakeSRGBLinear() { return MakeRGB(SkNamedTransferFn::kLinear, SkNamedGamut::kSRGB); }
  static sk_sp<SkColorSpace> MakeRGB(const skcms_TransferFunction& t, const skcms_Matrix3x3& m) {
    sk_sp<SkColorSpace> s(new SkColorSpace);
    s->linear = t == SkNamedTransferFn::kLinear;
    s->p3 = !std::memcmp(&m, &SkNamedGamut::kDisplayP3, sizeof m);
    return s;
  }
};
enum SkColorType : int { kUnknown_SkColorType, kAlpha_8_SkColorType, kRGB_565_SkColorType, kARGB_4444_SkColorType, kRGBA_8888_SkColorType, kRGB_888x_SkColorType, kBGRA_8888_SkColorType };
enum SkAlphaType : int { kUnknown_SkAlphaType, kOpaque_SkAlphaType, kPremul_SkAlphaType, kUnpremul_SkAlphaType };
struct SkISize {
  int32_t fWidth, fHeight;
  int32_t width() const { return fWidth; }
  int32_t height() const { return fHeight; }
};
class SkImageInfo {
 public:
  static SkImageInfo Make(int w, int h, SkColorType t, SkAlphaType a, sk_sp<SkColorSpace> s) { SkImageInfo i; i.w = w, i.h = h, i.type = t, i.alpha = a, i.space = std::move(s); return i; }
  size_t computeMinByteSize() const { return (size_t)w * h * (type == kRGBA_8888_SkColorType || type == kBGRA_8888_SkColorType || type == kRGB_888x_SkColorType ? 4 : type == kAlpha_8_SkColorType ? 1 : 2); }
  int width() const { return w; }
  int height() const { return h; }
  int w = 0, h = 0;
  SkColorType type = kUnknown_SkColorType;
  SkAlphaType alpha = kUnknown_SkAlphaType;
  sk_sp<SkColorSpace> space;
};
class SkImage final : public SkRefCnt {
 public:
  SkImageInfo info;
  std::vector<uint8_t> pixels;
  SkISize dimensions() const { return {info.w, info.h}; }
  int width() const { return info.w; }
  int height() const { return info.h; }
};
class SkBitmap {
 public:
  inline static bool fail_alloc = false;  // fault injection
  bool tryAllocPixels(const SkImageInfo& i) {
    if (fail_alloc || i.w <= 0 || i.h <= 0) return false;
    info_ = i, p_ = std::make_shared<std::vector<uint8_t>>(i.computeMinByteSize(), 0xCD);
    return true;
  }
  void* getPixels() const { return p_ ? p_->data() : nullptr; }
  void setImmutable() { immutable_ = true; }
  sk_sp<SkImage> asImage() const {
    sk_sp<SkImage> i(new SkImage);
    i->info = info_;
    if (p_) i->pixels = *p_;
    return i;
  }
 private:
  SkImageInfo info_;
  std::shared_ptr<std::vector<uint8_t>> p_;
  bool immutable_ = false;
};

// --- matrices, rectangles, paths ---
struct SkMatrix {
  double m[6] = {1, 0, 0, 0, 1, 0};  // x' = m0 x + m1 y + m2, y' = m3 x + m4 y + m5
  static SkMatrix MakeAll(float a, float b, float c, float d, float e, float f, float g, float h, float i) {
    SkMatrix r;
    double v[6] = {a, b, c, d, e, f};
    for (int k = 0; k < 6; ++k) r.m[k] = v[k];
    r.affine = g == 0 && h == 0 && i == 1;
    return r;
  }
  static const SkMatrix& I() { static const SkMatrix i; return i; }
  static SkMatrix Scale(float x, float y) { return MakeAll(x, 0, 0, 0, y, 0, 0, 0, 1); }
  static SkMatrix Translate(float x, float y) { return MakeAll(1, 0, x, 0, 1, y, 0, 0, 1); }
  static SkMatrix Concat(const SkMatrix& a, const SkMatrix& b) {
    SkMatrix r;
    const double *p = a.m, *q = b.m;
    double v[6] = {p[0] * q[0] + p[1] * q[3], p[0] * q[1] + p[1] * q[4], p[0] * q[2] + p[1] * q[5] + p[2],
                   p[3] * q[0] + p[4] * q[3], p[3] * q[1] + p[4] * q[4], p[3] * q[2] + p[4] * q[5] + p[5]};
    for (int k = 0; k < 6; ++k) r.m[k] = v[k];
    r.affine = a.affine && b.affine;
    return r;
  }
  bool affine = true;
};
struct SkM44 {
  float v[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1};  // row-major
  SkM44() = default;
  SkM44(float a, float b, float c, float d, float e, float f, float g, float h, float i, float j, float k, float l, float m, float n, float o, float p)
      : v{a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p} {}
  explicit SkM44(const SkMatrix& m) : v{(float)m.m[0], (float)m.m[1], 0, (float)m.m[2], (float)m.m[3], (float)m.m[4], 0, (float)m.m[5], 0, 0, 1, 0, 0, 0, 0, 1} {}
};
struct SkRect {
  float fLeft, fTop, fRight, fBottom;
  static SkRect MakeLTRB(float l, float t, float r, float b) { return {l, t, r, b}; }
  static SkRect MakeXYWH(float x, float y, float w, float h) { return {x, y, x + w, y + h}; }
};
enum class SkPathFillType { kWinding, kEvenOdd, kInverseWinding, kInverseEvenOdd };
class SkPath {
 public:
  struct Contour { std::vector<std::pair<float, float>> points; bool closed = false; };
  SkPathFillType fill = SkPathFillType::kWinding;
  std::vector<Contour> contours;
  void setFillType(SkPathFillType t) { fill = t; }
  SkPath& moveTo(float x, float y) { contours.push_back({{{x, y}}, false}); return *this; }
  SkPath& lineTo(float x, float y) {
    if (contours.empty()) moveTo(0, 0);
    if (contours.back().closed) moveTo(contours.back().points[0].first, contours.back().points[0].second);
    contours.back().points.push_back({x, y});
    return *this;
  }
  SkPath& close() { if (!contours.empty()) contours.back().closed = true; return *this; }
};

// --- shaders, blenders, paint ---
enum class SkTileMode { kClamp, kRepeat, kMirror, kDecal };
enum class SkBlendMode { kClear, kSrc, kDst, kSrcOver, kDstOver, kSrcIn, kDstIn, kSrcOut, kDstOut, kSrcATop, kDstATop, kXor, kPlus, kModulate, kScreen };
struct SkSamplingOptions {};
class SkShader : public SkRefCnt {
 public:
  sk_sp<SkImage> image;  // leaf
  SkTileMode wrap_x{}, wrap_y{};
  SkMatrix local;        // from the image's pixels to the shader's space
  std::optional<SkBlendMode> mode;  // inner node
  sk_sp<SkShader> dst, src;
  bool null_child = false;
  sk_sp<SkShader> makeWithLocalMatrix(const SkMatrix& m) const {
    sk_sp<SkShader> s(new SkShader);
    s->image = image, s->wrap_x = wrap_x, s->wrap_y = wrap_y, s->mode = mode, s->null_child = null_child;
    s->local = SkMatrix::Concat(m, local);
    if (dst) s->dst = dst->makeWithLocalMatrix(m);
    if (src) s->src = src->makeWithLocalMatrix(m);
    return s;
  }
};
namespace SkShaders {
inline sk_sp<SkShader> Image(sk_sp<SkImage> image, SkTileMode x, SkTileMode y, const SkSamplingOptions&, const SkMatrix* m = nullptr) {
  if (!image) return nullptr;
  sk_sp<SkShader> s(new SkShader);
  s->image = std::move(image), s->wrap_x = x, s->wrap_y = y;
  if (m) s->local = *m;
  return s;
}
inline sk_sp<SkShader> Blend(SkBlendMode mode, sk_sp<SkShader> dst, sk_sp<SkShader> src) {
  if (!dst || !src) return nullptr;
  sk_sp<SkShader> s(new SkShader);
  s->mode = mode, s->dst = std::move(dst), s->src = std::move(src);
  return s;
}
}  // namespace SkShaders
class SkBlender : public SkRefCnt {
 public:
  SkBlendMode mode{};
  static sk_sp<SkBlender> Mode(SkBlendMode m) { sk_sp<SkBlender> b(new SkBlender); b->mode = m; return b; }
};
class SkPaint {
 public:
  enum Style { kFill_Style, kStroke_Style, kStrokeAndFill_Style };
  void setShader(sk_sp<SkShader> s) { shader = std::move(s); }
  void setColor(SkColor c) { color = SkColor4f::FromColor(c), color_linear = false; }
  void setColor(const SkColor4f& c, SkColorSpace* s = nullptr) {
    color = c;
    color.fA = c.fA < 0 ? 0 : c.fA > 1 ? 1 : c.fA;  // as Skia does
    color_linear = s && s->linear, color_p3 = s && s->p3;
  }
  void setAntiAlias(bool b) { anti_alias = b; }
  void setStyle(Style s) { style = s; }
  sk_sp<SkShader> shader;
  SkColor4f color{0, 0, 0, 1};
  bool color_linear = false, color_p3 = false, anti_alias = false;
  Style style = kFill_Style;
};

// --- meshes ---
class GrDirectContext : public SkRefCnt {};
class SkMeshSpecification : public SkRefCnt {
 public:
  static constexpr size_t kMaxStride = 1024, kMaxAttributes = 8, kStrideAlignment = 4, kOffsetAlignment = 4, kMaxVaryings = 6;
  struct Attribute {
    enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kUByte4_unorm, kLast = kUByte4_unorm };
    Type type;
    size_t offset;
    SkString name;
  };
  struct Varying {
    enum class Type : uint32_t { kFloat, kFloat2, kFloat3, kFloat4, kHalf, kHalf2, kHalf3, kHalf4 };
    Type type;
    SkString name;
  };
  struct Uniform {
    enum class Type { kFloat, kFloat2, kFloat3, kFloat4, kFloat2x2, kFloat3x3, kFloat4x4, kInt, kInt2, kInt3, kInt4 };
    std::string_view name;
    size_t offset;
    Type type;
    int count = 1;
  };
  struct Result { sk_sp<SkMeshSpecification> specification; SkString error; };

  static Result Make(SkSpan<const Attribute> a, size_t stride, SkSpan<const Varying> v, const SkString& vs, const SkString& fs, sk_sp<SkColorSpace> cs, SkAlphaType alpha) {
    auto bad = [](const std::string& s) { return Result{nullptr, SkString(s)}; };
    if (a.size() == 0 || a.size() > kMaxAttributes) return bad("attributes");
    if (v.size() > kMaxVaryings) return bad("varyings");
    if (stride == 0 || stride > kMaxStride || stride % kStrideAlignment) return bad("stride");
    for (auto& x : a) {
      size_t n = x.type == Attribute::Type::kUByte4_unorm ? 4 : 4 * ((size_t)x.type + 1);
      if (x.offset % kOffsetAlignment || x.offset + n > stride) return bad("attribute offset");
    }
    sk_sp<SkMeshSpecification> s(new SkMeshSpecification);
    for (auto& x : a) s->attributes.push_back(x);
    for (auto& x : v) s->varyings.push_back(x);
    s->stride_ = stride, s->vertex_shader.assign(vs.data(), vs.size()), s->fragment_shader.assign(fs.data(), fs.size());
    s->color_space = std::move(cs), s->alpha = alpha;
    if (!s->Declarations(s->vertex_shader) || !s->Declarations(s->fragment_shader)) return bad("uniforms");
    for (size_t k = 0; k < s->names_.size(); ++k) s->uniforms_[k].name = *s->names_[k];
    return {s, SkString()};
  }
  SkSpan<const Uniform> uniforms() const { return {uniforms_.data(), uniforms_.size()}; }
  const Uniform* findUniform(std::string_view n) const {
    for (auto& u : uniforms_) if (u.name == n) return &u;
    return nullptr;
  }
  size_t uniformSize() const { return uniform_size_; }
  size_t stride() const { return stride_; }

  std::vector<Attribute> attributes;
  std::vector<Varying> varyings;
  std::string vertex_shader, fragment_shader;
  sk_sp<SkColorSpace> color_space;
  SkAlphaType alpha{};
 private:
  // `uniform <type> <name>;` at the start of a statement.
  bool Declarations(const std::string& s) {
    auto word = [](char c) { return std::isalnum((unsigned char)c) || c == '_'; };
    for (size_t at = 0; (at = s.find("uniform", at)) != std::string::npos; at += 7) {
      if ((at && word(s[at - 1])) || word(s[at + 7])) continue;
      size_t line = s.rfind('\n', at);
      line = line == std::string::npos ? 0 : line + 1;
      if (s.substr(line, at - line).find("//") != std::string::npos) continue;
      size_t p = at + 7;
      auto next = [&] {
        while (p < s.size() && std::isspace((unsigned char)s[p])) ++p;
        size_t b = p;
        while (p < s.size() && word(s[p])) ++p;
        return s.substr(b, p - b);
      };
      std::string type = next(), name = next();
      Uniform::Type t;
      int n;
      if (type == "float4" || type == "half4" || type == "vec4") t = Uniform::Type::kFloat4, n = 4;
      else if (type == "float3" || type == "vec3") t = Uniform::Type::kFloat3, n = 3;
      else if (type == "float2" || type == "vec2") t = Uniform::Type::kFloat2, n = 2;
      else if (type == "float") t = Uniform::Type::kFloat, n = 1;
      else if (type == "int") t = Uniform::Type::kInt, n = 1;
      else return false;
      bool seen = false;
      for (size_t k = 0; k < names_.size(); ++k) if (*names_[k] == name) { seen = true; if (uniforms_[k].type != t) return false; }
      if (seen) continue;
      names_.push_back(std::make_unique<std::string>(name));
      uniforms_.push_back({"", uniform_size_, t, 1});
      uniform_size_ += 4 * n;
    }
    return true;
  }
  std::vector<std::unique_ptr<std::string>> names_;
  std::vector<Uniform> uniforms_;
  size_t uniform_size_ = 0, stride_ = 0;
};
class SkMesh {
 public:
  struct Buffer : SkRefCnt {
    std::vector<uint8_t> data;
    GrDirectContext* context = nullptr;
    size_t size() const { return data.size(); }
  };
  struct VertexBuffer : Buffer {};
  struct IndexBuffer : Buffer {};
  enum class Mode { kTriangles, kTriangleStrip };
  struct ChildPtr {};
  struct Result;
  static Result MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vcount, size_t voff, sk_sp<IndexBuffer> ib, size_t icount, size_t ioff,
                            sk_sp<const SkData> uniforms, SkSpan<ChildPtr> children, const SkRect& bounds);
  bool isValid() const { return valid_; }
  sk_sp<SkMeshSpecification> spec;
  sk_sp<VertexBuffer> vb;
  sk_sp<IndexBuffer> ib;
  sk_sp<const SkData> uniforms;
  size_t vcount = 0, icount = 0, voff = 0, ioff = 0;
  Mode mode{};
  SkRect bounds{};
 private:
  bool valid_ = false;
};
struct SkMesh::Result { SkMesh mesh; SkString error; };
inline SkMesh::Result SkMesh::MakeIndexed(sk_sp<SkMeshSpecification> spec, Mode mode, sk_sp<VertexBuffer> vb, size_t vcount, size_t voff, sk_sp<IndexBuffer> ib, size_t icount, size_t ioff,
                                          sk_sp<const SkData> uniforms, SkSpan<ChildPtr>, const SkRect& bounds) {
  auto bad = [](const char* s) { return Result{{}, SkString(s)}; };
  if (!spec) return bad("A specification is required.");
  if (!vb) return bad("A vertex buffer is required.");
  if (!ib) return bad("An index buffer is required.");
  if (vcount == 0) return bad("Vertex count too low.");
  if (icount < 3) return bad("Index count too low.");
  if (voff % spec->stride() || vb->size() < voff || (vb->size() - voff) / spec->stride() < vcount) return bad("The vertex buffer offset and vertex count reads beyond the end of the vertex buffer.");
  if (ioff % 2 || ib->size() < ioff || (ib->size() - ioff) / 2 < icount) return bad("The index buffer offset and index count reads beyond the end of the index buffer.");
  if (spec->uniformSize() != (uniforms ? uniforms->size() : 0)) return bad("The uniform data has the wrong size.");
  Result r;
  r.mesh.spec = std::move(spec), r.mesh.vb = std::move(vb), r.mesh.ib = std::move(ib), r.mesh.uniforms = std::move(uniforms);
  r.mesh.vcount = vcount, r.mesh.icount = icount, r.mesh.voff = voff, r.mesh.ioff = ioff, r.mesh.mode = mode, r.mesh.bounds = bounds, r.mesh.valid_ = true;
  return r;
}
namespace SkMeshes {
template <typename B> sk_sp<B> FakeBuffer(GrDirectContext* c, const void* p, size_t n) {
  if (n == 0) return nullptr;
  sk_sp<B> b(new B);
  b->context = c;
  if (p) b->data.assign((const uint8_t*)p, (const uint8_t*)p + n);
  else b->data.assign(n, 0);
  return b;
}
inline sk_sp<SkMesh::VertexBuffer> MakeVertexBuffer(GrDirectContext* c, const void* p, size_t n) { return FakeBuffer<SkMesh::VertexBuffer>(c, p, n); }
inline sk_sp<SkMesh::IndexBuffer> MakeIndexBuffer(GrDirectContext* c, const void* p, size_t n) { return FakeBuffer<SkMesh::IndexBuffer>(c, p, n); }
}  // namespace SkMeshes

// --- canvas: remembers what is drawn ---
class SkCanvas {
 public:
  struct Op {
    SkM44 matrix;
    std::optional<SkMesh> mesh;
    std::vector<uint8_t> uniforms;  // as they were when drawn
    sk_sp<SkBlender> blender;
    std::optional<SkPath> path;
    SkPaint paint;
  };
  std::vector<Op> ops;
  SkM44 matrix;
  void setMatrix(const SkM44& m) { matrix = m; }
  void setMatrix(const SkMatrix& m) { matrix = SkM44(m); }
  void drawMesh(const SkMesh& m, sk_sp<SkBlender> b, const SkPaint& p) {
    Op o{matrix, m, {}, std::move(b), std::nullopt, p};
    if (m.uniforms) o.uniforms.assign(m.uniforms->bytes(), m.uniforms->bytes() + m.uniforms->size());
    ops.push_back(std::move(o));
  }
  void drawPath(const SkPath& path, const SkPaint& p) { ops.push_back({matrix, std::nullopt, {}, nullptr, path, p}); }
};
