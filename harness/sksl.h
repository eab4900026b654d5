// A small interpreter for the SkSL subset that ink's shaders are written in (32-bit floats throughout).
#pragma once
#include <array>
#include <cctype>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace sksl {

struct Error : std::runtime_error { using std::runtime_error::runtime_error; };

struct Val {
  enum Kind : uint8_t { kVoid, kNum, kMat2, kStruct } kind = kVoid;
  int n = 0;  // components of a kNum
  std::array<float, 4> v{};
  std::map<std::string, Val> fields;
  std::string type;  // of a struct
  static Val F(float x) { Val r; r.kind = kNum; r.n = 1; r.v[0] = x; return r; }
  static Val Vec(std::initializer_list<float> l) { Val r; r.kind = kNum; r.n = 0; for (float x : l) r.v[r.n++] = x; return r; }
  static Val Undefined(int n) { Val r; r.kind = kNum; r.n = n; r.v.fill(NAN); return r; }
  float operator[](int i) const { return v[i]; }
};

// Width of a numeric type, -2 for mat2, 0 when the name is not a type.
inline int TypeWidth(const std::string& t) {
  if (t == "float" || t == "half" || t == "int" || t == "bool" || t == "uint") return 1;
  for (const char* b : {"float", "half", "int", "bool", "vec"}) {
    size_t l = strlen(b);
    if (t.rfind(b, 0) == 0 && t.size() == l + 1 && t[l] >= '2' && t[l] <= '4') return t[l] - '0';
  }
  if (t == "mat2" || t == "float2x2" || t == "half2x2") return -2;
  return 0;
}

struct Node {
  std::string op;  // "num", "id", "call", "member", "index", "bin", "un", "assign", "cond", ...
  std::string s;
  float num = 0;
  std::vector<std::unique_ptr<Node>> k;
};
using P = std::unique_ptr<Node>;

struct Param { std::string type, name; bool out = false, in = true; };
struct Function { std::string ret, name; std::vector<Param> params; P body; };
struct Uniform { std::string type, name; };

class Program {
 public:
  std::vector<Function> functions;
  std::vector<Uniform> uniforms;
  std::map<std::string, std::map<std::string, int>> structs;  // type -> field -> width

  explicit Program(std::string_view src) : src_(src) {
    Lex();
    while (t_ < toks_.size()) TopLevel();
    for (const auto& f : functions) Collect(*f.body);
  }
  // Members accessed on identifiers: (identifier, member).
  std::set<std::pair<std::string, std::string>> members;
  std::set<std::string> idents;

  // Runs `main` with the given arguments (out-parameters are updated in place).
  Val Call(const std::string& name, std::vector<Val>& args, const std::map<std::string, Val>& uniforms_in) {
    globals_ = &uniforms_in;
    steps_ = 0;
    return CallFunction(name, args);
  }

 private:
  struct Tok { std::string s; char kind; };  // kind: i(dent) n(umber) o(p)
  std::string src_;
  std::vector<Tok> toks_;
  size_t t_ = 0;

  void Lex() {
    size_t i = 0;
    auto at = [&](size_t j) { return j < src_.size() ? src_[j] : '\0'; };
    while (i < src_.size()) {
      char c = src_[i];
      if (isspace((unsigned char)c)) { ++i; continue; }
      if (c == '/' && at(i + 1) == '/') { while (i < src_.size() && src_[i] != '\n') ++i; continue; }
      if (c == '/' && at(i + 1) == '*') { i = src_.find("*/", i); if (i == std::string::npos) throw Error("comment"); i += 2; continue; }
      if (isalpha((unsigned char)c) || c == '_') {
        size_t b = i;
        while (isalnum((unsigned char)at(i)) || at(i) == '_') ++i;
        toks_.push_back({src_.substr(b, i - b), 'i'});
        continue;
      }
      if (isdigit((unsigned char)c) || (c == '.' && isdigit((unsigned char)at(i + 1)))) {
        char* e;
        strtod(src_.c_str() + i, &e);
        size_t n = e - (src_.c_str() + i);
        toks_.push_back({src_.substr(i, n), 'n'});
        i += n;
        if (at(i) == 'f' || at(i) == 'h' || at(i) == 'u') ++i;
        continue;
      }
      static const char* two[] = {"==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "++", "--"};
      bool done = false;
      for (const char* o : two)
        if (src_.compare(i, 2, o) == 0) { toks_.push_back({o, 'o'}); i += 2; done = true; break; }
      if (done) continue;
      toks_.push_back({std::string(1, c), 'o'});
      ++i;
    }
  }
  const std::string& Cur(size_t d = 0) const {
    static const std::string end;
    return t_ + d < toks_.size() ? toks_[t_ + d].s : end;
  }
  bool Is(const char* s, size_t d = 0) const { return Cur(d) == s; }
  bool Eat(const char* s) { if (Is(s)) { ++t_; return true; } return false; }
  void Need(const char* s) { if (!Eat(s)) throw Error(std::string("expected ") + s + " before '" + Cur() + "'"); }
  std::string Ident() {
    if (t_ >= toks_.size() || toks_[t_].kind != 'i') throw Error("expected a name before '" + Cur() + "'");
    return toks_[t_++].s;
  }
  bool IsType(size_t d = 0) const {
    const std::string& s = Cur(d);
    return TypeWidth(s) != 0 || s == "Varyings" || s == "Attributes" || s == "void" || structs.count(s);
  }
  static P Mk(std::string op, std::string s = "") { P p(new Node); p->op = std::move(op); p->s = std::move(s); return p; }

  void TopLevel() {
    if (Eat("layout")) { Need("("); while (!Eat(")")) ++t_; }
    if (Eat("uniform")) {
      Uniform u;
      u.type = Ident();
      u.name = Ident();
      Need(";");
      for (auto& v : uniforms) if (v.name == u.name) throw Error("uniform declared twice: " + u.name);
      uniforms.push_back(u);
      return;
    }
    if (Is("const") && Is("=", 3)) {  // a global constant
      ++t_;
      std::string ty = Ident(), nm = Ident();
      Need("=");
      consts_.push_back({nm, Expr()});
      Need(";");
      return;
    }
    Function f;
    f.ret = Ident();
    f.name = Ident();
    Need("(");
    while (!Eat(")")) {
      Param p;
      for (;;) {
        if (Eat("const")) continue;
        if (Eat("inout")) { p.out = true; continue; }
        if (Eat("out")) { p.out = true; p.in = false; continue; }
        if (Eat("in")) continue;
        break;
      }
      if (!IsType()) throw Error("unknown type " + Cur());
      p.type = Ident();
      p.name = Ident();
      f.params.push_back(p);
      if (!Eat(",") && !Is(")")) throw Error("parameter list of " + f.name);
    }
    if (Eat(";")) return;  // prototype
    f.body = Block();
    functions.push_back(std::move(f));
  }
  P Block() {
    Need("{");
    P b = Mk("block");
    while (!Eat("}")) {
      if (t_ >= toks_.size()) throw Error("unterminated block");
      b->k.push_back(Stmt());
    }
    return b;
  }
  P Stmt() {
    if (Is("{")) return Block();
    if (Eat(";")) return Mk("block");
    // A statement without effect that C++ tools may add to every function body, shader text included.
    if (Is("(") && t_ + 2 < toks_.size() && toks_[t_ + 1].s == "void" && toks_[t_ + 2].s == ")") t_ += 3;
    if (Eat("do")) {  // only do { ... } while (0)
      P b = Stmt();
      Need("while"); Need("("); P z = Expr(); Need(")"); Need(";");
      if (z->op != "num" || z->num != 0) throw Error("do loop");
      return b;
    }
    if (Eat("if")) {
      P n = Mk("if");
      Need("("); n->k.push_back(Expr()); Need(")");
      n->k.push_back(Stmt());
      if (Eat("else")) n->k.push_back(Stmt());
      return n;
    }
    if (Eat("for")) {
      P n = Mk("for");
      Need("(");
      n->k.push_back(Stmt());
      n->k.push_back(Expr()); Need(";");
      n->k.push_back(Expr()); Need(")");
      n->k.push_back(Stmt());
      return n;
    }
    if (Eat("return")) {
      P n = Mk("return");
      if (!Is(";")) n->k.push_back(Expr());
      Need(";");
      return n;
    }
    bool c = Is("const");
    if (c || (IsType() && toks_.size() > t_ + 1 && toks_[t_ + 1].kind == 'i')) {
      if (c) ++t_;
      std::string ty = Ident();
      P b = Mk("seq");
      do {
        P d = Mk("decl", ty);
        d->k.push_back(Mk("id", Ident()));
        if (Eat("=")) d->k.push_back(Expr());
        b->k.push_back(std::move(d));
      } while (Eat(","));
      Need(";");
      return b;
    }
    P e = Mk("expr");
    e->k.push_back(Expr());
    Need(";");
    return e;
  }
  P Bin(std::string op, P a, P b) { P n = Mk("bin", std::move(op)); n->k.push_back(std::move(a)); n->k.push_back(std::move(b)); return n; }
  P Expr() {
    P a = Ternary();
    for (const char* o : {"=", "+=", "-=", "*=", "/="})
      if (Is(o)) {
        std::string op = Cur();
        ++t_;
        P n = Mk("assign", op);
        n->k.push_back(std::move(a));
        n->k.push_back(Expr());
        return n;
      }
    return a;
  }
  P Ternary() {
    P a = Level(0);
    if (!Eat("?")) return a;
    P n = Mk("cond");
    n->k.push_back(std::move(a));
    n->k.push_back(Expr());
    Need(":");
    n->k.push_back(Expr());
    return n;
  }
  P Level(int l) {
    static const std::vector<std::vector<std::string>> ops = {{"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"+", "-"}, {"*", "/", "%"}};
    if (l == (int)ops.size()) return Unary();
    P a = Level(l + 1);
    for (;;) {
      bool hit = false;
      for (const auto& o : ops[l])
        if (Is(o.c_str())) { ++t_; a = Bin(o, std::move(a), Level(l + 1)); hit = true; break; }
      if (!hit) return a;
    }
  }
  P Unary() {
    for (const char* o : {"-", "!", "+", "++", "--"})
      if (Is(o)) { P n = Mk("un", Cur()); ++t_; n->k.push_back(Unary()); return n; }
    return Postfix();
  }
  P Postfix() {
    P a;
    if (Eat("(")) { a = Expr(); Need(")"); }
    else if (t_ < toks_.size() && toks_[t_].kind == 'n') { a = Mk("num", Cur()); a->num = strtof(Cur().c_str(), nullptr); ++t_; }
    else if (Is("true") || Is("false")) { a = Mk("num", Cur()); a->num = Is("true"); ++t_; }
    else {
      std::string id = Ident();
      if (Eat("(")) {
        a = Mk("call", id);
        while (!Eat(")")) { a->k.push_back(Expr()); if (!Eat(",") && !Is(")")) throw Error("arguments of " + id); }
      } else a = Mk("id", id);
    }
    for (;;) {
      if (Eat(".")) { P m = Mk("member", Ident()); m->k.push_back(std::move(a)); a = std::move(m); }
      else if (Eat("[")) { P m = Mk("index"); m->k.push_back(std::move(a)); m->k.push_back(Expr()); Need("]"); a = std::move(m); }
      else if (Is("++") || Is("--")) { P m = Mk("post", Cur()); ++t_; m->k.push_back(std::move(a)); a = std::move(m); }
      else return a;
    }
  }
  void Collect(const Node& n) {
    if (n.op == "member" && n.k[0]->op == "id") members.insert({n.k[0]->s, n.s});
    if (n.op == "id") idents.insert(n.s);
    for (const auto& k : n.k) Collect(*k);
  }

  // ---- evaluation ----
  std::vector<std::pair<std::string, P>> consts_;
  const std::map<std::string, Val>* globals_ = nullptr;
  long steps_ = 0;
  struct Frame { std::vector<std::pair<std::string, Val>> vars; std::vector<std::pair<std::string, std::string>> types; bool returned = false; Val ret; };

  Val Make(const std::string& type) {
    int w = TypeWidth(type);
    if (w > 0) return Val::Undefined(w);
    Val r;
    if (w == -2) { r.kind = Val::kMat2; r.n = 4; r.v.fill(NAN); return r; }
    auto it = structs.find(type);
    if (it == structs.end()) throw Error("unknown type " + type);
    r.kind = Val::kStruct;
    r.type = type;
    for (auto& [f, n] : it->second) r.fields[f] = Val::Undefined(n);
    return r;
  }
  static bool SameShape(const Val& a, const Val& b) { return a.kind == b.kind && a.n == b.n && a.type == b.type; }
  Val CallFunction(const std::string& name, std::vector<Val>& args) {
    const Function* hit = nullptr;
    for (const auto& f : functions) {
      if (f.name != name || f.params.size() != args.size()) continue;
      bool ok = true;
      for (size_t i = 0; i < args.size(); ++i) {
        Val shape = Make(f.params[i].type);
        ok = ok && SameShape(shape, args[i]);
      }
      if (ok) { if (hit) throw Error("ambiguous call of " + name); hit = &f; }
    }
    if (!hit) throw Error("no function " + name + " takes these arguments");
    Frame fr;
    for (size_t i = 0; i < args.size(); ++i) fr.vars.emplace_back(hit->params[i].name, hit->params[i].in ? args[i] : Make(hit->params[i].type));
    Exec(*hit->body, fr);
    for (size_t i = 0; i < args.size(); ++i)
      if (hit->params[i].out) args[i] = fr.vars[i].second;
    if (hit->ret != "void") {
      if (!fr.returned) throw Error(name + " does not return");
      if (!SameShape(Make(hit->ret), fr.ret)) throw Error(name + " returns a value of another type");
    }
    return fr.ret;
  }
  void Exec(const Node& n, Frame& f) {
    if (f.returned) return;
    if (++steps_ > 200000) throw Error("shader runs too long");
    if (n.op == "block") {
      size_t keep = f.vars.size();
      for (const auto& s : n.k) { Exec(*s, f); if (f.returned) break; }
      if (f.vars.size() > keep) f.vars.resize(keep);
    } else if (n.op == "seq") {
      for (const auto& s : n.k) Exec(*s, f);
    } else if (n.op == "decl") {
      Val v = Make(n.s);
      if (n.k.size() > 1) {
        Val x = Eval(*n.k[1], f);
        if (!SameShape(v, x)) throw Error("initialiser of " + n.k[0]->s + " has another type");
        v = x;
      }
      f.vars.emplace_back(n.k[0]->s, v);
    } else if (n.op == "expr") {
      Eval(*n.k[0], f);
    } else if (n.op == "if") {
      if (Eval(*n.k[0], f)[0] != 0) Exec(*n.k[1], f);
      else if (n.k.size() > 2) Exec(*n.k[2], f);
    } else if (n.op == "for") {
      size_t keep = f.vars.size();
      Exec(*n.k[0], f);
      while (!f.returned && Eval(*n.k[1], f)[0] != 0) { Exec(*n.k[3], f); Eval(*n.k[2], f); }
      f.vars.resize(keep);
    } else if (n.op == "return") {
      if (!n.k.empty()) f.ret = Eval(*n.k[0], f);
      f.returned = true;
    } else throw Error("statement " + n.op);
  }
  Val* Find(const std::string& s, Frame& f) {
    for (size_t i = f.vars.size(); i-- > 0;) if (f.vars[i].first == s) return &f.vars[i].second;
    return nullptr;
  }
  static bool Swizzle(const std::string& s, int width, std::vector<int>& idx) {
    if (s.empty() || s.size() > 4) return false;
    for (const char* set : {"xyzw", "rgba", "stpq", "LTRB"}) {
      idx.clear();
      for (char c : s) { const char* p = strchr(set, c); if (!p || p - set >= width) break; idx.push_back((int)(p - set)); }
      if (idx.size() == s.size()) return true;
    }
    return false;
  }
  // Reference to a variable or struct field; swizzled targets come back with the component list.
  Val* LValue(const Node& n, Frame& f, std::vector<int>& idx) {
    idx.clear();
    if (n.op == "id") {
      Val* v = Find(n.s, f);
      if (!v) throw Error("unknown variable " + n.s);
      return v;
    }
    if (n.op == "member") {
      std::vector<int> inner;
      Val* v = LValue(*n.k[0], f, inner);
      if (v->kind == Val::kStruct) {
        auto it = v->fields.find(n.s);
        if (it == v->fields.end()) throw Error("no field " + n.s);
        return &it->second;
      }
      if (!inner.empty() || v->kind != Val::kNum || !Swizzle(n.s, v->n, idx)) throw Error("bad swizzle " + n.s);
      return v;
    }
    if (n.op == "index") {
      std::vector<int> inner;
      Val* v = LValue(*n.k[0], f, inner);
      int i = (int)Eval(*n.k[1], f)[0];
      if (!inner.empty() || v->kind != Val::kNum || i < 0 || i >= v->n) throw Error("bad index");
      idx.push_back(i);
      return v;
    }
    throw Error("not assignable");
  }
  static Val Bcast(const Val& a, const Val& b, const std::function<float(float, float)>& f) {
    if (a.kind == Val::kMat2 && b.kind == Val::kNum && b.n == 1) { Val r = a; for (int i = 0; i < 4; ++i) r.v[i] = f(a.v[i], b.v[0]); return r; }
    if (b.kind == Val::kMat2 && a.kind == Val::kNum && a.n == 1) { Val r = b; for (int i = 0; i < 4; ++i) r.v[i] = f(a.v[0], b.v[i]); return r; }
    if (a.kind != b.kind || a.kind == Val::kStruct || a.kind == Val::kVoid) throw Error("operands of different types");
    if (a.n != b.n && a.n != 1 && b.n != 1) throw Error("operands of different widths");
    Val r = a.n >= b.n ? a : b;
    for (int i = 0; i < r.n; ++i) r.v[i] = f(a.v[a.n == 1 ? 0 : i], b.v[b.n == 1 ? 0 : i]);
    return r;
  }
  static Val Mul(const Val& a, const Val& b) {
    if (a.kind == Val::kMat2 && b.kind == Val::kNum && b.n == 2) return Val::Vec({a.v[0] * b.v[0] + a.v[2] * b.v[1], a.v[1] * b.v[0] + a.v[3] * b.v[1]});
    if (b.kind == Val::kMat2 && a.kind == Val::kNum && a.n == 2) return Val::Vec({a.v[0] * b.v[0] + a.v[1] * b.v[1], a.v[0] * b.v[2] + a.v[1] * b.v[3]});
    if (a.kind == Val::kMat2 && b.kind == Val::kMat2) {
      Val r = a;
      for (int c = 0; c < 2; ++c)
        for (int w = 0; w < 2; ++w) r.v[2 * c + w] = a.v[w] * b.v[2 * c] + a.v[2 + w] * b.v[2 * c + 1];
      return r;
    }
    return Bcast(a, b, [](float x, float y) { return x * y; });
  }
  Val Arith(const std::string& op, const Val& a, const Val& b) {
    if (op == "+") return Bcast(a, b, [](float x, float y) { return x + y; });
    if (op == "-") return Bcast(a, b, [](float x, float y) { return x - y; });
    if (op == "*") return Mul(a, b);
    if (op == "/") return Bcast(a, b, [](float x, float y) { return x / y; });
    if (op == "==" || op == "!=") {
      if (!SameShape(a, b)) throw Error("comparison of different types");
      bool e = true;
      for (int i = 0; i < a.n; ++i) e = e && a.v[i] == b.v[i];
      return Val::F(e == (op == "=="));
    }
    if (a.kind != Val::kNum || b.kind != Val::kNum || a.n != 1 || b.n != 1) throw Error("operator " + op + " needs scalars");
    float x = a[0], y = b[0];
    if (op == "<") return Val::F(x < y);
    if (op == ">") return Val::F(x > y);
    if (op == "<=") return Val::F(x <= y);
    if (op == ">=") return Val::F(x >= y);
    if (op == "&&") return Val::F(x != 0 && y != 0);
    if (op == "||") return Val::F(x != 0 || y != 0);
    throw Error("operator " + op);
  }
  Val Eval(const Node& n, Frame& f) {
    if (++steps_ > 200000) throw Error("shader runs too long");
    if (n.op == "num") return Val::F(n.num);
    if (n.op == "id") {
      if (Val* v = Find(n.s, f)) return *v;
      if (globals_) {
        auto it = globals_->find(n.s);
        if (it != globals_->end()) {
          for (const auto& u : uniforms) if (u.name == n.s) return it->second;
        }
      }
      for (const auto& [k, e] : consts_) if (k == n.s) return Eval(*e, f);
      throw Error("unknown name " + n.s);
    }
    if (n.op == "member") {
      Val b = Eval(*n.k[0], f);
      if (b.kind == Val::kStruct) {
        auto it = b.fields.find(n.s);
        if (it == b.fields.end()) throw Error("no field " + n.s);
        return it->second;
      }
      std::vector<int> idx;
      if (b.kind != Val::kNum || !Swizzle(n.s, b.n, idx)) throw Error("bad swizzle " + n.s);
      Val r;
      r.kind = Val::kNum;
      r.n = (int)idx.size();
      for (int i = 0; i < r.n; ++i) r.v[i] = b.v[idx[i]];
      return r;
    }
    if (n.op == "index") {
      Val b = Eval(*n.k[0], f);
      int i = (int)Eval(*n.k[1], f)[0];
      if (b.kind == Val::kMat2) { if (i < 0 || i > 1) throw Error("bad index"); return Val::Vec({b.v[2 * i], b.v[2 * i + 1]}); }
      if (b.kind != Val::kNum || i < 0 || i >= b.n) throw Error("bad index");
      return Val::F(b.v[i]);
    }
    if (n.op == "bin") {
      if (n.s == "&&") return Val::F(Eval(*n.k[0], f)[0] != 0 && Eval(*n.k[1], f)[0] != 0);
      if (n.s == "||") return Val::F(Eval(*n.k[0], f)[0] != 0 || Eval(*n.k[1], f)[0] != 0);
      Val a = Eval(*n.k[0], f);
      return Arith(n.s, a, Eval(*n.k[1], f));
    }
    if (n.op == "un") {
      if (n.s == "++" || n.s == "--") return Step(*n.k[0], f, n.s == "++" ? 1 : -1, false);
      Val a = Eval(*n.k[0], f);
      if (n.s == "!") return Val::F(a[0] == 0);
      if (n.s == "-") for (int i = 0; i < 4; ++i) a.v[i] = -a.v[i];
      return a;
    }
    if (n.op == "post") return Step(*n.k[0], f, n.s == "++" ? 1 : -1, true);
    if (n.op == "cond") return Eval(*n.k[0], f)[0] != 0 ? Eval(*n.k[1], f) : Eval(*n.k[2], f);
    if (n.op == "assign") {
      Val x = Eval(*n.k[1], f);
      std::vector<int> idx;
      Val* t = LValue(*n.k[0], f, idx);
      if (idx.empty()) {
        Val r = n.s == "=" ? x : Arith(n.s.substr(0, 1), *t, x);
        if (!SameShape(*t, r)) throw Error("assignment of another type");
        *t = r;
        return r;
      }
      Val cur;
      cur.kind = Val::kNum;
      cur.n = (int)idx.size();
      for (int i = 0; i < cur.n; ++i) cur.v[i] = t->v[idx[i]];
      Val r = n.s == "=" ? x : Arith(n.s.substr(0, 1), cur, x);
      if (!SameShape(cur, r)) throw Error("assignment of another width");
      for (int i = 0; i < cur.n; ++i) t->v[idx[i]] = r.v[i];
      return r;
    }
    if (n.op == "call") return EvalCall(n, f);
    throw Error("expression " + n.op);
  }
  Val Step(const Node& n, Frame& f, float d, bool post) {
    std::vector<int> idx;
    Val* t = LValue(n, f, idx);
    if (!idx.empty() || t->kind != Val::kNum || t->n != 1) throw Error("increment");
    Val old = *t;
    t->v[0] += d;
    return post ? old : *t;
  }
  Val EvalCall(const Node& n, Frame& f) {
    bool user = false;
    for (const auto& g : functions) user = user || g.name == n.s;
    std::vector<Val> a;
    for (const auto& k : n.k) {
      // an out-argument may be still undefined
      a.push_back(Eval(*k, f));
    }
    if (user) {
      std::vector<Val> before = a;
      Val r = CallFunction(n.s, a);
      const Function* g = nullptr;
      for (const auto& h : functions) {
        if (h.name != n.s || h.params.size() != a.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < a.size(); ++i) ok = ok && SameShape(Make(h.params[i].type), a[i]);
        if (ok) g = &h;
      }
      for (size_t i = 0; i < a.size(); ++i)
        if (g->params[i].out) {
          std::vector<int> idx;
          Val* t = LValue(*n.k[i], f, idx);
          if (idx.empty()) *t = a[i];
          else for (size_t j = 0; j < idx.size(); ++j) t->v[idx[j]] = a[i].v[j];
        }
      return r;
    }
    int w = TypeWidth(n.s);
    if (w == -2) {
      Val r;
      r.kind = Val::kMat2;
      r.n = 4;
      int k = 0;
      if (a.size() == 1 && a[0].kind == Val::kNum && a[0].n == 1) { r.v = {a[0][0], 0, 0, a[0][0]}; return r; }
      for (const auto& x : a) for (int i = 0; i < x.n; ++i) { if (k >= 4) throw Error("too many values for mat2"); r.v[k++] = x.v[i]; }
      if (k != 4) throw Error("too few values for mat2");
      return r;
    }
    if (w > 0) {
      Val r;
      r.kind = Val::kNum;
      r.n = w;
      if (a.size() == 1 && a[0].kind == Val::kNum && a[0].n == 1) {
        r.v.fill(a[0][0]);
        if (n.s == "int") r.v[0] = std::trunc(r.v[0]);
        return r;
      }
      int k = 0;
      for (const auto& x : a) {
        if (x.kind != Val::kNum) throw Error("constructor argument");
        for (int i = 0; i < x.n; ++i) { if (k >= w) throw Error("too many values for " + n.s); r.v[k++] = x.v[i]; }
      }
      if (k != w) throw Error("too few values for " + n.s);
      return r;
    }
    return Builtin(n.s, a);
  }
  static Val Map1(const Val& a, float (*g)(float)) {
    if (a.kind != Val::kNum) throw Error("argument type");
    Val r = a;
    for (int i = 0; i < a.n; ++i) r.v[i] = g(a.v[i]);
    return r;
  }
  Val Builtin(const std::string& s, const std::vector<Val>& a) {
    auto argc = [&](size_t k) { if (a.size() != k) throw Error("wrong number of arguments of " + s); };
    auto one = [&](float (*g)(float)) { argc(1); return Map1(a[0], g); };
    auto clampf = +[](float x, float lo, float hi) { float r = x < lo ? lo : x; return r > hi ? hi : r; };
    (void)clampf;
    if (s == "saturate") return one([](float x) { float r = x > 0 ? x : 0; return r < 1 ? r : 1.f; });
    if (s == "abs") return one([](float x) { return std::fabs(x); });
    if (s == "floor") return one([](float x) { return std::floor(x); });
    if (s == "ceil") return one([](float x) { return std::ceil(x); });
    if (s == "round") return one([](float x) { return std::round(x); });
    if (s == "fract") return one([](float x) { return x - std::floor(x); });
    if (s == "sign") return one([](float x) { return (float)((x > 0) - (x < 0)); });
    if (s == "sqrt") return one([](float x) { return std::sqrt(x); });
    if (s == "inversesqrt") return one([](float x) { return 1 / std::sqrt(x); });
    if (s == "sin") return one([](float x) { return std::sin(x); });
    if (s == "cos") return one([](float x) { return std::cos(x); });
    if (s == "tan") return one([](float x) { return std::tan(x); });
    if (s == "exp") return one([](float x) { return std::exp(x); });
    if (s == "log") return one([](float x) { return std::log(x); });
    if (s == "exp2") return one([](float x) { return std::exp2(x); });
    if (s == "log2") return one([](float x) { return std::log2(x); });
    if (s == "radians") return one([](float x) { return x * 0.01745329251994329577f; });
    if (s == "degrees") return one([](float x) { return x * 57.2957795130823208768f; });
    if (s == "atan" && a.size() == 1) return one([](float x) { return std::atan(x); });
    if (s == "atan") { argc(2); return Bcast(a[0], a[1], [](float y, float x) { return std::atan2(y, x); }); }
    if (s == "max") { argc(2); return Bcast(a[0], a[1], [](float x, float y) { return x < y ? y : x; }); }
    if (s == "min") { argc(2); return Bcast(a[0], a[1], [](float x, float y) { return y < x ? y : x; }); }
    if (s == "pow") { argc(2); return Bcast(a[0], a[1], [](float x, float y) { return std::pow(x, y); }); }
    if (s == "mod") { argc(2); return Bcast(a[0], a[1], [](float x, float y) { return x - y * std::floor(x / y); }); }
    if (s == "step") { argc(2); return Bcast(a[0], a[1], [](float e, float x) { return x < e ? 0.f : 1.f; }); }
    if (s == "clamp") { argc(3); Val r = Bcast(a[0], a[1], [](float x, float y) { return x < y ? y : x; }); return Bcast(r, a[2], [](float x, float y) { return y < x ? y : x; }); }
    if (s == "mix") {
      argc(3);
      Val one_minus = Map1(a[2], +[](float x) { return 1 - x; });
      return Bcast(Bcast(a[0], one_minus, [](float x, float y) { return x * y; }), Bcast(a[1], a[2], [](float x, float y) { return x * y; }), [](float x, float y) { return x + y; });
    }
    if (s == "dot") {
      argc(2);
      if (!SameShape(a[0], a[1])) throw Error("dot");
      float r = 0;
      for (int i = 0; i < a[0].n; ++i) r += a[0].v[i] * a[1].v[i];
      return Val::F(r);
    }
    if (s == "length") { argc(1); float r = 0; for (int i = 0; i < a[0].n; ++i) r += a[0].v[i] * a[0].v[i]; return Val::F(std::sqrt(r)); }
    if (s == "distance") { argc(2); float r = 0; for (int i = 0; i < a[0].n; ++i) r += (a[0].v[i] - a[1].v[i]) * (a[0].v[i] - a[1].v[i]); return Val::F(std::sqrt(r)); }
    if (s == "normalize") { argc(1); float r = 0; for (int i = 0; i < a[0].n; ++i) r += a[0].v[i] * a[0].v[i]; return Bcast(a[0], Val::F(std::sqrt(r)), [](float x, float y) { return x / y; }); }
    throw Error("unknown function " + s);
  }
};

}  // namespace sksl
