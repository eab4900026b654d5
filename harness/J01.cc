// The Java bridge's shared plumbing: string views over Java strings, and statuses <-> exceptions.
#include <list>
#include <memory>
#include <string>

#include "engine/pbt.h"
#include "fake/fake_jni.h"
#include "ink/jni/internal/jni_string_util.h"
#include "ink/jni/internal/jni_throw_util.h"

using ink::jni::JStringView;
using pbt::Ctx;

namespace {
// Modified UTF-8: any characters, NUL as C0 80, supplementary characters as surrogate pairs.
std::string GenText(Ctx& c) {
  std::string s;
  int n = c.Len(0, 30);
  for (int i = 0; i < n; ++i) {
    uint32_t u;
    switch (c.Choice(5)) {
      case 0:
      case 1: u = 'a' + c.Choice(25); break;
      case 2: u = c.Choice(0x7f); break;
      case 3: u = 0x80 + c.Choice(0x77f); break;
      case 4: u = 0x800 + c.Choice(0xf7ff); break;
      default: u = 0; break;
    }
    if (u && u < 0x80) s += (char)u;
    else if (u < 0x800) { s += (char)(0xC0 | u >> 6); s += (char)(0x80 | (u & 63)); }
    else { s += (char)(0xE0 | u >> 12); s += (char)(0x80 | (u >> 6 & 63)); s += (char)(0x80 | (u & 63)); }
  }
  return s;
}
void Clean(fake::Env& e) { PROP(e.errors.empty(), "jni-protocol", e.errors.front()); }

struct Map { absl::StatusCode code; const char* cls; };
const Map kMap[] = {{absl::StatusCode::kFailedPrecondition, "java/lang/IllegalStateException"},
                    {absl::StatusCode::kInvalidArgument, "java/lang/IllegalArgumentException"},
                    {absl::StatusCode::kNotFound, "java/util/NoSuchElementException"},
                    {absl::StatusCode::kOutOfRange, "java/lang/IndexOutOfBoundsException"},
                    {absl::StatusCode::kUnimplemented, "java/lang/UnsupportedOperationException"}};
void DefineClasses(fake::Env& e) {
  e.DefineClass("java/lang/RuntimeException", "java/lang/Exception");
  for (auto& m : kMap) e.DefineClass(m.cls, "java/lang/RuntimeException");
  e.DefineClass("java/util/NoSuchElementException", "java/lang/RuntimeException");
  e.DefineClass("java/util/InputMismatchException", "java/util/NoSuchElementException");
  e.DefineClass("java/lang/NumberFormatException", "java/lang/IllegalArgumentException");
  e.DefineClass("java/lang/ArrayIndexOutOfBoundsException", "java/lang/IndexOutOfBoundsException");
  e.DefineClass("java/util/concurrent/CancellationException", "java/lang/IllegalStateException");
  e.DefineClass("java/io/IOException", "java/lang/Exception");
  e.DefineClass("java/lang/NullPointerException", "java/lang/RuntimeException");
}
}  // namespace

PBT(string_views, 5, "at least two views were alive at once and one outlived its local reference") {
  fake::Env e;
  e.unterminated = c.Bool();
  struct Live { std::string text; bool null; std::unique_ptr<JStringView> v; jstring h; bool killed; };
  std::vector<Live> live;
  std::vector<std::pair<jstring, std::string>> strings;
  int nulls = 0;
  bool two = false, outlived = false;
  int steps = c.Len(1, 14);
  for (int i = 0; i < steps; ++i) {
    switch (c.Choice(5)) {
      case 0:
      case 1:
      case 2: {
        bool null = c.Chance(1, 6);
        std::string t = null ? "" : GenText(c);
        jstring h = nullptr;
        if (!null && !strings.empty() && c.Chance(1, 4)) {  // a second view of the same string
          auto& s = strings[c.Choice(strings.size() - 1)];
          if (!reinterpret_cast<fake::Ref*>(s.first)->dead) { h = s.first; t = s.second; }
        }
        if (!null && !h) { h = e.String(t); strings.push_back({h, t}); }
        c.Note("view ", live.size(), null ? " of null" : " of a string of bytes ", t.size());
        live.push_back({t, null, std::make_unique<JStringView>(&e.env, h), h, false});
        nulls += null;
        break;
      }
      case 3:
        if (!live.empty()) {
          size_t k = c.Choice(live.size() - 1);
          c.Note("destroy view ", k);
          live.erase(live.begin() + k);
        }
        break;
      case 4:
        if (!strings.empty()) {  // the Java frame returns: the local reference dies, the view must not
          auto& s = strings[c.Choice(strings.size() - 1)];
          c.Note("local reference dies");
          e.KillLocal(s.first);
        }
        break;
      default: {
        std::string t = GenText(c);
        int before = e.outstanding_chars;
        std::string got = ink::jni::JStringToStdString(&e.env, e.String(t));
        PROP(got == t, "copy-equals-text", got.size(), " bytes, expected ", t.size());
        PROP(ink::jni::JStringToStdString(&e.env, nullptr).empty(), "null-copies-to-empty");
        PROP(e.outstanding_chars == before, "copy-releases", e.outstanding_chars - before);
      }
    }
    size_t non_null = 0;
    for (auto& l : live) {
      PROP(l.v->string_view() == l.text, "view-equals-text", l.v->string_view().size(), " bytes, expected ", l.text.size());
      non_null += !l.null;
      if (l.h && reinterpret_cast<fake::Ref*>(l.h)->dead) outlived = true;
    }
    two = two || live.size() > 1;
    PROP(e.outstanding_chars == (int)non_null, "one-acquire-per-live-view", e.outstanding_chars, " outstanding, ", non_null, " views");
    PROP(e.live_globals <= (int)non_null, "no-leaked-references", e.live_globals);
    Clean(e);
  }
  c.NonTrivial(two && outlived);
  live.clear();
  PROP(e.Balanced(), "everything-released", e.outstanding_chars, " chars and ", e.live_globals, " global references left");
  Clean(e);
}

PBT(throwing, 4, "the status is one of the five mapped codes") {
  fake::Env e;
  DefineClasses(e);
  auto code = static_cast<absl::StatusCode>(c.Choice(16));
  std::string msg(c.Choice(20), 'm');
  absl::Status s(code, msg);
  c.Note("code ", (int)code, " message length ", msg.size());
  bool ok = ink::jni::CheckOkOrThrow(&e.env, s);
  PROP(ok == s.ok() && ok == (code == absl::StatusCode::kOk), "check-result");
  if (ok) {
    PROP(!e.pending, "ok-does-not-throw");
    Clean(e);
    return;
  }
  const char* want = "java/lang/IllegalStateException";
  for (auto& m : kMap) if (m.code == code) { want = m.cls; c.NonTrivial(); }
  PROP(e.pending && e.PendingObj()->cls == want, "exception-class", e.pending ? e.PendingObj()->cls : "none", ", expected ", want);
  PROP(e.PendingObj()->text.find(msg) != std::string::npos, "exception-message", e.PendingObj()->text);
  Clean(e);
  // and back again
  absl::Status back = ink::jni::CatchExceptionAsStatus(&e.env);
  PROP(!e.pending, "caught-exception-is-cleared");
  absl::StatusCode expect = absl::StatusCode::kFailedPrecondition;
  for (auto& m : kMap) if (m.code == code) expect = code;
  PROP(back.code() == expect, "round-trip-code", (int)back.code(), " expected ", (int)expect);
  PROP(std::string(back.message()).find(msg) != std::string::npos, "round-trip-message", std::string(back.message()));
  PROP(e.Balanced(), "everything-released");
  Clean(e);
}

PBT(catching, 4, "an exception of a subclass, or with no message, is pending") {
  fake::Env e;
  DefineClasses(e);
  struct K { const char* cls; absl::StatusCode code; };
  static const K ks[] = {{"java/lang/IllegalStateException", absl::StatusCode::kFailedPrecondition},
                         {"java/lang/IllegalArgumentException", absl::StatusCode::kInvalidArgument},
                         {"java/util/NoSuchElementException", absl::StatusCode::kNotFound},
                         {"java/lang/IndexOutOfBoundsException", absl::StatusCode::kOutOfRange},
                         {"java/lang/UnsupportedOperationException", absl::StatusCode::kUnimplemented},
                         {"java/util/InputMismatchException", absl::StatusCode::kNotFound},
                         {"java/lang/NumberFormatException", absl::StatusCode::kInvalidArgument},
                         {"java/lang/ArrayIndexOutOfBoundsException", absl::StatusCode::kOutOfRange},
                         {"java/util/concurrent/CancellationException", absl::StatusCode::kFailedPrecondition},
                         {"java/io/IOException", absl::StatusCode::kUnknown},
                         {"java/lang/NullPointerException", absl::StatusCode::kUnknown},
                         {"java/lang/RuntimeException", absl::StatusCode::kUnknown}};
  PROP(ink::jni::CatchExceptionAsStatus(&e.env).ok(), "nothing-pending-is-ok");
  int rounds = c.Int(1, 3);
  for (int i = 0; i < rounds; ++i) {
    size_t k = c.Choice(11);
    std::string msg = GenText(c);
    bool has = !c.Chance(1, 5);
    c.Note(ks[k].cls, has ? " with a message" : " without message");
    c.NonTrivial(k >= 5 || !has);
    e.Throw(ks[k].cls, msg, has);
    absl::Status s = ink::jni::CatchExceptionAsStatus(&e.env);
    PROP(s.code() == ks[k].code, "status-code", ks[k].cls, " gives ", (int)s.code());
    PROP(s.message() == (has ? msg : ""), "status-message", std::string(s.message()), " expected ", msg);
    PROP(!e.pending, "caught-exception-is-cleared");
    PROP(e.Balanced(), "everything-released");
    Clean(e);
    PROP(ink::jni::CatchExceptionAsStatus(&e.env).ok(), "caught-only-once");
  }
  const char* cls = ks[c.Choice(11)].cls;
  std::string msg(c.Choice(30), 'x');
  ink::jni::ThrowException(&e.env, cls, msg);
  PROP(e.pending && e.PendingObj()->cls == cls && e.PendingObj()->text == msg, "throw-named", cls);
  Clean(e);
}
