// An in-memory stand-in for the Java side of JNI: objects, classes, strings, arrays, references and
// exceptions, with the bookkeeping a strict VM does (-Xcheck:jni): dead references, unbalanced
// acquire/release, calls made while an exception is pending, unknown members. Problems are collected
// in `errors`; harnesses require it to stay empty.
#pragma once
#include <jni.h>

#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace fake {

struct Obj;
struct Ref { Obj* o = nullptr; bool global = false, dead = false; };

struct Cls {
  std::string name;
  Cls* super = nullptr;
};
struct Obj {
  std::string cls;
  std::string text;                 // strings, exception messages
  bool has_text = true;             // exception without a message
  std::vector<float> floats;
  std::vector<jlong> longs;
  std::vector<jint> ints;
  std::vector<Obj*> objs;
  std::map<std::string, std::vector<double>> calls;  // last arguments per method name
  std::map<std::string, int> call_count;
  std::vector<double> ctor;         // constructor arguments
  std::vector<Obj*> obj_args;       // object arguments of the last call
  std::string made_by;              // constructor / factory that made it
  std::map<std::string, double> nums;   // getter results
  std::map<std::string, Obj*> members;  // object getter results
  void* buffer = nullptr;
  jlong capacity = 0;
};
struct Member {
  std::string cls, name, sig;
  bool is_static = false;
};

class Env {
 public:
  JNIEnv env;
  std::vector<std::string> errors;
  Ref* pending = nullptr;  // pending exception
  int outstanding_chars = 0, live_globals = 0, outstanding_arrays = 0;
  bool copy_arrays = true;
  bool unterminated = false;  // hand out UTF chars with no terminator guarantee beyond the length
  // class name -> set of "name+sig" members that exist (static ones prefixed by '!'); empty: anything goes
  std::map<std::string, std::set<std::string>> members;

  Env() {
    std::memset(&t_, 0, sizeof t_);
    Fill();
    env.functions = &t_;
    Current() = this;
  }
  ~Env() {
    for (auto& kv : chars_) std::free(kv.first);
    for (auto& kv : arrays_) std::free(kv.first);
  }
  static Env*& Current() { static thread_local Env* e = nullptr; return e; }

  Cls* DefineClass(const std::string& n, const std::string& super = "") {
    auto& c = classes_[n];
    if (!c) { c = std::make_unique<Cls>(); c->name = n; }
    c->super = super.empty() ? nullptr : DefineClass2(super);
    return c.get();
  }
  Cls* DefineClass2(const std::string& n) {
    auto& c = classes_[n];
    if (!c) { c = std::make_unique<Cls>(); c->name = n; }
    return c.get();
  }
  Obj* New(const std::string& cls) {
    pool_.push_back(std::make_unique<Obj>());
    pool_.back()->cls = cls;
    return pool_.back().get();
  }
  template <typename T = jobject> T Local(Obj* o) {
    if (!o) return nullptr;
    refs_.push_back(std::make_unique<Ref>());
    refs_.back()->o = o;
    return reinterpret_cast<T>(refs_.back().get());
  }
  jstring String(const std::string& s) { Obj* o = New("java/lang/String"); o->text = s; return Local<jstring>(o); }
  jclass Class(const std::string& n) {
    DefineClass2(n);
    Obj* o = New("java/lang/Class");
    o->text = n;
    return Local<jclass>(o);
  }
  Obj* Get(jobject h, const char* where) {
    if (!h) { Err(std::string(where) + ": null reference"); return nullptr; }
    Ref* r = reinterpret_cast<Ref*>(h);
    if (r->dead) Err(std::string(where) + ": reference used after it was deleted");
    return r->o;
  }
  Obj* Peek(jobject h) { return h ? reinterpret_cast<Ref*>(h)->o : nullptr; }
  void KillLocal(jobject h) { reinterpret_cast<Ref*>(h)->dead = true; }
  void Throw(const std::string& cls, const std::string& msg, bool has_text = true) {
    Obj* o = New(cls);
    o->text = msg;
    o->has_text = has_text;
    pending = reinterpret_cast<Ref*>(Local(o));
  }
  void Err(std::string e) { errors.push_back(std::move(e)); }
  Obj* PendingObj() { return pending ? pending->o : nullptr; }
  bool Balanced() const { return outstanding_chars == 0 && live_globals == 0 && outstanding_arrays == 0; }

 private:
  JNINativeInterface_ t_;
  std::map<std::string, std::unique_ptr<Cls>> classes_;
  std::vector<std::unique_ptr<Obj>> pool_;
  std::vector<std::unique_ptr<Ref>> refs_;
  std::map<std::string, std::unique_ptr<Member>> ids_;
  std::map<char*, Obj*> chars_;
  std::map<char*, std::pair<Obj*, int>> arrays_;

  void NoPending(const char* f) { if (pending) Err(std::string(f) + " called while an exception is pending"); }
  Member* Id(jclass c, const char* name, const char* sig, bool st, const char* f) {
    NoPending(f);
    Obj* k = Get(c, f);
    if (!k) return nullptr;
    if (k->cls != "java/lang/Class") { Err(std::string(f) + ": not a class"); return nullptr; }
    auto it = members.find(k->text);
    if (it != members.end() && !it->second.count((st ? "!" : "") + std::string(name) + sig)) {
      Err(std::string(f) + ": " + k->text + " has no member " + name + sig);
      Throw("java/lang/NoSuchMethodError", name);
      return nullptr;
    }
    std::string key = k->text + "|" + name + "|" + sig + (st ? "|s" : "");
    auto& m = ids_[key];
    if (!m) m = std::make_unique<Member>(Member{k->text, name, sig, st});
    return m.get();
  }
  // Reads the arguments a call passes, following the member's signature.
  void Args(Member* m, va_list ap, std::vector<double>& nums, std::vector<Obj*>& objs) {
    const std::string& s = m->sig;
    for (size_t i = 1; i < s.size() && s[i] != ')'; ++i) {
      switch (s[i]) {
        case 'F':
        case 'D': nums.push_back(va_arg(ap, double)); break;
        case 'J': nums.push_back((double)va_arg(ap, jlong)); break;
        case 'I':
        case 'Z':
        case 'S':
        case 'B': nums.push_back(va_arg(ap, jint)); break;
        case '[':
        case 'L': {
          if (s[i] == '[') { ++i; }
          if (s[i] == 'L') while (s[i] != ';') ++i;
          jobject o = va_arg(ap, jobject);
          objs.push_back(o ? Get(o, m->name.c_str()) : nullptr);
          break;
        }
        default: Err("unparsed signature " + s);
      }
    }
  }
  Obj* Invoke(jobject self, Member* m, va_list ap) {
    NoPending(m ? m->name.c_str() : "Call");
    Obj* o = Get(self, m->name.c_str());
    std::vector<double> n;
    std::vector<Obj*> ob;
    Args(m, ap, n, ob);
    if (o) {
      o->calls[m->name] = n;
      ++o->call_count[m->name];
      o->obj_args = ob;
    }
    return o;
  }
  static Env* E() { return Current(); }

  void Fill() {
    t_.FindClass = [](JNIEnv*, const char* n) -> jclass {
      E()->NoPending("FindClass");
      if (!E()->classes_.count(n)) { E()->Err(std::string("FindClass: no class ") + n); return nullptr; }
      return E()->Class(n);
    };
    t_.GetObjectClass = [](JNIEnv*, jobject o) -> jclass {
      E()->NoPending("GetObjectClass");
      Obj* x = E()->Get(o, "GetObjectClass");
      return x ? E()->Class(x->cls) : nullptr;
    };
    t_.IsInstanceOf = [](JNIEnv*, jobject o, jclass c) -> jboolean {
      E()->NoPending("IsInstanceOf");
      Obj *x = E()->Get(o, "IsInstanceOf"), *k = E()->Get(c, "IsInstanceOf");
      if (!x || !k) return false;
      for (Cls* cl = E()->DefineClass2(x->cls); cl; cl = cl->super) if (cl->name == k->text) return true;
      return false;
    };
    t_.ExceptionOccurred = [](JNIEnv*) -> jthrowable { return E()->pending ? E()->Local<jthrowable>(E()->pending->o) : nullptr; };
    t_.ExceptionCheck = [](JNIEnv*) -> jboolean { return E()->pending != nullptr; };
    t_.ExceptionClear = [](JNIEnv*) { E()->pending = nullptr; };
    t_.ThrowNew = [](JNIEnv*, jclass c, const char* m) -> jint {
      E()->NoPending("ThrowNew");
      Obj* k = E()->Get(c, "ThrowNew");
      if (k) E()->Throw(k->text, m ? m : "", m != nullptr);
      return 0;
    };
    t_.NewGlobalRef = [](JNIEnv*, jobject o) -> jobject {
      E()->NoPending("NewGlobalRef");
      Obj* x = o ? E()->Get(o, "NewGlobalRef") : nullptr;
      if (!x) return nullptr;
      jobject h = E()->Local(x);
      reinterpret_cast<Ref*>(h)->global = true;
      ++E()->live_globals;
      return h;
    };
    t_.DeleteGlobalRef = [](JNIEnv*, jobject o) {
      if (!o) return;
      Ref* r = reinterpret_cast<Ref*>(o);
      if (!r->global) E()->Err("DeleteGlobalRef: not a global reference");
      else if (r->dead) E()->Err("DeleteGlobalRef: deleted twice");
      else --E()->live_globals;
      r->dead = true;
    };
    t_.DeleteLocalRef = [](JNIEnv*, jobject o) {
      if (!o) return;
      Ref* r = reinterpret_cast<Ref*>(o);
      if (r->global || r->dead) E()->Err("DeleteLocalRef: not a live local reference");
      r->dead = true;
    };
    t_.GetStringUTFChars = [](JNIEnv*, jstring s, jboolean* copy) -> const char* {
      E()->NoPending("GetStringUTFChars");
      Obj* o = E()->Get(s, "GetStringUTFChars");
      if (!o) return nullptr;
      if (o->cls != "java/lang/String") E()->Err("GetStringUTFChars: not a string");
      bool term = !E()->unterminated;
      char* p = (char*)std::malloc(o->text.size() + (term ? 1 : 0) + (o->text.empty() && !term ? 1 : 0));
      if (!o->text.empty()) std::memcpy(p, o->text.data(), o->text.size());
      if (term) p[o->text.size()] = 0;
      E()->chars_[p] = o;
      ++E()->outstanding_chars;
      if (copy) *copy = JNI_TRUE;
      return p;
    };
    t_.GetStringUTFLength = [](JNIEnv*, jstring s) -> jsize {
      E()->NoPending("GetStringUTFLength");
      Obj* o = E()->Get(s, "GetStringUTFLength");
      return o ? (jsize)o->text.size() : 0;
    };
    t_.GetStringLength = [](JNIEnv*, jstring s) -> jsize {
      Obj* o = E()->Get(s, "GetStringLength");
      jsize n = 0;
      if (o) for (unsigned char ch : o->text) n += (ch & 0xC0) != 0x80;
      return n;
    };
    t_.ReleaseStringUTFChars = [](JNIEnv*, jstring s, const char* p) {
      Obj* o = E()->Get(s, "ReleaseStringUTFChars");
      auto it = E()->chars_.find(const_cast<char*>(p));
      if (it == E()->chars_.end()) { E()->Err("ReleaseStringUTFChars: not a live chars pointer"); return; }
      if (it->second != o) E()->Err("ReleaseStringUTFChars: chars of a different string");
      std::free(it->first);
      E()->chars_.erase(it);
      --E()->outstanding_chars;
    };
    t_.NewStringUTF = [](JNIEnv*, const char* s) -> jstring { E()->NoPending("NewStringUTF"); return s ? E()->String(s) : nullptr; };
    t_.GetMethodID = [](JNIEnv*, jclass c, const char* n, const char* s) -> jmethodID { return reinterpret_cast<jmethodID>(E()->Id(c, n, s, false, "GetMethodID")); };
    t_.GetStaticMethodID = [](JNIEnv*, jclass c, const char* n, const char* s) -> jmethodID { return reinterpret_cast<jmethodID>(E()->Id(c, n, s, true, "GetStaticMethodID")); };
    t_.GetFieldID = [](JNIEnv*, jclass c, const char* n, const char* s) -> jfieldID { return reinterpret_cast<jfieldID>(E()->Id(c, n, s, false, "GetFieldID")); };
    t_.GetIntField = [](JNIEnv*, jobject o, jfieldID f) -> jint {
      Obj* x = E()->Get(o, "GetIntField");
      Member* m = reinterpret_cast<Member*>(f);
      return x ? (jint)x->nums[m->name] : 0;
    };
    t_.NewObjectV = [](JNIEnv*, jclass c, jmethodID id, va_list ap) -> jobject {
      E()->NoPending("NewObject");
      Obj* k = E()->Get(c, "NewObject");
      Member* m = reinterpret_cast<Member*>(id);
      Obj* o = E()->New(k ? k->text : "?");
      o->made_by = m->name + m->sig;
      if (k && k->text != m->cls) E()->Err("NewObject: constructor of another class");
      E()->Args(m, ap, o->ctor, o->obj_args);
      return E()->Local(o);
    };
    t_.CallVoidMethodV = [](JNIEnv*, jobject o, jmethodID id, va_list ap) { E()->Invoke(o, reinterpret_cast<Member*>(id), ap); };
    t_.CallObjectMethodV = [](JNIEnv*, jobject o, jmethodID id, va_list ap) -> jobject {
      Member* m = reinterpret_cast<Member*>(id);
      Obj* x = E()->Invoke(o, m, ap);
      if (!x) return nullptr;
      if (m->name == "getMessage") return x->has_text ? E()->String(x->text) : nullptr;
      auto it = x->members.find(m->name);
      return E()->Local(it != x->members.end() ? it->second : x);
    };
    t_.CallFloatMethodV = [](JNIEnv*, jobject o, jmethodID id, va_list ap) -> jfloat {
      Member* m = reinterpret_cast<Member*>(id);
      Obj* x = E()->Invoke(o, m, ap);
      if (x && !x->nums.count(m->name)) E()->Err("unexpected getter " + m->name);
      return x ? (jfloat)x->nums[m->name] : 0;
    };
    t_.CallLongMethodV = [](JNIEnv*, jobject o, jmethodID id, va_list ap) -> jlong {
      Member* m = reinterpret_cast<Member*>(id);
      Obj* x = E()->Invoke(o, m, ap);
      if (x && !x->nums.count(m->name)) E()->Err("unexpected getter " + m->name);
      return x ? (jlong)x->nums[m->name] : 0;
    };
    t_.CallStaticObjectMethodV = [](JNIEnv*, jclass c, jmethodID id, va_list ap) -> jobject {
      Member* m = reinterpret_cast<Member*>(id);
      E()->NoPending(m->name.c_str());
      E()->Get(c, m->name.c_str());
      size_t b = m->sig.find(")L");
      Obj* o = E()->New(b == std::string::npos ? m->cls : m->sig.substr(b + 2, m->sig.size() - b - 3));
      o->made_by = m->name + m->sig;
      E()->Args(m, ap, o->ctor, o->obj_args);
      return E()->Local(o);
    };
    t_.GetArrayLength = [](JNIEnv*, jarray a) -> jsize {
      Obj* o = E()->Get(a, "GetArrayLength");
      if (!o) return 0;
      return (jsize)std::max({o->floats.size(), o->longs.size(), o->ints.size(), o->objs.size()});
    };
    t_.GetFloatArrayElements = [](JNIEnv*, jfloatArray a, jboolean*) -> jfloat* {
      E()->NoPending("GetFloatArrayElements");
      Obj* o = E()->Get(a, "GetFloatArrayElements");
      char* p = (char*)std::malloc(o->floats.size() * 4 + !o->floats.size());
      if (!o->floats.empty()) std::memcpy(p, o->floats.data(), o->floats.size() * 4);
      E()->arrays_[p] = {o, 4};
      ++E()->outstanding_arrays;
      return (jfloat*)p;
    };
    t_.GetLongArrayElements = [](JNIEnv*, jlongArray a, jboolean*) -> jlong* {
      E()->NoPending("GetLongArrayElements");
      Obj* o = E()->Get(a, "GetLongArrayElements");
      char* p = (char*)std::malloc(o->longs.size() * 8 + !o->longs.size());
      if (!o->longs.empty()) std::memcpy(p, o->longs.data(), o->longs.size() * 8);
      E()->arrays_[p] = {o, 8};
      ++E()->outstanding_arrays;
      return (jlong*)p;
    };
    t_.ReleaseFloatArrayElements = [](JNIEnv*, jfloatArray a, jfloat* p, jint mode) { E()->ReleaseArray(a, (char*)p, mode, 4); };
    t_.ReleaseLongArrayElements = [](JNIEnv*, jlongArray a, jlong* p, jint mode) { E()->ReleaseArray(a, (char*)p, mode, 8); };
    t_.NewLongArray = [](JNIEnv*, jsize n) -> jlongArray {
      Obj* o = E()->New("[J");
      o->longs.assign(n, 0);
      return E()->Local<jlongArray>(o);
    };
    t_.NewObjectArray = [](JNIEnv*, jsize n, jclass, jobject init) -> jobjectArray {
      Obj* o = E()->New("[L");
      o->objs.assign(n, init ? E()->Get(init, "NewObjectArray") : nullptr);
      return E()->Local<jobjectArray>(o);
    };
    t_.SetObjectArrayElement = [](JNIEnv*, jobjectArray a, jsize i, jobject v) {
      E()->NoPending("SetObjectArrayElement");
      Obj* o = E()->Get(a, "SetObjectArrayElement");
      if (i < 0 || (size_t)i >= o->objs.size()) { E()->Err("SetObjectArrayElement: index out of range"); return; }
      o->objs[i] = v ? E()->Get(v, "SetObjectArrayElement") : nullptr;
    };
    t_.SetFloatArrayRegion = [](JNIEnv*, jfloatArray a, jsize b, jsize n, const jfloat* p) { Set(E()->Get(a, "SetFloatArrayRegion")->floats, b, n, p); };
    t_.SetIntArrayRegion = [](JNIEnv*, jintArray a, jsize b, jsize n, const jint* p) { Set(E()->Get(a, "SetIntArrayRegion")->ints, b, n, p); };
    t_.SetLongArrayRegion = [](JNIEnv*, jlongArray a, jsize b, jsize n, const jlong* p) { Set(E()->Get(a, "SetLongArrayRegion")->longs, b, n, p); };
    t_.NewDirectByteBuffer = [](JNIEnv*, void* p, jlong n) -> jobject {
      E()->NoPending("NewDirectByteBuffer");
      Obj* o = E()->New("java/nio/DirectByteBuffer");
      o->buffer = p;
      o->capacity = n;
      return E()->Local(o);
    };
  }
  template <typename V, typename T> static void Set(V& v, jsize b, jsize n, const T* p) {
    E()->NoPending("Set*ArrayRegion");
    if (b < 0 || n < 0 || (size_t)(b + n) > v.size()) { E()->Err("Set*ArrayRegion: out of range"); return; }
    for (jsize i = 0; i < n; ++i) v[b + i] = p[i];
  }
  void ReleaseArray(jobject a, char* p, jint mode, int width) {
    Obj* o = Get(a, "Release*ArrayElements");
    auto it = arrays_.find(p);
    if (it == arrays_.end() || it->second.first != o || it->second.second != width) { Err("Release*ArrayElements: not a live elements pointer of this array"); return; }
    size_t bytes = (width == 4 ? o->floats.size() : o->longs.size()) * width;
    if (mode != JNI_ABORT && bytes) std::memcpy(width == 4 ? (void*)o->floats.data() : (void*)o->longs.data(), p, bytes);
    if (mode != JNI_COMMIT) {
      std::free(p);
      arrays_.erase(it);
      --outstanding_arrays;
    }
  }
};

}  // namespace fake
