// Runs the registered properties of one harness. Modes:
//   run      --seed N --cases N --out F [--wall S] [--jobs J]   (random search, shrink, confirm)
//   replay   FILE                                                (exit 1 and FAIL line when it fails)
//   shrink   FILE                                                (minimise a saved failing case)
//   describe FILE
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <unordered_set>

#include "engine/pbt.h"

namespace pbt {
std::vector<Prop>& Registry() {
  static std::vector<Prop> r;
  return r;
}
void (*g_reset)() = nullptr;
}  // namespace pbt

using namespace pbt;

namespace {

constexpr size_t kMaxChoices = 1 << 20;
constexpr int kCaseCpuSeconds = 40;   // a case normally takes milliseconds

struct Shared {  // what a child tells its parent
  volatile int state;  // 0 idle, 1 running, 2 passed, 3 failed, 4 discarded
  volatile int sub;
  volatile int64_t index;
  char tag[128];
  char msg[4096];
  size_t n;
  int nontrivial;
  uint64_t choices[kMaxChoices];
};

Shared* NewShared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shared*)p;
}
Shared* g_child_shared = nullptr;

double Now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

void Put(char* d, size_t n, const std::string& s) {
  size_t k = std::min(n - 1, s.size());
  memcpy(d, s.data(), k);
  d[k] = 0;
}

extern "C" void HangHandler(int) {
  if (g_child_shared) { strcpy(g_child_shared->tag, "hang"); strcpy(g_child_shared->msg, "the case used more CPU time than any case can need (no termination)"); }
  _exit(77);
}

void ArmCpu(int s) {
  itimerval it{};
  it.it_value.tv_sec = s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs one case in this process. Returns the state code.
int RunBody(const Prop& p, Ctx& c, std::string& tag, std::string& msg) {
  if (g_reset) g_reset();
  try {
    p.fn(c);
  } catch (const Failure& f) {
    tag = f.tag;
    msg = f.msg;
    return 3;
  } catch (const Discard&) {
    return 4;
  } catch (const std::exception& e) {
    tag = "exception";
    msg = std::string("uncaught exception: ") + e.what();
    return 3;
  }
  return 2;
}

struct Outcome {
  int state = 0;  // 2 pass, 3 fail, 4 discard
  std::string tag, msg, note;
  std::vector<uint64_t> choices;
};

// Runs one choice sequence in a forked child.
Outcome Isolated(int sub, const std::vector<uint64_t>& ch, bool quiet = true) {
  static Shared* sh = NewShared();
  sh->state = 1;
  sh->tag[0] = sh->msg[0] = 0;
  sh->n = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (quiet) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    g_child_shared = sh;
    signal(SIGPROF, HangHandler);
    ArmCpu(kCaseCpuSeconds);
    Ctx c(ch.data(), ch.size());
    std::string tag, msg;
    int st = RunBody(Registry()[sub], c, tag, msg);
    sh->n = std::min(kMaxChoices, c.choices.size());
    memcpy(sh->choices, c.choices.data(), sh->n * 8);
    Put(sh->tag, sizeof sh->tag, tag);
    Put(sh->msg, sizeof sh->msg, msg);
    sh->state = st;
    _exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (sh->state == 1) {  // died
    o.state = 3;
    o.tag = sh->tag[0] ? sh->tag : "crash";
    o.msg = sh->msg[0] ? std::string(sh->msg) : std::string("the process died (signal or sanitizer report)");
    o.choices = ch;
    return o;
  }
  o.state = sh->state;
  o.tag = sh->tag;
  o.msg = sh->msg;
  o.choices.assign(sh->choices, sh->choices + sh->n);
  return o;
}

std::vector<uint64_t> Shrink(int sub, std::vector<uint64_t> best, const std::string& tag, double budget_s) {
  double end = Now() + budget_s;
  int tries = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (Now() > end || tries > 6000) return false;
    ++tries;
    Outcome o = Isolated(sub, cand);
    if (o.state != 3 || o.tag != tag) return false;
    std::vector<uint64_t> r = o.choices.empty() ? cand : o.choices;
    if (r.size() > cand.size()) r = cand;
    best = r;
    return true;
  };
  if (tag == "hang") return best;
  for (int round = 0; round < 12 && Now() < end; ++round) {
    std::vector<uint64_t> before = best;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = best.size(); i-- > 0;) {
        if (i + len > best.size()) continue;
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + len);
        if (attempt(cand)) i = std::min(i, best.size());
        else if (len > 1 && i >= len / 2) i -= len / 2 - 1;
        if (Now() > end) return best;
      }
    }
    for (size_t len = std::max<size_t>(1, best.size() / 4); len >= 1; len /= 2)
      for (size_t i = 0; i + len <= best.size(); i += len) {
        bool any = false;
        for (size_t k = i; k < i + len; ++k) any |= best[k] != 0;
        if (!any) continue;
        auto cand = best;
        std::fill(cand.begin() + i, cand.begin() + i + len, 0);
        attempt(cand);
        if (Now() > end) return best;
      }
    for (size_t i = 0; i < best.size(); ++i) {
      // decrement (this also shortens a length when an element after it goes)
      if (best[i] > 0) {
        for (size_t del = 0; del <= 4 && i + 1 + del <= best.size(); ++del) {
          auto cand = best;
          cand[i] -= 1;
          cand.erase(cand.begin() + i + 1, cand.begin() + std::min(best.size(), i + 1 + del));
          if (attempt(cand)) break;
          if (i >= best.size()) break;
        }
      }
      if (i >= best.size()) break;
      uint64_t lo = 0, hi = best[i];
      while (lo < hi) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto cand = best;
        if (i >= cand.size()) break;
        cand[i] = mid;
        if (attempt(cand)) hi = mid; else lo = mid + 1;
        if (Now() > end) return best;
        if (i >= best.size()) break;
      }
    }
    if (best == before) break;
  }
  return best;
}

std::string Esc(const std::string& s) {
  std::string r;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r;
}

int FindSub(const std::string& n) {
  for (size_t i = 0; i < Registry().size(); ++i)
    if (n == Registry()[i].name) return (int)i;
  return -1;
}

std::string DescribeIsolated(int sub, const std::vector<uint64_t>& ch) {
  int fd[2];
  if (pipe(fd)) return "";
  pid_t pid = fork();
  if (pid == 0) {
    int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    close(fd[0]);
    static Ctx* c;
    static int out;
    out = fd[1];
    c = new Ctx(ch.data(), ch.size());
    c->describing = true;
    auto dump = +[](int) { const std::string& s = c->note; if (write(out, s.data(), std::min<size_t>(s.size(), 60000)) < 0) {} _exit(0); };
    signal(SIGABRT, dump);
    signal(SIGPROF, dump);
    ArmCpu(kCaseCpuSeconds);
    std::string t, m;
    RunBody(Registry()[sub], *c, t, m);
    dump(0);
  }
  close(fd[1]);
  std::string s;
  char b[4096];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
  close(fd[0]);
  waitpid(pid, nullptr, 0);
  return s;
}

void WriteReplay(const std::string& path, int sub, const Outcome& o, const std::vector<uint64_t>& ch, const std::string& stream) {
  std::ofstream f(path);
  f << "# ink property replay v1\nsub " << Registry()[sub].name << "\n";
  if (!stream.empty()) f << "stream " << stream << "\n";
  f << "choices " << ch.size();
  for (uint64_t v : ch) f << " " << v;
  f << "\n# tag: " << o.tag << "\n# " << o.msg << "\n";
  std::istringstream is(DescribeIsolated(sub, ch));
  std::string l;
  while (std::getline(is, l)) f << "# | " << l << "\n";
}

struct ReplayFile {
  int sub = -1;
  std::vector<uint64_t> choices;
  bool stream = false;
  uint64_t seed = 0;
  int64_t from = 0, step = 1, to = 0;
};
ReplayFile ReadReplay(const char* path) {
  ReplayFile r;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "sub") { std::string n; is >> n; r.sub = FindSub(n); }
    else if (k == "stream") { r.stream = true; is >> r.seed >> r.from >> r.step >> r.to; }
    else if (k == "choices") { size_t n; is >> n; for (size_t i = 0; i < n; ++i) { uint64_t v; is >> v; r.choices.push_back(v); } }
  }
  if (r.sub < 0) { fprintf(stderr, "bad replay file %s\n", path); exit(2); }
  return r;
}

uint64_t CaseSeed(uint64_t seed, int sub, int64_t idx) {
  uint64_t s = seed * 0x2545F4914F6CDD1Dull + 0x9e37;
  SplitMix(s);
  s ^= (uint64_t)sub * 0xd6e8feb86659fd93ull;
  SplitMix(s);
  s ^= (uint64_t)idx * 0xa0761d6478bd642full;
  SplitMix(s);
  return s;
}

// Runs cases from, from+step, ..., to of one property in one forked process; true when it fails.
bool StreamFails(int sub, uint64_t seed, int64_t from, int64_t step, int64_t to, Outcome* out) {
  Shared* sh = NewShared();
  sh->state = 1;
  sh->tag[0] = sh->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    dup2(fd, 2);
    g_child_shared = sh;
    signal(SIGPROF, HangHandler);
    for (int64_t i = from; i <= to; i += step) {
      ArmCpu(kCaseCpuSeconds);
      Ctx c(CaseSeed(seed, sub, i));
      std::string t, m;
      if (RunBody(Registry()[sub], c, t, m) == 3) {
        Put(sh->tag, sizeof sh->tag, t);
        Put(sh->msg, sizeof sh->msg, m);
        sh->state = 3;
        _exit(0);
      }
    }
    sh->state = 2;
    _exit(0);
  }
  waitpid(pid, nullptr, 0);
  bool bad = sh->state != 2;
  if (bad && out) {
    out->state = 3;
    out->tag = sh->tag[0] ? sh->tag : "crash";
    out->msg = sh->msg[0] ? sh->msg : "the process died (signal or sanitizer report)";
  }
  munmap(sh, sizeof(Shared));
  return bad;
}

struct Stats {
  std::map<std::string, int64_t> labels;
  int64_t cases = 0, discarded = 0, nontrivial = 0;
};

int CmdRun(uint64_t seed, int64_t total, double wall, int jobs, const std::string& out, const std::string& replay_dir, const std::string& id) {
  auto& reg = Registry();
  double t0 = Now();
  int64_t wsum = 0;
  for (auto& p : reg) wsum += p.weight;
  std::vector<int64_t> quota;
  for (auto& p : reg) quota.push_back(std::max<int64_t>(jobs, total * p.weight / std::max<int64_t>(1, wsum)));
  char dir[] = "/tmp/inkpbt.XXXXXX";
  if (!mkdtemp(dir)) { perror("mkdtemp"); return 2; }
  std::vector<Shared*> sh(jobs);
  std::vector<pid_t> pid(jobs, 0);
  std::vector<std::vector<int64_t>> next(jobs, std::vector<int64_t>(reg.size()));
  std::vector<int> generation(jobs, 0);
  for (int w = 0; w < jobs; ++w) {
    sh[w] = NewShared();
    for (size_t s = 0; s < reg.size(); ++s) next[w][s] = w;
  }
  auto statfile = [&](int w, int g) { return std::string(dir) + "/w" + std::to_string(w) + "." + std::to_string(g); };
  auto spawn = [&](int w, int start_sub) {
    std::string sf = statfile(w, generation[w]++);
    sh[w]->state = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p) { pid[w] = p; return; }
    int fd = open((std::string(dir) + "/log" + std::to_string(w)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    dup2(fd, 1);
    g_child_shared = sh[w];
    signal(SIGPROF, HangHandler);
    std::vector<Stats> st(reg.size());
    std::vector<std::unordered_set<uint64_t>> distinct(reg.size());
    auto flush = [&] {
      std::ofstream f(sf);
      for (size_t s = 0; s < reg.size(); ++s) {
        f << "S " << s << " " << st[s].cases << " " << st[s].discarded << " " << st[s].nontrivial << "\n";
        for (auto& [l, n] : st[s].labels) f << "L " << s << " " << n << " " << l << "\n";
        for (uint64_t h : distinct[s]) f << "H " << s << " " << h << "\n";
      }
    };
    double last_flush = Now();
    // Interleave properties so that a wall cap cuts all of them evenly.
    bool more = true;
    (void)start_sub;
    while (more) {
      more = false;
      for (size_t s = 0; s < reg.size(); ++s) {
        int64_t chunk = std::max<int64_t>(1, quota[s] / jobs / 50);
        for (int64_t k = 0; k < chunk && next[w][s] < quota[s]; ++k) {
          more = true;
          int64_t idx = next[w][s];
          sh[w]->sub = (int)s;
          sh[w]->index = idx;
          sh[w]->state = 1;
          sh[w]->tag[0] = sh[w]->msg[0] = 0;
          ArmCpu(kCaseCpuSeconds);
          Ctx c(CaseSeed(seed, (int)s, idx));
          std::string tag, msg;
          int r = RunBody(reg[s], c, tag, msg);
          next[w][s] = idx + jobs;
          ++st[s].cases;
          if (r == 4) ++st[s].discarded;
          for (auto& l : c.labels) ++st[s].labels[l];
          if (r == 2 && c.nontrivial()) {
            ++st[s].nontrivial;
            uint64_t h = 1469598103934665603ull;
            for (uint64_t v : c.choices) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; }
            if (distinct[s].size() < 400000) distinct[s].insert(h);
          }
          if (r == 3) {
            Put(sh[w]->tag, sizeof sh[w]->tag, tag);
            Put(sh[w]->msg, sizeof sh[w]->msg, msg);
            sh[w]->state = 3;
            flush();
            _exit(0);
          }
        }
      }
      if (Now() - last_flush > 1.0) { flush(); last_flush = Now(); }
      if (Now() - t0 > wall) break;
    }
    ArmCpu(0);
    flush();
    sh[w]->state = 2;
    _exit(0);
  };
  for (int w = 0; w < jobs; ++w) spawn(w, 0);
  int running = jobs;
  struct Found { int sub; int64_t idx; int w; Outcome o; };
  std::vector<Found> violations;
  std::vector<std::string> unreproduced;
  bool stop = false;
  std::string replay_path;
  int respawns = 0;
  while (running > 0) {
    int ws;
    pid_t p = waitpid(-1, &ws, 0);
    if (p < 0) break;
    int w = -1;
    for (int i = 0; i < jobs; ++i) if (pid[i] == p) w = i;
    if (w < 0) continue;
    --running;
    pid[w] = 0;
    if (stop || sh[w]->state == 2) continue;
    // failed or died in a case
    Found f{sh[w]->sub, sh[w]->index, w, {}};
    bool died = sh[w]->state == 1;
    f.o.tag = died ? (sh[w]->tag[0] ? sh[w]->tag : "crash") : sh[w]->tag;
    f.o.msg = died ? (sh[w]->msg[0] ? sh[w]->msg : "the process died (signal or sanitizer report)") : sh[w]->msg;
    // Recover the choice sequence: it is a function of (seed, property, index).
    static Shared* rec = NewShared();
    rec->n = 0;
    pid_t q = fork();
    if (q == 0) {
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      dup2(nul, 2);
      static Ctx* c;
      c = new Ctx(CaseSeed(seed, f.sub, f.idx));
      auto dump = +[](int) { rec->n = std::min(kMaxChoices, c->choices.size()); memcpy(rec->choices, c->choices.data(), rec->n * 8); _exit(0); };
      signal(SIGABRT, dump);
      signal(SIGPROF, dump);
      ArmCpu(kCaseCpuSeconds);
      std::string t, m;
      RunBody(reg[f.sub], *c, t, m);
      dump(0);
    }
    waitpid(q, nullptr, 0);
    std::vector<uint64_t> ch(rec->choices, rec->choices + rec->n);
    Outcome o = Isolated(f.sub, ch);
    if (o.state == 3) {
      auto best = Shrink(f.sub, ch, o.tag, o.tag == "hang" ? 0 : 45);
      Outcome fo = Isolated(f.sub, best);
      bool ok = fo.state == 3;
      for (int i = 0; ok && i < 2; ++i) ok = Isolated(f.sub, best).state == 3;
      if (!ok) {
        best = ch;
        ok = true;
        for (int i = 0; ok && i < 3; ++i) { fo = Isolated(f.sub, best); ok = fo.state == 3; }
      }
      if (ok) {
        f.o = fo;
        replay_path = replay_dir + "/" + id + "-" + reg[f.sub].name + "-" + std::to_string(seed) + ".replay";
        WriteReplay(replay_path, f.sub, fo, best, "");
        violations.push_back(f);
        stop = true;
      }
    }
    if (!stop) {
      // Needs what earlier cases left behind? Replay this worker's cases of the property in order.
      int64_t from = f.idx, span = 1;
      Outcome so;
      bool hit = false;
      for (int i = 0; i < 14 && !hit; ++i, span *= 4) {
        from = std::max<int64_t>(w, f.idx - (span)*jobs);
        hit = StreamFails(f.sub, seed, from, jobs, f.idx, &so);
        if (from == w) break;
      }
      if (hit && StreamFails(f.sub, seed, from, jobs, f.idx, &so) && StreamFails(f.sub, seed, from, jobs, f.idx, &so)) {
        f.o = so;
        f.o.msg += " (needs the cases run before it in the same process)";
        replay_path = replay_dir + "/" + id + "-" + reg[f.sub].name + "-" + std::to_string(seed) + ".replay";
        WriteReplay(replay_path, f.sub, f.o, ch, std::to_string(seed) + " " + std::to_string(from) + " " + std::to_string(jobs) + " " + std::to_string(f.idx));
        violations.push_back(f);
        stop = true;
      } else {
        unreproduced.push_back(std::string(reg[f.sub].name) + "#" + std::to_string(f.idx) + ": " + f.o.tag + ": " + f.o.msg);
        if (++respawns < 20) {
          next[w][f.sub] = f.idx + jobs;  // progress of the other properties restarts; cheap and rare
          spawn(w, 0);
          ++running;
        }
      }
    }
    if (stop)
      for (int i = 0; i < jobs; ++i) if (pid[i]) kill(pid[i], SIGKILL);
  }
  // Merge statistics.
  std::vector<Stats> st(reg.size());
  std::vector<std::unordered_set<uint64_t>> distinct(reg.size());
  for (int w = 0; w < jobs; ++w)
    for (int g = 0; g < generation[w]; ++g) {
      std::ifstream f(statfile(w, g));
      std::string l;
      while (std::getline(f, l)) {
        std::istringstream is(l);
        char k;
        size_t s;
        is >> k >> s;
        if (!is || s >= reg.size()) continue;
        if (k == 'S') { int64_t a = 0, b = 0, d = 0; is >> a >> b >> d; st[s].cases += a; st[s].discarded += b; st[s].nontrivial += d; }
        else if (k == 'L') { int64_t n; is >> n; std::string lab; std::getline(is, lab); st[s].labels[lab.substr(1)] += n; }
        else if (k == 'H') { uint64_t h; is >> h; distinct[s].insert(h); }
      }
    }
  for (int w = 0; w < jobs; ++w) {
    for (int g = 0; g < generation[w]; ++g) unlink(statfile(w, g).c_str());
    unlink((std::string(dir) + "/log" + std::to_string(w)).c_str());
  }
  rmdir(dir);
  // Samples: first non-trivial cases of every property.
  std::ofstream f(out);
  int64_t cases = 0, nt = 0, disc = 0;
  for (size_t s = 0; s < reg.size(); ++s) { cases += st[s].cases; nt += (int64_t)distinct[s].size(); disc += st[s].discarded; }
  f << "{\"cases\": " << cases << ", \"distinct_nontrivial\": " << nt << ", \"discarded\": " << disc << ", \"wall_s\": " << Now() - t0 << ",\n \"subs\": [";
  for (size_t s = 0; s < reg.size(); ++s) {
    f << (s ? ",\n  " : "\n  ") << "{\"name\": \"" << reg[s].name << "\", \"rule\": \"" << Esc(reg[s].rule) << "\", \"cases\": " << st[s].cases << ", \"discarded\": " << st[s].discarded
      << ", \"distinct_nontrivial\": " << distinct[s].size() << ", \"labels\": {";
    bool first = true;
    for (auto& [l, n] : st[s].labels) { f << (first ? "" : ", ") << "\"" << Esc(l) << "\": " << n; first = false; }
    f << "}, \"samples\": [";
    int shown = 0;
    for (int64_t i = 0; !stop && i < 60 && shown < 3; ++i) {
      Ctx c(CaseSeed(seed, (int)s, i));
      static Shared* rec = NewShared();
      rec->n = 0;
      rec->nontrivial = 0;
      pid_t q = fork();
      if (q == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        dup2(nul, 2);
        std::string t, m;
        c.describing = true;
        RunBody(reg[s], c, t, m);
        rec->nontrivial = c.nontrivial();
        Put(rec->msg, 900, c.note);
        _exit(0);
      }
      waitpid(q, nullptr, 0);
      if (rec->nontrivial) { f << (shown++ ? ", " : "") << "\"#" << i << ": " << Esc(rec->msg) << "\""; rec->msg[0] = 0; }
    }
    f << "]}";
  }
  f << "\n ],\n \"unreproduced\": [";
  for (size_t i = 0; i < unreproduced.size(); ++i) f << (i ? ", " : "") << "\"" << Esc(unreproduced[i]) << "\"";
  f << "],\n \"violations\": [";
  for (size_t i = 0; i < violations.size(); ++i)
    f << (i ? ", " : "") << "{\"sub\": \"" << reg[violations[i].sub].name << "\", \"tag\": \"" << Esc(violations[i].o.tag) << "\", \"msg\": \"" << Esc(violations[i].o.msg) << "\", \"replay\": \"" << Esc(replay_path) << "\"}";
  f << "]}\n";
  f.close();
  for (auto& v : violations) printf("FAIL sub=%s tag=%s %s\n", reg[v.sub].name, v.o.tag.c_str(), v.o.msg.c_str());
  for (auto& u : unreproduced) printf("UNREPRODUCED %s\n", u.c_str());
  return violations.empty() ? 0 : 1;
}

}  // namespace

namespace pbt { bool g_quiet_fatal = false; }
extern "C" void ink_shim_fatal(const char* msg) {
  if (pbt::g_quiet_fatal) _exit(66);
  if (g_child_shared && !g_child_shared->msg[0]) { Put(g_child_shared->msg, sizeof g_child_shared->msg, std::string("crash: ") + msg); }
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:symbolize=0:print_summary=0"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:halt_on_error=1:print_stacktrace=0"; }

#ifdef INK_PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const int only = getenv("INK_PBT_SUB") ? FindSub(getenv("INK_PBT_SUB")) : -1;
  auto& reg = Registry();
  if (only < 0 && size < 1) return 0;
  int sub = only >= 0 ? only : data[0] % reg.size();
  size_t off = only >= 0 ? 0 : 1;
  static Ctx* cur;
  static int cur_sub;
  cur_sub = sub;
  Ctx c(data + off, size - off, 0);
  cur = &c;
  auto save = +[](int) {
    const char* p = getenv("INK_PBT_FUZZ_OUT");
    if (p) {
      std::ofstream f(std::string(p) + "." + std::to_string(getpid()));
      f << "# ink property replay v1\nsub " << Registry()[cur_sub].name << "\nchoices " << cur->choices.size();
      for (uint64_t v : cur->choices) f << " " << v;
      f << "\n";
      f.close();
    }
    _exit(1);
  };
  signal(SIGABRT, save);
  std::string t, m;
  if (RunBody(reg[sub], c, t, m) == 3) save(0);
  return 0;
}
#else
int main(int argc, char** argv) {
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.rfind("--", 0) == 0 && i + 1 < argc) opt[a.substr(2)] = argv[++i];
    else pos.push_back(a);
  }
  std::string cmd = pos.empty() ? "run" : pos[0];
  if (cmd == "list") { for (auto& p : Registry()) printf("%s\n", p.name); return 0; }
  if (opt.count("only")) {
    auto& r = Registry();
    std::string o = "," + opt["only"] + ",";
    r.erase(std::remove_if(r.begin(), r.end(), [&](const Prop& p) { return o.find("," + std::string(p.name) + ",") == std::string::npos; }), r.end());
  }
  if (cmd == "run") {
    uint64_t seed = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
    return CmdRun(seed, opt.count("cases") ? atoll(opt["cases"].c_str()) : 10000, opt.count("wall") ? atof(opt["wall"].c_str()) : 120, opt.count("jobs") ? atoi(opt["jobs"].c_str()) : 8,
                  opt.count("out") ? opt["out"] : "/dev/null", opt.count("replays") ? opt["replays"] : ".", opt.count("id") ? opt["id"] : "case");
  }
  if (pos.size() < 2) { fprintf(stderr, "usage\n"); return 2; }
  ReplayFile r = ReadReplay(pos[1].c_str());
  if (cmd == "replay") {
    if (r.stream) {
      Outcome o;
      bool bad = StreamFails(r.sub, r.seed, r.from, r.step, r.to, &o);
      if (bad) printf("FAIL sub=%s tag=%s %s\n", Registry()[r.sub].name, o.tag.c_str(), o.msg.c_str());
      return bad;
    }
    Outcome o = Isolated(r.sub, r.choices, opt.count("quiet"));
    if (o.state == 3) printf("FAIL sub=%s tag=%s %s\n", Registry()[r.sub].name, o.tag.c_str(), o.msg.c_str());
    return o.state == 3;
  }
  if (cmd == "describe") { printf("%s", DescribeIsolated(r.sub, r.choices).c_str()); return 0; }
  if (cmd == "shrink") {
    Outcome o = Isolated(r.sub, r.choices);
    if (o.state != 3) { printf("does not fail\n"); return 0; }
    auto best = Shrink(r.sub, r.choices, o.tag, 45);
    bool ok = true;
    Outcome fo;
    for (int i = 0; ok && i < 3; ++i) { fo = Isolated(r.sub, best); ok = fo.state == 3; }
    if (!ok) { best = r.choices; ok = true; for (int i = 0; ok && i < 3; ++i) { fo = Isolated(r.sub, best); ok = fo.state == 3; } }
    if (!ok) { printf("not reproducible\n"); return 0; }
    WriteReplay(opt.count("to") ? opt["to"] : pos[1], r.sub, fo, best, "");
    printf("FAIL sub=%s tag=%s %s\n", Registry()[r.sub].name, fo.tag.c_str(), fo.msg.c_str());
    return 1;
  }
  return 2;
}
#endif
