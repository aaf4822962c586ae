#include "pbt.h"

#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>

#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

#ifdef PBT_ASAN
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
         "max_malloc_fill_size=1048576:malloc_fill_byte=90:"
         "handle_abort=0:symbolize=1:detect_stack_use_after_return=0";
}
extern "C" const char* __ubsan_default_options() {
  return "print_stacktrace=1:halt_on_error=1:abort_on_error=1";
}
#endif

// The byte that fills freshly allocated memory (not under sanitizers, which
// fill it themselves).
static volatile unsigned char fill_byte = 0xA5;

#ifndef PBT_ASAN
extern "C" {
void* __libc_malloc(size_t);
void* __libc_realloc(void*, size_t);

void* malloc(size_t n) {
  void* p = __libc_malloc(n);
  if (p) memset(p, fill_byte, malloc_usable_size(p));
  return p;
}

void* realloc(void* q, size_t n) {
  size_t old = q ? malloc_usable_size(q) : 0;
  void* p = __libc_realloc(q, n);
  size_t size = p ? malloc_usable_size(p) : 0;
  if (size > old) memset(static_cast<char*>(p) + old, fill_byte, size - old);
  return p;
}
}
#endif

namespace pbt {

void FillMemory(unsigned char byte) { fill_byte = byte; }

namespace {

using std::string;
using std::vector;

constexpr int kMaxWorkers = 8;
constexpr size_t kMaxTape = 1 << 20;

struct Shared {
  volatile long min_fail;
  volatile long current[kMaxWorkers];
  volatile uint64_t tape_len;
  uint64_t tape[kMaxTape];
  volatile int status;  // 0 pass, 1 fail, 2 discard.
  volatile int nontrivial;
  char msg[1 << 14];
  char desc[1 << 18];
};

Shared* shared = nullptr;
bool mirror = false;
std::set<string> known_findings;  // Signatures listed for this property.
bool ignore_known = false;

double Now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

uint64_t Hash(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
uint64_t HashString(const string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}

string Json(const string& s) {
  string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o + "\"";
}

// The signal handlers installed by sanitizers are left alone; the timer only
// has its default action, which ends the process.
void Watch(int cpu_seconds) {
  struct itimerval t;
  memset(&t, 0, sizeof t);
  t.it_value.tv_sec = cpu_seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

void LimitMemory() {
#ifndef PBT_ASAN
  struct rlimit r;
  r.rlim_cur = r.rlim_max = 3ULL << 30;
  setrlimit(RLIMIT_AS, &r);
#endif
  struct rlimit c;
  c.rlim_cur = c.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &c);
}

void Silence(const string& err_path) {
  int null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  if (err_path.empty()) {
    dup2(null, 2);
  } else {
    int f = open(err_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(f >= 0 ? f : null, 2);
    if (f > 2) close(f);
  }
  close(null);
}

// 0 pass, 1 fail, 2 discard.
int RunOne(const SubTest& t, Case& c, string* msg) {
  struct Restore {
    ~Restore() { fill_byte = 0xA5; }
  } restore;
  try {
    // What the test allocates is filled with small, zero, huge, undefined or
    // moderate numbers.
    const unsigned char bytes[] = {0xA5, 0x00, 0x7F, 0xFF, 0x3F};
    fill_byte = bytes[c.integer(0, 4)];
    t.run(c);
    return 0;
  } catch (const Fail& f) {
    *msg = f.msg;
    return 1;
  } catch (const Discard&) {
    return 2;
  } catch (const std::exception& e) {
    *msg = string("uncaught exception: ") + e.what();
    return 1;
  } catch (...) {
    *msg = "uncaught exception";
    return 1;
  }
}

struct Outcome {
  bool failed = false;
  string msg;
  string desc;
  string stderr_text;
  vector<uint64_t> tape;
};

string Slurp(const string& p, size_t limit) {
  std::ifstream f(p);
  std::stringstream s;
  s << f.rdbuf();
  string r = s.str();
  if (r.size() > limit) r = r.substr(0, limit) + "\n...";
  return r;
}

// Runs one case in a forked child.
Outcome Isolated(const SubTest& t, Case& c, const string& tmp, int cpu) {
  shared->tape_len = 0;
  shared->status = 0;
  shared->msg[0] = shared->desc[0] = 0;
  fflush(nullptr);
  string err = tmp + "/stderr.txt";
  pid_t pid = fork();
  if (pid == 0) {
    LimitMemory();
    Silence(err);
    mirror = true;
    Watch(cpu);
    string msg;
    int st = RunOne(t, c, &msg);
    Watch(0);
    shared->status = st;
    strncpy(shared->msg, msg.c_str(), sizeof(shared->msg) - 1);
    strncpy(shared->desc, c.description().c_str(), sizeof(shared->desc) - 1);
    _exit(0);
  }
  int ws = 0;
  while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {
  }
  Outcome o;
  o.tape.assign(shared->tape, shared->tape + shared->tape_len);
  if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) {
    o.failed = shared->status == 1;
    o.msg = shared->msg;
    o.desc = shared->desc;
  } else {
    o.failed = true;
    std::ostringstream m;
    if (WIFSIGNALED(ws)) {
      int sig = WTERMSIG(ws);
      if (sig == SIGPROF) {
        m << "case did not finish within " << cpu << " CPU seconds";
      } else {
        m << "process ended by signal " << sig << " (" << strsignal(sig)
          << ")";
      }
    } else {
      m << "process ended with exit status " << WEXITSTATUS(ws);
    }
    o.msg = m.str();
    o.stderr_text = Slurp(err, 6000);
  }
  return o;
}

vector<uint64_t> Shrink(const SubTest& t, vector<uint64_t> best, int size,
                        const string& tmp, double seconds, int cpu,
                        int* evals) {
  double start = Now();
  auto timeup = [&]() { return Now() - start > seconds; };
  auto attempt = [&](const vector<uint64_t>& cand) {
    if (timeup()) return false;
    (*evals)++;
    Case c(cand, size);
    Outcome o = Isolated(t, c, tmp, cpu);
    if (!o.failed) return false;
    vector<uint64_t> got = o.tape;
    if (got.size() < best.size() ||
        (got.size() == best.size() && got < best)) {
      best = got;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && !timeup()) {
    improved = false;
    for (size_t block = std::max<size_t>(1, best.size() / 2); block >= 1;
         block /= 2) {
      for (size_t i = 0; i + block <= best.size() && !timeup();) {
        vector<uint64_t> cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + block);
        if (attempt(cand)) {
          improved = true;
        } else {
          i += block;
        }
      }
      for (size_t i = 0; i + block <= best.size() && !timeup(); i += block) {
        vector<uint64_t> cand = best;
        bool any = false;
        for (size_t j = i; j < i + block; j++) {
          any |= cand[j] != 0;
          cand[j] = 0;
        }
        if (any && attempt(cand)) improved = true;
      }
    }
    for (size_t i = 0; i < best.size() && !timeup(); i++) {
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo && !timeup()) {
        vector<uint64_t> cand = best;
        uint64_t mid = lo + (best[i] - lo) / 2;
        cand[i] = mid;
        if (attempt(cand)) {
          improved = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

struct Args {
  string evidence, replay_dir, replay, known, only;
  double scale = 1;
  double budget = 0;
};

void LoadKnown(const string& path, const string& id) {
  std::ifstream f(path);
  string line;
  // finding: property=<id> sig=<signature> <what fails>
  while (std::getline(f, line)) {
    if (line.rfind("finding:", 0) != 0) continue;
    std::istringstream s(line.substr(8));
    string tok, prop, sig;
    while (s >> tok) {
      if (tok.rfind("property=", 0) == 0) prop = tok.substr(9);
      if (tok.rfind("sig=", 0) == 0) sig = tok.substr(4);
    }
    if (prop == id && !sig.empty()) known_findings.insert(sig);
  }
}

int Replay(const Property& p, const string& path, const string& tmp, int cpu) {
  std::ifstream f(path);
  if (!f) {
    fprintf(stderr, "cannot read %s\n", path.c_str());
    return 2;
  }
  string line, sub;
  int size = 1;
  vector<uint64_t> tape;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    string k;
    s >> k;
    if (k == "subtest") s >> sub;
    if (k == "size") s >> size;
    if (k == "tape") {
      uint64_t v;
      while (s >> v) tape.push_back(v);
    }
  }
  for (auto& t : p.tests) {
    if (t.name != sub) continue;
    Case c(tape, size);
    Outcome o = Isolated(t, c, tmp, cpu);
    printf("%s\n", o.desc.c_str());
    if (o.failed) {
      printf("%s\n%s\n", o.msg.c_str(), o.stderr_text.c_str());
      printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
      return 1;
    }
    printf("replay passes\n");
    return 0;
  }
  fprintf(stderr, "no sub-test %s\n", sub.c_str());
  return 2;
}

}  // namespace

void Case::Mirror(uint64_t v) {
  if (mirror && shared->tape_len < kMaxTape) {
    shared->tape[shared->tape_len] = v;
    shared->tape_len = shared->tape_len + 1;
  }
}

void Case::finding(const string& signature, const string& what) {
  if (known_findings.count(signature)) {
    known_.push_back(signature);
    return;
  }
  throw Fail{what + " [signature " + signature + "]"};
}

int Main(int argc, char** argv, const Property& p) {
  Args a;
  for (int i = 1; i < argc; i++) {
    string k = argv[i];
    auto val = [&]() { return i + 1 < argc ? string(argv[++i]) : string(); };
    if (k == "--evidence") a.evidence = val();
    if (k == "--replay-dir") a.replay_dir = val();
    if (k == "--replay") a.replay = val();
    if (k == "--known") a.known = val();
    if (k == "--only") a.only = val();
    if (k == "--scale") a.scale = atof(val().c_str());
    if (k == "--budget") a.budget = atof(val().c_str());
  }
  const char* e = getenv("VERIF_SEED");
  long seed = e && *e ? atol(e) : 1;
  e = getenv("VERIF_TIER");
  bool thorough = e && string(e) == "thorough";
  double budget = a.budget > 0 ? a.budget : (thorough ? 3000 : 400);
#ifdef PBT_ASAN
  const int cpu = 120;
#else
  const int cpu = 60;
#endif
  double start = Now();

  char tmpl[] = "/tmp/pbt.XXXXXX";
  string tmp = mkdtemp(tmpl);
  auto cleanup = [&]() {
    for (int w = 0; w < kMaxWorkers; w++) {
      unlink((tmp + "/w" + std::to_string(w)).c_str());
      unlink((tmp + "/e" + std::to_string(w)).c_str());
    }
    unlink((tmp + "/stderr.txt").c_str());
    rmdir(tmp.c_str());
  };

  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                     PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  LoadKnown(a.known, p.id);

  if (!a.replay.empty()) {
    int rc = Replay(p, a.replay, tmp, cpu);
    cleanup();
    return rc;
  }

  // Interleave the sub-tests so that a budget cut affects all alike.
  struct Item {
    int test;
    int index;
  };
  vector<Item> items;
  {
    struct Key {
      double pos;
      int test, index;
    };
    vector<Key> keys;
    for (size_t t = 0; t < p.tests.size(); t++) {
      if (!a.only.empty() && p.tests[t].name != a.only) continue;
      int n = thorough ? p.tests[t].thorough : p.tests[t].quick;
      n = std::max(1, int(n * a.scale));
      for (int i = 0; i < n; i++) {
        keys.push_back({(i + .5) / n, int(t), i});
      }
    }
    std::stable_sort(keys.begin(), keys.end(), [](const Key& x, const Key& y) {
      return x.pos < y.pos;
    });
    for (auto& k : keys) items.push_back({k.test, k.index});
  }
  auto make_case = [&](const Item& it) {
    uint64_t h = HashString(p.id + "/" + p.tests[it.test].name);
    h = Hash(h, uint64_t(seed));
    h = Hash(h, thorough ? 2 : 1);
    h = Hash(h, uint64_t(it.index));
    int size = thorough ? 1 + it.index % 3 : 1;
    return Case(h, size);
  };

  long total = static_cast<long>(items.size());
  int workers = static_cast<int>(
      std::min<long>(kMaxWorkers, std::max<long>(1, sysconf(_SC_NPROCESSORS_ONLN))));
  long next_start = 0;
  (void)next_start;

  struct Failure {
    long g;
  };
  std::set<long> failing;
  vector<std::set<uint64_t>> distinct(p.tests.size());
  vector<long> evals(p.tests.size()), discards(p.tests.size()),
      nontriv(p.tests.size());
  vector<vector<string>> samples(p.tests.size());
  std::map<string, long> labels;
  std::map<string, long> known_seen;
  vector<string> unreproduced;
  std::set<long> skip;  // Cases that failed once but did not reproduce.
  bool cut = false;

  Outcome final_outcome;
  long final_index = -1;
  vector<uint64_t> final_tape;
  int shrink_evals = 0;

  for (int round = 0; round < 12; round++) {
    failing.clear();
    for (auto& v : evals) v = 0;
    for (auto& v : discards) v = 0;
    for (auto& v : nontriv) v = 0;
    for (auto& v : distinct) v.clear();
    for (auto& v : samples) v.clear();
    labels.clear();
    known_seen.clear();
    cut = false;
    shared->min_fail = total;
    fflush(nullptr);
    vector<pid_t> pids(workers);
    for (int w = 0; w < workers; w++) {
      shared->current[w] = -1;
      pids[w] = fork();
      if (pids[w] == 0) {
        LimitMemory();
        Silence("");
        FILE* out = fopen((tmp + "/w" + std::to_string(w)).c_str(), "w");
        if (!out) _exit(3);
        vector<int> sampled(p.tests.size());
        for (long g = w; g < total; g += workers) {
          if (g > shared->min_fail) break;
          if (skip.count(g)) continue;
          if (Now() - start > budget) {
            fprintf(out, "CUT\n");
            break;
          }
          shared->current[w] = g;
          Case c = make_case(items[g]);
          string msg;
          Watch(cpu);
          int st = RunOne(p.tests[items[g].test], c, &msg);
          Watch(0);
          uint64_t h = HashString("tape");
          for (auto v : c.tape()) h = Hash(h, v);
          fprintf(out, "R %ld %d %d %llx", g, st, c.is_nontrivial() ? 1 : 0,
                  (unsigned long long)h);
          for (auto& l : c.labels()) fprintf(out, "\t%s", l.c_str());
          for (auto& l : c.known()) fprintf(out, "\tKNOWN:%s", l.c_str());
          fprintf(out, "\n");
          if (st == 0 && c.is_nontrivial() && sampled[items[g].test] < 1) {
            sampled[items[g].test]++;
            string d = c.description();
            if (d.size() > 900) d = d.substr(0, 900) + "...";
            for (auto& ch : d)
              if (ch == '\n') ch = '\x01';
            fprintf(out, "S %ld %s\n", g, d.c_str());
          }
          fflush(out);
          if (st == 1) {
            if (g < shared->min_fail) shared->min_fail = g;
            break;
          }
        }
        shared->current[w] = -2;
        fclose(out);
        _exit(0);
      }
    }
    int live = workers;
    while (live > 0) {
      int ws;
      pid_t q = wait(&ws);
      if (q < 0) break;
      for (int w = 0; w < workers; w++) {
        if (pids[w] != q) continue;
        live--;
        if (!(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) {
          long g = shared->current[w];
          if (g >= 0) {
            failing.insert(g);
            if (g < shared->min_fail) shared->min_fail = g;
          }
        }
      }
    }
    for (int w = 0; w < workers; w++) {
      std::ifstream f(tmp + "/w" + std::to_string(w));
      string line;
      while (std::getline(f, line)) {
        if (line == "CUT") {
          cut = true;
        } else if (line[0] == 'R') {
          std::istringstream s(line);
          string field, k;
          std::getline(s, field, '\t');
          std::istringstream r(field);
          long g;
          int st, nt;
          unsigned long long h;
          r >> k >> g >> st >> nt >> std::hex >> h;
          int t = items[g].test;
          evals[t]++;
          if (st == 1) failing.insert(g);
          if (st == 2) discards[t]++;
          if (st == 0 && nt) {
            nontriv[t]++;
            distinct[t].insert(h);
          }
          while (std::getline(s, field, '\t')) {
            if (field.rfind("KNOWN:", 0) == 0) {
              known_seen[field.substr(6)]++;
            } else {
              labels[p.tests[t].name + ": " + field]++;
            }
          }
        } else if (line[0] == 'S') {
          std::istringstream s(line);
          string k;
          long g;
          s >> k >> g;
          string rest;
          std::getline(s, rest);
          for (auto& ch : rest)
            if (ch == '\x01') ch = '\n';
          int t = items[g].test;
          if (samples[t].size() < 2) {
            samples[t].push_back(p.tests[t].name + " #" +
                                 std::to_string(items[g].index) + ":" + rest);
          }
        }
      }
    }
    if (failing.empty()) break;

    long g = *failing.begin();
    const SubTest& t = p.tests[items[g].test];
    int hits = 0;
    bool runaway = false;
    Outcome o;
    for (int k = 0; k < 3; k++) {
      Case c = make_case(items[g]);
      Outcome r = Isolated(t, c, tmp, cpu);
      if (r.failed) {
        hits++;
        o = r;
        runaway |= r.msg.find("CPU seconds") != string::npos;
      }
    }
    // Running out of time has to reproduce every time, as it depends on the
    // machine.
    if (hits == 0 || (runaway && hits < 3)) {
      unreproduced.push_back(t.name + " #" + std::to_string(items[g].index));
      skip.insert(g);
      continue;
    }
    int size = make_case(items[g]).size();
    // The tape alone has to reproduce the failure.
    Case c0(o.tape, size);
    Outcome r0 = Isolated(t, c0, tmp, cpu);
    final_tape = o.tape;
    if (r0.failed) {
      final_tape = Shrink(t, r0.tape, size, tmp, runaway ? 0 : 40, cpu,
                          &shrink_evals);
    }
    final_outcome = o;
    int ok = 0;
    for (int k = 0; k < 3; k++) {
      Case c(final_tape, size);
      Outcome r = Isolated(t, c, tmp, cpu);
      if (r.failed) {
        ok++;
        final_outcome = r;
      }
    }
    if (ok < 3) final_tape = o.tape;
    final_index = g;
    break;
  }

  // Evidence.
  long ev = 0, dn = 0, nt = 0, dc = 0;
  for (size_t t = 0; t < p.tests.size(); t++) {
    ev += evals[t];
    dn += distinct[t].size();
    nt += nontriv[t];
    dc += discards[t];
  }
  double wall = Now() - start;
  if (!a.evidence.empty()) {
    std::ostringstream o;
    o << "{\n \"property\": " << Json(p.id) << ",\n \"tier\": "
      << (thorough ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    o << "  \"evaluations\": " << ev << ",\n  \"distinct_nontrivial\": " << dn
      << ",\n  \"nontrivial\": " << nt << ",\n  \"discarded\": " << dc
      << ",\n  \"rule\": " << Json(p.rule) << ",\n";
    o << "  \"budget_cut\": " << (cut ? "true" : "false") << ",\n";
    o << "  \"unreproduced_failures\": " << unreproduced.size() << ",\n";
    o << "  \"per_subtest\": {";
    bool first = true;
    for (size_t t = 0; t < p.tests.size(); t++) {
      o << (first ? "\n" : ",\n") << "   " << Json(p.tests[t].name)
        << ": {\"evaluations\": " << evals[t] << ", \"discarded\": "
        << discards[t] << ", \"nontrivial\": " << nontriv[t]
        << ", \"distinct_nontrivial\": " << distinct[t].size() << "}";
      first = false;
    }
    o << "\n  },\n  \"labels\": {";
    first = true;
    for (auto& l : labels) {
      o << (first ? "\n" : ",\n") << "   " << Json(l.first) << ": "
        << l.second;
      first = false;
    }
    o << "\n  },\n  \"samples\": [";
    first = true;
    for (auto& v : samples) {
      for (auto& s : v) {
        o << (first ? "\n" : ",\n") << "   " << Json(s);
        first = false;
      }
    }
    o << "\n  ]\n },\n \"assumptions\": [";
    first = true;
    for (auto& s : p.assumptions) {
      o << (first ? "" : ", ") << Json(s);
      first = false;
    }
    o << "],\n \"wall_s\": " << wall
      << ",\n \"violations\": " << (final_index >= 0 ? 1 : 0) << "\n}\n";
    std::ofstream f(a.evidence);
    f << o.str();
  }
  printf("%s: %ld cases, %ld distinct non-trivial, %ld discarded, %.1f s%s\n",
         p.id.c_str(), ev, dn, dc, wall, cut ? " (budget cut)" : "");
  for (size_t t = 0; t < p.tests.size(); t++) {
    if (!evals[t]) continue;
    printf("  %-28s %7ld cases %7zu distinct non-trivial %6ld discarded\n",
           p.tests[t].name.c_str(), evals[t], distinct[t].size(), discards[t]);
  }
  if (getenv("PBT_LABELS")) {
    for (auto& l : labels) printf("    %s: %ld\n", l.first.c_str(), l.second);
  }
  for (auto& s : unreproduced) {
    printf("note: failure of %s did not reproduce; not reported\n", s.c_str());
  }
  for (auto& k : known_seen) {
    printf("KNOWN-FINDING: property=%s %s (%ld cases)\n", p.id.c_str(),
           k.first.c_str(), k.second);
  }
  int rc = 0;
  if (final_index >= 0) {
    rc = 1;
    const Item& it = items[final_index];
    const SubTest& t = p.tests[it.test];
    string dir = a.replay_dir.empty() ? "." : a.replay_dir;
    mkdir(dir.c_str(), 0755);
    string path = dir + "/" + p.id + "-" + t.name + "-" +
                  std::to_string(it.index) + "-s" + std::to_string(seed) +
                  ".replay";
    std::ofstream f(path);
    f << "property " << p.id << "\nsubtest " << t.name << "\nsize "
      << make_case(it).size() << "\ntape";
    for (auto v : final_tape) f << " " << v;
    f << "\n\n# failure: " << final_outcome.msg << "\n# shrunk with "
      << shrink_evals << " evaluations, from case " << it.index << " of seed "
      << seed << "\n# replay: ./check.sh " << p.id << " replay " << path
      << "\n\n" << final_outcome.desc << "\n" << final_outcome.stderr_text
      << "\n";
    f.close();
    printf("sub-test %s, case %d\n%s\n%s\n%s\n", t.name.c_str(), it.index,
           final_outcome.desc.substr(0, 3000).c_str(),
           final_outcome.msg.c_str(),
           final_outcome.stderr_text.substr(0, 1500).c_str());
    printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), path.c_str());
  }
  fflush(stdout);
  cleanup();
  return rc;
}

}  // namespace pbt
