#include "vk.hh"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_set>
#include <exception>
#include <typeinfo>

namespace vk {
bool thorough = false;

struct Slot {
  std::atomic<int64_t> idx;      // index of the running case, -1 none
  std::atomic<uint64_t> hb;      // heartbeat
  std::atomic<int> in_case;
  uint64_t cases, distinct;
  int64_t total;                 // number of cases enumerated (set at the end)
  int truncated;
  char cur[4096];
  char extra[8192];
  int ncnt;
  struct { char name[40]; uint64_t v; } cnt[48];
  int nsample;
};
static Slot* slots;
static Slot* me;
static int nshards = 8, shard = 0;
static std::atomic<int64_t>* next_case;   // cases are handed out one at a time
static int64_t claim = -1;
static void take() { claim = next_case->fetch_add(1); }
static int64_t counter = -1;
static std::string only;
static bool have_only = false;
static std::string outdir;
static int vfd = -1, sfd = -1;
static bool case_failed, case_trivial;
static int case_nfail;
static std::set<std::string> case_keys;
static std::unordered_set<uint64_t> seen;
static double budget = 1e9;
static double t0;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static uint64_t hash(std::string const& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

static std::string esc(std::string const& s) {
  std::string o;
  for (char c : s) { if (c == '\n' || c == '\r') o += "\\n"; else if (c == '\t') o += ' '; else o += c; }
  return o;
}
static void wr(int fd, std::string const& s) { size_t n = 0; while (n < s.size()) { ssize_t k = ::write(fd, s.data() + n, s.size() - n); if (k <= 0) break; n += k; } }

void beat() { me->hb++; }
void count(char const* name, uint64_t n) {
  me->hb.store(me->hb.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
  for (int i = 0; i < me->ncnt; i++) if (!strcmp(me->cnt[i].name, name)) { me->cnt[i].v += n; return; }
  if (me->ncnt < 48) { int i = me->ncnt; strncpy(me->cnt[i].name, name, 39); me->cnt[i].v = n; me->ncnt++; }
}
void sample(std::string const& s) {
  if (me->nsample >= 3) return;
  me->nsample++;
  wr(sfd, esc(s).substr(0, 800) + "\n");
}
void set_current(std::string const& s) { size_t n = std::min(s.size(), sizeof(me->extra) - 1); memcpy(me->extra, s.data(), n); me->extra[n] = 0; me->hb++; }
void trivial() { case_trivial = true; }
bool failed() { return case_failed; }
void fail(std::string const& what, std::string const& detail) {
  case_failed = true;
  static bool const monitor = getenv("VK_MONITOR"); if (monitor) return;   // only the end of the process counts
  if (case_keys.count(what)) return;
  case_keys.insert(what);
  if (++case_nfail > 12) return;
  std::string d = detail;
  if (me->extra[0]) d = std::string(me->extra) + " :: " + d;
  wr(vfd, esc(me->cur) + "\t" + esc(what) + "\t" + esc(d).substr(0, 3000) + "\n");
}
bool mine_next() { return have_only || counter + 1 == claim; }
void run(std::string const& name, std::function<void()> const& fn) {
  int64_t k = ++counter;
  if (have_only) { if (name != only) return; }
  else { if (k != claim) return; take();
    if (now() - t0 > budget) { me->truncated = 1; return; } }
  size_t n = std::min(name.size(), sizeof(me->cur) - 1);
  memcpy(me->cur, name.data(), n); me->cur[n] = 0; me->extra[0] = 0;
  case_failed = case_trivial = false; case_nfail = 0; case_keys.clear();
  me->idx = k; me->hb++; me->in_case = 1;
  try { fn(); }
  catch (std::exception& e) { fail("unexpected exception", std::string(typeid(e).name()) + " " + e.what()); }
  catch (...) { fail("unexpected exception", "unknown type"); }
  me->in_case = 0; me->extra[0] = 0;
  me->cases++;
  if (!case_trivial && seen.insert(hash(name)).second) me->distinct++;
  if (me->nsample < 2) sample(name);
}

static int child_main(double bud) {
  budget = bud; t0 = now();
  int dn = open("/dev/null", O_WRONLY);
  if (!getenv("VK_VERBOSE")) { dup2(dn, 2); dup2(dn, 1); }
  rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
#ifndef __SANITIZE_ADDRESS__
  rlimit ra = {(rlim_t)3500 << 20, (rlim_t)3500 << 20}; setrlimit(RLIMIT_AS, &ra);
#endif
  take();
  vk_body();
  me->total = counter + 1;
  return 0;
}
}  // namespace vk

using namespace vk;
// usage: prog --out DIR [--case NAME] [--shards N] [--budget S] [--hang S]
int main(int argc, char** argv) {
  double bud = 1e9; double hang = 150;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") outdir = argv[++i];
    else if (a == "--case") { only = argv[++i]; have_only = true; }
    else if (a == "--shards") nshards = atoi(argv[++i]);
    else if (a == "--budget") bud = atof(argv[++i]);
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--thorough") thorough = true;
  }
  if (have_only) nshards = 1;
  slots = (Slot*)mmap(0, sizeof(Slot) * nshards, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(nshards, 0);
  next_case = (std::atomic<int64_t>*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<int> restarts(nshards, 0);
  std::vector<uint64_t> lasthb(nshards, 0);
  std::vector<double> lastt(nshards, 0);
  int hangs = 0;
  double start = now();
  bool aborted = false;
  auto files = [&](int s) {
    std::string v = outdir + "/viol." + std::to_string(s), sm = outdir + "/samp." + std::to_string(s);
    vfd = open(v.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    sfd = open(sm.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  };
  auto spawn = [&](int s) {
    slots[s].in_case = 0; slots[s].hb++;
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
      shard = s; me = &slots[s]; files(s);
      int rc = child_main(bud - (now() - start));
      _exit(rc);
    }
    pid[s] = p; lastt[s] = now(); lasthb[s] = slots[s].hb;
  };
  for (int s = 0; s < nshards; s++) { slots[s].total = -1; spawn(s); }
  int live = nshards;
  while (live > 0) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(5000);
      if (now() - start > bud + 60) for (int s = 0; s < nshards; s++) if (pid[s] > 0) { slots[s].truncated = 1; slots[s].in_case = 3; kill(pid[s], SIGKILL); }
      for (int s = 0; s < nshards; s++) if (pid[s] > 0) {
        uint64_t h = slots[s].hb;
        if (h != lasthb[s]) { lasthb[s] = h; lastt[s] = now(); }
        else if (now() - lastt[s] > hang) { strncpy(slots[s].extra + strlen(slots[s].extra), " [hang]", 16); slots[s].in_case = slots[s].in_case ? 2 : 0; kill(pid[s], SIGKILL); lastt[s] = now(); }
      }
      continue;
    }
    if (p < 0) break;
    for (int s = 0; s < nshards; s++) if (pid[s] == p) {
      pid[s] = 0; live--;
      bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      if (!good) {
        files(s); me = &slots[s];
        std::string how = WIFSIGNALED(st) ? std::string(slots[s].in_case == 2 ? "hang" : "crash signal ") + (slots[s].in_case == 2 ? "" : std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st));
        if (slots[s].in_case) {
          if (slots[s].in_case == 3) { close(vfd); close(sfd); continue; }   // out of time
          wr(vfd, esc(slots[s].cur) + "\t" + how + "\t" + esc(slots[s].extra) + "\n");
          slots[s].cases++;
          if (slots[s].in_case == 2) hangs++;
          if (++restarts[s] <= 12 && hangs < 3 && !have_only) { spawn(s); live++; }
          else if (!have_only) slots[s].truncated = 1;
        } else {
          wr(vfd, std::string("@harness\t") + how + "\toutside any case\n");
          aborted = true;
        }
        close(vfd); close(sfd);
      }
    }
  }
  // result
  std::map<std::string, uint64_t> cnt;
  uint64_t cases = 0, distinct = 0; int trunc = 0; int64_t total = -1;
  for (int s = 0; s < nshards; s++) {
    cases += slots[s].cases; distinct += slots[s].distinct; trunc |= slots[s].truncated;
    if (slots[s].total > total) total = slots[s].total;
    for (int i = 0; i < slots[s].ncnt; i++) cnt[slots[s].cnt[i].name] += slots[s].cnt[i].v;
  }
  std::string r = outdir + "/result.json";
  FILE* f = fopen(r.c_str(), "w");
  fprintf(f, "{\"cases\":%llu,\"distinct\":%llu,\"total\":%lld,\"truncated\":%d,\"aborted\":%d,\"wall\":%.3f,\"counters\":{",
          (unsigned long long)cases, (unsigned long long)distinct, (long long)total, trunc, (int)aborted, now() - start);
  bool first = true;
  for (auto& c : cnt) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
  fprintf(f, "},\"id\":\"%s\",\"level\":\"%s\"}\n", vk_id, vk_level);
  fclose(f);
  std::string rr = outdir + "/rule.txt";
  f = fopen(rr.c_str(), "w"); fputs(vk_rule, f); fclose(f);
  return 0;
}
