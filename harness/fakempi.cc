// Stand-in for the few MPI calls the library makes.  Ranks are threads of this
// process; a rank is registered with fakempi::enter.  Outside any simulation the
// world has one rank.  Mismatched or incomplete collectives are reported.
#include <mpi.h>
#include "fakempi.hh"
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <mutex>

namespace fakempi {
static std::mutex mtx;
static std::condition_variable cv;
// rendezvous of the members of one communicator
struct Comm {
  std::vector<int> mem;               // its ranks in the world
  std::vector<std::string> sig; std::vector<const void*> in; std::vector<void*> out;
  long gen = 0; int arrived = 0;
  int index(int r) const { for (size_t i = 0; i < mem.size(); i++) if (mem[i] == r) return i; return -1; }
};
struct World {
  int size = 1;
  bool sim = false;
  int running = 0, waiting = 0;       // ranks that have not left, ranks inside a collective
  bool broken = false;
  long ncoll = 0;
  std::string diag;
  std::vector<std::string> trace;     // per rank sequence of collectives
  std::vector<int> alive;
  std::vector<Comm> comms;            // 0: world, 1 + color: groups
};
static World W;
static thread_local int my = -1;
static char handles[64];              // addresses stand for communicators
MPI_Comm group(int c) { return (MPI_Comm)(void*)&handles[c]; }
MPI_Comm other(int k) { return (MPI_Comm)(void*)&handles[48 + k]; }
static Comm* find(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return &W.comms[0];
  char* p = (char*)(void*)c; if (p >= handles && p < handles + 48 && p - handles + 1 < (long)W.comms.size()) return &W.comms[p - handles + 1];
  return nullptr; }

void begin(int n, std::vector<int> const& color) { std::lock_guard<std::mutex> l(mtx); W = World(); W.size = n; W.sim = true; W.running = n; W.trace.assign(n, ""); W.alive.assign(n, 1);
  int m = 0; for (int c : color) if (c >= m) m = c + 1; W.comms.resize(1 + m); for (int r = 0; r < n; r++) { W.comms[0].mem.push_back(r); if (r < (int)color.size() && color[r] >= 0) W.comms[1 + color[r]].mem.push_back(r); }
  for (auto& c : W.comms) { c.sig.assign(c.mem.size(), ""); c.in.assign(c.mem.size(), nullptr); c.out.assign(c.mem.size(), nullptr); } }
void end() { std::lock_guard<std::mutex> l(mtx); W = World(); }
void enter(int r) { my = r; }
// nobody can go on: all ranks that are left wait
static void stuck() { if (W.running > 0 && W.waiting == W.running && !W.broken) { W.broken = true; W.diag = "every rank waits in a collective operation that another rank never joins"; cv.notify_all(); } }
void leave() { std::lock_guard<std::mutex> l(mtx); if (my >= 0 && W.alive[my]) { W.alive[my] = 0; W.running--;
    for (auto& c : W.comms) if (c.arrived > 0 && c.index(my) >= 0 && !W.broken) { W.broken = true; W.diag = "a rank finished while others wait in a collective operation"; cv.notify_all(); }
    stuck(); }
  my = -1; }
bool broken(std::string* d) { std::lock_guard<std::mutex> l(mtx); if (d) *d = W.diag; return W.broken; }
std::string trace(int r) { std::lock_guard<std::mutex> l(mtx); return W.trace[r]; }
long collectives() { std::lock_guard<std::mutex> l(mtx); return W.ncoll; }

static void combine(MPI_Datatype t, MPI_Op op, int n, void* acc, const void* v) {
#define DO(T) { T* a = (T*)acc; const T* b = (const T*)v; for (int i = 0; i < n; i++) { \
  if (op == MPI_SUM) a[i] += b[i]; else if (op == MPI_MAX) a[i] = a[i] > b[i] ? a[i] : b[i]; \
  else if (op == MPI_MIN) a[i] = a[i] < b[i] ? a[i] : b[i]; else if (op == MPI_LOR) a[i] = a[i] || b[i]; \
  else if (op == MPI_LAND) a[i] = a[i] && b[i]; else if (op == MPI_PROD) a[i] *= b[i]; } }
  if (t == MPI_INT || t == MPI_INT32_T) DO(int) else if (t == MPI_DOUBLE) DO(double)
  else if (t == MPI_LONG) DO(long) else if (t == MPI_UNSIGNED) DO(unsigned) else if (t == MPI_C_BOOL || t == MPI_CXX_BOOL) {
    bool* a = (bool*)acc; const bool* b = (const bool*)v; for (int i = 0; i < n; i++) { if (op == MPI_LAND || op == MPI_MIN || op == MPI_PROD) a[i] = a[i] && b[i]; else a[i] = a[i] || b[i]; } }
  else if (t == MPI_FLOAT) DO(float) else DO(char)
#undef DO
}
static size_t tsize(MPI_Datatype t) { if (t == MPI_DOUBLE) return 8; if (t == MPI_LONG) return 8; if (t == MPI_INT || t == MPI_INT32_T || t == MPI_UNSIGNED || t == MPI_FLOAT) return 4; return 1; }

// returns with all contributions visible; fin is run once by the last arriver
template <class F> static int collective(MPI_Comm h, std::string s, const void* in, void* out, F fin) {
  std::unique_lock<std::mutex> l(mtx);
  if (!W.sim || my < 0) { W.ncoll++; return -1; }
  if (W.broken) throw CommBroken();
  Comm* c = find(h); int me = c ? c->index(my) : h == MPI_COMM_SELF ? 0 : -1;
  if (h == MPI_COMM_SELF) { W.trace[my] += s + " (self);"; return -1; }
  if (me < 0) { W.broken = true; W.diag = "collective operation on a communicator the rank is not in"; cv.notify_all(); throw CommBroken(); }
  W.trace[my] += s + (c == &W.comms[0] ? " (world);" : ";"); int n = c->mem.size();
  c->sig[me] = s; c->in[me] = in; c->out[me] = out;
  long g = c->gen;
  if (++c->arrived == n) {
    for (int r = 1; r < n; r++) if (c->sig[r] != c->sig[0]) { W.broken = true; W.diag = "mismatched collectives: " + c->sig[0] + " / " + c->sig[r]; }
    if (!W.broken) fin(*c);
    c->arrived = 0; c->gen++; W.ncoll++; W.waiting -= n - 1;
    cv.notify_all();
  } else {
    W.waiting++;
    for (int r : c->mem) if (!W.alive[r]) { W.broken = true; W.diag = "a rank waits in a collective operation that another rank never joins"; cv.notify_all(); }
    stuck();
    while (c->gen == g && !W.broken) cv.wait(l);
  }
  if (W.broken) throw CommBroken();
  return 0;
}
}  // namespace fakempi
using namespace fakempi;
extern "C" {
int MPI_Init(int*, char***) { return MPI_SUCCESS; }
int MPI_Initialized(int* f) { *f = 1; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = 0; return MPI_SUCCESS; }
int MPI_Finalize() { return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm h, int* n) { std::lock_guard<std::mutex> l(mtx); Comm* c = W.sim ? find(h) : nullptr; *n = c ? c->mem.size() : 1; return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm h, int* r) { std::lock_guard<std::mutex> l(mtx); Comm* c = W.sim && my >= 0 ? find(h) : nullptr; *r = c ? c->index(my) : 0; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* d) { *d = c; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm*) { return MPI_SUCCESS; }
int MPI_Barrier(MPI_Comm h) { collective(h, "Barrier", nullptr, nullptr, [](Comm&) {}); return MPI_SUCCESS; }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm h) {
  if (in == MPI_IN_PLACE) in = out;
  size_t sz = tsize(t) * n;
  std::vector<char> mine((const char*)in, (const char*)in + sz);
  int rc = collective(h, "Allreduce" + std::to_string(n), mine.data(), out, [&](Comm& c) {
    std::vector<char> acc((const char*)c.in[0], (const char*)c.in[0] + sz);
    for (size_t r = 1; r < c.mem.size(); r++) combine(t, op, n, acc.data(), c.in[r]);
    for (size_t r = 0; r < c.mem.size(); r++) memcpy(c.out[r], acc.data(), sz);
  });
  if (rc < 0) memcpy(out, mine.data(), sz);
  return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm h) {
  size_t sz = tsize(t) * n;
  collective(h, "Bcast" + std::to_string(n), b, b, [&](Comm& c) { for (size_t r = 0; r < c.mem.size(); r++) if ((int)r != root) memcpy(c.out[r], c.in[root], sz); });
  return MPI_SUCCESS;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int, MPI_Datatype, MPI_Comm h) {
  size_t sz = tsize(t) * n;
  int rc = collective(h, "Allgather" + std::to_string(n), in, out, [&](Comm& c) { for (size_t r = 0; r < c.mem.size(); r++) for (size_t q = 0; q < c.mem.size(); q++) memcpy((char*)c.out[r] + q * sz, c.in[q], sz); });
  if (rc < 0) memcpy(out, in, sz);
  return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int) { abort(); return 0; }
}
