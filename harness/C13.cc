// C13: block decomposition of regular grids, every grid size and block count
// within the bound.
#include "block_partition.hh"
#include "vk.hh"
typedef std::array<int, 3> A3;
static void check(int dim, int const* n, int nb, std::string const& cx) {
  double dom[6] = {0., 1., 0., 2., -1., 1.};
  std::vector<A3> st, ct;
  vk::states();
  int rc = Jali::block_partition_regular_mesh(dim, dom, n, nb, &st, &ct);
  vk::eq(rc, 1, "failure reported", cx);
  if (!vk::eq((int)st.size(), nb, "number of blocks", cx) || !vk::eq(ct.size(), st.size(), "number of block sizes", cx)) return;
  int tot = 1; for (int d = 0; d < dim; d++) tot *= n[d];
  std::vector<int> own(tot, -1);
  for (int b = 0; b < nb; b++) {
    int lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
    for (int d = 0; d < dim; d++) { lo[d] = st[b][d]; hi[d] = st[b][d] + ct[b][d];
      if (!vk::ok(ct[b][d] >= 1, "empty block", cx + " block " + std::to_string(b))) return;
      if (!vk::ok(lo[d] >= 0 && hi[d] <= n[d], "block outside the grid", cx + " block " + std::to_string(b))) return; }
    for (int k = lo[2]; k < hi[2]; k++) for (int j = lo[1]; j < hi[1]; j++) for (int i = lo[0]; i < hi[0]; i++) {
      int c = i + n[0] * (j + (dim > 1 ? n[1] : 1) * k);
      if (!vk::ok(own[c] < 0, "blocks overlap", cx)) return;
      own[c] = b;
    }
  }
  for (int c = 0; c < tot; c++) if (!vk::ok(own[c] >= 0, "cell in no block", cx)) return;
  if (nb == tot) for (int more : {1, 2, 7}) {   // more blocks than cells: refused, not looped over for ever
    std::vector<A3> s3(2), c3(2); vk::beat();
    vk::eq(Jali::block_partition_regular_mesh(dim, dom, n, tot + more, &s3, &c3), 0, "more blocks than cells accepted", cx);
  }
  // same answer again, over old contents of the output arguments
  std::vector<A3> s2(nb + 3, A3{{7, -7, 9}}), c2(1, A3{{5, 5, 5}});
  double dom2[6] = {-3., 1., 0., 20., -1., 1.};
  Jali::block_partition_regular_mesh(dim, dom2, n, nb, &s2, &c2);
  bool same = s2.size() == st.size() && c2.size() == ct.size();
  for (int b = 0; same && b < nb; b++) for (int d = 0; d < dim; d++) if (s2[b][d] != st[b][d] || c2[b][d] != ct[b][d]) same = false;
  vk::ok(same, "answer depends on earlier contents of the outputs", cx);
}
// grids too large to list their cells: boxes in the grid, pairwise disjoint, volumes adding up
static void huge(int dim, int const* n, int nb, std::string const& cx) {
  double dom[6] = {0., 1., 0., 2., -1., 1.}; std::vector<A3> st, ct; vk::states();
  if (!vk::eq(Jali::block_partition_regular_mesh(dim, dom, n, nb, &st, &ct), 1, "failure reported", cx) || !vk::eq((int)st.size(), nb, "number of blocks", cx) || !vk::eq(ct.size(), st.size(), "number of block sizes", cx)) return;
  __int128 tot = 1, sum = 0; for (int d = 0; d < dim; d++) tot *= n[d];
  for (int b = 0; b < nb; b++) { __int128 v = 1; for (int d = 0; d < dim; d++) { if (!vk::ok(ct[b][d] >= 1, "empty block", cx + " block " + std::to_string(b)) || !vk::ok(st[b][d] >= 0 && st[b][d] <= n[d] - ct[b][d], "block outside the grid", cx + " block " + std::to_string(b))) return; v *= ct[b][d]; } sum += v;
    for (int a = 0; a < b; a++) { bool apart = false; for (int d = 0; d < dim; d++) if (st[a][d] + (long long)ct[a][d] <= st[b][d] || st[b][d] + (long long)ct[b][d] <= st[a][d]) apart = true; if (!vk::ok(apart, "blocks overlap", cx)) return; } }
  vk::ok(sum == tot, "cell in no block", cx);
}
VK_CHECK("C13", "exploration", "every grid with 1..N cells per direction (quick: N = 40 in 1D, 12 in 2D, 6 in 3D; thorough: 120, 24, 9) and every number of blocks from 1 to the number of cells (at most 300, 130 on the largest grids), 40 larger and lopsided grids of up to 4096 cells, and 16 grids of up to 2^62 cells into up to 1000 blocks; a case is a grid, non-trivial if it has more than one cell") {
  int N1 = vk::thorough ? 120 : 40, N2 = vk::thorough ? 24 : 12, N3 = vk::thorough ? 9 : 6;
  auto go = [&](int dim, int a, int b, int c) {
    int n[3] = {a, b, c}; int tot = a * b * c;
    std::string nm = "grid " + std::to_string(a) + (dim > 1 ? "x" + std::to_string(b) : "") + (dim > 2 ? "x" + std::to_string(c) : "");
    vk::run(nm, [=] { if (tot == 1) vk::trivial(); int m[3] = {n[0], n[1], n[2]};
      for (int nb = 1; nb <= tot && nb <= (tot > 1000 ? 130 : 300); nb++) { std::string cx = nm + " into " + std::to_string(nb); vk::set_current(cx); check(dim, m, nb, ""); } });
  };
  for (int a = 1; a <= N1; a++) go(1, a, 1, 1);
  for (int a = 1; a <= N2; a++) for (int b = 1; b <= N2; b++) go(2, a, b, 1);
  for (int a = 1; a <= N3; a++) for (int b = 1; b <= N3; b++) for (int c = 1; c <= N3; c++) go(3, a, b, c);
  // larger and lopsided ones
  for (int a : {64, 97, 128, 250}) go(1, a, 1, 1);
  std::vector<std::array<int, 3>> L = {{{60,1,1}},{{1,60,1}},{{1,1,60}},{{40,3,1}},{{3,1,40}},{{1,3,40}},{{12,5,3}},{{3,12,5}},{{5,3,12}},{{16,16,16}},{{17,11,7}},{{7,17,11}},{{32,1,32}},{{2,2,50}},{{15,9,10}}};
  for (auto& g : L) { if (g[2] == 1 || g[2] > 16) go(2, g[0] * (g[2] > 16 ? g[2] : 1), g[1], 1); go(3, g[0], g[1], g[2]); }
  go(2, 37, 41, 1); go(2, 64, 48, 1);
  // grids of up to 2^62 cells
  std::vector<std::array<int, 4>> H = {{{1, 2147483647, 1, 1}}, {{1, 1 << 30, 1, 1}}, {{2, 46341, 46341, 1}}, {{2, 65536, 65536, 1}}, {{2, 65536, 32768, 1}}, {{2, 1, 2147483647, 1}}, {{2, 2147483647, 2147483646, 1}}, {{3, 2048, 2048, 2048}}, {{3, 1291, 1291, 1291}}, {{3, 1, 100000, 100000}}, {{3, 99999, 1, 100001}}, {{3, 1 << 16, 3, 1 << 16}}, {{3, 1 << 20, 1 << 20, 1 << 20}}, {{3, 1625, 1625, 1625}}, {{3, 300, 300, 300}}, {{2, 5000, 3000, 1}}};
  for (auto& g : H) vk::run("huge " + std::to_string(g[1]) + "x" + std::to_string(g[2]) + "x" + std::to_string(g[3]), [=] { int n[3] = {g[1], g[2], g[3]}; std::vector<int> nbs; for (int i = 1; i <= (vk::thorough ? 300 : 66); i++) nbs.push_back(i); for (int i : {96, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000}) nbs.push_back(i);
    for (int nb : nbs) { vk::set_current(std::to_string(nb) + " blocks"); vk::beat(); huge(g[0], n, nb, std::to_string(nb) + " blocks"); if (vk::failed()) return; } });
}
