// Exact convex hulls of small integer point sets (3D), used as reference shapes.
#ifndef HULL_HH
#define HULL_HH
#include <array>
#include <vector>
#include <set>
#include <algorithm>
namespace hull {
typedef std::array<long, 3> I3;
inline I3 sub(I3 a, I3 b) { return I3{{a[0]-b[0], a[1]-b[1], a[2]-b[2]}}; }
inline I3 crs(I3 a, I3 b) { return I3{{a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}}; }
inline long dt(I3 a, I3 b) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
struct Hull { std::vector<I3> x; std::vector<std::vector<int>> f; bool ok; };
// faces with outward ccw node order; ok only if 3D and every point is a corner
inline Hull make(std::vector<I3> const& x) {
  Hull h; h.x = x; h.ok = false; int n = x.size(); std::set<std::vector<int>> done; std::vector<int> used(n, 0);
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) for (int k = j + 1; k < n; k++) {
    I3 N = crs(sub(x[j], x[i]), sub(x[k], x[i])); if (dt(N, N) == 0) continue;
    int pos = 0, neg = 0; std::vector<int> on;
    for (int m = 0; m < n; m++) { long s = dt(N, sub(x[m], x[i])); if (s > 0) pos++; else if (s < 0) neg++; else on.push_back(m); }
    if (pos && neg) continue; if (!pos && !neg) return h;
    if (!done.insert(on).second) continue;
    if (pos) N = I3{{-N[0], -N[1], -N[2]}};
    // order `on` ccw about N: gift wrap in the plane
    std::vector<int> cyc; int cur = on[0]; 
    // start must be a corner: extreme in lexicographic order
    for (int m : on) if (x[m] < x[cur]) cur = m;
    int st = cur;
    do { cyc.push_back(cur); int nx = -1; for (int m : on) { if (m == cur) continue; if (nx < 0) { nx = m; continue; } long s = dt(N, crs(sub(x[nx], x[cur]), sub(x[m], x[cur]))); if (s < 0) nx = m; else if (s == 0 && dt(sub(x[m], x[cur]), sub(x[m], x[cur])) > dt(sub(x[nx], x[cur]), sub(x[nx], x[cur]))) nx = m; } cur = nx; } while (cur != st && cyc.size() <= on.size());
    if (cyc.size() != on.size()) return h;   // some point is not a corner of its face
    for (int m : cyc) used[m]++;
    h.f.push_back(cyc);
  }
  for (int u : used) if (u < 3) return h;
  h.ok = h.f.size() >= 4; return h;
}
// six times the volume, and 24 times volume x centroid
inline long vol6(Hull const& h, I3* m24) {
  long v = 0; I3 M = {{0, 0, 0}}; I3 o = h.x[0];
  for (auto& f : h.f) for (size_t i = 1; i + 1 < f.size(); i++) {
    I3 a = h.x[f[0]], b = h.x[f[i]], c = h.x[f[i+1]]; long t = dt(sub(a, o), crs(sub(b, o), sub(c, o)));
    v += t; for (int k = 0; k < 3; k++) M[k] += t * (o[k] + a[k] + b[k] + c[k]); }
  if (m24) *m24 = M; return v;
}
}
#endif
