#include "vp.hpp"

#include <arc_utilities/first_order_deformation.h>

namespace {

using namespace arc_utilities::FirstOrderDeformation;

struct Grid {
  long rows, cols;
  std::vector<char> ok;
  bool at(long r, long c) const { return ok[static_cast<size_t>(r * cols + c)] != 0; }
};

// Carves a winding corridor into solid rock, from the start to the goal if one is found within a
// bounded search. A cell of the corridor touches only its two neighbours along it, so that every
// path has to follow all of it, whatever the directions of its steps are.
void carve(vp::Src& s, Grid& g) {
  std::fill(g.ok.begin(), g.ok.end(), 0);
  const auto open = [&](long r, long c) { return r >= 0 && c >= 0 && r < g.rows && c < g.cols && g.at(r, c); };
  const auto touched = [&](long r, long c) {
    int n = 0;
    for (long a = r - 1; a <= r + 1; a++)
      for (long b = c - 1; b <= c + 1; b++) n += (a != r || b != c) && open(a, b);
    return n;
  };
  struct Level {
    long r, c;
    std::vector<std::pair<long, long>> left;  // neighbours that are still to be tried
  };
  const auto level = [&](long r, long c) {
    Level l{r, c, {}};
    g.ok[static_cast<size_t>(r * g.cols + c)] = 1;
    for (long a = r - 1; a <= r + 1; a++)
      for (long b = c - 1; b <= c + 1; b++)
        if (a >= 0 && b >= 0 && a < g.rows && b < g.cols && !g.at(a, b) && touched(a, b) == 1) l.left.push_back({a, b});
    return l;
  };
  std::vector<Level> walk{level(0, 0)};
  for (size_t budget = 4 * g.ok.size(); budget > 0 && !walk.empty(); budget--) {
    Level& top = walk.back();
    if (top.r == g.rows - 1 && top.c == g.cols - 1) break;
    if (top.left.empty()) {
      if (walk.size() == 1) break;
      g.ok[static_cast<size_t>(top.r * g.cols + top.c)] = 0;
      walk.pop_back();
      continue;
    }
    const size_t k = s.choice(top.left.size());
    const auto next = top.left[k];
    top.left.erase(top.left.begin() + static_cast<long>(k));
    walk.push_back(level(next.first, next.second));
  }
}

Grid gen(vp::Src& s) {
  Grid g;
  g.rows = static_cast<long>(s.len(1, 14));
  g.cols = static_cast<long>(s.len(1, 14));
  g.ok.assign(static_cast<size_t>(g.rows * g.cols), 1);
  const uint64_t kind = s.choice(5);
  if (kind == 1) {  // random obstacles
    const uint64_t density = s.pick(std::vector<uint64_t>{10, 30, 45, 60});
    for (auto& x : g.ok) x = !s.chance(density, 100);
  } else if (kind == 2) {  // walls with gaps: serpentine mazes
    const bool vertical = s.b();
    const long n = vertical ? g.cols : g.rows, m = vertical ? g.rows : g.cols;
    const uint64_t closed = s.chance(1, 6) ? s.choice(static_cast<uint64_t>(std::max<long>(n / 2, 1))) : 1000;
    for (long k = 1; k < n; k += 2) {
      const long gap = s.chance(2, 3) ? ((k / 2) % 2 ? 0 : m - 1) : static_cast<long>(s.choice(static_cast<uint64_t>(m)));
      for (long j = 0; j < m; j++)
        if (j != gap || static_cast<uint64_t>(k / 2) == closed) g.ok[static_cast<size_t>(vertical ? j * g.cols + k : k * g.cols + j)] = 0;
    }
  } else if (kind == 4) {
    carve(s, g);
    s.label("carved corridor");
  } else if (kind == 3) {  // free except for a few cells
    s.repeat(0, 6, [&] { g.ok[s.choice(g.ok.size())] = 0; });
  }
  return g;
}

std::vector<char> reachable(const Grid& g) {
  std::vector<char> seen(g.ok.size(), 0);
  std::vector<std::pair<long, long>> todo{{0, 0}};
  seen[0] = 1;
  while (!todo.empty()) {
    const auto c = todo.back();
    todo.pop_back();
    for (long dr = -1; dr <= 1; dr++)
      for (long dc = -1; dc <= 1; dc++) {
        const long r = c.first + dr, q = c.second + dc;
        if (r < 0 || q < 0 || r >= g.rows || q >= g.cols || !g.at(r, q) || seen[static_cast<size_t>(r * g.cols + q)]) continue;
        seen[static_cast<size_t>(r * g.cols + q)] = 1;
        todo.push_back({r, q});
      }
  }
  return seen;
}

VP_PROP(search, 420000, 14000000) {
  const Grid g = gen(s);
  if (s.noting()) {
    std::string n = "\n";
    for (long r = 0; r < g.rows; r++) {
      for (long c = 0; c < g.cols; c++) n += g.at(r, c) ? '.' : '#';
      n += '\n';
    }
    s.note(n);
  }
  size_t calls = 0;
  const auto path = GetFirstOrderDeformation(g.rows, g.cols, [&](const ssize_t r, const ssize_t c) {
    VP_CHECK(r >= 0 && c >= 0 && r < g.rows && c < g.cols, "asked about the cell ", r, " ", c, " outside the grid");
    calls++;
    VP_CHECK(calls <= 100 * g.ok.size(), "does not terminate");
    return g.at(r, c);
  });
  const bool exists = (g.rows == 1 && g.cols == 1) || reachable(g).back();
  VP_CHECK(!path.empty() == exists, exists ? "no path although there is one" : "a path although there is none");
  s.label(exists ? "path exists" : "no path");
  if (!exists) {
    s.nontrivialIf(g.at(g.rows - 1, g.cols - 1));
    return;
  }
  VP_CHECK(path.front() == ConfigType(0, 0) && path.back() == ConfigType(g.rows - 1, g.cols - 1), "end points of the path");
  std::vector<char> used(g.ok.size(), 0);
  for (size_t k = 0; k < path.size(); k++) {
    const long r = path[k].first, c = path[k].second;
    VP_CHECK(r >= 0 && c >= 0 && r < g.rows && c < g.cols, "cell ", r, " ", c, " outside the grid");
    VP_CHECK(k == 0 || g.at(r, c), "invalid cell ", r, " ", c);
    VP_CHECK(!used[static_cast<size_t>(r * g.cols + c)], "cell ", r, " ", c, " is visited twice");
    used[static_cast<size_t>(r * g.cols + c)] = 1;
    if (k) VP_CHECK(std::labs(r - path[k - 1].first) <= 1 && std::labs(c - path[k - 1].second) <= 1, "cells ", k - 1, " and ", k, " are no neighbours");
  }
  const bool all_free = std::count(g.ok.begin() + 1, g.ok.end(), 0) == 0;
  if (all_free) VP_CHECK(static_cast<long>(path.size()) == std::max(g.rows, g.cols), "unobstructed grid is crossed in ", path.size(), " cells");
  s.nontrivialIf(static_cast<long>(path.size()) > std::max(g.rows, g.cols));
}

VP_PROP(large_grids, 400, 4000) {
  const long rows = static_cast<long>(s.u(1, 400)), cols = static_cast<long>(s.u(1, 400));
  const bool walls = s.b();
  // Walls with a gap at alternating ends: the only path is a serpentine.
  const auto ok = [&](long r, long c) { return !walls || r % 2 == 0 || c == ((r / 2) % 2 ? 0 : cols - 1); };
  const auto path = GetFirstOrderDeformation(rows, cols, [&](const ssize_t r, const ssize_t c) { return ok(r, c); });
  const bool exists = ok(rows - 1, cols - 1);
  VP_CHECK(!path.empty() == exists, "path of ", path.size(), " cells in a ", rows, "x", cols, " grid");
  if (!walls) VP_CHECK(static_cast<long>(path.size()) == std::max(rows, cols), "unobstructed grid is crossed in ", path.size(), " cells");
  for (size_t k = 1; k < path.size(); k++)
    VP_CHECK(ok(path[k].first, path[k].second) && std::labs(path[k].first - path[k - 1].first) <= 1 && std::labs(path[k].second - path[k - 1].second) <= 1, "step ", k);
  s.nontrivialIf(walls && exists && rows > 20);
}

}  // namespace
