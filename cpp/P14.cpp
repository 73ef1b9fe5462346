#include "vp.hpp"

#include <arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp>

namespace {

using namespace VoxelGrid;
using Vec3 = Eigen::Vector3d;
using I3 = std::array<int64_t, 3>;

struct Spec {
  double cell[3];
  int64_t n[3];
  Eigen::Isometry3d origin;
  bool exact;
};

Eigen::Isometry3d genPose(vp::Src& s, bool exact) {
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  for (int k = 0; k < 3; ++k) t.translation()(k) = exact ? 0.25 * (double)s.si(40) : s.generic(-20, 20);
  if (exact) {
    if (s.chance(1, 3)) {
      Eigen::Matrix3d r = Eigen::Matrix3d::Zero();
      const int p = (int)s.u(0, 2);
      const double a = s.b() ? 1 : -1, b = s.b() ? 1 : -1;
      r(p, 0) = a;
      r((p + 1) % 3, 1) = b;
      r((p + 2) % 3, 2) = a * b;
      t.linear() = r;
    }
  } else {
    Eigen::Quaterniond q(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1), s.generic(0.1, 1));
    t.linear() = q.normalized().toRotationMatrix();
  }
  return t;
}

template <class Grid>
Grid make(vp::Src& s, Spec& d, int def) {
  d.exact = s.b();
  const bool uniform = s.b(), posed = s.b();
  for (int k = 0; k < 3; ++k) {
    d.cell[k] = (k > 0 && uniform) ? d.cell[0] : d.exact ? std::ldexp(1.0, (int)s.i(-3, 2)) : s.generic(0.02, 3);
    d.n[k] = (int64_t)s.u(1, 4);
  }
  if (s.chance(1, 300)) {  // chunks that are long in one direction, or large
    if (s.b()) d.n[s.choice(3)] = (int64_t)s.big(5, 600);
    else for (int k = 0; k < 3; ++k) d.n[k] = (int64_t)s.u(5, 20);
    for (int k = 0; d.exact && k < 3; ++k)
      while (d.n[k] & (d.n[k] - 1)) d.n[k] &= d.n[k] - 1;
    s.label("large chunks");
  }
  if (d.exact)  // chunk sizes that are powers of two make every division exact
    for (int k = 0; k < 3; ++k) d.n[k] = d.n[k] == 3 ? 2 : d.n[k];
  d.origin = posed ? genPose(s, d.exact) : Eigen::Isometry3d::Identity();
  const double* c = d.cell;
  const int64_t* n = d.n;
  if (posed) return uniform ? Grid(d.origin, c[0], n[0], n[1], n[2], def) : Grid(d.origin, c[0], c[1], c[2], n[0], n[1], n[2], def);
  return uniform ? Grid(c[0], n[0], n[1], n[2], def) : Grid(c[0], c[1], c[2], n[0], n[1], n[2], def);
}

int64_t floorDiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

struct Pos {
  Vec3 frame, world;
  I3 chunk, cell;  // the chunk, and the cell inside it
};
Pos genPos(vp::Src& s, const Spec& d) {
  Pos p;
  const int64_t reach = s.chance(1, 30) ? (s.b() ? 1000 : 40000) : 2;
  for (int k = 0; k < 3; ++k) {
    const int64_t at = s.i(-reach * d.n[k], reach * d.n[k] - 1);
    const double f = d.exact ? (s.chance(1, 3) ? 0.0 : 0.125 * (double)s.u(0, 7)) : (s.chance(1, 4) ? (s.b() ? 1e-5 : 1 - 1e-5) : s.generic(0.001, 0.999));
    p.frame(k) = ((double)at + f) * d.cell[k];
    p.chunk[(size_t)k] = floorDiv(at, d.n[k]);
    p.cell[(size_t)k] = at - p.chunk[(size_t)k] * d.n[k];
  }
  p.world = d.origin * p.frame;
  return p;
}

struct MChunk {
  bool cells = false;
  int value = 0;                // of the chunk, or of its cells before they were written
  std::map<I3, int> written;
};
using Model = std::map<I3, MChunk>;

std::string show(const I3& i) { return vp::cat("(", i[0], ",", i[1], ",", i[2], ")"); }

std::pair<int, FOUND_STATUS> want(const Model& m, const Pos& p, int def) {
  const auto it = m.find(p.chunk);
  if (it == m.end()) return {def, NOT_FOUND};
  if (!it->second.cells) return {it->second.value, FOUND_IN_CHUNK};
  const auto c = it->second.written.find(p.cell);
  return {c == it->second.written.end() ? it->second.value : c->second, FOUND_IN_CELL};
}

template <class Grid>
void read(const Grid& g, const Model& m, const Pos& p, int def, const char* when) {
  const auto w = want(m, p, def);
  const auto a = g.GetImmutable(p.world), b = g.GetImmutable(p.world.x(), p.world.y(), p.world.z());
  VP_CHECK(a.first == w.first && a.second == w.second, when, ": position ", p.frame.transpose(), " chunk ", show(p.chunk), " cell ", show(p.cell), " reads ", a.first, " status ", (int)a.second, " expected ", w.first, " status ", (int)w.second);
  VP_CHECK(b.first == a.first && b.second == a.second, when, ": reading by coordinates");
}

// The chunks it exposes are exactly the written ones, with exactly their content.
template <class Grid>
void chunks(const Grid& g, const Spec& d, const Model& m) {
  const auto& in = g.GetInternalChunks();
  VP_CHECK(in.size() == m.size(), in.size(), " chunks, expected ", m.size());
  std::map<I3, bool> seen;
  for (const auto& e : in) {
    I3 at;
    for (int k = 0; k < 3; ++k) at[(size_t)k] = (int64_t)std::llround(e.first.base(k) / (d.cell[k] * (double)d.n[k]));
    const auto it = m.find(at);
    VP_CHECK(it != m.end() && !seen[at], "chunk at ", e.first.base.transpose());
    seen[at] = true;
    const auto& c = e.second;
    const MChunk& x = it->second;
    VP_CHECK(c.IsCellInitialized() == x.cells && c.IsChunkInitialized() == !x.cells, "chunk ", show(at), " holds cells: ", c.IsCellInitialized());
    const int64_t n[3] = {c.GetNumXCells(), c.GetNumYCells(), c.GetNumZCells()};
    const auto size = c.GetElementSize();
    for (int k = 0; k < 3; ++k) {
      VP_CHECK(n[k] == (x.cells ? d.n[k] : 1), "chunk ", show(at), " has ", n[k], " cells along axis ", k);
      VP_CHECK(vp::close(size[(size_t)k], x.cells ? d.cell[k] : d.cell[k] * (double)d.n[k], 1e-12), "element size");
    }
    for (int64_t i = -1; i <= n[0]; ++i)
      for (int64_t j = -1; j <= n[1]; ++j)
        for (int64_t l = -1; l <= n[2]; ++l) {
          const bool inside = i >= 0 && j >= 0 && l >= 0 && i < n[0] && j < n[1] && l < n[2];
          const auto v = c.GetImmutableByIndex(i, j, l);
          const auto where = c.GetIndexLocationInGrid(i, j, l);
          VP_CHECK(v.second == inside && c.IndexInBounds(i, j, l) == inside, "cell ", i, ",", j, ",", l, " in bounds");
          VP_CHECK(where.size() == (inside ? 3u : 0u), "location of cell ", i, ",", j, ",", l);
          if (!inside) continue;
          const auto wr = x.written.find(I3{i, j, l});
          const int expect = (x.cells && wr != x.written.end()) ? wr->second : x.value;
          VP_CHECK(v.first == expect, "chunk ", show(at), " cell ", i, ",", j, ",", l, " holds ", v.first, " expected ", expect);
          const int64_t q[3] = {i, j, l};
          for (int k = 0; k < 3; ++k) {
            const double c0 = d.cell[k] * (double)d.n[k];
            const double centre = (double)at[(size_t)k] * c0 + (x.cells ? ((double)q[k] + 0.5) * d.cell[k] : 0.5 * c0);
            VP_CHECK(vp::close(where[(size_t)k], centre, 1e-9), "centre of cell ", i, ",", j, ",", l, " coordinate ", k, ": ", where[(size_t)k], " expected ", centre);
          }
        }
  }
}

template <class Grid>
void history(vp::Src& s) {
  Spec d;
  int def = -1, next = 1, cellWrites = 0, chunkWrites = 0;
  Grid g = make<Grid>(s, d, def);
  Model m;
  std::vector<Pos> used;
  const auto cs = g.GetCellSizes(), ks = g.GetChunkSizes();
  const auto kn = g.GetChunkNumCells();
  VP_CHECK(g.IsInitialized() && g.GetDefaultValue() == def);
  for (size_t k = 0; k < 3; ++k) VP_CHECK(vp::close(cs[k], d.cell[k], 1e-14) && vp::close(ks[k], d.cell[k] * (double)d.n[k], 1e-12) && kn[k] == d.n[k], "sizes along axis ", k);
  VP_CHECK(g.GetOriginTransform().matrix().isApprox(d.origin.matrix(), 1e-12), "origin");
  s.repeat(1, 30, [&] {
    Pos p = (!used.empty() && s.b()) ? s.pick(used) : genPos(s, d);
    used.push_back(p);
    const int op = (int)s.u(0, 7);
    if (op <= 2) {
      const int v = next++;
      int named = v;
      SET_STATUS st = NOT_SET;
      switch (s.u(0, 3)) {
        case 0: st = g.SetCellValue(p.world, named); break;
        case 1: st = g.SetCellValue(p.world, int(v)); break;
        case 2: st = g.SetCellValue(p.world.x(), p.world.y(), p.world.z(), named); break;
        default: st = g.SetCellValue(p.world.x(), p.world.y(), p.world.z(), int(v)); break;
      }
      VP_CHECK(st == SET_CELL, "cell write at ", p.frame.transpose(), " reported ", (int)st);
      const bool fresh = m.find(p.chunk) == m.end();
      MChunk& c = m[p.chunk];
      if (fresh) c.value = def;
      if (!fresh && !c.cells) s.nontrivial(), s.label("chunk expanded");
      c.cells = true;
      c.written[p.cell] = v;
      ++cellWrites;
    } else if (op <= 4) {
      const int v = next++;
      int named = v;
      SET_STATUS st = NOT_SET;
      switch (s.u(0, 3)) {
        case 0: st = g.SetChunkValue(p.world, named); break;
        case 1: st = g.SetChunkValue(p.world, int(v)); break;
        case 2: st = g.SetChunkValue(p.world.x(), p.world.y(), p.world.z(), named); break;
        default: st = g.SetChunkValue(p.world.x(), p.world.y(), p.world.z(), int(v)); break;
      }
      VP_CHECK(st == SET_CHUNK, "chunk write at ", p.frame.transpose(), " reported ", (int)st);
      MChunk c;
      c.value = v;
      m[p.chunk] = c;
      ++chunkWrites;
    } else if (op == 5) {
      const auto w = want(m, p, def);
      auto r = s.b() ? g.GetMutable(p.world) : g.GetMutable(p.world.x(), p.world.y(), p.world.z());
      VP_CHECK(r.first == w.first && r.second == w.second, "mutable read of ", p.frame.transpose(), " gives ", r.first, " status ", (int)r.second, " expected ", w.first, " status ", (int)w.second);
      if (r.second != NOT_FOUND) {
        const int v = next++;
        r.first = v;
        if (r.second == FOUND_IN_CELL) m[p.chunk].written[p.cell] = v;
        else m[p.chunk].value = v;
      }
    } else if (op == 6) {
      Grid copy = g;
      g.SetChunkValue(p.world, -77);
      g = copy;
    } else if (s.chance(1, 3)) {
      def = next++;
      g.SetDefaultValue(def);
    }
    for (const Pos& q : used) read(g, m, q, def, "after an operation");
    for (int k = 0; k < 3; ++k) read(g, m, genPos(s, d), def, "elsewhere");
  });
  chunks(g, d, m);
  s.nontrivialIf(cellWrites >= 2 && chunkWrites >= 1);
}

}  // namespace

VP_PROP(history_sparse_array, 11000, 270000) { history<DynamicSpatialHashedVoxelGrid<int>>(s); }
VP_PROP(history_with_allocator, 10000, 200000) { history<DynamicSpatialHashedVoxelGrid<int, Eigen::aligned_allocator<int>>>(s); }

VP_PROP(border_positions, 50000, 1000000) {
  // Positions that are multiples of the cell size up to rounding can be written and read like any other.
  const double cells[] = {0.1, 0.05, 0.3, 0.7, 1.0 / 3, 0.01, 0.2, 0.001, 1.1};
  const double cell = s.chance(1, 3) ? s.generic(0.01, 2) : cells[s.u(0, 8)];
  const int64_t n = s.i(1, 10);
  DynamicSpatialHashedVoxelGrid<int> g(cell, n, n, n, -1);
  Vec3 p;
  for (int k = 0; k < 3; ++k) {
    double x = (double)s.i(-200, 200) * cell;
    if (s.chance(1, 3)) x = std::nextafter(x, s.b() ? 1e9 : -1e9);
    p(k) = x;
  }
  s.nontrivialIf(n > 1);
  const bool chunkFirst = s.b();
  if (chunkFirst) {
    VP_CHECK(g.SetChunkValue(p, 5) == SET_CHUNK, "chunk write at ", p.transpose());
    VP_CHECK(g.GetImmutable(p).first == 5 && g.GetImmutable(p).second == FOUND_IN_CHUNK);
  }
  const SET_STATUS st = g.SetCellValue(p, 7);
  VP_CHECK(st == SET_CELL, "cell write at ", vp::show(std::vector<double>{p(0), p(1), p(2)}), " with cells of ", cell, ", ", n, " per chunk, reported ", (int)st);
  const auto r = g.GetImmutable(p);
  VP_CHECK(r.second == FOUND_IN_CELL && r.first == 7, "cell just written at ", p.transpose(), " reads ", r.first);
  // Of the cells next to the position exactly one was written.
  int hits = 0;
  for (int q = 0; q < 8; ++q) {
    const Vec3 c = p + 0.5 * cell * Vec3(q & 1 ? 1 : -1, q & 2 ? 1 : -1, q & 4 ? 1 : -1);
    const auto v = g.GetImmutable(c);
    if (v.second == FOUND_IN_CELL && v.first == 7) ++hits;
    else VP_CHECK(v.second == NOT_FOUND ? v.first == -1 : v.first == (chunkFirst ? 5 : -1), "neighbouring cell reads ", v.first);
  }
  VP_CHECK(hits == 1, hits, " cells around ", p.transpose(), " hold the value");
}

VP_PROP(containing_chunk, 50000, 1000000) {
  Spec d;
  const auto g = make<DynamicSpatialHashedVoxelGrid<int>>(s, d, 0);
  const Pos p = genPos(s, d);
  const CHUNK_REGION r = g.GetContainingChunkRegion(p.frame);
  for (int k = 0; k < 3; ++k) {
    const double size = d.cell[k] * (double)d.n[k], base = (double)p.chunk[(size_t)k] * size;
    VP_CHECK(vp::close(r.base(k), base, 1e-9), "chunk of ", p.frame.transpose(), " starts at ", r.base.transpose());
    if (p.chunk[(size_t)k] < 0) s.nontrivial();
  }
  const CHUNK_REGION a(r.base.x(), r.base.y(), r.base.z()), b(r.base);
  VP_CHECK(a == r && b == r && std::hash<CHUNK_REGION>()(a) == std::hash<CHUNK_REGION>()(r));
  CHUNK_REGION other(r.base + Vec3(d.cell[0], 0, 0));
  VP_CHECK(!(other == r));
}

VP_PROP(single_chunk, 40000, 800000) {
  // A chunk of cells by itself: positions outside it are refused.
  Spec d;
  make<DynamicSpatialHashedVoxelGrid<int>>(s, d, 0);
  const Vec3 base(s.real(-10, 10), s.real(-10, 10), s.real(-10, 10));
  DynamicSpatialHashedVoxelGridChunk<int> c(CHUNK_REGION(base), d.cell[0], d.cell[1], d.cell[2], d.n[0], d.n[1], d.n[2], -3);
  std::map<I3, int> m;
  VP_CHECK(c.IsCellInitialized() && !c.IsChunkInitialized());
  int next = 1;
  s.repeat(1, 12, [&] {
    I3 at;
    bool in = true;
    Vec3 p = base;
    for (int k = 0; k < 3; ++k) {
      at[(size_t)k] = s.chance(1, 6) ? (s.b() ? -1 : d.n[k]) : s.i(0, d.n[k] - 1);
      p(k) += ((double)at[(size_t)k] + s.generic(0.01, 0.99)) * d.cell[k];
      in = in && at[(size_t)k] >= 0 && at[(size_t)k] < d.n[k];
    }
    if (!in) s.nontrivial();
    const int was = in ? (m.count(at) ? m[at] : -3) : -3;
    const auto r = c.GetCellImmutable(p);
    VP_CHECK(r.second == in && r.first == was, "cell ", show(at), " reads ", r.first, " ", r.second, " expected ", was, " ", in);
    const auto q = c.GetCellMutable(p);
    VP_CHECK(q.second == in && q.first == was, "cell ", show(at), " reads ", q.first);
    const int v = next++;
    int named = v;
    const bool ok = s.b() ? c.SetCellValue(p, named) : c.SetCellValue(p, int(v));
    VP_CHECK(ok == in, "write to cell ", show(at), " reported ", ok);
    if (in) m[at] = v;
    if (in) {
      auto z = c.GetMutableByIndex(at[0], at[1], at[2]);
      VP_CHECK(z.second && z.first == v, "by index");
    }
  });
  DynamicSpatialHashedVoxelGridChunk<int> whole(CHUNK_REGION(base), d.cell[0], d.cell[1], d.cell[2], 11);
  VP_CHECK(!whole.IsCellInitialized() && whole.IsChunkInitialized() && whole.GetChunkImmutable() == 11);
  const int v = next++;
  VP_CHECK(s.b() ? whole.SetChunkValue(int(v)) : whole.SetChunkValue(v));
  VP_CHECK(whole.GetChunkImmutable() == v && whole.GetChunkMutable() == v);
}

VP_PROP(invalid_sizes, 10000, 100000) {
  const double bad[] = {0.0, -1.0, std::numeric_limits<double>::quiet_NaN(), INFINITY, -0.5};
  double c[3] = {1, 1, 1};
  int64_t n[3] = {2, 2, 2};
  const size_t which = s.u(0, 5);
  if (which < 3) c[which] = bad[s.u(0, 4)];
  else n[which - 3] = -s.i(0, 3);
  using G = DynamicSpatialHashedVoxelGrid<int>;
  using C = DynamicSpatialHashedVoxelGridChunk<int>;
  s.nontrivial();
  VP_THROWS(G(c[0], c[1], c[2], n[0], n[1], n[2], 0), "argument ", which);
  VP_THROWS(G(Eigen::Isometry3d::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], 0), "argument ", which);
  VP_THROWS(C(CHUNK_REGION(), c[0], c[1], c[2], n[0], n[1], n[2], 0), "argument ", which);
  if (which < 3) VP_THROWS(C(CHUNK_REGION(), c[0], c[1], c[2], 0), "argument ", which);
  VP_CHECK(!G().IsInitialized(), "a grid that was never set up is not initialized");
  G g;
  g.Initialize(1.0, 1.0, 1.0, (int64_t)2, (int64_t)2, (int64_t)2, 4);
  VP_CHECK(g.IsInitialized() && g.GetImmutable(0.5, 0.5, 0.5).first == 4);
}
