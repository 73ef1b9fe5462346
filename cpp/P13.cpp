#include "vp.hpp"

#include <arc_utilities/voxel_grid.hpp>

namespace {

using VoxelGrid::GRID_INDEX;
using Vec3 = Eigen::Vector3d;

struct Spec {
  double cell[3];
  int64_t n[3];
  Eigen::Isometry3d origin;  // of the grid's corner
  int def, oob;
  bool exact;  // every coordinate below is exact in double arithmetic
};

Eigen::Isometry3d genPose(vp::Src& s, bool exact) {
  Eigen::Isometry3d t = Eigen::Isometry3d::Identity();
  if (exact) {
    for (int k = 0; k < 3; ++k) t.translation()(k) = 0.25 * (double)s.si(40);
    if (s.chance(1, 3)) {  // a rotation by quarter turns is exact too
      Eigen::Matrix3d r = Eigen::Matrix3d::Zero();
      const int p = (int)s.u(0, 2);
      const double a = s.b() ? 1 : -1, b = s.b() ? 1 : -1;
      r(p, 0) = a;
      r((p + 1) % 3, 1) = b;
      r((p + 2) % 3, 2) = a * b;
      t.linear() = r;
    }
    return t;
  }
  for (int k = 0; k < 3; ++k) t.translation()(k) = s.generic(-20, 20);
  Eigen::Quaterniond q(s.generic(-1, 1), s.generic(-1, 1), s.generic(-1, 1), s.generic(0.1, 1));
  t.linear() = q.normalized().toRotationMatrix();
  return t;
}

template <class Grid>
Grid make(vp::Src& s, Spec& d) {
  d.exact = s.b();
  const auto cell = [&] { return d.exact ? std::ldexp(1.0, (int)s.i(-3, 2)) : s.generic(0.01, 3); };
  const bool uniform = s.b(), bySize = s.b(), posed = s.b(), hasOob = s.b();
  for (int k = 0; k < 3; ++k) {
    d.cell[k] = (k > 0 && uniform) ? d.cell[0] : cell();
    d.n[k] = (int64_t)s.u(1, 6);
  }
  if (s.chance(1, 600)) {  // long in some direction
    int64_t room = 150000;
    for (int k = 0; k < 3; ++k) {
      const int a = (k + (int)s.choice(3)) % 3;
      d.n[a] = (int64_t)s.big(1, (size_t)std::max<int64_t>(1, std::min<int64_t>(room, 400)));
      room = 150000 / (d.n[0] * d.n[1] * d.n[2]) * d.n[a];
      if (d.n[0] * d.n[1] * d.n[2] > 150000) d.n[a] = 1;
    }
    s.label("large");
  }
  d.def = (int)s.si(5);
  d.oob = hasOob ? 1000 + (int)s.u(0, 5) : d.def;
  double size[3];
  for (int k = 0; k < 3; ++k) size[k] = ((double)d.n[k] - (d.exact && s.b() ? 0.0 : s.generic(0.02, 0.98))) * d.cell[k];
  if (posed) {
    d.origin = genPose(s, d.exact);
  } else {
    d.origin = Eigen::Isometry3d::Identity();
    for (int k = 0; k < 3; ++k) d.origin.translation()(k) = -0.5 * (double)d.n[k] * d.cell[k];
  }
  s.label(vp::cat(uniform ? "uniform " : "", bySize ? "by size " : "by count ", posed ? "posed" : "centred"));
  const double *c = d.cell;
  const int64_t* n = d.n;
  if (posed) {
    const Eigen::Isometry3d& o = d.origin;
    if (bySize) {
      if (uniform) return hasOob ? Grid(o, c[0], size[0], size[1], size[2], d.def, d.oob) : Grid(o, c[0], size[0], size[1], size[2], d.def);
      return hasOob ? Grid(o, c[0], c[1], c[2], size[0], size[1], size[2], d.def, d.oob) : Grid(o, c[0], c[1], c[2], size[0], size[1], size[2], d.def);
    }
    if (uniform) return hasOob ? Grid(o, c[0], n[0], n[1], n[2], d.def, d.oob) : Grid(o, c[0], n[0], n[1], n[2], d.def);
    return hasOob ? Grid(o, c[0], c[1], c[2], n[0], n[1], n[2], d.def, d.oob) : Grid(o, c[0], c[1], c[2], n[0], n[1], n[2], d.def);
  }
  if (bySize) {
    if (uniform) return hasOob ? Grid(c[0], size[0], size[1], size[2], d.def, d.oob) : Grid(c[0], size[0], size[1], size[2], d.def);
    return hasOob ? Grid(c[0], c[1], c[2], size[0], size[1], size[2], d.def, d.oob) : Grid(c[0], c[1], c[2], size[0], size[1], size[2], d.def);
  }
  if (uniform) return hasOob ? Grid(c[0], n[0], n[1], n[2], d.def, d.oob) : Grid(c[0], n[0], n[1], n[2], d.def);
  return hasOob ? Grid(c[0], c[1], c[2], n[0], n[1], n[2], d.def, d.oob) : Grid(c[0], c[1], c[2], n[0], n[1], n[2], d.def);
}

// A position in the grid frame and the cell that holds it.  Unless the arithmetic is exact, it keeps away from cell boundaries.
struct Pos {
  Vec3 frame, world;
  GRID_INDEX cell;
  bool in;
};
Pos genPos(vp::Src& s, const Spec& d) {
  Pos p;
  int64_t at[3];
  p.in = true;
  for (int k = 0; k < 3; ++k) {
    at[k] = s.chance(1, 4) ? s.i(-4, d.n[k] + 4) : s.chance(1, 6) ? (s.b() ? -1 : d.n[k]) : s.i(0, d.n[k] - 1);
    if (s.chance(1, 40)) at[k] = s.si(1000000);
    const double f = d.exact ? (s.chance(1, 3) ? 0.0 : 0.125 * (double)s.u(0, 7)) : (s.chance(1, 3) ? (s.b() ? 1e-6 : 1 - 1e-6) : s.generic(0.001, 0.999));
    p.frame(k) = ((double)at[k] + f) * d.cell[k];
    p.in = p.in && at[k] >= 0 && at[k] < d.n[k];
  }
  if (!d.exact)  // far away positions would lose the distance to the boundary
    for (int k = 0; k < 3; ++k)
      if (std::abs(at[k]) > 1000) {
        at[k] = at[k] > 0 ? 1000 : -1000;
        p.frame(k) = ((double)at[k] + 0.5) * d.cell[k];
      }
  p.world = d.origin * p.frame;
  p.cell = GRID_INDEX(at[0], at[1], at[2]);
  return p;
}

std::string show(const GRID_INDEX& i) { return vp::cat("(", i.x, ",", i.y, ",", i.z, ")"); }

template <class Grid>
void sameConfig(const Grid& g, const Spec& d, const char* when) {
  VP_CHECK(g.IsInitialized(), when);
  VP_CHECK(g.GetNumXCells() == d.n[0] && g.GetNumYCells() == d.n[1] && g.GetNumZCells() == d.n[2], when, ": ", g.GetNumXCells(), "x", g.GetNumYCells(), "x", g.GetNumZCells(), " cells expected ", d.n[0], "x", d.n[1], "x", d.n[2]);
  const double size[3] = {g.GetXSize(), g.GetYSize(), g.GetZSize()};
  for (int k = 0; k < 3; ++k) {
    VP_CHECK(vp::close(size[k], (double)d.n[k] * d.cell[k], 1e-12), when, ": size ", k, " is ", size[k]);
    VP_CHECK(vp::close(g.GetCellSizes()(k), d.cell[k], 1e-14), when, ": cell size ", k);
  }
  VP_CHECK(g.GetDefaultValue() == d.def && g.GetOOBValue() == d.oob, when, ": default ", g.GetDefaultValue(), " out of bounds ", g.GetOOBValue());
  VP_CHECK(g.GetOriginTransform().matrix().isApprox(d.origin.matrix(), 1e-12), when, ": origin");
  VP_CHECK((g.GetOriginTransform() * g.GetInverseOriginTransform()).matrix().isApprox(Eigen::Matrix4d::Identity(), 1e-9), when, ": inverse origin");
}

template <class Grid>
void sameContent(const Grid& g, const Spec& d, const std::vector<int>& m, const char* when) {
  size_t k = 0;
  for (int64_t x = 0; x < d.n[0]; ++x)
    for (int64_t y = 0; y < d.n[1]; ++y)
      for (int64_t z = 0; z < d.n[2]; ++z, ++k) {
        const auto v = g.GetImmutable(x, y, z);
        VP_CHECK(v.second && v.first == m[k], when, ": cell (", x, ",", y, ",", z, ") holds ", v.first, " expected ", m[k]);
      }
}

template <class Grid>
void addressing(vp::Src& s) {
  Spec d;
  Grid g = make<Grid>(s, d);
  sameConfig(g, d, "constructed");
  s.repeat(1, 10, [&] {
    const Pos p = genPos(s, d);
    if (!p.in) s.nontrivial();
    const Eigen::Vector4d w4(p.world.x(), p.world.y(), p.world.z(), 1), f4(p.frame.x(), p.frame.y(), p.frame.z(), 1);
    const auto same = [&](const GRID_INDEX& i, const char* what) {
      VP_CHECK(i == p.cell, what, ": position ", p.frame.transpose(), " of the grid frame is in cell ", show(i), " expected ", show(p.cell), ", cells ", d.cell[0], " ", d.cell[1], " ", d.cell[2]);
    };
    same(g.LocationToGridIndex(p.world.x(), p.world.y(), p.world.z()), "LocationToGridIndex");
    same(g.LocationToGridIndex3d(p.world), "LocationToGridIndex3d");
    same(g.LocationToGridIndex4d(w4), "LocationToGridIndex4d");
    same(g.PointInFrameToGridIndex(p.frame.x(), p.frame.y(), p.frame.z()), "PointInFrameToGridIndex");
    same(g.PointInFrameToGridIndex3d(p.frame), "PointInFrameToGridIndex3d");
    same(g.PointInFrameToGridIndex4d(f4), "PointInFrameToGridIndex4d");
    VP_CHECK(g.LocationInBounds(p.world.x(), p.world.y(), p.world.z()) == p.in && g.LocationInBounds3d(p.world) == p.in && g.LocationInBounds4d(w4) == p.in, "position ", p.frame.transpose(), " of the grid frame in bounds");
    VP_CHECK(g.IndexInBounds(p.cell) == p.in && g.IndexInBounds(p.cell.x, p.cell.y, p.cell.z) == p.in, "cell ", show(p.cell), " in bounds");
    // The centre of a cell is in that cell.
    const Vec3 centre(((double)p.cell.x + 0.5) * d.cell[0], ((double)p.cell.y + 0.5) * d.cell[1], ((double)p.cell.z + 0.5) * d.cell[2]);
    const double tol = 1e-9 * (1 + centre.norm() + d.origin.translation().norm());
    const Eigen::Vector4d a = g.GridIndexToLocation(p.cell), b = g.GridIndexToLocation(p.cell.x, p.cell.y, p.cell.z);
    const Eigen::Vector4d fa = g.GridIndexToLocationGridFrame(p.cell), fb = g.GridIndexToLocationGridFrame(p.cell.x, p.cell.y, p.cell.z);
    VP_CHECK((a.head<3>() - d.origin * centre).norm() < tol && a(3) == 1, "centre of ", show(p.cell), " is ", a.transpose());
    VP_CHECK((fa.head<3>() - centre).norm() < tol && fa(3) == 1, "centre of ", show(p.cell), " in the grid frame is ", fa.transpose());
    VP_CHECK((a - b).norm() < tol && (fa - fb).norm() < tol);
    same(g.LocationToGridIndex4d(a), "cell centre");
    if (p.in) {
      const uint64_t h = g.HashDataIndex(p.cell.x, p.cell.y, p.cell.z);
      VP_CHECK(h == (uint64_t)((p.cell.x * d.n[1] + p.cell.y) * d.n[2] + p.cell.z), "data index ", h, " of ", show(p.cell));
    }
  });
}

template <class Grid>
Grid roundTrip(vp::Src& s, const Grid& g) {
  std::vector<uint8_t> buffer = s.bytes(6);
  const std::vector<uint8_t> before = buffer;
  const std::function<uint64_t(const int&, std::vector<uint8_t>&)> put = [](const int& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(v, b); };
  const std::function<std::pair<int, uint64_t>(const std::vector<uint8_t>&, const uint64_t)> get = [](const std::vector<uint8_t>& b, const uint64_t at) { return arc_utilities::DeserializeFixedSizePOD<int>(b, at); };
  const uint64_t wrote = s.b() ? Grid::Serialize(g, buffer, put) : g.SerializeSelf(buffer, put);
  VP_CHECK(buffer.size() == before.size() + wrote, "wrote ", wrote, " bytes, appended ", buffer.size() - before.size());
  VP_CHECK(std::equal(before.begin(), before.end(), buffer.begin()), "earlier bytes changed");
  buffer.push_back(1);
  const auto r = Grid::Deserialize(buffer, before.size(), get);
  VP_CHECK(r.second == wrote, "read ", r.second, " of ", wrote, " bytes");
  return r.first;
}

template <class Grid>
void history(vp::Src& s) {
  Spec d;
  Grid g = make<Grid>(s, d);
  std::vector<int> m((size_t)(d.n[0] * d.n[1] * d.n[2]), d.def);
  const auto at = [&](const GRID_INDEX& i) -> int& { return m[(size_t)((i.x * d.n[1] + i.y) * d.n[2] + i.z)]; };
  int next = 1, writes = 0;
  s.repeat(1, 30, [&] {
    const int op = (int)s.u(0, 13);
    if (op <= 6) {  // write
      const Pos p = genPos(s, d);
      const int v = next++;
      const Eigen::Vector4d w4(p.world.x(), p.world.y(), p.world.z(), 1);
      bool ok = false;
      const bool temp = s.b();
      int named = v;
      switch (s.u(0, 9)) {
        case 0: ok = temp ? g.SetValue3d(p.world, int(v)) : g.SetValue3d(p.world, named); break;
        case 1: ok = temp ? g.SetValue4d(w4, int(v)) : g.SetValue4d(w4, named); break;
        case 2: ok = temp ? g.SetValue(p.world.x(), p.world.y(), p.world.z(), int(v)) : g.SetValue(p.world.x(), p.world.y(), p.world.z(), named); break;
        case 3: ok = temp ? g.SetValue(p.cell, int(v)) : g.SetValue(p.cell, named); break;
        case 4: ok = temp ? g.SetValue(p.cell.x, p.cell.y, p.cell.z, int(v)) : g.SetValue(p.cell.x, p.cell.y, p.cell.z, named); break;
        case 5: { auto r = g.GetMutable3d(p.world); ok = r.second; if (ok) r.first = v; else VP_CHECK(r.first == d.oob); break; }
        case 6: { auto r = g.GetMutable4d(w4); ok = r.second; if (ok) r.first = v; else VP_CHECK(r.first == d.oob); break; }
        case 7: { auto r = g.GetMutable(p.world.x(), p.world.y(), p.world.z()); ok = r.second; if (ok) r.first = v; else VP_CHECK(r.first == d.oob); break; }
        case 8: { auto r = g.GetMutable(p.cell); ok = r.second; if (ok) r.first = v; else VP_CHECK(r.first == d.oob); break; }
        default: { auto r = g.GetMutable(p.cell.x, p.cell.y, p.cell.z); ok = r.second; if (ok) r.first = v; else VP_CHECK(r.first == d.oob); break; }
      }
      VP_CHECK(ok == p.in, "write to cell ", show(p.cell), " of ", d.n[0], "x", d.n[1], "x", d.n[2], " reported ", ok);
      if (p.in) at(p.cell) = v;
      ++writes;
    } else if (op <= 9) {  // read
      const Pos p = genPos(s, d);
      const Eigen::Vector4d w4(p.world.x(), p.world.y(), p.world.z(), 1);
      const int want = p.in ? at(p.cell) : d.oob;
      const auto same = [&](const std::pair<const int&, bool>& r, const char* what) {
        VP_CHECK(r.second == p.in && r.first == want, what, ": cell ", show(p.cell), " reads ", r.first, " ", r.second, " expected ", want, " ", p.in);
      };
      same(g.GetImmutable3d(p.world), "GetImmutable3d");
      same(g.GetImmutable4d(w4), "GetImmutable4d");
      same(g.GetImmutable(p.world.x(), p.world.y(), p.world.z()), "GetImmutable of a position");
      same(g.GetImmutable(p.cell), "GetImmutable of an index");
      same(g.GetImmutable(p.cell.x, p.cell.y, p.cell.z), "GetImmutable of three indices");
    } else if (op == 10) {
      switch (s.u(0, 5)) {
        case 0: g.ResetWithDefault(); std::fill(m.begin(), m.end(), d.def); break;
        case 1: { const int v = next++; g.ResetWithNewValue(v); std::fill(m.begin(), m.end(), v); break; }
        case 2: { const int v = next++; g.ResetWithNewDefault(v); d.def = v; std::fill(m.begin(), m.end(), v); break; }
        case 3: d.def = next++; g.SetDefaultValue(d.def); break;
        case 4: d.oob = next++; g.SetOOBValue(d.oob); break;
        default: d.origin = genPose(s, d.exact); g.UpdateOriginTransform(d.origin); break;
      }
    } else if (op == 11) {
      g = roundTrip(s, g);
    } else if (op == 12) {  // a clone is independent
      std::unique_ptr<Grid> c(g.Clone());
      g.ResetWithNewValue(-999);
      sameConfig(*c, d, "clone");
      sameContent(*c, d, m, "clone");
      if (s.b()) c->SetValue((int64_t)0, (int64_t)0, (int64_t)0, -5), c->SetValue((int64_t)0, (int64_t)0, (int64_t)0, m[0]);
      g = *c;
    } else {  // raw data
      auto raw = g.GetImmutableRawData();
      VP_CHECK(raw.size() == m.size() && std::equal(m.begin(), m.end(), raw.begin()), "raw data");
      for (size_t k = 0; k < raw.size(); ++k)
        if (s.chance(1, 4)) raw[k] = m[k] = next++;
      std::streambuf* old = std::cerr.rdbuf(nullptr);
      auto wrong = raw;
      if (s.b()) wrong.push_back(1);
      else wrong.pop_back();
      const bool bad = g.SetRawData(wrong);
      std::cerr.rdbuf(old);
      VP_CHECK(!bad, "raw data of a wrong size accepted");
      VP_CHECK(g.SetRawData(raw), "raw data refused");
    }
    sameContent(g, d, m, "after an operation");
  });
  sameConfig(g, d, "at the end");
  s.nontrivialIf(writes >= 3);
}

template <class T>
using Vec = VoxelGrid::VoxelGrid<T>;
template <class T>
using Ali = VoxelGrid::VoxelGrid<T, std::vector<T, Eigen::aligned_allocator<T>>>;

}  // namespace

VP_PROP(cell_addressing, 80000, 2000000) { addressing<Vec<int>>(s); }
VP_PROP(history_vector, 36000, 900000) { history<Vec<int>>(s); }
VP_PROP(history_aligned, 15000, 400000) { history<Ali<int>>(s); }

VP_PROP(fine_cells_tile_the_extents, 10000, 200000) {
  // Walking along an axis in small steps, cells come in order, without gap or overlap, exactly within the extents.
  Spec d;
  const Vec<int> g = make<Vec<int>>(s, d);
  const int axis = (int)s.u(0, 2);
  Vec3 p;
  for (int k = 0; k < 3; ++k) p(k) = d.cell[k] * ((double)s.i(0, d.n[k] - 1) + 0.5);
  int64_t last = -1;
  s.nontrivialIf(d.n[axis] > 1);
  const int steps = 16;
  for (int64_t j = -3 * steps; j < (d.n[axis] + 3) * steps; ++j) {
    const int64_t c = j >= 0 ? j / steps : -((-j + steps - 1) / steps);
    p(axis) = d.cell[axis] * ((double)j + 0.5) / steps;
    const Vec3 w = d.origin * p;
    const GRID_INDEX i = g.LocationToGridIndex3d(w);
    const int64_t v[3] = {i.x, i.y, i.z};
    VP_CHECK(v[axis] == c, "coordinate ", p(axis), " is in slice ", v[axis], " expected ", c, " of cells of ", d.cell[axis]);
    const bool in = g.GetImmutable3d(w).second;
    VP_CHECK(in == (c >= 0 && c < d.n[axis]), "coordinate ", p(axis), " in bounds: ", in);
    VP_CHECK(in == (p(axis) >= 0 && p(axis) < (double)d.n[axis] * d.cell[axis]));
    if (in) {
      VP_CHECK(v[axis] == last || v[axis] == last + 1, "slice ", v[axis], " after ", last);
      last = v[axis];
    }
  }
}

VP_PROP(invalid_sizes, 20000, 200000) {
  const double bad[] = {0.0, -1.0, std::numeric_limits<double>::quiet_NaN(), INFINITY, -0.25, -INFINITY};
  double v[6];
  for (double& x : v) x = s.generic(0.5, 2);
  const size_t which = s.u(0, 5);
  v[which] = bad[s.u(0, 5)];
  s.nontrivial();
  VP_THROWS(Vec<int>(v[0], v[1], v[2], v[3], v[4], v[5], 0, 1), "centred grid by size, argument ", which, " is ", v[which]);
  VP_THROWS(Vec<int>(Eigen::Isometry3d::Identity(), v[0], v[1], v[2], v[3], v[4], v[5], 0, 1), "posed grid by size, argument ", which, " is ", v[which]);
  int64_t n[3] = {2, 2, 2};
  double c[3] = {1, 1, 1};
  if (which < 3) c[which] = v[which];
  else n[which - 3] = -s.i(0, 3);
  VP_THROWS(Vec<int>(c[0], c[1], c[2], n[0], n[1], n[2], 0, 1), "centred grid by count");
  VP_THROWS(Vec<int>(Eigen::Isometry3d::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], 0, 1), "posed grid by count");
}

VP_PROP(unset_grid, 3000, 30000) {
  Vec<int> g;
  s.nontrivial();
  VP_CHECK(!g.IsInitialized());
  const double x = s.real(-5, 5), y = s.real(-5, 5), z = s.real(-5, 5);
  VP_CHECK(!g.LocationInBounds(x, y, z) && !g.SetValue(x, y, z, 1) && !g.SetValue((int64_t)0, (int64_t)0, (int64_t)0, 1), "a grid that was never set up has no cells");
}

VP_PROP(grid_index, 20000, 200000) {
  const auto gen = [&] { return GRID_INDEX(s.si(3), s.si(3), s.si(3)); };
  std::unordered_map<GRID_INDEX, int> u;
  std::map<std::vector<int64_t>, int> m;
  s.repeat(1, 20, [&] {
    const GRID_INDEX i = gen();
    const int v = (int)s.u(0, 99);
    u[i] = v;
    m[{i.x, i.y, i.z}] = v;
  });
  s.nontrivialIf(m.size() > 2);
  VP_CHECK(u.size() == m.size(), u.size(), " indices in the hash map, expected ", m.size());
  for (const auto& e : m) {
    const auto it = u.find(GRID_INDEX(e.first[0], e.first[1], e.first[2]));
    VP_CHECK(it != u.end() && it->second == e.second);
  }
  const GRID_INDEX a = gen(), b = gen();
  VP_CHECK((a == b) == (a.x == b.x && a.y == b.y && a.z == b.z), "equality of ", show(a), " ", show(b));
}
