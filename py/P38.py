"""P38: geometry along polylines and reversed trajectories."""
import copy
import random

import numpy as np
from hypothesis import assume
from hypothesis import strategies as st

import rosstubs as ros
from arc_utilities import path_utils as pu
from vp import prop

lattice = st.integers(-4, 4).map(float)
smooth = st.one_of(st.floats(-10, 10, allow_subnormal=False), st.floats(-1e-3, 1e-3, allow_subnormal=False), st.floats(-1e4, 1e4, allow_subnormal=False))
FORMS = ["lists", "arrays", "matrix", "integers", "tuples"]


@st.composite
def polylines(draw, least=1, most=8):
    dim = draw(st.integers(1, 4))
    grid = draw(st.booleans())
    value = lattice if grid else smooth
    n = draw(st.integers(least, most))
    if most == 8 and draw(st.integers(0, 39)) == 0:
        n, rng = draw(st.integers(9, 300)), random.Random(draw(st.integers(0, 2 ** 32)))
        pts = [[float(rng.randint(-4, 4)) if grid else rng.uniform(-10, 10) for _ in range(dim)] for _ in range(n)]
        return pts, [draw(value) for _ in range(dim)], draw(st.sampled_from(FORMS if grid else [f for f in FORMS if f != "integers"]))
    pts = [[draw(value) for _ in range(dim)] for _ in range(n)]
    for k in range(1, n):
        if draw(st.integers(0, 9)) == 0:
            pts[k] = list(pts[k - 1])                     # a repeated vertex
        elif k > 1 and draw(st.integers(0, 9)) == 0:
            pts[k] = list(pts[k - 2])                     # straight back
    query = draw(st.sampled_from(["any", "vertex", "on", "beyond"]))
    if query == "vertex":
        q = list(draw(st.sampled_from(pts)))
    elif query == "on" and n > 1:
        k, r = draw(st.integers(0, n - 2)), draw(st.sampled_from([0.25, 0.5, 0.1, 0.9, 1 / 3]))
        q = [a + (b - a) * r for a, b in zip(pts[k], pts[k + 1])]
    elif query == "beyond" and n > 1:
        q = [2 * b - a for a, b in zip(pts[-2], pts[-1])]
    else:
        q = [draw(value) for _ in range(dim)]
    form = draw(st.sampled_from(FORMS if grid else [f for f in FORMS if f != "integers"]))
    return pts, q, form


def given_as(pts, form):
    if form == "arrays":
        return [np.array(p) for p in pts]
    if form == "matrix":
        return np.array(pts)
    if form == "integers":
        return [[int(x) for x in p] for p in pts]
    if form == "tuples":
        return [tuple(p) for p in pts]
    return [list(p) for p in pts]


def size(*groups):
    # pieces shorter than 2e-15 count as points
    return max([1e-5] + [abs(x) for g in groups for p in g for x in p])


def distance(p, q):
    return float(np.linalg.norm(np.asarray(p, dtype=float) - np.asarray(q, dtype=float)))


def project(a, b, q):
    """Ratio and distance of the point of the segment nearest to q."""
    a, b, q = (np.asarray(x, dtype=float) for x in (a, b, q))
    v = b - a
    s = np.max(np.abs(v))
    if s < 1e-100:
        return 0.0, distance(a, q)
    w = v / s
    r = min(max(float(np.dot((q - a) / s, w) / np.dot(w, w)), 0.0), 1.0)
    return r, distance(a + r * v, q)


def stretches(pts):
    return [distance(a, b) for a, b in zip(pts, pts[1:])]


@prop(2500, 40000, p=polylines(least=2, most=2))
def closest_on_segment(c, p):
    pts, q, form = p
    line = given_as(pts, form)
    point, alpha = pu.closest_point_to_line_segment(line, q)
    tol = 1e-9 * size(pts, [q])
    r, d = project(pts[0], pts[1], q)
    assert 0 <= alpha <= 1, "ratio %r" % (alpha,)
    on = [a + (b - a) * float(alpha) for a, b in zip(*pts)]
    assert distance(point, on) <= tol, "%r is not at ratio %r" % (point, alpha)
    assert distance(point, q) <= d + tol, "%r is at %r of %r, not %r" % (point, distance(point, q), q, d)
    c.nontrivial(0 < r < 1 and d > 0 and len(q) > 1)
    c.label("inside" if 0 < r < 1 else "end")


@prop(2500, 40000, p=polylines())
def closest_on_path(c, p):
    pts, q, form = p
    path = given_as(pts, form)
    keep = copy.deepcopy(path)
    point, ind, alpha = pu.closest_point(path, q)
    assert np.array_equal(keep, path), "the path changed"
    tol = 1e-9 * size(pts, [q])
    best = min([distance(pts[0], q)] + [project(a, b, q)[1] for a, b in zip(pts, pts[1:])])
    assert distance(point, q) <= best + tol, "%r is at %r of %r, not %r" % (point, distance(point, q), q, best)
    assert 0 <= ind < len(pts) and 0 <= alpha < 1, "index %r, ratio %r" % (ind, alpha)
    assert ind < len(pts) - 1 or alpha == 0
    follower = pts[ind + 1] if alpha else pts[ind]
    on = [a + (b - a) * float(alpha) for a, b in zip(pts[ind], follower)]
    assert distance(on, point) <= tol, "%r is not at ratio %r after point %d" % (point, alpha, ind)
    c.nontrivial(len(pts) > 2 and best > 0 and alpha > 0)
    c.label("vertex" if alpha == 0 else "inside")


@prop(1500, 20000, p=polylines())
def lengths(c, p):
    pts, _, form = p
    got = pu.path_length(given_as(pts, form))
    want = sum(stretches(pts))
    assert abs(got - want) <= 1e-12 * len(pts) * (want + 1e-300), "%r instead of %r" % (got, want)
    assert abs(pu.path_length(given_as(pts[::-1], form)) - want) <= 1e-12 * len(pts) * want, "the way back is longer"
    if len(pts) > 1:
        assert abs(pu.dist(pts[0], pts[1]) - stretches(pts)[0]) <= 1e-12 * stretches(pts)[0]
    assert pu.path_length([]) == 0
    c.nontrivial(len(pts) > 2 and want > 0)


steps = st.one_of(st.sampled_from([0.5, 1.0, 0.25, 2.0, 0.1, 0.3, 1 / 3, 100.0]), st.floats(0.02, 5))


@prop(2000, 30000, p=polylines(), ratio=steps)
def densified(c, p, ratio):
    pts, _, form = p
    total = sum(stretches(pts))
    step = ratio if total < 200 * ratio else total * ratio / 50
    path = given_as(pts, form)
    keep = copy.deepcopy(path)
    for empty in ([], (), np.zeros((0, 2))):
        assert len(pu.densify(empty, step)) == 0, "points out of nothing"
    got = [np.asarray(x, dtype=float) for x in pu.densify(path, step)]
    assert np.array_equal(keep, path), "the path changed"
    tol = 1e-9 * size(pts)
    assert distance(got[0], pts[0]) == 0 and distance(got[-1], pts[-1]) <= tol, "the ends moved"
    for a, b in zip(got, got[1:]):
        assert distance(a, b) <= step * (1 + 1e-9) + tol, "a step of %r, more than %r" % (distance(a, b), step)
    # walking the result meets every vertex in turn, and only points between two consecutive vertices
    at = 0
    for k, vertex in enumerate(pts[1:]):
        begin = np.asarray(pts[k], dtype=float)
        while distance(got[at], vertex) > tol:
            at += 1
            assert at < len(got), "vertex %d is not met" % (k + 1)
            assert project(begin, vertex, got[at])[1] <= tol, "%r is off the path" % (got[at],)
    assert all(distance(x, pts[-1]) <= tol for x in got[at:]), "points after the end"
    assert abs(sum(stretches(got)) - total) <= 1e-9 * (total + len(got) * size(pts)), "length %r instead of %r" % (sum(stretches(got)), total)
    # no more points than needed (one more per piece for rounding)
    need = 1 + sum(int(np.ceil(s / step)) for s in stretches(pts))
    assert len(got) <= need + len(pts), "%d points where %d do" % (len(got), need)
    c.nontrivial(len(pts) > 2 and len(got) > len(pts))


@prop(1500, 20000, p=polylines(least=2, most=2), ratio=steps)
def densified_line(c, p, ratio):
    pts, _, form = p
    d = distance(*pts)
    step = ratio if d < 200 * ratio else d * ratio / 50
    start, end = given_as(pts, form)
    got = pu.densify_line(start, end, step)
    tol = 1e-9 * size(pts)
    if d == 0:
        assert len(got) == 0
        return
    assert distance(got[-1], pts[1]) <= tol, "the end is %r" % (got[-1],)
    gap = d / len(got)
    assert gap <= step * (1 + 1e-9), "steps of %r" % gap
    for k, x in enumerate(got):
        want = [a + (b - a) * (k + 1) / len(got) for a, b in zip(*pts)]
        assert distance(x, want) <= tol, "point %d is %r instead of %r" % (k, x, want)
    assert len(got) <= np.ceil(d / step) + 1
    c.nontrivial(len(got) > 1 and len(pts[0]) > 1)


def walk(pts, k, r, amount, direction):
    """The points met on the way from ratio r after point k, by the definition of arc length."""
    here = np.asarray(pts[k], dtype=float)
    if r:
        here = here + r * (np.asarray(pts[k + 1], dtype=float) - here)
    out = [here]
    ahead = pts[k + 1:] if direction > 0 else pts[:k + 1 if r else k][::-1]
    for nxt in ahead:
        nxt = np.asarray(nxt, dtype=float)
        d = distance(here, nxt)
        if d >= amount:
            if amount > 0:
                out.append(here + (nxt - here) * (amount / d if d else 0))
            return out
        amount -= d
        out.append(nxt)
        here = nxt
    return out


def distinct(points, tol):
    out = [points[0]]
    for x in points[1:]:
        if distance(x, out[-1]) > tol:
            out.append(x)
    return out


def same_path(a, b, tol):
    """Equal as curves: the same corners in the same order, points along a straight piece aside."""
    if distance(a[0], b[0]) > tol or distance(a[-1], b[-1]) > tol:
        return False
    a, b = distinct(a, tol), distinct(b, tol)
    return len(a) == len(b) and all(distance(x, y) <= 3 * tol for x, y in zip(a, b))


@prop(4000, 60000, p=polylines(), amount=st.one_of(st.integers(-12, 12).map(lambda k: k / 2), st.floats(-30, 30)), scaled=st.booleans(),
      given_start=st.booleans())
def travelled(c, p, amount, scaled, given_start):
    pts, q, form = p
    total = sum(stretches(pts))
    if scaled:
        amount = total * amount / 20
    path = given_as(pts, form)
    keep = copy.deepcopy(path)
    got = pu.travel_along(path, amount, q) if given_start else pu.travel_along(path, amount)
    assert np.array_equal(keep, path), "the path changed"
    got = [np.asarray(x, dtype=float) for x in got]
    tol = 1e-8 * (size(pts, [q]) + 1e-20)
    direction = 1 if amount > 0 else -1
    # every place the walk may start at: those no farther from the start than any other
    if given_start:
        places = [(0, 0.0, distance(pts[0], q))]
        for k, (a, b) in enumerate(zip(pts, pts[1:])):
            r, d = project(a, b, q)
            places.append((k, r, d) if r < 1 else (k + 1, 0.0, d))
        best = min(d for _, _, d in places)
        places = [(k, r) for k, r, d in places if d <= best + tol]
    else:
        places = [(0, 0.0)]
    walks = [walk(pts, k, r, abs(amount), direction) for k, r in places]
    assert any(same_path(got, w, tol) for w in walks), "walked %r, not %s" % (
        [x.tolist() for x in got], " or ".join(str([x.tolist() for x in w]) for w in walks[:3]))
    wanted = sum(stretches(walks[0]))
    c.nontrivial(len(walks[0]) > 2 and len(walks) == 1)
    c.label("forwards" if amount > 0 else "backwards" if amount else "nowhere")
    c.label("clamped" if wanted < abs(amount) * (1 - 1e-9) else "whole way")


nanos = st.one_of(st.integers(0, 10 ** 9), st.integers(1, 9).map(lambda k: k * 10 ** 8), st.just(0), st.just(1))


@st.composite
def trajectories(draw):
    dof = draw(st.integers(1, 3))
    n = draw(st.integers(7, 60)) if draw(st.integers(0, 39)) == 0 else draw(st.integers(0, 6))
    with_velocities = draw(st.booleans())
    t = ros.JointTrajectory(joint_names=["j%d" % k for k in range(dof)])
    t.header.frame_id = "world"
    at = draw(st.sampled_from([0, 0, 10 ** 8]))
    for k in range(n):
        if k:
            at += draw(nanos)
        row = lambda: [draw(st.integers(-9, 9)) / 4 for _ in range(dof)]  # noqa: E731
        t.points.append(ros.JointTrajectoryPoint(positions=row(), time_from_start=ros.Duration.of(at)))
        if with_velocities:
            t.points[-1].velocities, t.points[-1].accelerations = row(), row()
    return t


@prop(1500, 20000, t=trajectories())
def reversed_trajectories(c, t):
    keep = copy.deepcopy(t)
    got = pu.reverse_trajectory(t)
    assert t == keep, "the trajectory changed"
    assert got.joint_names == t.joint_names and got.header == t.header
    assert len(got.points) == len(t.points)
    if t.points:
        end = t.points[-1].time_from_start
        for p, r in zip(t.points[::-1], got.points):
            assert list(r.positions) == p.positions, "positions %r instead of %r" % (r.positions, p.positions)
            assert r.time_from_start == end - p.time_from_start, "time %r instead of %r" % (r.time_from_start, end - p.time_from_start)
            assert list(r.velocities) == [-v for v in p.velocities], "velocities %r instead of the opposite of %r" % (r.velocities, p.velocities)
            assert list(r.accelerations) == p.accelerations and list(r.effort) == p.effort
        again = pu.reverse_trajectory(got)
        for p, r in zip(t.points, again.points):
            assert r.positions == p.positions and list(r.velocities) == list(p.velocities)
            assert r.time_from_start == p.time_from_start - t.points[0].time_from_start
        # nothing is shared with the original
        got.points[0].positions.append(7)
        got.points[0].time_from_start = ros.Duration(77)
        assert t == keep, "the two share points"
    c.nontrivial(len(t.points) > 2 and t.points[0].velocities)
