"""P39: poses, transforms, matrices, quaternions, units."""
import copy
import decimal
import math

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

import rosstubs as ros
from arc_utilities import conversions, marker_utils, normalize_point_msg, numpy_conversions
from arc_utilities import transformation_helper as th
from vp import prop

TOL = 1e-9
coordinate = st.one_of(st.integers(-5, 5).map(float), st.floats(-100, 100, allow_subnormal=False), st.floats(-1e-3, 1e-3, allow_subnormal=False))
points = st.tuples(coordinate, coordinate, coordinate)
HALF = math.sqrt(0.5)
special = [(0, 0, 0, 1), (0, 0, 0, -1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, -1, 0), (HALF, 0, 0, HALF), (0, HALF, 0, HALF),
           (0, 0, HALF, HALF), (0, 0, HALF, -HALF), (HALF, HALF, 0, 0), (0, HALF, HALF, 0), (.5, .5, .5, .5), (.5, -.5, .5, -.5), (-.5, .5, .5, .5)]


def unit(q):
    q = np.array(q, dtype=float)
    n = np.linalg.norm(q)
    return (0.0, 0.0, 0.0, 1.0) if n < 1e-3 else tuple(float(x) for x in q / n)


component = st.floats(-1, 1, allow_subnormal=False)
tiny = st.floats(-1e-3, 1e-3, allow_subnormal=False)
quaternions = st.one_of(st.sampled_from(special), st.tuples(component, component, component, component).map(unit),
                        st.tuples(component, component, component, component).map(unit),
                        st.tuples(tiny, tiny, tiny, st.sampled_from([1.0, -1.0])).map(unit),        # nearly no rotation
                        st.tuples(component, component, component, tiny).map(unit))                 # nearly half a turn
rigid = st.tuples(points, quaternions)
scales = st.one_of(st.just(1.0), st.floats(0.01, 100), st.floats(-50, -0.01))


def matrix(r):
    m = np.identity(4)
    m[:3, :3] = Rotation.from_quat(r[1]).as_matrix()
    m[:3, 3] = r[0]
    return m


def pose(r):
    return ros.Pose(ros.Point(*r[0]), ros.Quaternion(*r[1]))


def transform(r):
    return ros.Transform(ros.Vector3(*r[0]), ros.Quaternion(*r[1]))


def of_message(m):
    """The 4x4 matrix that a pose or transform message stands for."""
    t, q = (m.position, m.orientation) if isinstance(m, ros.Pose) else (m.translation, m.rotation)
    n = math.sqrt(q.x ** 2 + q.y ** 2 + q.z ** 2 + q.w ** 2)
    assert abs(n - 1) < 1e-6, "the quaternion has length %r" % n
    return matrix(((t.x, t.y, t.z), (q.x, q.y, q.z, q.w)))


def near(got, want, what, scale=1.0):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    assert got.shape == want.shape, "%s has shape %r instead of %r" % (what, got.shape, want.shape)
    assert np.all(np.abs(got - want) <= TOL * scale), "%s is %r instead of %r" % (what, got.tolist(), want.tolist())


def reach(*rs):
    return 1 + sum(max(abs(x) for x in r[0]) for r in rs)


def turns(r):
    return abs(r[1][3]) < 1 - 1e-9 and any(r[0])


@prop(2500, 40000, r=rigid)
def representations(c, r):
    """Every conversion between messages, matrices and components stands for the same motion."""
    m, s = matrix(r), reach(r)
    p, t = pose(r), transform(r)
    near(of_message(th.PoseFromTransform(t)), m, "pose of a transform", s)
    near(of_message(th.PoseToTransform(p)), m, "transform of a pose", s)
    assert isinstance(th.PoseFromTransform(t), ros.Pose) and isinstance(th.PoseToTransform(p), ros.Transform)
    near(th.TransformToMatrix(t), m, "matrix of a transform", s)
    near(th.PoseToMatrix(p), m, "matrix of a pose", s)
    near(of_message(th.TransformFromMatrix(m)), m, "transform of a matrix", s)
    near(of_message(th.PoseFromMatrix(m)), m, "pose of a matrix", s)
    near(th.BuildMatrix(list(r[0]), list(r[1])), m, "matrix of components", s)
    near(th.BuildMatrixRos(t.translation, t.rotation), m, "matrix of messages", s)
    for parts in (th.ComponentsFromTransform(t), th.ComponentsFromPose(p)):
        near(parts[0], r[0], "translation")
        near(parts[1], r[1], "quaternion")
    near(of_message(th.TransformFromComponents(*map(list, r))), m, "transform of components", s)
    near(of_message(th.PoseFromComponents(*map(list, r))), m, "pose of components", s)
    assert isinstance(th.PoseFromMatrix(m), ros.Pose) and isinstance(th.TransformFromMatrix(m), ros.Transform)
    trans, quat = th.ExtractFromMatrix(m)
    near(matrix((trans, quat)), m, "components of a matrix", s)
    rot, trans = th.ExtractRawFromMatrix(m)
    near(rot, m[:3, :3], "rotation of a matrix")
    near(trans, r[0], "translation of a matrix", s)
    near(th.BuildRawMatrix(rot, trans), m, "matrix of raw parts", s)
    near(th.BuildMatrixFromTransRot(r[0], rot), m, "matrix of translation and rotation", s)
    assert p == pose(r) and t == transform(r), "an input changed"
    near(m, matrix(r), "the input", 0)
    c.nontrivial(turns(r))


@prop(2000, 30000, a=rigid, b=rigid, p=points)
def group_laws(c, a, b, p):
    s = reach(a, b, (p,)) ** 2
    A, B = matrix(a), matrix(b)
    near(of_message(th.ComposeTransforms(transform(a), transform(b))), A @ B, "composed transforms", s)
    near(of_message(th.ComposePoses(pose(a), pose(b))), A @ B, "composed poses", s)
    near(th.ComposeMatrices(A, B), A @ B, "composed matrices", s)
    inverse = np.identity(4)
    inverse[:3, :3] = A[:3, :3].T
    inverse[:3, 3] = -A[:3, :3].T @ A[:3, 3]
    near(of_message(th.InvertTransform(transform(a))), inverse, "inverted transform", s)
    near(of_message(th.InvertPose(pose(a))), inverse, "inverted pose", s)
    near(th.InvertMatrix(A), inverse, "inverted matrix", s)
    moved = (A @ np.array([*p, 1.0]))[:3]
    for got in (th.ComposePoseWithPoint(pose(a), ros.Point(*p)), th.ComposeTransformWithPoint(transform(a), ros.Point(*p))):
        assert isinstance(got, ros.Point)
        near([got.x, got.y, got.z], moved, "moved point", s)
    # a point moved there and back
    back = th.ComposeTransformWithPoint(th.InvertTransform(transform(a)), th.ComposeTransformWithPoint(transform(a), ros.Point(*p)))
    near([back.x, back.y, back.z], p, "point moved there and back", s)
    c.nontrivial(turns(a) and turns(b) and any(p))


@prop(1000, 10000, p=points, q=points)
def vectors(c, p, q):
    P, Q = ros.Point(*p), ros.Point(*q)
    s = 1 + max(map(abs, p + q))
    total = th.AddPoints(P, Q)
    near([total.x, total.y, total.z], np.add(p, q), "sum", s)
    rest = th.SubtractPoints(P, total)
    near([rest.x, rest.y, rest.z], q, "difference", s)
    assert P == ros.Point(*p) and Q == ros.Point(*q)
    near(th.TranslationNorm(ros.Vector3(*p)), np.linalg.norm(p), "norm", s)
    near(th.PointToVector(P), [*p, 1.0], "vector", s)
    R = th.PointFromVector(np.array([*p, 1.0]))
    assert R == P, "%r instead of %r" % (R, P)
    r_phi_theta = th.vector3_to_spherical(list(p))
    r, phi, theta = r_phi_theta
    near(r, np.linalg.norm(p), "radius", s)
    assert -math.pi <= phi <= math.pi and 0 <= theta <= math.pi, r_phi_theta
    back = th.spherical_to_vector3(r_phi_theta)
    assert np.max(np.abs(np.subtract(back, p))) <= 2e-6 if r <= 1e-6 else np.max(np.abs(np.subtract(back, p))) <= 1e-7 * r, (
        "%r comes back as %r" % (p, back))
    if r > 1e-3:
        n = normalize_point_msg.normalize_point(P)
        near([n.x, n.y, n.z], np.divide(p, r), "direction")
        n = normalize_point_msg.make_unit_point(*p)
        near([n.x, n.y, n.z], np.divide(p, r), "direction")
        near(th.NormalizeVector3(list(p)), np.divide(p, r), "direction")
        assert P == ros.Point(*p)
    c.nontrivial(all(p) and any(q))


def angle_between(a, b):
    """The angle of the relative rotation, from the vector part (precise for small angles)."""
    v = (Rotation.from_quat(a).inv() * Rotation.from_quat(b)).as_quat()
    return 2 * math.atan2(float(np.linalg.norm(v[:3])), abs(float(v[3])))


@prop(3000, 40000, a=quaternions, b=quaternions, s1=scales, s2=scales, close=st.one_of(st.none(), st.floats(0, 0.05), st.floats(0, 1e-4)))
def quaternion_algebra(c, a, b, s1, s2, close):
    if close is not None:
        # b is a turned a little
        b = tuple(float(x) for x in (Rotation.from_quat(a) * Rotation.from_rotvec(np.array(b[:3]) * close)).as_quat())
    qa, qb = [x * s1 for x in a], [x * s2 for x in b]
    keep = (list(qa), list(qb))
    RA, RB = Rotation.from_quat(a), Rotation.from_quat(b)
    product = th.ComposeQuaternions(qa, qb)
    near(Rotation.from_quat(product).as_matrix(), (RA * RB).as_matrix(), "composed quaternions")
    near(np.linalg.norm(product), 1, "length")
    want = angle_between(a, b)
    ra, rb = ros.Quaternion(*qa), ros.Quaternion(*qb)
    for got in (th.AngleBetweenQuaternions(qa, qb), th.AngleBetweenQuaternionsRos(ra, rb), th.AngleBetweenQuaternions(qb, qa)):
        assert abs(float(got) - want) <= 2e-7, "the angle is %r instead of %r" % (got, want)
    for got in (th.NormalizeQuaternion(qa), conversions.normalize_quaternion(list(qa))):
        near(got, np.multiply(a, math.copysign(1, s1)), "normalized")
    for f in (th.NormalizeQuaternionRos, conversions.normalize_quaternion):
        n = f(copy.deepcopy(ra))
        assert isinstance(n, ros.Quaternion)
        near([n.x, n.y, n.z, n.w], np.multiply(a, math.copysign(1, s1)), "normalized")
    assert (qa, qb) == keep and ra == ros.Quaternion(*qa), "an input changed"
    c.nontrivial(1e-3 < want < math.pi - 1e-3)
    c.label("small angle" if want < 0.03 else "large angle")


@prop(2000, 30000, q=quaternions, s=scales, axis=points, angle=st.one_of(st.floats(-7, 7), st.sampled_from([0, math.pi, -math.pi, math.pi / 2, 2 * math.pi])))
def axes_and_angles(c, q, s, axis, angle):
    R = Rotation.from_quat(q)
    got_angle, got_axis = th.AxisFromQuaternion([x * s for x in q])
    # the direction counts: next to no or a full turn its length is ill-conditioned
    direction = np.array(got_axis, dtype=float) / np.linalg.norm(got_axis)
    near(Rotation.from_rotvec(direction * got_angle).as_matrix(), R.as_matrix(), "rotation of axis and angle", 200)
    if angle_between(q, (0, 0, 0, 1)) > 1e-2:
        near(np.linalg.norm(got_axis), 1, "axis length", 100)
    n = float(np.linalg.norm(axis))
    made = th.QuaternionFromAxisAngle(list(axis), angle)
    if n == 0:
        assert made == [0.0, 0.0, 0.0, 1.0]
    elif n > 1e-100:
        near(Rotation.from_quat(made).as_matrix(), Rotation.from_rotvec(np.array(axis) / n * angle).as_matrix(), "rotation about an axis")
        near(np.linalg.norm(made), 1, "length")
    c.nontrivial(n > 0 and math.sin(angle) and turns(((1,), q)))


@prop(1500, 20000, d=coordinate, a=coordinate, theta=st.floats(-7, 7), alpha=st.floats(-7, 7))
def denavit_hartenberg(c, d, a, theta, alpha):
    """Turn by theta about z, move by d along z, move by a along x, turn by alpha about x."""
    def step(axis, angle, shift):
        m = np.identity(4)
        v = np.zeros(3)
        v[axis] = 1
        m[:3, :3] = Rotation.from_rotvec(v * angle).as_matrix()
        m[axis, 3] = shift
        return m
    want, s = step(2, theta, d) @ step(0, alpha, a), 1 + abs(a) + abs(d)
    near(th.BuildMatrixFromDH(d, a, theta, alpha), want, "matrix", s)
    near(matrix(th.ExtractFromDH(d, a, theta, alpha)), want, "components", s)
    near(of_message(th.TransformFromDH(d, a, theta, alpha)), want, "transform", s)
    near(of_message(th.PoseFromDH(d, a, theta, alpha)), want, "pose", s)
    c.nontrivial(a and d and math.sin(theta) and math.sin(alpha))


long_lists = st.builds(lambda n, p: [tuple(x * math.cos(k) for x in p) for k in range(n)], st.integers(7, 1000), points)


@prop(1500, 20000, xs=st.one_of(*[st.lists(points, max_size=6)] * 9, long_lists), r=st.one_of(st.none(), rigid), as_tuple=st.booleans())
def point_arrays(c, xs, r, as_tuple):
    given = [ros.Point(*x) for x in xs]
    if as_tuple:
        given = tuple(given)
    got = numpy_conversions.ListPointsToNpArray(given) if r is None else numpy_conversions.ListPointsToNpArray(given, matrix(r))
    want = np.array(xs, dtype=float).reshape(-1, 3).T
    if r is not None:
        want = Rotation.from_quat(r[1]).as_matrix() @ want + np.array(r[0]).reshape(3, 1)
    near(got, want, "points", 1 + max([abs(v) for x in xs for v in x], default=0) + (reach(r) if r else 0))
    c.nontrivial(len(xs) > 1 and r is not None and turns(r))


@prop(800, 8000, xs=st.lists(points, max_size=5), s=st.one_of(st.floats(0, 10), st.sampled_from([0, 1, 2, -1])))
def markers_scaled(c, xs, s):
    msg = ros.MarkerArray([ros.Marker(id=k, scale=ros.Vector3(*x), pose=pose((x, (0, 0, 0, 1)))) for k, x in enumerate(xs)])
    want = copy.deepcopy(msg)
    for m in want.markers:
        m.scale = ros.Vector3(m.scale.x * s, m.scale.y * s, m.scale.z * s)
    got = marker_utils.scale_marker_array(msg, s)
    assert got == want, "%r instead of %r" % (got, want)
    c.nontrivial(len(xs) > 1 and s not in (0, 1))


@prop(1500, 20000, r=rigid, rpy=st.tuples(*[st.floats(-7, 7)] * 3), now=st.integers(0, 10 ** 12), which=st.integers(0, 5),
      other=st.one_of(st.lists(coordinate, max_size=9), st.none(), st.just("text"), st.just(3.0), st.just({})))
def pose_messages(c, r, rpy, now, which, other):
    ros.Time.current = now
    stamp = ros.Time.of(now)
    if which == 0:
        out = conversions.convert_to_pose_msg(list(r[0]) + list(rpy))
        want = matrix((r[0], Rotation.from_euler("xyz", rpy).as_quat()))
    elif which == 1:
        out = conversions.convert_to_pose_msg(list(r[0]) + list(r[1]))
        want = matrix(r)
    elif which == 2:
        given = pose(r)
        out = conversions.convert_to_pose_msg(given)
        want = matrix(r)
        assert given == pose(r)
    elif which == 3:
        given = ros.PoseStamped(ros.Header(3, ros.Time.of(5), "frame"), pose(r))
        keep = copy.deepcopy(given)
        out = conversions.convert_to_pose_msg(given)
        assert out == keep and given == keep
        c.label("stamped")
        return
    else:
        valid = isinstance(other, list) and len(other) in (6, 7)
        try:
            conversions.convert_to_pose_msg(other)
        except (ValueError, NotImplementedError):
            assert not valid, "%r was refused" % (other,)
            c.label("refused")
            return
        assert valid, "%r was taken" % (other,)
        return
    assert isinstance(out, ros.PoseStamped) and out.header.stamp == stamp, "stamped %r" % (out.header.stamp,)
    near(of_message(out.pose), want, "pose", reach(r))
    c.nontrivial(turns(r))
    c.label(["euler", "quaternion", "pose"][which])


@prop(1000, 10000, xs=st.dictionaries(st.text("abc", max_size=2), st.tuples(points, st.integers(0, 4)), max_size=5))
def positions(c, xs):
    make = [lambda p: ros.Point(*p), lambda p: ros.PointStamped(point=ros.Point(*p)), list, tuple, np.array]
    given = {k: make[kind](p) for k, (p, kind) in xs.items()}
    keep = copy.deepcopy(given)
    got = conversions.convert_to_positions(given)
    assert list(got) == list(given) and all(type(given[k]) is type(keep[k]) for k in keep)
    for k, (p, kind) in xs.items():
        for q in (got[k], conversions.convert_to_position(make[kind](p))):
            assert isinstance(q, ros.Point) and (q.x, q.y, q.z) == p, "%r instead of %r" % (q, p)
    c.nontrivial(len({kind for _, kind in xs.values()}) > 1)


quantities = st.one_of(st.integers(0, 10 ** 6).map(str), st.tuples(st.integers(0, 9999), st.integers(0, 99999)).map(lambda t: "%d.%d" % t),
                       st.integers(0, 999).map(lambda k: ".%d" % k), st.integers(0, 999).map(lambda k: "%d." % k), st.sampled_from(["0", "00", "007", "0.5"]))
UNITS = {"": 1, "k": 10 ** 3, "K": 10 ** 3, "m": 10 ** 6, "M": 10 ** 6, "g": 10 ** 9, "G": 10 ** 9}


@prop(3000, 40000, quantity=quantities, unit=st.sampled_from(sorted(UNITS)), byte=st.sampled_from(["", "b", "B"]))
def file_sizes(c, quantity, unit, byte):
    got = conversions.parse_file_size(quantity + unit + byte)
    exact = decimal.Decimal(quantity) * UNITS[unit]
    assert isinstance(got, int), "%r is no whole number" % (got,)
    assert abs(decimal.Decimal(got) - exact) <= decimal.Decimal("0.5") + exact * decimal.Decimal("1e-14"), "%r instead of %s" % (got, exact)
    c.nontrivial("." in quantity and unit)
    c.label(unit or "bytes")


@prop(2500, 30000, text=st.one_of(st.text("0123456789.kKmMgGbB tT-+eE_,i", max_size=6), st.text(max_size=4),
                                  st.tuples(quantities, st.sampled_from(["t", "kk", "bk", " k", "k ", "\n", "e3", "KiB", "kB s", "%"])).map("".join),
                                  st.tuples(st.sampled_from(["-", "+", " ", "~", "k", "1 "]), quantities).map("".join)))
def malformed_sizes(c, text):
    import re
    well_formed = re.match(r"(\d+\.?\d*|\.\d+)[kKmMgG]?[bB]?\Z", text) is not None
    try:
        got = conversions.parse_file_size(text)
    except ValueError:
        assert not well_formed, "%r was refused" % text
        c.nontrivial(any(x.isdigit() for x in text))
        return
    assert well_formed, "%r was read as %r" % (text, got)
