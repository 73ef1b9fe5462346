"""P36: polynomial trajectory planners, against exact rational arithmetic."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from arc_utilities import trajectory_planning as tp
from vp import prop

value = st.one_of(st.integers(-20, 20).map(float), st.integers(-4000, 4000).map(lambda k: k / 64), st.floats(-100, 100, allow_subnormal=False),
                  st.floats(-1e6, 1e6, allow_subnormal=False))
duration = st.one_of(st.integers(1, 12).map(float), st.integers(1, 640).map(lambda k: k / 64), st.floats(0.01, 100),
                     st.floats(-8, 6).map(lambda e: 10.0 ** e))
ratio = st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1), st.floats(-1, 2))
SHAPES = ["scalar", "vector", "column", "integers", "matrix"]


@st.composite
def problems(draw):
    kind = draw(st.sampled_from(SHAPES))
    n = 1 if kind == "scalar" else draw(st.integers(1, 6))
    if kind == "integers":
        rows = [[float(draw(st.integers(-9, 9))) for _ in range(n)] for _ in range(4)]
    else:
        rows = [[draw(value) for _ in range(n)] for _ in range(4)]
    t = draw(duration)
    if draw(st.booleans()) and t == int(t):
        t = int(t)
    return kind, rows, t


def shaped(kind, row):
    if kind == "scalar":
        return row[0]
    if kind == "column":
        return np.array(row).reshape(-1, 1)
    if kind == "integers":
        return np.array([int(x) for x in row])
    if kind == "matrix":
        return np.array(row + row[::-1]).reshape(2, -1)
    return np.array(row)


def flat(kind, x, n):
    if kind == "scalar":
        assert np.ndim(x) == 0, "a scalar problem has the answer %r" % (x,)
        return [float(x)]
    want = {"column": (n, 1), "matrix": (2, n)}.get(kind, (n,))
    assert np.shape(x) == want, "shape %r instead of %r" % (np.shape(x), want)
    return [float(v) for v in np.asarray(x).reshape(-1)[:n]]


def check(what, got, terms):
    """got is the exact sum of the terms up to rounding."""
    exact = sum(terms)
    scale = sum(abs(x) for x in terms)
    assert abs(F(got) - exact) <= scale * F(1, 10 ** 11) + F(1, 10 ** 300), "%s is %r instead of %r" % (what, got, float(exact))


def compare(kind, coefficients, noise, fn, times):
    """Position, velocity and acceleration of fn agree with the exact polynomial at each time.
    coefficients[d] are the exact a0..a3 of dimension d, noise[d] the size of the numbers each was computed from."""
    n = len(coefficients)
    for t in times:
        x, v, a = fn(t)
        T = F(t)
        for d in range(n):
            c, s = coefficients[d], noise[d]
            for name, got, factors in (("position", x, [1, T, T ** 2, T ** 3]), ("velocity", v, [0, 1, 2 * T, 3 * T ** 2]),
                                       ("acceleration", a, [0, 0, 2, 6 * T])):
                g = flat(kind, got, n)[d]
                exact = sum(k * f for k, f in zip(c, factors))
                scale = sum(abs(k * f) for k, f in zip(s, factors))
                assert abs(F(g) - exact) <= scale * F(1, 10 ** 11) + F(1, 10 ** 200), (
                    "the %s of dimension %d at %r is %r instead of %r" % (name, d, t, g, float(exact)))


def exactly(p):
    kind, rows, t = p
    return [[F(x) for x in row] for row in zip(*rows)], F(t)


@prop(1500, 20000, p=problems(), rs=st.lists(ratio, min_size=1, max_size=4))
def linear(c, p, rs):
    kind, rows, t = p
    fn = tp.get_linear_trajectory(shaped(kind, rows[0]), shaped(kind, rows[1]))
    co = [[x0, v0, F(0), F(0)] for x0, v0, _, _ in exactly(p)[0]]
    compare(kind, co, [[abs(k) for k in row] for row in co], fn, [0.0, t] + [r * t for r in rs])
    c.nontrivial(any(rows[1]) and len(rows[0]) > 1)
    c.label(kind)


@prop(2000, 30000, p=problems(), rs=st.lists(ratio, min_size=1, max_size=4))
def quadratic(c, p, rs):
    kind, rows, t = p
    x0, v0, xt = [shaped(kind, r) for r in rows[:3]]
    keep = [np.copy(z) for z in (x0, v0, xt)]
    fn = tp.get_quadratic_trajectory(x0, v0, xt, t)
    per, T = exactly(p)
    co, noise = [], []
    for a, b, e, _ in per:
        # the one parabola with x(0) = a, x'(0) = b, x(T) = e
        k2 = (e - a - b * T) / T ** 2
        assert a + b * T + k2 * T ** 2 == e
        co.append([a, b, k2, F(0)])
        noise.append([abs(a), abs(b), (abs(e) + abs(a) + abs(b) * T) / T ** 2, F(0)])
    compare(kind, co, noise, fn, [0.0, t] + [r * t for r in rs])
    assert all(np.array_equal(a, b) for a, b in zip(keep, (x0, v0, xt))), "an input changed"
    c.nontrivial(len(rows[0]) > 1 and rows[0] != rows[2] and any(rows[1]))
    c.label(kind)


@prop(2500, 40000, p=problems(), rs=st.lists(ratio, min_size=1, max_size=4))
def cubic(c, p, rs):
    kind, rows, t = p
    x0, v0, xt, vt = [shaped(kind, r) for r in rows]
    keep = [np.copy(z) for z in (x0, v0, xt, vt)]
    fn = tp.get_cubic_trajectory(x0, v0, xt, vt, t)
    per, T = exactly(p)
    co, noise = [], []
    for a, b, e, w in per:
        # the one cubic with x(0) = a, x'(0) = b, x(T) = e, x'(T) = w, by elimination
        r, q = e - a - b * T, w - b          # k2 T^2 + k3 T^3 = r, 2 k2 T + 3 k3 T^2 = q
        k3 = (q * T - 2 * r) / T ** 3
        k2 = (r - k3 * T ** 3) / T ** 2
        assert a + b * T + k2 * T ** 2 + k3 * T ** 3 == e and b + 2 * k2 * T + 3 * k3 * T ** 2 == w
        co.append([a, b, k2, k3])
        s = 3 * (abs(e) + abs(a)) + (2 * abs(b) + abs(w)) * T
        noise.append([abs(a), abs(b), s / T ** 2, s / T ** 3])
    compare(kind, co, noise, fn, [0.0, t] + [r * t for r in rs])
    assert all(np.array_equal(a, b) for a, b in zip(keep, (x0, v0, xt, vt))), "an input changed"
    c.nontrivial(len(rows[0]) > 1 and rows[0] != rows[2] and any(rows[1]) and any(rows[3]))
    c.label(kind)


@prop(1000, 10000, p=problems(), rs=st.lists(ratio, min_size=1, max_size=4))
def coefficients(c, p, rs):
    """The trajectory of given coefficients is that polynomial and its two derivatives."""
    kind, rows, t = p
    fn = tp.get_trajectory_fn(*[shaped(kind, r) for r in rows])
    co = exactly(p)[0]
    compare(kind, co, [[abs(k) for k in row] for row in co], fn, [0.0, t] + [r * t for r in rs])
    c.nontrivial(all(any(r) for r in rows))


@prop(800, 8000, p=problems(), other=st.lists(value, min_size=4, max_size=4), which=st.integers(0, 5), r=ratio)
def dimensions_are_independent(c, p, other, which, r):
    kind, rows, t = p
    if kind in ("scalar", "matrix", "integers"):
        kind = "vector"
    which %= len(rows[0])
    changed = [[other[k] if d == which else x for d, x in enumerate(row)] for k, row in enumerate(rows)]
    for plan, n in ((tp.get_linear_trajectory, 2), (tp.get_quadratic_trajectory, 3), (tp.get_cubic_trajectory, 4)):
        more = [t] if n > 2 else []
        one = plan(*[shaped(kind, x) for x in rows[:n]], *more)(r * t)
        two = plan(*[shaped(kind, x) for x in changed[:n]], *more)(r * t)
        for a, b in zip(one, two):
            a, b = flat(kind, a, len(rows[0])), flat(kind, b, len(rows[0]))
            assert all(x == y for d, (x, y) in enumerate(zip(a, b)) if d != which), "another dimension changed"
    c.nontrivial(len(rows[0]) > 1 and any(changed[k][which] != rows[k][which] for k in range(4)))
