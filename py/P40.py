"""P40: colour conversions and interpolations."""
import math

import numpy as np
from hypothesis import strategies as st

import rosstubs as ros
from arc_utilities import color
from vp import prop

channel = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25, 1e-3]), st.integers(0, 255).map(lambda k: k / 255), st.floats(0, 0.01))
rgbs = st.tuples(channel, channel, channel)
primaries = st.sampled_from([(a, b, c) for a in (0.0, 1.0) for b in (0.0, 1.0) for c in (0.0, 1.0)] + [(.23, .299, .754), (.706, .016, .15), (.5, .5, .5)])
colours = st.one_of(rgbs, rgbs, primaries, channel.map(lambda g: (g, g, g)))
TO_XYZ = ((0.4124, 0.3576, 0.1805), (0.2126, 0.7152, 0.0722), (0.0193, 0.1192, 0.9505))     # IEC 61966-2-1, linear values
WHITE = (0.95047, 1.0, 1.08883)                                                             # D65


def f(t):
    return t ** (1 / 3) if t > (6 / 29) ** 3 else t / (3 * (6 / 29) ** 2) + 4 / 29


def flush(x):
    """Numbers whose square would vanish are taken as zero."""
    return x if abs(x) > 1e-9 else 0.0


def xyz_of(rgb):
    return [sum(w * v for w, v in zip(row, rgb)) for row in TO_XYZ]


def lab_of(xyz):
    x, y, z = (f(v / w) for v, w in zip(xyz, WHITE))
    return [116 * y - 16, 500 * (x - y), 200 * (y - z)]


def near(got, want, what, tol):
    assert len(got) == len(want) and all(abs(a - b) <= tol for a, b in zip(got, want)), "%s is %r instead of %r" % (what, list(got), list(want))


@prop(2000, 30000, rgb=colours)
def xyz(c, rgb):
    got = color.convert_rgb_to_xyz(*rgb)
    near(got, xyz_of(rgb), "XYZ", 1e-12)
    near(color.convert_xyz_to_rgb(*got), rgb, "RGB", 1e-9)
    c.nontrivial(len(set(rgb)) == 3)


values = st.one_of(st.floats(0, 1.2), st.floats(0, 0.02), st.sampled_from([0.0, 216 / 24389, 0.008856, 1.0]))


@prop(2500, 40000, x=st.tuples(values, values, values))
def lab(c, x):
    got = color.convert_xyz_to_lab(*x)
    near(got, lab_of(x), "Lab", 1e-6)
    near(color.convert_lab_to_xyz(*got), x, "XYZ", 1e-6)
    c.nontrivial(len(set(x)) == 3)
    c.label("dark" if min(x) < 0.0088 else "light")


components = st.one_of(st.floats(-120, 120).map(flush), st.floats(-1, 1).map(flush), st.just(0.0), st.integers(-3, 3).map(float))


@prop(2500, 40000, l=st.one_of(st.floats(0, 100).map(flush), st.sampled_from([0.0, 100.0, 50.0])), a=components, b=components)
def polar(c, l, a, b):
    m, s, h = color.convert_lab_to_msh(l, a, b)
    near([m], [math.sqrt(l * l + a * a + b * b)], "length", 1e-9)
    assert 0 <= s <= math.pi and -math.pi - 1e-9 <= h <= 2 * math.pi + 1e-9, (m, s, h)
    near(color.convert_msh_to_lab(m, s, h), (l, a, b), "Lab", 1e-5)
    c.nontrivial(l and a and b)
    c.label("a<0" if a < 0 else "a=0" if a == 0 else "a>0")


@prop(2500, 40000, rgb=colours)
def whole_way(c, rgb):
    m, s, h = color.rgb_to_msh(*rgb)
    l, a, b = lab_of(xyz_of(rgb))
    near([m], [math.sqrt(l * l + a * a + b * b)], "length", 1e-5)
    near([m * math.cos(s), m * math.sin(s) * math.cos(h), m * math.sin(s) * math.sin(h)], [l, a, b], "Lab", 1e-4)
    near(color.msh_to_rgb(m, s, h), rgb, "RGB", 1e-5)
    c.nontrivial(len(set(rgb)) > 1)


ratios = st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5]), st.floats(0.499, 0.501))


def polar_of(rgb):
    if not any(rgb):
        return (0.0, 0.0, 0.0)
    l, a, b = lab_of(xyz_of(rgb))
    m = math.sqrt(l * l + a * a + b * b)
    return (m, math.acos(min(1.0, l / m)), math.atan2(b, a)) if m else (0.0, 0.0, 0.0)


shift = st.floats(-0.2, 0.2)


@prop(4000, 50000, one=colours, two=colours, t=ratios, alike=st.one_of(st.none(), st.tuples(shift, shift, shift)))
def coolwarm(c, one, two, t, alike):
    if alike is not None:
        two = tuple(min(1.0, max(0.0, x + d)) for x, d in zip(one, alike))
    (m1, s1, h1), (m2, s2, h2) = polar_of(one), polar_of(two)
    if min(abs(s1 - 0.05), abs(s2 - 0.05)) < 1e-6 or 0 < m1 < 1 or 0 < m2 < 1:
        return            # which of two rules applies is a matter of rounding, or a nearly black colour spins through all hues
    turn = abs(math.remainder(h1 - h2, 2 * math.pi))
    if abs(turn - math.pi / 3) < 1e-6:
        return
    got = color.interpolate_coolwarm(one, two, t)
    # the ends are the colours (up to the hue of a nearly grey one, which takes that of the other)
    for at, rgb, (m, s, _), other in ((0.0, one, (m1, s1, h1), s2), (1.0, two, (m2, s2, h2), s1)):
        end = color.interpolate_coolwarm(one, two, at)
        if s > 0.05 or other < 0.05:
            near(end, rgb, "the end", 1e-5)
        else:
            # only the direction of its little colour may differ
            got_lab, want_lab = lab_of(xyz_of(end)) if min(end) >= 0 else None, lab_of(xyz_of(rgb))
            if got_lab:
                near([got_lab[0], math.hypot(*got_lab[1:])], [want_lab[0], math.hypot(*want_lab[1:])], "lightness and chroma of the end", 1e-3)
    # the way back is the same
    near(color.interpolate_coolwarm(two, one, 1.0 - t), got, "the colour from the other side", 1e-5)
    # no jumps
    for e in (1e-7, -1e-7):
        if 0 <= t + e <= 1:
            near(color.interpolate_coolwarm(one, two, t + e), got, "a colour next to it", 1e-3)
    middle = color.interpolate_coolwarm(one, two, 0.5)
    if s1 > 0.05 and s2 > 0.05 and turn > math.pi / 3:
        grey = max(m1, m2, 88.0)
        near([v / w for v, w in zip(xyz_of(middle), WHITE)], [((grey + 16) / 116) ** 3] * 3, "the middle", 1e-4)
        c.label("through white")
        c.nontrivial(0 < t < 1)
    elif s1 > 0.05 and s2 > 0.05:
        # halfway between the two lengths and angles
        l, a, b = lab_of(xyz_of(middle)) if min(middle) >= 0 else (None, 0, 0)
        if l is not None:
            near([math.sqrt(l * l + a * a + b * b)], [(m1 + m2) / 2], "the length halfway", 1e-3)
            hue = h1 - math.remainder(h1 - h2, 2 * math.pi) / 2
            assert abs(math.remainder(math.atan2(b, a) - hue, 2 * math.pi)) < 1e-3, "the hue halfway is %r instead of %r" % (math.atan2(b, a), hue)
            if abs(h1 - h2) > math.pi:
                c.label("hues across the cut")
            near([math.acos(min(1.0, l / max(1e-9, math.sqrt(l * l + a * a + b * b))))], [(s1 + s2) / 2], "the angle halfway", 1e-3)
        c.label("direct")
        c.nontrivial(0 < t < 1)
    else:
        c.label("grey")


hues = st.floats(-math.pi, math.pi)


@prop(1500, 20000, x=hues, y=hues, m=st.floats(1, 150), s=st.floats(0.06, 1.6), grey=st.floats(0, 150))
def hue_arithmetic(c, x, y, m, s, grey):
    near([color.rad_diff(x, y)], [abs(math.remainder(x - y, 2 * math.pi))], "the difference", 1e-9)
    got = color.adjust_hue((m, s, x), grey)
    if m >= grey:
        assert got == x
    else:
        # the point of the paper: the spin keeps the path at unit slope towards grey
        spin = s * math.sqrt(grey * grey - m * m) / (m * math.sin(s))
        near([got], [x + spin if x > -math.pi / 3 else x - spin], "the hue", 1e-7 * (1 + spin))
        c.nontrivial()


HEAT = [(0, 0, 1), (0, 1, 1), (0, 1, 0), (1, 1, 0), (1, 0, 0)]
bounds = st.one_of(st.just((0.0, 1.0)), st.tuples(st.integers(-9, 9), st.integers(1, 9)).map(lambda t: (float(t[0]), float(t[0] + t[1]))),
                   st.tuples(st.floats(-1e3, 1e3), st.floats(0.1, 1e3)).map(lambda t: (t[0], t[0] + t[1])))


@prop(3000, 40000, u=st.one_of(st.floats(-0.5, 1.5), st.floats(0, 1), st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0, -3.0, 9.0])), r=bounds, plain=st.booleans())
def hot_to_cold(c, u, r, plain):
    lo, hi = (0.0, 1.0) if plain else r
    v = lo + u * (hi - lo)
    got = color.interpolate_hot_to_cold(v) if plain else color.interpolate_hot_to_cold(v, lo, hi)
    at = 4 * min(max((v - lo) / (hi - lo), 0.0), 1.0)
    k = min(int(at), 3)
    want = [a + (b - a) * (at - k) for a, b in zip(HEAT[k], HEAT[k + 1])]
    near(got, want, "the colour of %r" % v, 1e-9 * (1 + (abs(lo) + abs(hi)) / (hi - lo)))
    if plain:
        m = color.map_color(v)
        assert isinstance(m, ros.ColorRGBA)
        near([m.r, m.g, m.b, m.a], want + [1.0], "the mapped colour", 1e-9)
        assert all(0 <= x <= 1 for x in (m.r, m.g, m.b))
    c.nontrivial(0 < u < 1 and not plain)
    c.label("piece %d" % k if 0 <= u <= 1 else "outside")


@prop(2500, 30000, u=st.one_of(st.floats(0, 1), st.integers(0, 16).map(lambda k: k / 16)), negative=st.booleans())
def jet(c, u, negative):
    v = 2 * u - 1 if negative else u
    got = color.interpolate_jet(v, negative) if negative else color.interpolate_jet(v)
    x = v if negative else 2 * v - 1
    want = [min(1.0, max(0.0, 1.5 - 2 * abs(x - d))) for d in (0.5, 0.0, -0.5)]
    near(got, want, "the colour of %r" % v, 1e-9)
    assert all(0 <= g <= 1 for g in got)
    c.nontrivial(0 < u < 1)


anything = st.one_of(st.floats(-2, 3), st.sampled_from([0, 1, -0.0, 0.0, 1.0, 1e300, -1e300, math.inf, -math.inf]))


@prop(1500, 20000, r=anything, g=anything, b=anything, a=anything)
def messages(c, r, g, b, a):
    want = [min(1.0, max(0.0, x)) for x in (r, g, b, a)]
    assert [color.safe_color_val(x) for x in (r, g, b, a)] == want
    m = color.make_color(r, g, b, a)
    assert isinstance(m, ros.ColorRGBA) and [m.r, m.g, m.b, m.a] == want, "%r instead of %r" % (m, want)
    m = color.to_color_msg(tuple(want))
    assert isinstance(m, ros.ColorRGBA) and [m.r, m.g, m.b, m.a] == want
    byte = [int(x * 255) for x in want]
    m = color.to_color_msg("#%02x%02x%02x" % tuple(byte[:3]))
    near([m.r, m.g, m.b, m.a], [x / 255 for x in byte[:3]] + [1.0], "the message", 1e-12)
    c.nontrivial(len(set(want)) > 2)
