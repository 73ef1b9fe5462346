"""P35: container and call helpers."""
import collections
import copy
import decimal
import fractions
import itertools
import signal
import types

import numpy as np
from hypothesis import strategies as st

from arc_utilities import algorithms, catches, conditional_try, dict_tools
from vp import prop

atoms = st.one_of(st.integers(-3, 3), st.text("ab", max_size=2), st.none(), st.booleans(), st.floats(allow_nan=False),
                  st.lists(st.integers(0, 3), max_size=3), st.tuples(st.integers(0, 3)))
keys = st.one_of(st.sampled_from("abcde"), st.integers(0, 2), st.none(), st.tuples(st.integers(0, 1)))
few = st.sampled_from(["a", "b", "c", 0, None])
level1 = st.dictionaries(few, atoms, max_size=3)
level2 = st.dictionaries(few, st.one_of(atoms, level1, level1), max_size=4)
trees = st.dictionaries(few, st.one_of(atoms, level1, level2, level2), max_size=5)


def same(a, b):
    """Equal in value and in type, all the way down."""
    if isinstance(a, collections.abc.Mapping) and isinstance(b, collections.abc.Mapping):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def merged(base, update):
    """The definition: every key of either; at a key of both, mappings merge and anything else is replaced."""
    out = {}
    for k in list(base) + [k for k in update if k not in base]:
        if k not in update:
            out[k] = base[k]
        elif isinstance(update[k], collections.abc.Mapping):
            out[k] = merged(base[k] if isinstance(base.get(k), collections.abc.Mapping) else {}, update[k])
        else:
            out[k] = update[k]
    return out


class Frozen(collections.abc.Mapping):
    """A mapping that is no dict."""

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return "Frozen(%r)" % self.d


def frozen(d, kind):
    d = {k: frozen(v, kind) if isinstance(v, dict) else v for k, v in d.items()}
    return [dict, Frozen, collections.OrderedDict, types.MappingProxyType][kind](d)


def depth(d):
    return 1 + max([depth(v) for v in d.values() if isinstance(v, dict)], default=0)


@prop(4000, 60000, base=trees, update=st.one_of(trees, st.none()), kind=st.integers(0, 3))
def nested_update(c, base, update, kind):
    was = copy.deepcopy(base)
    want = merged(base, update) if update is not None else base
    given = frozen(update, kind) if update is not None else None
    target = base
    got = algorithms.nested_dict_update(target, given)
    assert got is target, "the base is not what is returned"
    assert same(got, want), "merged to %r instead of %r" % (got, want)
    assert [k for k in got if k in was] == list(was), "the keys of the base moved"
    if update is not None:
        assert same(given, frozen(update, kind)), "the update changed"
        both = set(was) & set(update)
        c.nontrivial(both and depth(update) > 1 and len(was) > 1)
        if any(isinstance(update[k], dict) != isinstance(was[k], dict) for k in both):
            c.label("mapping against leaf")


@prop(1500, 20000, base=trees, one=trees, two=trees)
def nested_update_leaves_the_update_alone(c, base, one, two):
    """Later updates of the result must not reach back into the dictionaries it was made of."""
    keep = copy.deepcopy(one)
    want = merged(merged(base, one), two)
    algorithms.nested_dict_update(base, one)
    algorithms.nested_dict_update(base, two)
    assert same(one, keep), "an update changed when the result was updated again"
    assert same(base, want)
    # an update applied again changes nothing
    algorithms.nested_dict_update(base, two)
    assert same(base, want)
    c.nontrivial(depth(one) > 1 and set(one) & set(two))


hashables = st.one_of(st.integers(-3, 12), st.text("abc", max_size=2), st.none(), st.tuples(st.integers(0, 2), st.integers(0, 2)),
                      st.floats(-2, 2), st.booleans())


# Many different values, the last one perhaps again.
many = st.builds(lambda n, again: list(range(n)) + [k % max(n, 1) for k in again], st.integers(11, 3000), st.lists(st.integers(0, 3000), max_size=1))


@prop(2000, 30000, xs=st.one_of(*[st.lists(hashables, max_size=10)] * 9, many), as_tuple=st.booleans())
def unique(c, xs, as_tuple):
    want = len(set(xs)) == len(xs) if len(xs) > 20 else not any(xs[i] == xs[j] for i in range(len(xs)) for j in range(i))
    assert algorithms.is_list_unique(tuple(xs) if as_tuple else xs) == want
    c.nontrivial(len(xs) > 2)
    c.label("unique" if want else "repeats")


sequences = st.one_of(st.lists(st.integers(-9, 9), max_size=7), st.text("abcdef", max_size=7),
                      st.lists(st.one_of(st.none(), st.booleans(), st.lists(st.integers(0, 2), max_size=2)), max_size=5),
                      st.tuples(st.integers(), st.text("xy", max_size=1)), st.integers(0, 6).map(range), st.integers(0, 6).map(range), st.integers(7, 3000).map(range))

longer = st.one_of(sequences, st.lists(st.integers(0, 99), min_size=5, max_size=40), st.integers(10, 60).map(range))


@prop(1500, 20000, xs=sequences, extra=st.integers(0, 12))
def repeat_last(c, xs, extra):
    if len(xs) == 0:
        try:
            first = next(algorithms.repeat_last(xs))
        except RuntimeError:
            c.label("empty")
            return
        raise AssertionError("the last of no elements is %r" % (first,))
    got = list(itertools.islice(algorithms.repeat_last(xs), len(xs) + extra))
    assert got == list(xs) + [xs[-1]] * extra
    assert all(a is b for a, b in zip(got, xs)) or isinstance(xs, (str, range))
    c.nontrivial(len(xs) > 1 and extra > 1)


@prop(3000, 40000, lists=st.lists(sequences, min_size=1, max_size=5))
def zip_repeat_shorter(c, lists):
    longest = max(len(x) for x in lists)
    if longest and any(len(x) == 0 for x in lists):
        try:
            got = list(algorithms.zip_repeat_shorter(*lists))
        except RuntimeError:
            c.label("an empty list among others")
            return
        raise AssertionError("an empty list was repeated: %r" % (got,))
    got = list(algorithms.zip_repeat_shorter(*lists))
    want = [tuple(x[min(i, len(x) - 1)] for x in lists) for i in range(longest)]
    assert got == want, "%r instead of %r" % (got, want)
    c.nontrivial(len(lists) > 1 and len({len(x) for x in lists}) > 1)
    c.label("%d lists" % len(lists))


@prop(3000, 40000, xs=longer, size=st.one_of(*[st.integers(1, 9)] * 4, st.integers(10, 1500)), kind=st.sampled_from(["sequence", "iterator", "generator"]))
def chunked_drop_last(c, xs, size, kind):
    given = {"sequence": xs, "iterator": iter(xs), "generator": (x for x in xs)}[kind]
    got = list(algorithms.chunked_drop_last(given, size))
    want = [list(xs[k * size:(k + 1) * size]) for k in range(len(xs) // size)]
    assert got == want, "%r instead of %r" % (got, want)
    c.nontrivial(len(want) > 1 and len(xs) % size)


@prop(500, 5000, taken=st.integers(1, 20), size=st.integers(1, 5))
def chunked_of_endless(c, taken, size):
    got = list(itertools.islice(algorithms.chunked_drop_last(itertools.count(), size), taken))
    assert got == [list(range(k * size, (k + 1) * size)) for k in range(taken)]
    c.nontrivial(taken > 1 and size > 1)


@prop(3000, 40000, xs=longer, size=st.one_of(*[st.integers(1, 9)] * 4, st.integers(10, 1500)), array=st.booleans())
def reversed_chunked(c, xs, size, array):
    seq = np.array(list(xs)) if array and isinstance(xs, range) else xs
    got = algorithms.reversed_chunked(seq, size)
    start = len(xs) % size
    want = [list(xs[k:k + size]) for k in range(start, len(xs), size)] if len(xs) >= size else []
    assert [list(x) for x in got] == want, "%r instead of %r" % (got, want)
    c.nontrivial(len(want) > 1 and start)


numbers = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.floats(-1e9, 1e9), st.floats(-1, 1),
                    st.integers(-99999, 99999).map(lambda k: k / 1000), st.floats(-1e3, 1e3).map(np.float64),
                    st.fractions(-5, 5), st.decimals(-100, 100))


@prop(2000, 30000, d=st.dictionaries(keys, numbers, max_size=6), places=st.integers(-3, 9), default=st.booleans())
def dict_round(c, d, places, default):
    was = dict(d)
    got = dict_tools.dict_round(d) if default else dict_tools.dict_round(d, places)
    places = 2 if default else places
    assert list(got) == list(was), "keys %r instead of %r" % (list(got), list(was))
    assert d == was, "the input changed"
    for k, v in was.items():
        half = fractions.Fraction(10) ** -places / 2
        exact, rounded = fractions.Fraction(v), fractions.Fraction(got[k])
        assert abs(exact - rounded) <= half * (1 + fractions.Fraction(1, 10 ** 9)) + abs(exact) * fractions.Fraction(1, 10 ** 12), (
            "%r rounds to %r at %d places" % (v, got[k], places))
        if not isinstance(v, (float, np.floating)):
            assert (rounded * fractions.Fraction(10) ** places).denominator == 1, "%r at %d places" % (got[k], places)
    c.nontrivial(len(d) > 1 and any(fractions.Fraction(got[k]) != fractions.Fraction(v) for k, v in was.items()))


class Own(Exception):
    pass


EXCEPTIONS = [ValueError("v"), Own("o"), KeyError("k"), StopIteration(3), AssertionError(), TimeoutError(), OSError(2, "x")]
FATAL = [KeyboardInterrupt(), SystemExit(3), GeneratorExit()]


@prop(1500, 20000, catch=st.booleans(), exception=st.one_of(st.none(), st.integers(0, len(EXCEPTIONS) - 1)), fatal=st.booleans(),
      kwargs=st.dictionaries(st.sampled_from("abcd"), atoms, max_size=4), result=atoms,
      default=st.one_of(st.just("absent"), st.integers(), st.text(max_size=3), st.lists(st.integers(), max_size=3)))
def conditional(c, catch, exception, fatal, kwargs, result, default):
    calls = []
    error = None if exception is None else (FATAL[exception % 3] if fatal else EXCEPTIONS[exception])

    def function(**given):
        calls.append(given)
        if error is not None:
            raise error
        return result

    more = {} if default == "absent" else {"value_on_exception": default}
    expected = None if default == "absent" else default
    try:
        got = conditional_try.conditional_try(catch, function, **more, **kwargs)
        raised = None
    except BaseException as e:
        raised = e
    assert calls == [kwargs], "called with %r" % (calls,)
    if error is None:
        assert raised is None and got is result
    elif catch and isinstance(error, Exception):
        assert raised is None and got is expected, "%r was not caught" % (error,)
        c.nontrivial(expected is not None)
    else:
        assert raised is error, "raised %r instead of %r" % (raised, error)
    c.label("error" if error is not None else "no error")


# --- timeouts: the alarm signal is raised from inside the guarded call, so nothing depends on the clock -------------------

class Steps:
    """An iterator over planned steps: a value, a timeout, or an error."""

    def __init__(self, steps):
        self.steps = list(steps)

    def __iter__(self):
        return self

    def __next__(self):
        if not self.steps:
            raise StopIteration
        kind, value = self.steps.pop(0)
        if kind == "timeout":
            signal.raise_signal(signal.SIGALRM)
        if kind == "error":
            raise Own(value)
        return value


def generator(steps):
    yield from Steps(steps)


step = st.tuples(st.sampled_from(["value"] * 4 + ["timeout", "error"]), st.integers(0, 9))


@prop(800, 8000, plan=step, args=st.lists(atoms, max_size=3), kwargs=st.dictionaries(st.sampled_from("xyz"), atoms, max_size=2),
      seconds=st.integers(1, 1000))
def catch_timeout(c, plan, args, kwargs, seconds):
    calls = []

    def function(*a, **k):
        calls.append((list(a), k))
        left = signal.alarm(0)
        assert 0 < left <= seconds, "%d s are left of %d" % (left, seconds)
        signal.alarm(left)
        return next(Steps([plan]))

    try:
        got = catches.catch_timeout(seconds, function, *args, **kwargs)
    except Own as e:
        assert plan[0] == "error" and e.args == (plan[1],)
    else:
        assert plan[0] != "error", "the error was swallowed"
        assert tuple(got) == ((None, True) if plan[0] == "timeout" else (plan[1], False)), got
    assert calls == [(args, kwargs)]
    assert signal.alarm(0) == 0, "the alarm is still set"
    c.nontrivial(plan[0] != "value")


runs = st.lists(st.lists(step, max_size=5), min_size=1, max_size=5)


@prop(1500, 15000, plans=runs, callback=st.booleans(), lazy=st.booleans())
def retry_on_timeout(c, plans, callback, lazy):
    """The generator is started afresh after a timeout, and only then."""
    started, timeouts = [], []

    def gen(*args, **kwargs):
        assert args == (1,) and kwargs == {"k": 2}
        started.append(len(started))
        plan = plans[min(len(started) - 1, len(plans) - 1)]
        if len(started) > len(plans):
            plan = [s for s in plan if s[0] != "timeout"]
        return generator(plan) if lazy else Steps(plan)

    want, end, n, run = [], None, 0, 0
    while end is None:
        plan = plans[run] if run < len(plans) else [s for s in plans[-1] if s[0] != "timeout"]
        run += 1
        end = "done"
        for kind, value in plan:
            if kind == "value":
                want.append(value)
            elif kind == "error":
                end = "error"
                break
            else:
                n += 1
                end = None
                break
    got = []
    try:
        for x in catches.retry_on_timeout(5, (lambda: timeouts.append(len(got))) if callback else None, gen, 1, k=2):
            got.append(x)
        how = "done"
    except Own:
        how = "error"
    assert (got, how) == (want, end), "%r, %s instead of %r, %s" % (got, how, want, end)
    assert len(started) == run, "started %d times instead of %d" % (len(started), run)
    assert len(timeouts) == (n if callback else 0), "%d timeouts reported of %d" % (len(timeouts), n)
    assert signal.alarm(0) == 0
    c.nontrivial(n > 0 and len(want) > 1)


@prop(1500, 15000, plan=st.lists(step, max_size=9))
def skip_on_timeout(c, plan):
    started = []

    def gen(*args, **kwargs):
        assert args == (1,) and kwargs == {"k": 2}
        started.append(1)
        return Steps(plan)

    got = []
    try:
        for x in catches.skip_on_timeout(5, gen, 1, k=2):
            got.append(x)
        how = "done"
    except Own:
        how = "error"
    upto = next((i for i, s in enumerate(plan) if s[0] == "error"), len(plan))
    assert got == [v for k, v in plan[:upto] if k == "value"], got
    assert how == ("done" if upto == len(plan) else "error")
    assert started == [1] and signal.alarm(0) == 0
    c.nontrivial(any(k == "timeout" for k, _ in plan[:upto]) and len(got) > 1)
