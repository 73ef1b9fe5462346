"""P41: listeners, waiting, publishers, transforms and controllers on a simulated ROS network."""
import copy
import gc
import math
import threading

import numpy as np
from hypothesis import strategies as st

import rosnet
import rosstubs as ros
from arc_utilities import listener, reliable_tf, ros_helpers, ros_init, tf2wrapper, xbox
from rosnet import net, start
from vp import prop

EPS = 1e-9
seconds = st.one_of(st.floats(0, 0.2), st.floats(0, 40))


def logged(*levels):
    return [(lv, args) for lv, args in ros.LOG if lv in levels]


def text(entries):
    return " ".join(" ".join(str(a) for a in args) for _, args in entries)


# ---------------------------------------------------------------- listeners

message = st.builds(lambda n, b: ros.Joy(axes=[float(n), 0.5], buttons=b), st.integers(0, 99), st.lists(st.integers(0, 1), max_size=3))
operation = st.one_of(
    st.tuples(st.just("publish"), st.integers(0, 1), message),
    st.tuples(st.just("get"), st.booleans(), seconds, message),
    st.tuples(st.just("spoil"), st.none()),
    st.tuples(st.just("new"), st.booleans(), st.integers(0, 1), st.sampled_from([None, "record", "raise"])),
    st.tuples(st.just("down"), st.floats(0, 1)))


@prop(2500, 60000, first=st.sampled_from([None, "record", "raise"]), ops=st.lists(operation, max_size=14))
def listeners(c, first, ops):
    start()
    topics = ["joy", "other"]
    all_ = []          # [listener, topic, latest, seen by the callback, sent to it]

    def add(topic, kind, wait):
        entry = [None, topic, None, [], []]

        def callback(m):
            entry[3].append(copy.deepcopy(m))
            if kind == "raise":
                raise ValueError("in the callback")
        entry[0] = listener.Listener(topic, ros.Joy, wait_for_data=wait, callback=callback if kind else None)
        entry.append(kind)
        all_.append(entry)
        return entry

    def publish(topic, m):
        net.publish(topic, m)
        for e in all_:
            if e[1] == topic:
                e[2] = copy.deepcopy(m)
                e[4].append(copy.deepcopy(m))

    add("joy", first, False)
    got = published = 0
    for op in ops:
        if op[0] == "publish":
            publish(topics[op[1]], op[2])
            published += 1
        elif op[0] == "get":
            e = all_[-1]
            if e[2] is None and op[1] and not net.down:
                # somebody publishes while we wait
                before = net.now()
                net.at(op[2], lambda: publish(e[1], op[3]))
                m = e[0].get()
                assert m == op[3], "waiting returned %r instead of %r" % (m, op[3])
                assert net.now() >= before + int(op[2] * 1e9), "returned before the message came"
                c.label("waited")
            else:
                m = e[0].get(block_until_data=op[1]) if op[1] or op[2] < 0.1 else e[0].get(op[1])
                assert m == e[2], "get returned %r instead of the latest message %r" % (m, e[2])
            got += m is not None
        elif op[0] == "spoil":
            e = all_[-1]
            m = e[0].get(False)
            if m is not None:
                m.axes.append(7.0)
                m.buttons = "gone"
                assert e[0].get(False) == e[2], "changing what get returned changes the listener"
        elif op[0] == "new":
            topic = topics[op[2]]
            if op[1] and not net.down:
                n = len(all_)
                m = ros.Joy(axes=[3.0])

                def arrive():
                    # the subscription exists while the constructor waits
                    net.publish(topic, m)
                    for e in all_[:n]:
                        if e[1] == topic:
                            e[2] = copy.deepcopy(m)
                            e[4].append(copy.deepcopy(m))
                net.at(0.05, arrive)
                e = add(topic, op[3], True)
                assert net.now() > 10 ** 9, "the constructor did not wait"
                e[2] = m
                e[4].append(m)
                assert e[0].get(False) == m, "constructed before the data came"
                c.label("constructor waits")
            else:
                add(topic, op[3], False)
        else:
            net.at(op[1], lambda: setattr(net, "down", True))
            net.sleep(2)
            if all_[-1][2] is None:
                assert all_[-1][0].get() is None, "a message out of nowhere"
                c.label("shut down while waiting")
    for e in all_:
        assert e[0].get(False) == e[2], "listener of %s holds %r instead of %r" % (e[1], e[0].get(False), e[2])
        if e[5]:
            assert e[3] == e[4], "the callback saw %r instead of %r" % (e[3], e[4])
    c.nontrivial(got and published >= 2)


@prop(150, 3000, n=st.integers(1, 60), readers=st.integers(1, 3))
def listeners_and_threads(c, n, readers):
    start()
    net.virtual = False
    li = listener.Listener("joy", ros.Joy)
    done = threading.Event()
    seen = [[] for _ in range(readers)]

    def read(k):
        while True:
            last = done.is_set()
            m = li.get(False)
            seen[k].append(-1 if m is None else m.axes[0])
            assert m is None or m.buttons == [m.axes[0]] * 5
            if last:
                return
    threads = [threading.Thread(target=read, args=(k,)) for k in range(readers)]
    for t in threads:
        t.start()
    for k in range(n):
        net.publish("joy", ros.Joy(axes=[k], buttons=[k] * 5))
    done.set()
    for t in threads:
        t.join()
    for s in seen:
        assert s == sorted(s) and s[-1] == n - 1, "a reader saw %r" % s
    c.nontrivial(n > 10)


# ---------------------------------------------------------------- waiting

@prop(3000, 60000, when=st.one_of(st.none(), seconds), down=st.one_of(st.none(), st.none(), seconds),
      warn=st.one_of(st.none(), st.integers(0, 20), st.just("default")), name=st.sampled_from(["", None, "the_door", "default"]), truthy=st.sampled_from([True, 1, "yes"]))
def waiting(c, when, down, warn, name, truthy):
    start()
    if when is None and down is None:
        down = 5.0
    begin = net.now()
    calls = []

    def ready():
        ok = when is not None and net.now() - begin >= int(when * 1e9)
        calls.append(ok)
        return truthy if ok else type(truthy)()
    if down is not None:
        net.at(down, lambda: setattr(net, "down", True))
    kwargs = {}
    if warn != "default":
        kwargs["warn_after"] = warn
    if name != "default":
        kwargs["name"] = name
    ros_helpers.wait_for(ready, **kwargs)
    took = (net.now() - begin) / 1e9
    assert calls, "never asked"
    assert calls[-1] or net.down, "returned although it is not true and ROS is up"
    assert not any(calls[:-1]), "went on waiting"
    end = min(x for x in (when, down) if x is not None)
    assert end <= took + EPS and took <= end + 1.0, "waited %r s for something that took %r s" % (took, end)
    warnings = logged("logwarn", "logwarn_throttle", "logerr")
    after = 10 if warn == "default" else warn
    if after is None or took < after:
        assert not warnings, "warned after %r s" % took
    elif took > after + 1.5:
        assert warnings, "no warning in %r s" % took
        assert not name or name == "default" or name in text(warnings), "the warning does not say what for"
    c.nontrivial(took > 0.05)
    c.label("warned" if warnings else "quiet")


connection = st.lists(st.tuples(st.floats(0, 0.08), st.integers(0, 4)), max_size=3)
topic = st.sampled_from(["a", "/a", "b", "/b/c", "b/c", "/ab"])


@prop(2500, 60000, name=topic, master=st.lists(st.tuples(st.sampled_from(["/a", "/b", "/b/c", "/ab", "/a/b"]), st.lists(st.sampled_from("xyz"), max_size=3)),
                                               min_size=1, max_size=5, unique_by=lambda e: e[0]),
      steps=connection, right=st.booleans(), latch=st.booleans())
def connected_publishers(c, name, master, steps, right, latch):
    start()
    net.master = master
    full = name if name.startswith("/") else "/" + name
    want = sum(len(n) for t, n in master if t == full)
    # connections come and go for a while and then settle
    steps = sorted(steps)
    last = want if right else want + 1 + len(steps)
    changes = [(t, n) for t, n in steps if n != want] + [(0.09, last)]
    made = []
    make = rosnet.Publisher.__init__

    class Counting(rosnet.Publisher):
        def __init__(self, *args, **kwargs):
            make(self, *args, **kwargs)
            made.append(self)
            self.connections = changes[0][1] if changes[0][1] != want else want + 1
            for t, n in changes:
                net.at(t, lambda n=n: setattr(self, "connections", n))
    keep, ros.rospy.Publisher = ros.rospy.Publisher, Counting
    try:
        try:
            pub = ros_helpers.get_connected_publisher(name, ros.String, queue_size=3, latch=latch)
        except RuntimeError as e:
            assert not right, "refused although all %d subscribers connected" % want
            assert name in str(e), "the error does not name the topic"
            c.label("refused")
            return
    finally:
        ros.rospy.Publisher = keep
    assert right, "returned with %d of %d subscribers" % (pub.connections, want)
    assert pub is made[0] and len(made) == 1 and pub.get_num_connections() == want
    assert (pub.name, pub.type, pub.args, pub.kwargs) == (name, ros.String, (), {"queue_size": 3, "latch": latch})
    c.nontrivial(want > 0 and len(master) > 1)


@prop(2500, 60000, pubs=st.lists(st.tuples(st.one_of(st.none(), st.floats(0, 0.12)), st.integers(1, 3)), max_size=4), fail=st.sampled_from([True, False, None]))
def connecting(c, pubs, fail):
    start()
    ps = []
    for k, (when, n) in enumerate(pubs):
        p = rosnet.Publisher("/topic_%d_" % k, ros.String)
        if when is not None:
            net.at(when, lambda p=p, n=n: setattr(p, "connections", n))
        ps.append(p)
    missing = [p.name for p, (when, _) in zip(ps, pubs) if when is None]
    error = None
    began = net.now()
    try:
        out = ros_helpers.try_to_connect(*ps) if fail is None else ros_helpers.try_to_connect(*ps, raise_on_fail=fail)
        assert out is None
    except RuntimeError as e:
        error = str(e)
    said = text(logged("logwarn", "logerr"))
    assert (error is not None) == bool(missing and fail), "raised %r for %r" % (error, missing)
    for p in ps:
        assert (p.name in (error if fail and missing else said)) == (p.name in missing), "%s in %r" % (p.name, error or said)
    if not missing:
        assert not said
        took = (net.now() - began) / 1e9
        assert took <= max([when for when, _ in pubs], default=0) + 0.11, "waited %r s for publishers that were connected" % took
    c.nontrivial(len(ps) > 1 and missing and len(missing) < len(ps))


@prop(1000, 20000, depth=st.integers(1, 3), fails=st.booleans(), decorated=st.booleans(), name=st.sampled_from(["n", "my_node"]), args=st.lists(st.integers(), max_size=3),
      kwargs=st.dictionaries(st.sampled_from(["p", "q"]), st.integers()))
def node_contexts(c, depth, fails, decorated, name, args, kwargs):
    start()
    seen = []

    class Stop(BaseException):
        pass
    error = [ValueError, KeyboardInterrupt, Stop][len(args) % 3]

    def body(*a, **k):
        seen.append((a, k, list(net.nodes["python"]), list(net.nodes["cpp"])))
        if fails:
            raise error("in the body")
        return (a, k)
    for n in range(1, depth + 1):
        out = None
        caught = None
        try:
            if decorated:
                if n == 1:
                    wrapped = ros_init.with_ros(name)(body)
                    assert not net.nodes["python"], "initialised before the call"
                out = wrapped(*args, **kwargs)
            else:
                with ros_init.RosContext(name):
                    out = body(*args, **kwargs)
        except (ValueError, KeyboardInterrupt, Stop) as e:
            caught = e
        assert (caught is not None) == fails and (not fails or (type(caught) is error and str(caught) == "in the body"))
        assert fails or out == (tuple(args), kwargs)
        assert len(seen) == n and seen[-1][0] == tuple(args) and seen[-1][1] == kwargs
        # both nodes were up in the body and are down again
        assert seen[-1][2][-1] == name and seen[-1][3][-1] == "cpp_" + name
        assert not net.interrupts_to_cpp, "Ctrl-C does not reach the python node"
        assert net.nodes["python"][2 * n - 2:] == [name, None] and net.nodes["cpp"][2 * n - 2:] == ["cpp_" + name, None]
    try:
        ros_helpers.logfatal(error, "the message")
        assert False, "went on after a fatal error"
    except error as e:
        assert str(e) == "the message" and "the message" in text(logged("logfatal"))
    c.nontrivial(fails and len(args) > 0)


# ---------------------------------------------------------------- controllers

BUTTONS = ["A", "B", "X", "Y", "LB", "RB", "back", "start", "power", "stick_button_left", "stick_button_right"]
PAD = ["DL", "DR", "DU", "DD"]
AXES = ["LH", "LV", "LT", "RH", "RV", "RT", "DH", "DV"]
axis = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, -0.0, 0.05, -0.05, 0.049999, -0.049999, 1.0, -1.0]))


@prop(1200, 30000, xpad=st.booleans(), history=st.lists(st.tuples(st.lists(st.integers(0, 1), min_size=15, max_size=15), st.lists(axis, min_size=8, max_size=8)), min_size=1, max_size=3),
      press=st.integers(0, 10), after=st.floats(0, 3), event=st.tuples(st.sampled_from(["Key", "Absolute", "Sync"]), st.sampled_from(["BTN_NORTH", "BTN_SOUTH"]), st.integers(0, 1)))
def controllers(c, xpad, history, press, after, event):
    start()
    box = xbox.Xbox("pad", xpad=xpad) if after < 2 else xbox.Xbox("pad", xpad)
    names = BUTTONS + (PAD if xpad else [])
    for buttons, axes in history:
        joy = ros.Joy(axes=list(axes), buttons=list(buttons[:len(names)]))
        net.publish("pad", joy)
        state = box.get_buttons_state()
        for k, n in enumerate(names):
            assert getattr(state, n) == buttons[k] == box.get_button(n), "button %s" % n
        for k, n in enumerate(AXES):
            assert getattr(state, n) == axes[k] == box.get_button(n), "axis %s" % n
        listing = str(state).split("\n")
        assert sorted(listing) == sorted("%s: %s" % e for e in list(zip(names, buttons)) + list(zip(AXES, axes))), "printed as %s" % listing
        dead = [0 if abs(x) < 0.05 else x for x in axes]
        want = {0: -dead[0], 1: dead[1], 2: dead[2], 4: dead[4], 5: dead[5]}
        for k in range(-1, 9):
            if k in want:
                assert box.get_axis_normalized(k) == want[k], "axis %d gives %r instead of %r" % (k, box.get_axis_normalized(k), want[k])
            else:
                try:
                    box.get_axis_normalized(k)
                    assert False, "axis %d" % k
                except NotImplementedError:
                    pass
        assert list(box.get_3d_delta()) == [want[0], want[1], want[4]], "the 3-d motion is %r" % box.get_3d_delta()
    # waiting for a button: pressed now, or later
    begin = net.now()
    name = BUTTONS[press]
    buttons, axes = history[-1]
    on = copy.deepcopy(joy)
    on.buttons[press] = 1
    net.at(after, lambda: net.publish("pad", on))
    box.wait_for_button(name, message=after < 1)
    took = (net.now() - begin) / 1e9
    assert box.get_button(name) == 1, "went on without the button"
    assert (took <= 0.5 if buttons[press] else after <= took + EPS and took <= after + 0.5), "waited %r s" % took
    assert (name in text(logged("loginfo"))) == (after < 1)
    e = xbox.InputEvent()
    e.ev_type, e.code, e.state = event
    assert box.x_clicked(e) == (event == ("Key", "BTN_NORTH", 0))
    c.nontrivial(len(history) > 1 and not buttons[press])


# ---------------------------------------------------------------- transforms

coordinate = st.one_of(st.integers(-3, 3).map(float), st.floats(-5, 5, allow_subnormal=False))
point = st.tuples(coordinate, coordinate, coordinate)
H = math.sqrt(0.5)


def unit(q):
    n = math.sqrt(sum(x * x for x in q))
    return (0.0, 0.0, 0.0, 1.0) if n < 1e-2 else tuple(x / n for x in q)


component = st.floats(-1, 1, allow_subnormal=False)
quaternion = st.one_of(st.sampled_from([(0., 0., 0., 1.), (0., 0., 0., -1.), (1., 0., 0., 0.), (0., 0., 1., 0.), (0., H, 0., H), (.5, -.5, .5, -.5)]),
                       st.tuples(component, component, component, component).map(unit))
frames = ["world", "a", "b", "c", "d"]
link = st.sampled_from([(p, c) for k, p in enumerate(frames) for c in frames[k + 1:]])
form = st.sampled_from(["parts", "matrix", "pose"])
sending = st.tuples(st.just("send"), link, point, quaternion, form, st.booleans(), st.booleans())
asking = st.tuples(st.just("get"), st.sampled_from(frames), st.sampled_from(frames), st.integers(0, 9), point)


def matrix(t, q):
    m = ros.quaternion_matrix(q)
    m[:3, 3] = t
    return m


def expected(table, target, source):
    """The transform from the source to the target frame along the links in the table; None if there is none."""
    def up(f):
        chain = [(f, np.identity(4))]
        while f in table:
            parent, m = table[f]
            chain.append((parent, m @ chain[-1][1]))
            f = parent
        return chain
    for f, m in up(source):
        for g, n in up(target):
            if f == g:
                return np.linalg.inv(n) @ m
    return None


def filled_pose(pose, t, q):
    pose.position.x, pose.position.y, pose.position.z = t
    pose.orientation.x, pose.orientation.y, pose.orientation.z, pose.orientation.w = q
    return pose


@prop(2500, 60000, ops=st.lists(st.one_of(sending, sending, asking), min_size=1, max_size=14), own=st.booleans())
def transforms(c, ops, own):
    start()
    buffer = rosnet.Buffer()
    tf = tf2wrapper.TF2Wrapper(buffer=buffer, listener=object()) if own else tf2wrapper.TF2Wrapper()
    assert not own or tf.tf_buffer is buffer
    table, statics = {}, {}
    pose = ros.Pose()                # the caller uses one message over and over
    asked = 0
    for op in ops:
        if op[0] == "send":
            _, (parent, child), t, q, how, static, dated = op
            net.sleep(0.5)
            stamp = ros.Time(77, 5) if dated else None
            n = len(net.sent)
            kwargs = dict(is_static=static, time=stamp) if dated or static else {}
            if how == "parts":
                tf.send_transform(list(t), q, parent, child, **kwargs)
            elif how == "matrix":
                tf.send_transform_matrix(matrix(t, q), parent, child, **kwargs)
            else:
                tf.send_transform_from_pose_msg(filled_pose(pose, t, q), parent, child, **kwargs)
            m = matrix(t, q)
            new = net.sent[n:]
            assert new and all(kind == ("static" if static else "dynamic") for kind, _ in new), "sent %r" % (new,)
            if static:
                statics[child] = (parent, m, stamp or ros.Time.now())
            table[child] = (parent, m)
            final = {}
            for _, msgs in new:
                assert len({msg.child_frame_id for msg in msgs}) == len(msgs), "an outdated transform is sent again: %r" % (msgs,)
                for msg in msgs:
                    final[msg.child_frame_id] = msg
            # everything static is sent again along with a new static transform, as it was given
            want = dict(statics) if static else {child: (parent, m, stamp or ros.Time.now())}
            assert set(final) == set(want), "sent transforms for %r instead of %r" % (sorted(final), sorted(want))
            for k, (p, mm, when) in want.items():
                msg = final[k]
                assert msg.header.frame_id == p and msg.header.stamp == when, "%s is sent with header %r" % (k, msg.header)
                assert np.allclose(rosnet.matrix_of(msg.transform), mm, rtol=0, atol=1e-9), "%s in %s is sent as %r instead of\n%r" % (k, p, msg.transform, mm)
            table.update({k: (p, mm) for k, (p, mm, _) in want.items()})
        else:
            _, parent, child, mode, p = op
            want = expected(table, parent, child)
            if want is None or (parent == child):
                continue
            asked += 1
            if mode == 0:
                net.lookups_to_fail = 1
                assert tf.get_transform(parent, child) is None, "a transform although the lookup fails"
                assert logged("logerr")
                net.lookups_to_fail = 0
                continue
            got = tf.get_transform(parent, child) if mode < 6 else tf.get_transform(parent=parent, child=child, verbose=False)
            assert np.allclose(got, want, rtol=0, atol=1e-7), "%s from %s is\n%r instead of\n%r" % (parent, child, got, want)
            msg = tf.get_transform_msg(parent, child)
            assert np.allclose(rosnet.matrix_of(msg.transform), want, rtol=0, atol=1e-7) and msg.header.frame_id == parent
            there = tf.transform_to_frame(ros.PointStamped(header=ros.Header(frame_id=child), point=ros.Point(*p)), parent)
            assert np.allclose([there.point.x, there.point.y, there.point.z], (want @ [*p, 1])[:3], rtol=0, atol=1e-7) and there.header.frame_id == parent
            if mode == 9:
                other = tf.transform_to_frame(ros.PointStamped(header=ros.Header(frame_id=child), point=ros.Point(*p)), parent, ros.Duration(3), lambda s, d: (s, d))
                assert other == (there, ros.Duration(3)), "conversion to a new type"
    c.nontrivial(len(statics) > 1 and asked)


stamps = st.integers(1, 6)           # in units of ten seconds


@prop(1200, 30000, links=st.lists(st.tuples(st.sampled_from(["a", "b"]), stamps, point, quaternion, st.floats(0, 4)), min_size=1, max_size=10),
      hand=st.one_of(st.none(), st.tuples(point, quaternion)), asks=st.lists(st.tuples(stamps, st.integers(0, 3), point, st.booleans()), min_size=1, max_size=4))
def transforms_at_given_times(c, links, hand, asks):
    """world -> a -> b move, b -> hand is fixed; some transforms arrive only after they were asked for."""
    start()
    tf, other = tf2wrapper.TF2Wrapper(), tf2wrapper.TF2Wrapper()
    net.sleep(100)
    if hand is not None:
        other.send_transform(*hand, "b", "hand", is_static=True)
    parents = {"a": "world", "b": "a"}
    known = {}                       # (child, stamp) -> (matrix, when it is there)
    unique = {(child, k): (t, q) for child, k, t, q, _ in links}
    delays = sorted(delay for *_, delay in links)
    for (child, k), delay in zip(sorted(unique, key=lambda e: e[1]), delays):  # they arrive in the order of their stamps
        t, q = unique[(child, k)]
        known[(child, k)] = (matrix(t, q), delay)
        net.at(delay, lambda child=child, k=k, t=t, q=q: other.send_transform(t, q, parents[child], child, time=ros.Time(10 * k, 0)))
    begin, moved = net.now(), set()
    for k, what, p, message in asks:
        source, target = [("a", "world"), ("b", "world"), ("world", "b"), ("hand", "a")][what]
        if source == "hand" and hand is None:
            continue
        needed = {"hand": "b", "a": "a"}.get(source, "ab")
        if any((child, k) not in known for child in needed):
            continue
        there = max(known[(child, k)][1] for child in needed)
        table = {child: (parents[child], known[(child, k)][0]) for child in needed}
        if hand is not None:
            table["hand"] = ("b", matrix(*hand))
        want = expected(table, target, source)
        asked_at = (net.now() - begin) / 1e9
        if message:
            msg = tf.get_transform_msg(target, source, time=ros.Time(10 * k, 0))
            assert msg.header.frame_id == target
            got = rosnet.matrix_of(msg.transform)
        else:
            got = tf.get_transform(target, source, verbose=False, time=ros.Time(10 * k, 0))
        assert np.allclose(got, want, rtol=0, atol=1e-7), "%s from %s at %d s is\n%r instead of\n%r" % (target, source, 10 * k, got, want)
        took = (net.now() - begin) / 1e9
        assert max(asked_at, there) - EPS <= took < max(asked_at, there) + 1, "answered after %r s instead of %r s" % (took, max(asked_at, there))
        stamped = ros.PointStamped(header=ros.Header(frame_id=source, stamp=ros.Time(10 * k, 0)), point=ros.Point(*p))
        out = tf.transform_to_frame(stamped, target)
        assert np.allclose([out.point.x, out.point.y, out.point.z], (want @ [*p, 1])[:3], rtol=0, atol=1e-7), "a point in %s at %d s" % (target, 10 * k)
        moved.add(k)
    c.nontrivial(len(moved) > 1 or (moved and len({k for _, k in known}) > 1))


@prop(500, 8000, when=st.floats(0.01, 5), limit=st.floats(0, 5), t=point, q=quaternion, p=point)
def points_wait_for_transforms(c, when, limit, t, q, p):
    start()
    tf, other = tf2wrapper.TF2Wrapper(), tf2wrapper.TF2Wrapper()
    net.at(when, lambda: other.send_transform(t, q, "world", "a"))
    if abs(when - limit) < 0.1:
        return
    stamped = ros.PointStamped(header=ros.Header(frame_id="a"), point=ros.Point(*p))
    try:
        out = tf.transform_to_frame(stamped, "world", ros.Duration.of(int(limit * 1e9)))
        assert limit > when, "a transform that is not there yet"
        assert np.allclose([out.point.x, out.point.y, out.point.z], (matrix(t, q) @ [*p, 1])[:3], rtol=0, atol=1e-7)
    except rosnet.TransformException:
        assert limit < when, "gave up too early"
    c.nontrivial(limit > when)


@prop(1200, 30000, when=st.floats(0.01, 20), down=st.one_of(st.none(), st.floats(0.01, 20)), verbose=st.booleans(), t=point, q=quaternion, message=st.booleans())
def transforms_come_later(c, when, down, verbose, t, q, message):
    start()
    tf = tf2wrapper.TF2Wrapper()
    other = tf2wrapper.TF2Wrapper()
    begin = net.now()
    net.at(when, lambda: other.send_transform(t, q, "world", "a"))
    if down is not None:
        net.at(down, lambda: setattr(net, "down", True))
    error = None
    try:
        got = (tf.get_transform_msg if message else tf.get_transform)("world", "a", verbose=verbose)
    except KeyboardInterrupt as e:
        error = e
    took = (net.now() - begin) / 1e9
    if error is not None:
        assert net.down and down < when + 0.3, "gave up at %r" % took
        c.label("gave up")
    else:
        assert took >= when - EPS and took < when + 1, "waited %r s for %r" % (took, when)
        assert down is None or down > when - 0.3, "went on for %r s" % took
        m = rosnet.matrix_of(got.transform) if message else got
        assert np.allclose(m, matrix(t, q), rtol=0, atol=1e-9)
    if took > 1:
        assert bool(logged("loginfo", "logwarn")) == verbose, "messages %r" % ros.LOG
    c.nontrivial(took > 1)


managed = st.one_of(st.tuples(st.just("start"), link, point, quaternion, form, st.booleans(), st.integers(0, 4)),
                    st.tuples(st.just("start"), link, point, quaternion, form, st.booleans(), st.integers(0, 4)),
                    st.tuples(st.just("stop"), link), st.tuples(st.just("close"), st.none()), st.tuples(st.just("again"), st.integers(0, 5), point))


@prop(120, 2500, ops=st.lists(managed, min_size=1, max_size=8), end=st.sampled_from(["close", "delete"]))
def managed_transforms(c, ops, end):
    start()
    net.virtual = False              # the senders are threads
    tf = reliable_tf.ReliableTF()
    running, links, starts, failed = {}, {}, 0, 0
    before = threading.active_count()
    try:
        for op in ops:
            if op[0] == "again":
                if not running:
                    continue
                k = sorted(running)[op[1] % len(running)]
                op = ("start", k, op[2], (0., 0., 0., 1.), "matrix", links[k[1]][1], 0)
                c.label("replaced")
            if op[0] == "start":
                _, (parent, child), t, q, how, static, misses = op
                if links.setdefault(child, (parent, static)) != (parent, static):
                    continue         # a frame has one parent and is static or not
                if misses >= 3:
                    net.lookups_to_fail = misses - 2
                    failed += 1
                static_arg = dict(is_static=static) if static or misses % 2 else {}   # the default is not static
                if how == "parts":
                    tf.start_send_transform(t, q, parent, child, **static_arg)
                elif how == "matrix":
                    tf.start_send_transform_matrix(matrix(t, q), parent, child, **static_arg)
                else:
                    tf.start_send_transform_from_pose_msg(filled_pose(ros.Pose(), t, q), parent, child, **static_arg)
                net.lookups_to_fail = 0
                running[(parent, child)] = matrix(t, q)
                starts += 1
                assert np.allclose(tf.get_transform(parent, child), matrix(t, q), rtol=1e-5, atol=1e-5), "returned before the transform was there"
            elif op[0] == "stop":
                tf.stop_send(*op[1])
                running.pop(op[1], None)
            else:
                tf.close()
                running.clear()
            with net.lock:
                n = len(net.sent)
            for _ in range(60):      # every managed transform goes on being sent, and nothing else
                rosnet.real_sleep(0.001)
                with net.lock:
                    sent = {(m.header.frame_id, m.child_frame_id) for _, msgs in net.sent[n:] for m in msgs}
                if set(running) <= sent:
                    break
            with net.lock:
                new = [(m.header.frame_id, m.child_frame_id, rosnet.matrix_of(m.transform), kind) for kind, msgs in net.sent[n:] for m in msgs]
            for parent, child, m, kind in new:
                if (parent, child) in running and not links[child][1]:
                    assert kind == "dynamic", "%s in %s is sent as a static transform" % (child, parent)
                if kind == "dynamic":
                    assert (parent, child) in running, "%s in %s is sent although it was stopped" % (child, parent)
                    assert np.allclose(m, running[(parent, child)], rtol=0, atol=1e-9), "%s in %s is sent as\n%r" % (child, parent, m)
    except BaseException:
        tf.close()
        raise
    if end == "close":
        tf.close()
    del tf
    gc.collect()
    deadline = 400
    while threading.active_count() > before and deadline:
        rosnet.real_sleep(0.005)
        deadline -= 1
    rest = threading.active_count() - before
    assert rest == 0, "%d senders are left over" % rest
    c.nontrivial(starts > 1)
    c.label("lookups fail" if failed else "lookups work")
