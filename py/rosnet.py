"""A little ROS network for the wrappers around it: topics, a master, a clock that moves when somebody sleeps, and a table
of transforms that broadcasters write and buffers read."""
import copy
import threading
import time

import numpy as np

import rosstubs as ros
from rosstubs import module

real_sleep = time.sleep


class Net:
    """The state of the network; reset() starts a new case."""

    def reset(self):
        ros.LOG.clear()
        ros.Time.current = 10 ** 9
        self.virtual = True          # sleeping moves the clock instead of waiting
        self.schedule = []           # (time in ns, action)
        self.down = False
        self.subscribers = []
        self.publishers = []
        self.master = []             # (topic, [nodes]) of the subscriptions the master knows
        self.nodes = {"python": [], "cpp": []}
        self.interrupts_to_cpp = False   # a C++ node took over the handling of Ctrl-C
        self.lock = threading.RLock()
        self.frames = {}             # child -> (parent, matrix)
        self.history = {}            # child -> [(stamp in ns, kind, parent, matrix)] in the order of arrival
        self.sent = []               # every broadcast: (kind, [TransformStamped])
        self.lookups_to_fail = 0

    def now(self):
        return ros.Time.current

    def at(self, seconds, action):
        self.schedule.append((self.now() + int(seconds * 1e9), action))
        self.schedule.sort(key=lambda e: e[0])

    def sleep(self, seconds):
        if not self.virtual:
            real_sleep(0.0003)
            return
        end = self.now() + max(int(seconds * 1e9), 1)
        while self.schedule and self.schedule[0][0] <= end:
            when, action = self.schedule.pop(0)
            ros.Time.current = max(self.now(), when)
            action()
        ros.Time.current = end
        assert end < 10 ** 12, "waits for ever"

    def publish(self, topic, msg):
        for s in list(self.subscribers):
            if s.topic == topic:
                try:
                    s.callback(copy.deepcopy(msg))
                except Exception:  # rospy logs it
                    pass

    def link(self, frame, at):
        """The link above a frame at a time; None when it is not known then. It stays as it is until the next stamp."""
        if frame not in self.frames:
            return None
        if at == 0:
            return self.frames[frame]
        entries = self.history[frame]
        if entries[-1][1] == "static":
            return entries[-1][2:]
        before = [e for e in entries if e[0] <= at]
        if not before or max(e[0] for e in entries) < at:
            return None              # tf never extrapolates
        return max(before, key=lambda e: e[0])[2:]

    def matrix(self, target, source, at=0):
        """From coordinates in source to coordinates in target; None when they are not connected. Time 0 stands for the latest."""
        def up(frame):
            chain = {}
            m = np.identity(4)
            while True:
                chain[frame] = m
                above = self.link(frame, at)
                if above is None or len(chain) > 50:
                    return chain
                parent, t = above
                m = t @ m
                frame = parent
        with self.lock:
            a, b = up(source), up(target)
            for frame, m in a.items():
                if frame in b:
                    return np.linalg.inv(b[frame]) @ m
        return None

    def known(self, frame):
        with self.lock:
            return frame in self.frames or any(p == frame for p, _ in self.frames.values())


net = Net()
net.reset()


def sleep(seconds):
    net.sleep(float(seconds))


def start():
    """A new case: from here on sleeping is up to the network."""
    time.sleep = sleep
    net.reset()




class Subscriber:
    def __init__(self, name, data_class, callback=None, callback_args=None, queue_size=None, **_):
        self.topic, self.type, self.callback, self.queue_size = name, data_class, callback, queue_size
        net.subscribers.append(self)


class Publisher:
    def __init__(self, name, data_class, *args, **kwargs):
        self.name, self.type, self.args, self.kwargs = name, data_class, args, kwargs
        self.connections = 0
        net.publishers.append(self)

    def get_num_connections(self):
        return self.connections


class Rate:
    def __init__(self, hz):
        self.hz = hz

    def sleep(self):
        net.sleep(1.0 / self.hz)


def rospy_sleep(d):
    net.sleep(d.to_sec() if isinstance(d, ros.Duration) else float(d))


ros.rospy.__dict__.update(
    Subscriber=Subscriber, Publisher=Publisher, Rate=Rate, sleep=rospy_sleep, is_shutdown=lambda: net.down,
    init_node=lambda name, *a, **k: net.nodes["python"].append(name),
    signal_shutdown=lambda reason: net.nodes["python"].append(None))
def init_cpp_node(name, argv=(), log_level=2, anonymous=False, disable_rosout=False, disable_signals=False):
    net.nodes["cpp"].append(name)
    net.interrupts_to_cpp = net.interrupts_to_cpp or not disable_signals


module("roscpp_initializer", init_node=init_cpp_node,
       shutdown=lambda: net.nodes["cpp"].append(None))


class Master:
    def __init__(self, caller):
        pass

    def getSystemState(self):
        return [[], [[t, list(n)] for t, n in net.master], []]


module("rosgraph", Master=Master)
module("rosgraph.names", script_resolve_name=lambda script, name: name if name.startswith("/") else "/" + name)


class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


def matrix_of(t):
    q = t.rotation
    m = ros.quaternion_matrix([q.x, q.y, q.z, q.w])
    m[:3, 3] = [t.translation.x, t.translation.y, t.translation.z]
    return m


class Buffer:
    def can_transform(self, target_frame, source_frame, time, timeout=ros.Duration(0)):
        def possible():
            return net.matrix(target_frame, source_frame, time.ns) is not None and (target_frame == source_frame or net.known(source_frame))
        if possible():
            return True
        net.sleep(timeout.to_sec())
        return possible()

    def lookup_transform(self, target_frame, source_frame, time, timeout=ros.Duration(0)):
        if net.lookups_to_fail > 0:
            net.lookups_to_fail -= 1
            raise [LookupException, ConnectivityException, ExtrapolationException][net.lookups_to_fail % 3]("no transform")
        m = net.matrix(target_frame, source_frame, time.ns)
        if m is None:
            raise LookupException("no transform")
        out = ros.TransformStamped()
        out.header.frame_id, out.child_frame_id = target_frame, source_frame
        out.transform.translation = ros.Vector3(*[float(x) for x in m[:3, 3]])
        out.transform.rotation = ros.Quaternion(*[float(x) for x in ros.quaternion_from_matrix(m)])
        return out

    def transform(self, stamped, target_frame, timeout=ros.Duration(0), new_type=None):
        m = net.matrix(target_frame, stamped.header.frame_id, stamped.header.stamp.ns)
        if m is None and timeout.ns:
            net.sleep(timeout.to_sec())
            m = net.matrix(target_frame, stamped.header.frame_id, stamped.header.stamp.ns)
        if m is None:
            raise LookupException("no transform")
        p = m @ [stamped.point.x, stamped.point.y, stamped.point.z, 1]
        out = copy.deepcopy(stamped)
        out.header.frame_id = target_frame
        out.point = ros.Point(*[float(x) for x in p[:3]])
        return out if new_type is None else new_type(out, timeout)


class TransformListener:
    def __init__(self, buffer, *args, **kwargs):
        pass


class _Broadcaster:
    def sendTransform(self, transforms):
        if not isinstance(transforms, (list, tuple)):
            transforms = [transforms]
        with net.lock:
            copies = copy.deepcopy(list(transforms))
            net.sent.append((self.kind, copies))
            for t in copies:
                net.frames[t.child_frame_id] = (t.header.frame_id, matrix_of(t.transform))
                net.history.setdefault(t.child_frame_id, []).append((t.header.stamp.ns, self.kind) + net.frames[t.child_frame_id])


class TransformBroadcaster(_Broadcaster):
    kind = "dynamic"


class StaticTransformBroadcaster(_Broadcaster):
    kind = "static"


module("tf2_ros", Buffer=Buffer, TransformListener=TransformListener, TransformBroadcaster=TransformBroadcaster,
       StaticTransformBroadcaster=StaticTransformBroadcaster, LookupException=LookupException, ConnectivityException=ConnectivityException,
       ExtrapolationException=ExtrapolationException, TransformException=TransformException)
module("tf2_geometry_msgs")


def numpify(msg):
    if isinstance(msg, ros.Pose):
        return matrix_of(ros.Transform(msg.position, msg.orientation))
    if isinstance(msg, ros.Transform):
        return matrix_of(msg)
    raise TypeError(type(msg))


module("ros_numpy", numpify=numpify)
module("inputs", InputEvent=type("InputEvent", (), {}))
