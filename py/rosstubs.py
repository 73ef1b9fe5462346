"""Stand-ins for the ROS modules that the Python helpers import: message classes that hold the fields of the ROS messages
with their defaults, times and durations with exact nanoseconds, and the few functions of tf.transformations from their
definitions.  Importing this module makes them importable under their ROS names."""
import copy
import math
import sys
import types

import numpy as np


def module(name, **members):
    m = types.ModuleType(name)
    m.__dict__.update(members)
    sys.modules[name] = m
    if "." in name:
        parent, child = name.rsplit(".", 1)
        if parent not in sys.modules:
            module(parent)
        setattr(sys.modules[parent], child, m)
    return m


def message(name, **fields):
    """A message class: field names with a default value, or a class to build the default from."""
    slots = list(fields)

    def __init__(self, *args, **kwargs):
        if args and len(args) != len(slots):
            raise TypeError("Invalid number of arguments")
        given = dict(zip(slots, args))
        given.update(kwargs)
        for k in given:
            if k not in fields:
                raise AttributeError("%s has no field %s" % (name, k))
        for k, v in fields.items():
            setattr(self, k, given[k] if k in given else (v() if callable(v) else copy.deepcopy(v)))

    def __eq__(self, other):
        return type(self) is type(other) and all(_same(getattr(self, k), getattr(other, k)) for k in slots)

    def __repr__(self):
        return "%s(%s)" % (name, ", ".join("%s=%r" % (k, getattr(self, k)) for k in slots))

    return type(name, (), dict(__slots__=slots, __init__=__init__, __eq__=__eq__, __repr__=__repr__, __hash__=None))


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.array_equal(a, b)
    return a == b


class _Moment:
    """secs and nsecs like genpy's: held as whole nanoseconds."""

    def __init__(self, secs=0, nsecs=0):
        if isinstance(secs, (float, np.floating)):
            whole = math.floor(secs)
            self.ns = whole * 10 ** 9 + int((secs - whole) * 1e9) + int(nsecs)
        else:
            self.ns = int(secs) * 10 ** 9 + int(nsecs)

    @property
    def secs(self):
        return self.ns // 10 ** 9

    @property
    def nsecs(self):
        return self.ns % 10 ** 9

    @classmethod
    def from_sec(cls, s):
        return cls(float(s))

    @classmethod
    def of(cls, ns):
        out = cls()
        out.ns = ns
        return out

    def to_sec(self):
        return self.ns / 1e9

    def to_nsec(self):
        return self.ns

    def is_zero(self):
        return self.ns == 0

    def __eq__(self, o):
        return type(o) is type(self) and o.ns == self.ns

    def __lt__(self, o):
        return self.ns < o.ns

    def __le__(self, o):
        return self.ns <= o.ns

    def __gt__(self, o):
        return self.ns > o.ns

    def __ge__(self, o):
        return self.ns >= o.ns

    def __hash__(self):
        return hash(self.ns)

    def __repr__(self):
        return "%s(ns=%d)" % (type(self).__name__, self.ns)


class Duration(_Moment):
    def __add__(self, o):
        return o.__class__.of(self.ns + o.ns)

    def __sub__(self, o):
        if not isinstance(o, Duration):
            return NotImplemented
        return Duration.of(self.ns - o.ns)

    def __neg__(self):
        return Duration.of(-self.ns)

    def __abs__(self):
        return Duration.of(abs(self.ns))

    def __mul__(self, k):
        return Duration.of(int(self.ns * k))

    __rmul__ = __mul__


class Time(_Moment):
    current = 10 ** 9

    @staticmethod
    def now():
        return Time.of(Time.current)

    def __add__(self, o):
        return Time.of(self.ns + o.ns)

    def __sub__(self, o):
        return Duration.of(self.ns - o.ns) if isinstance(o, Time) else Time.of(self.ns - o.ns)


LOG = []


def _log(level):
    def log(*args, **kwargs):
        LOG.append((level, args))
    return log


rospy = module("rospy", Time=Time, Duration=Duration, LOG=LOG, is_shutdown=lambda: False,
               **{n: _log(n) for n in ("loginfo", "logwarn", "logerr", "logdebug", "logfatal", "logwarn_throttle")})

Vector3 = message("Vector3", x=0.0, y=0.0, z=0.0)
Point = message("Point", x=0.0, y=0.0, z=0.0)
Quaternion = message("Quaternion", x=0.0, y=0.0, z=0.0, w=0.0)
Header = message("Header", seq=0, stamp=Time, frame_id="")
Pose = message("Pose", position=Point, orientation=Quaternion)
Transform = message("Transform", translation=Vector3, rotation=Quaternion)
PoseStamped = message("PoseStamped", header=Header, pose=Pose)
PointStamped = message("PointStamped", header=Header, point=Point)
TransformStamped = message("TransformStamped", header=Header, child_frame_id="", transform=Transform)
module("geometry_msgs")
module("geometry_msgs.msg", Vector3=Vector3, Point=Point, Quaternion=Quaternion, Pose=Pose, Transform=Transform,
       PoseStamped=PoseStamped, PointStamped=PointStamped, TransformStamped=TransformStamped)
ColorRGBA = message("ColorRGBA", r=0.0, g=0.0, b=0.0, a=0.0)
String = message("String", data="")
module("std_msgs.msg", ColorRGBA=ColorRGBA, Header=Header, String=String)
JointTrajectoryPoint = message("JointTrajectoryPoint", positions=[], velocities=[], accelerations=[], effort=[], time_from_start=Duration)
JointTrajectory = message("JointTrajectory", header=Header, joint_names=[], points=[])
module("trajectory_msgs.msg", JointTrajectory=JointTrajectory, JointTrajectoryPoint=JointTrajectoryPoint)
Marker = message("Marker", header=Header, ns="", id=0, type=0, action=0, pose=Pose, scale=Vector3, color=ColorRGBA)
MarkerArray = message("MarkerArray", markers=[])
module("visualization_msgs.msg", Marker=Marker, MarkerArray=MarkerArray)
Joy = message("Joy", header=Header, axes=[], buttons=[])
module("sensor_msgs.msg", Joy=Joy)


def quaternion_matrix(q):
    """The 4x4 rotation matrix of the quaternion [x, y, z, w] divided by its length (the identity for zero)."""
    q = np.array(q, dtype=np.float64)[:4]
    n = np.dot(q, q)
    m = np.identity(4)
    if n < np.finfo(float).eps * 4.0:
        return m
    x, y, z, w = q / math.sqrt(n)
    m[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                 [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    return m


def quaternion_from_matrix(matrix):
    """The unit quaternion [x, y, z, w] of a rotation matrix."""
    m = np.array(matrix, dtype=np.float64)[:3, :3]
    t = np.trace(m)
    if t > 0:
        q = np.array([m[2, 1] - m[1, 2], m[0, 2] - m[2, 0], m[1, 0] - m[0, 1], t + 1])
    else:
        i = int(np.argmax(np.diag(m)))
        j, k = (i + 1) % 3, (i + 2) % 3
        q = np.empty(4)
        q[i] = m[i, i] - m[j, j] - m[k, k] + 1
        q[j] = m[i, j] + m[j, i]
        q[k] = m[k, i] + m[i, k]
        q[3] = m[k, j] - m[j, k]
    return q / np.linalg.norm(q)


def quaternion_from_euler(ai, aj, ak, axes="sxyz"):
    """[x, y, z, w] of the rotations by ai about x, then aj about y, then ak about z, all about fixed axes."""
    if axes != "sxyz":
        raise NotImplementedError(axes)
    ci, si, cj, sj, ck, sk = (f(a / 2) for a in (ai, aj, ak) for f in (math.cos, math.sin))
    return np.array([si * cj * ck - ci * sj * sk, ci * sj * ck + si * cj * sk, ci * cj * sk - si * sj * ck, ci * cj * ck + si * sj * sk])


module("tf")
module("tf.transformations", quaternion_matrix=quaternion_matrix, quaternion_from_matrix=quaternion_from_matrix,
       quaternion_from_euler=quaternion_from_euler)
