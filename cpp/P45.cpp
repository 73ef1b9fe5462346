#include "vp.hpp"

#include <arc_utilities/ros_helpers.hpp>
#include <pybind11/pybind11.h>

void vp_pybind_module_roscpp_initializer(pybind11::module_& m);

namespace {

using ros::ParamValue;

struct World {
  ros::sim::Network& net;
  // never deleted: the spinner of the module is a global variable and outlives the case
  World() : net(*new ros::sim::Network) {
    ros::sim::current() = &net;
    ros::console::log() = ros::console::Log();
  }
};

const std::vector<std::string> kNames{"a", "b", "rate", "joint/limit", "/a", "/other/b", "very_long_parameter_name_that_goes_on_beyond_the_width_of_the_table"};
const std::vector<std::string> kSpaces{"/", "node", "/robot/arm"};

ParamValue scalar(vp::Src& s) {
  ParamValue v;
  switch (s.choice(4)) {
    case 0: v.kind = ParamValue::Int, v.i = static_cast<int>(s.i(-1000000, 1000000)); break;
    case 1: v.kind = ParamValue::Double, v.d = s.chance(1, 3) ? static_cast<double>(s.i(-3, 3)) : s.real(-1e6, 1e6); break;
    case 2: v.kind = ParamValue::Bool, v.b = s.b(); break;
    default: v.kind = ParamValue::Text, v.s = s.str(6);
  }
  return v;
}
ParamValue value(vp::Src& s) {
  if (!s.chance(1, 3)) return scalar(s);
  ParamValue v;
  v.kind = ParamValue::List;
  const bool mixed = s.chance(1, 4);
  const ParamValue first = scalar(s);
  v.list = s.list(0, 4, [&] {
    ParamValue x = scalar(s);
    if (!mixed)
      while (x.kind != first.kind) x = first;
    return x;
  });
  return v;
}

template <typename T>
T make(vp::Src& s);
template <>
int make<int>(vp::Src& s) { return static_cast<int>(s.i(-1000, 1000)); }
template <>
double make<double>(vp::Src& s) { return s.real(-1000, 1000); }
template <>
float make<float>(vp::Src& s) { return static_cast<float>(s.real(-1000, 1000)); }
template <>
bool make<bool>(vp::Src& s) { return s.b(); }
template <>
std::string make<std::string>(vp::Src& s) { return s.str(6); }

/// What the server has under a name, if it is of this type.
template <typename T>
bool lookUp(const std::map<std::string, ParamValue>& params, const std::string& resolved, T& v) {
  const auto it = params.find(resolved);
  return it != params.end() && it->second.get(v);
}

template <typename T>
void same(const char* what, const T& got, const T& want) { VP_CHECK(got == want, what, " returned another value than it should"); }

template <typename F>
void required(const char* what, bool there, const std::string& name, F f) {
  bool threw = false;
  try {
    f();
  } catch (const std::invalid_argument& e) {
    threw = true;
    VP_CHECK(std::string(e.what()).find(name) != std::string::npos, what, ": the error does not name ", name, ": ", e.what());
  }
  VP_CHECK(threw == !there, what, threw ? ": refused a parameter that is there" : ": accepted a missing parameter");
}

template <typename T>
bool ask(vp::Src& s, const ros::NodeHandle& nh, const std::string& name, const std::string& resolved) {
  const auto& params = ros::sim::net().params;
  T want = T();
  const bool there = lookUp(params, resolved, want);
  const T def = make<T>(s);
  const T expected = there ? want : def;
  same("GetParam", ROSHelpers::GetParam<T>(nh, name, def), expected);
  same("GetParam of a temporary", ROSHelpers::GetParam<T>(nh, name, T(def)), expected);
  same("GetParamDebugLog", ROSHelpers::GetParamDebugLog<T>(nh, name, def), expected);
  same("GetParamDebugLog of a temporary", ROSHelpers::GetParamDebugLog<T>(nh, name, T(def)), expected);
  const auto opt = ROSHelpers::GetParamOptional<T>(nh, name, "caller");
  VP_CHECK(opt.Valid() == there, "GetParamOptional: there is ", there ? "a" : "no", " value, it says otherwise");
  if (there) same("GetParamOptional", opt.GetImmutable(), want);
  required("GetParamRequired", there, name, [&] { same("GetParamRequired", ROSHelpers::GetParamRequired<T>(nh, name, "caller"), want); });
  required("GetParamRequiredDebugLog", there, name, [&] { same("GetParamRequiredDebugLog", ROSHelpers::GetParamRequiredDebugLog<T>(nh, name, "caller"), want); });
  return there;
}

template <typename T>
bool askVector(vp::Src& s, const ros::NodeHandle& nh, const std::string& name, const std::string& resolved) {
  const auto& params = ros::sim::net().params;
  std::vector<T> want;
  const bool there = lookUp(params, resolved, want);
  std::vector<T> def(s.len(0, 3));
  for (size_t k = 0; k < def.size(); k++) def[k] = make<T>(s);
  same("GetVector", ROSHelpers::GetVector<T>(nh, name, def), there ? want : def);
  const auto opt = ROSHelpers::GetVectorOptional<T>(nh, name, "caller");
  VP_CHECK(opt.Valid() == there, "GetVectorOptional: there is ", there ? "a" : "no", " list, it says otherwise");
  if (there) same("GetVectorOptional", opt.GetImmutable(), want);
  required("GetVectorRequired", there, name, [&] { same("GetVectorRequired", ROSHelpers::GetVectorRequired<T>(nh, name, "caller"), want); });
  required("GetVectorRequiredDebugLog", there, name, [&] { same("GetVectorRequiredDebugLog", ROSHelpers::GetVectorRequiredDebugLog<T>(nh, name, "caller"), want); });
  return there;
}

}  // namespace

/// Parameters come from the server if they are there and of the type asked for, and from the caller otherwise.
VP_PROP(parameters_come_from_the_server_or_the_default, 300000, 4000000) {
  World w;
  const std::string space = s.pick(kSpaces);
  const ros::NodeHandle nh(space);
  const size_t n = s.len(0, 5);
  for (size_t k = 0; k < n; k++) {
    const std::string name = ros::NodeHandle(s.pick(kSpaces)).resolveName(s.pick(kNames));
    w.net.params[name] = value(s);
  }
  size_t found = 0, asked = 0;
  const size_t m = s.len(1, 5);
  for (size_t k = 0; k < m; k++) {
    std::string name = s.pick(kNames);
    int kind = static_cast<int>(s.choice(10));
    if (n > 0 && s.chance(3, 4)) {
      // one that is there, asked for by its full or its short name and mostly for its own type
      auto it = w.net.params.begin();
      std::advance(it, static_cast<std::ptrdiff_t>(s.choice(w.net.params.size())));
      name = it->first;
      const std::string prefix = nh.resolveName("x").substr(0, nh.resolveName("x").size() - 1);
      if (name.compare(0, prefix.size(), prefix) == 0 && s.b()) name = name.substr(prefix.size());
      if (s.chance(3, 4)) {
        const bool list = it->second.kind == ParamValue::List;
        const auto k = !list ? it->second.kind : it->second.list.empty() ? ParamValue::Int : it->second.list[0].kind;
        const int of[] = {0, 1, 3, 4};
        const int ofList[] = {5, 6, 8, 7};
        kind = list ? ofList[k] : of[k];
      }
    }
    const std::string resolved = nh.resolveName(name);
    asked++;
    switch (kind) {
      case 0: found += ask<int>(s, nh, name, resolved); break;
      case 1: found += ask<double>(s, nh, name, resolved); break;
      case 2: found += ask<float>(s, nh, name, resolved); break;
      case 3: found += ask<bool>(s, nh, name, resolved); break;
      case 4: found += ask<std::string>(s, nh, name, resolved); break;
      case 5: found += askVector<int>(s, nh, name, resolved); break;
      case 6: found += askVector<double>(s, nh, name, resolved); break;
      case 7: found += askVector<std::string>(s, nh, name, resolved); break;
      case 8: found += askVector<bool>(s, nh, name, resolved); break;
      default: found += askVector<float>(s, nh, name, resolved); break;
    }
  }
  s.nontrivialIf(found > 0);
  if (found < asked) s.label("something missing");
  if (s.noting()) s.note(vp::cat(n, " parameters, ", asked, " questions under ", space, ", ", found, " found"));
}

/// A node started from Python is the node that was asked for.
VP_PROP(nodes_are_started_as_asked, 200000, 2500000) {
  World w;
  pybind11::module_ m;
  vp_pybind_module_roscpp_initializer(m);
  const size_t calls = s.len(1, 3);
  size_t started = 0;
  for (size_t k = 0; k < calls; k++) {
    std::map<std::string, pybind11::Value> kw;
    const std::string name = s.pick(std::vector<std::string>{"node", "cpp_node", "a"});
    kw["name"] = name;
    std::vector<std::string> argv;
    if (s.b()) argv = s.list(0, 4, [&] { return s.str(8); }), kw["argv"] = argv;
    for (std::string& a : argv) a = a.substr(0, a.find('\0'));
    int level = 2;
    if (s.b()) level = static_cast<int>(s.i(-1, 5)), kw["log_level"] = level;
    bool flags[3] = {false, false, false};
    const char* names[3] = {"anonymous", "disable_rosout", "disable_signals"};
    for (int f = 0; f < 3; f++)
      if (s.b()) flags[f] = s.b(), kw[names[f]] = flags[f];
    if (s.noting()) s.note(vp::cat("init_node(", name, ", ", argv.size(), " arguments, level ", level, ", anonymous ", flags[0], ", no rosout ", flags[1], ", no signals ", flags[2], ")"));
    s.nontrivialIf(argv.size() > 0 || flags[0] || flags[1] || flags[2]);
    bool threw = false;
    try {
      m.call("init_node", kw);
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    const bool valid = level >= 0 && level <= 4;
    VP_CHECK(threw == !valid, "init_node with log level ", level, threw ? " was refused" : " was accepted");
    if (valid) started++;
    VP_CHECK(w.net.inits.size() == started, started, " nodes to start, ", w.net.inits.size(), " started");
    if (!valid) continue;
    const auto& i = w.net.inits.back();
    VP_CHECK(i.name == name, "a node named ", i.name, " instead of ", name);
    VP_CHECK(i.argv == argv, "a node with ", i.argv.size(), " arguments, or others, instead of the ", argv.size(), " given");
    VP_CHECK(((i.options & ros::init_options::AnonymousName) != 0) == flags[0], "anonymous ", flags[0], " but options ", i.options);
    VP_CHECK(((i.options & ros::init_options::NoRosout) != 0) == flags[1], "disable_rosout ", flags[1], " but options ", i.options);
    VP_CHECK(((i.options & ros::init_options::NoSigintHandler) != 0) == flags[2], "disable_signals ", flags[2], " but options ", i.options);
    const auto& levels = ros::console::log().levels;
    VP_CHECK(levels.count(name) && levels.at(name) == level, "the log level of ", name, " is not ", level);
    // its callbacks are served
    bool ran = false;
    w.net.global.addCallback([&ran] { ran = true; }, &ran);
    w.net.global.spinOnce();
    VP_CHECK(ran, "no spinner serves the callbacks of the node");
    VP_CHECK(w.net.ok, "the node is shut down before anybody asked");
  }
  m.call("shutdown", {});
  VP_CHECK(!w.net.ok, "shutdown() leaves ROS running");
}
