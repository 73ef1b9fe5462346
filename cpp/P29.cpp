#include "vp.hpp"

#include <arc_utilities/timing.hpp>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <chrono>
#include <fstream>
#include <set>
#include <thread>

namespace {

using namespace arc_utilities;
using Clock = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct Model {
  std::map<std::string, std::vector<double>> data;
  std::map<std::string, std::vector<std::pair<double, double>>> timed;
  struct Timer {
    double lo, hi;  // the timer was started within [lo, hi]
    bool certain;
  };
  std::map<std::string, Timer> timers;
};

std::string slurp(const std::string& f) {
  std::ifstream in(f);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

// Runs f with the standard output going to a file and returns what was printed.
template <class F>
std::string captured(const std::string& file, F f) {
  std::cout.flush();
  fflush(stdout);
  const int keep = dup(1), fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  dup2(fd, 1);
  close(fd);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(keep, 1);
  close(keep);
  return slurp(file);
}

struct Row {
  std::string name;
  std::vector<double> numbers;
};

// Rows below the line that starts with "Label": a name followed by numbers, columns separated by blanks.
std::vector<Row> rows(const std::string& text) {
  std::vector<Row> out;
  std::istringstream in(text);
  std::string line;
  bool body = false;
  while (std::getline(in, line)) {
    if (line.compare(0, 5, "Label") == 0) {
      body = true;
      continue;
    }
    if (!body) continue;
    Row r;
    while (true) {
      while (!line.empty() && line.back() == ' ') line.pop_back();
      const size_t at = line.find_last_of(' ');
      const std::string last = at == std::string::npos ? line : line.substr(at + 1);
      char* end = nullptr;
      const double v = strtod(last.c_str(), &end);
      if (last.empty() || *end != 0 || at == std::string::npos) break;
      r.numbers.insert(r.numbers.begin(), v);
      line.resize(at + 1);
    }
    r.name = line;
    if (!r.name.empty() || !r.numbers.empty()) out.push_back(r);
  }
  return out;
}

bool shown(double text, double v) { return (std::isnan(text) && std::isnan(v)) || text == v || std::fabs(text - v) <= 1.01e-6 + 1e-9 * std::fabs(v); }
template <class T>
double total(const std::vector<T>& v, const std::function<double(const T&)>& f) {
  double t = 0;
  for (const auto& x : v) t += f(x);
  return t;
}

void check_summary(const Model& m, const std::vector<std::string>& names, bool ordered, const std::string& text, bool values, const char* what) {
  std::vector<Row> got = rows(text);
  std::vector<std::string> want = names;
  std::vector<std::string> have;
  for (const Row& r : got) have.push_back(r.name.compare(0, 5, "~~~~~") == 0 ? "~~~~~" : r.name);
  for (auto& n : want)
    if (n.compare(0, 5, "~~~~~") == 0) n = "~~~~~";
  if (!ordered) {
    std::sort(want.begin(), want.end());
    auto h = have;
    std::sort(h.begin(), h.end());
    VP_CHECK(h == want, what, ": names ", vp::show(h), " instead of ", vp::show(want));
  } else {
    VP_CHECK(have == want, what, ": names ", vp::show(have), " instead of ", vp::show(want));
  }
  for (const Row& r : got) {
    if (r.name.compare(0, 5, "~~~~~") == 0) continue;
    VP_CHECK(r.numbers.size() >= 3, what, ": row of ", r.name);
    const auto d = m.data.find(r.name);
    const auto t = m.timed.find(r.name);
    double n = 0, sum = 0;
    const bool hasData = d != m.data.end(), hasTimed = t != m.timed.end();
    if (hasData && hasTimed) continue;  // documented as unsupported
    if (hasData) {
      n = static_cast<double>(d->second.size());
      sum = total<double>(d->second, [](const double& x) { return x; });
    } else if (hasTimed && values) {
      n = static_cast<double>(t->second.size());
      sum = total<std::pair<double, double>>(t->second, [](const std::pair<double, double>& x) { return x.first; });
      const double val = total<std::pair<double, double>>(t->second, [](const std::pair<double, double>& x) { return x.second; });
      VP_CHECK(r.numbers.size() == 5 && shown(r.numbers[3], val) && shown(r.numbers[4], val / n), what, ": values of ", r.name, " are ", vp::show(r.numbers), " instead of ", val, " and ", val / n);
    }
    VP_CHECK(r.numbers[1] == n && shown(r.numbers[0], sum) && (n == 0 || shown(r.numbers[2], sum / n)), what, ": ", r.name, " has ", vp::show(r.numbers), " instead of ", sum, " and ", n);
  }
}

double number_after(const std::string& text, const std::string& key) {
  const size_t at = text.find(key);
  VP_CHECK(at != std::string::npos, "no ", key, " in ", text);
  const size_t d = text.find_first_of("-.0123456789in", at + key.size());
  size_t p = d;
  while (p < text.size() && !(isdigit(text[p]) || text[p] == '-')) p++;
  return strtod(text.c_str() + p, nullptr);
}

VP_PROP(histories, 20000, 400000) {
  static int case_number = 0;
  const std::string dir = vp::scratchDir();
  const std::string id = "n" + std::to_string(case_number++) + "_";  // timers outlive a reset: fresh names for every case
  std::vector<std::string> names;
  for (const char* k : {"", "a", "b", "other things", "x::y", "a much longer name than the others"}) names.push_back(id + k);
  Model m;
  Profiler::reset_and_preallocate(s.u(0, 4), s.u(0, 5));
  const auto value = [&] { return s.chance(1, 3) ? static_cast<double>(s.si(3)) : s.generic(-1e6, 1e6); };
  size_t recorded = 0, reports = 0, resets = 0;
  std::string written;
  const std::string file = dir + "/report";
  const auto selection = [&] {
    std::vector<std::string> sel;
    const size_t n = s.u(0, 5);
    for (size_t k = 0; k < n; k++) {
      if (s.chance(1, 8))
        sel.push_back("~~~~~");
      else if (s.chance(1, 6))
        sel.push_back("unknown");
      else
        sel.push_back(s.pick(names));
    }
    return sel;
  };
  const auto all_names = [&] {
    std::set<std::string> a;
    for (const auto& d : m.data) a.insert(d.first);
    for (const auto& t : m.timed) a.insert(t.first);
    return std::vector<std::string>(a.begin(), a.end());
  };
  // Names without any data (only possible through a reset or a query) may or may not be listed.
  const auto drop_empty = [&](std::string text) {
    std::string out;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
      bool empty = false;
      for (const auto& n : names) {
        const bool none = (!m.data.count(n) || m.data[n].empty()) && (!m.timed.count(n) || m.timed[n].empty());
        const auto r = rows("Label\n" + line + "\n");
        empty = empty || (none && r.size() == 1 && r[0].name == n);
      }
      if (!empty) out += line + "\n";
    }
    return out;
  };
  const auto nonempty = [&] {
    std::vector<std::string> out;
    for (const auto& n : all_names())
      if ((m.data.count(n) && !m.data[n].empty()) || (m.timed.count(n) && !m.timed[n].empty())) out.push_back(n);
    return out;
  };
  // New part of the report file; what was there before has to stay.
  const auto appended = [&] {
    const std::string text = slurp(file);
    VP_CHECK(text.compare(0, written.size(), written) == 0, "earlier reports in the file are lost");
    const std::string add = text.substr(written.size());
    written = text;
    VP_CHECK(add.size() > 19 && isdigit(add[0]) && add[4] == '-' && add[13] == ':', "report does not start with a date");
    return add;
  };
  s.repeat(3, s.chance(1, 200) ? 1500 : 40, [&] {
    const std::string name = s.pick(names);
    switch (s.choice(12)) {
      case 0:
      case 1: {
        const double lo = now();
        Profiler::startTimer(name);
        m.timers[name] = {lo, now(), true};
        break;
      }
      case 2:
      case 3: {
        const auto t = m.timers.find(name);
        if (t == m.timers.end()) {
          VP_THROWS(Profiler::record(name), "recorded a timer that was never started");
          break;
        }
        if (!t->second.certain) break;
        if (s.chance(1, 20)) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        const double before = now();
        const double e = Profiler::record(name);
        const double after = now();
        VP_CHECK(e >= before - t->second.hi - 1e-9 && e <= after - t->second.lo + 1e-9, "elapsed ", e, " not within [", before - t->second.hi, ", ", after - t->second.lo, "]");
        m.data[name].push_back(e);
        recorded++;
        break;
      }
      case 4:
      case 5: {
        const double v = s.chance(1, 10) ? s.anyDouble() : value();
        if (!std::isfinite(v) || std::fabs(v) > 1e9) vp::discard();
        Profiler::addData(name, v);
        m.data[name].push_back(v);
        recorded++;
        break;
      }
      case 6: {
        const double v = value();
        const auto t = m.timers.find(name);
        if (t != m.timers.end() && !t->second.certain) break;
        const double before = now();
        const double e = Profiler::recordDouble(name, v);
        const double after = now();
        if (t == m.timers.end())
          VP_CHECK(e == 0, "elapsed ", e, " of a timer that was never started");
        else
          VP_CHECK(e >= before - t->second.hi - 1e-9 && e <= after - t->second.lo + 1e-9, "elapsed ", e, " next to a value");
        m.timed[name].push_back({e, v});
        recorded++;
        break;
      }
      case 7: {
        const double lo = now();
        Profiler::reset(name);
        const double hi = now();
        auto t = m.timers.find(name);
        const bool had = m.data.count(name) || m.timed.count(name);
        resets += had;
        if (had && !((m.data.count(name) && m.data[name].empty()) && !m.timed.count(name)))
          m.timers[name] = {lo, hi, true};
        else if (t == m.timers.end())
          m.timers[name] = {lo, hi, false};
        else
          t->second.hi = hi;
        if (m.data.count(name)) m.data[name].clear();
        if (m.timed.count(name)) m.timed[name].clear();
        break;
      }
      case 8: {
        if (!s.chance(1, 4)) break;
        Profiler::reset_and_preallocate(s.u(0, 4), s.u(0, 5));
        m.data.clear();
        m.timed.clear();
        for (auto& t : m.timers) t.second.certain = false;  // whether timers survive is not documented
        for (const auto& n : names)
          if (!m.timers.count(n)) m.timers[n] = {0, 0, false};
        for (auto it = m.timers.begin(); it != m.timers.end();) it->second.lo == 0 ? it = m.timers.erase(it) : ++it;
        break;
      }
      case 9: {  // printed reports
        reports++;
        if (s.chance(1, 3)) {
          const std::string t = captured(dir + "/out", [&] { Profiler::printSingleSummary(name); });
          VP_CHECK(t.find(name) != std::string::npos, "summary does not name ", name);
          const auto d = m.data.find(name);
          if (d != m.data.end() && !d->second.empty()) {
            const auto& v = d->second;
            const double sum = total<double>(v, [](const double& x) { return x; });
            double scale = 0;
            for (double x : v) scale = std::max(scale, std::fabs(x));
            const std::string body = t.substr(t.find("Summary"));
            const double tol = 1e-5;
            VP_CHECK(number_after(body, "called") == static_cast<double>(v.size()), "number of calls in ", t);
            VP_CHECK(std::fabs(number_after(body, "total time") - sum) <= tol * std::fabs(sum) + 1e-9 * scale, "total in ", t, " of ", vp::show(v));
            VP_CHECK(vp::close(number_after(body, "min time"), *std::min_element(v.begin(), v.end()), tol), "minimum in ", t);
            VP_CHECK(vp::close(number_after(body, "max time"), *std::max_element(v.begin(), v.end()), tol), "maximum in ", t);
            const double mean = sum / static_cast<double>(v.size());
            VP_CHECK(std::fabs(number_after(body, "average") - mean) <= tol * std::fabs(mean) + 1e-9 * scale, "average in ", t);
          } else {
            VP_CHECK(t.find("never called") != std::string::npos || t.find("called 0") != std::string::npos, "summary of a name without data: ", t);
          }
        } else if (s.b()) {
          const auto sel = selection();
          check_summary(m, sel, true, captured(dir + "/out", [&] { Profiler::printGroupSummary(sel); }), false, "printed selection");
        } else {
          check_summary(m, nonempty(), false, drop_empty(captured(dir + "/out", [&] { Profiler::printAllSummary(); })), false, "printed summary");
        }
        break;
      }
      case 10: {
        reports++;
        if (s.b()) {
          const auto sel = selection();
          captured(dir + "/out", [&] { Profiler::writeGroupSummary(file, sel); });
          check_summary(m, sel, true, appended(), true, "written selection");
        } else {
          captured(dir + "/out", [&] { Profiler::writeAllSummary(file); });
          check_summary(m, nonempty(), false, drop_empty(appended()), true, "written summary");
        }
        break;
      }
      case 11: {
        reports++;
        const bool limited = s.chance(1, 3);
        const size_t limit = limited ? s.u(0, 4) : std::numeric_limits<size_t>::max();
        if (limited)
          Profiler::writeAll(file, limit);
        else
          Profiler::writeAll(file);
        std::map<std::string, std::vector<double>> data;
        std::map<std::string, std::vector<std::pair<double, double>>> timed;
        for (const Row& r : rows(appended())) {
          if (r.name.compare(0, 5, "~~~~~") == 0 || r.numbers.empty()) continue;
          VP_CHECK(r.numbers.size() <= 2, "row of ", r.name);
          if (r.numbers.size() == 1)
            data[r.name].push_back(r.numbers[0]);
          else
            timed[r.name].push_back({r.numbers[0], r.numbers[1]});
        }
        for (const auto& n : names) {
          const std::vector<double> want = m.data.count(n) && m.data[n].size() < limit ? m.data[n] : std::vector<double>();
          const auto wantT = m.timed.count(n) && m.timed[n].size() < limit ? m.timed[n] : std::vector<std::pair<double, double>>();
          bool ok = data[n].size() == want.size() && timed[n].size() == wantT.size();
          for (size_t k = 0; ok && k < want.size(); k++) ok = shown(data[n][k], want[k]);
          for (size_t k = 0; ok && k < wantT.size(); k++) ok = shown(timed[n][k].first, wantT[k].first) && shown(timed[n][k].second, wantT[k].second);
          VP_CHECK(ok, "written data of ", n, ": ", vp::show(data[n]), " instead of ", vp::show(want), " and ", timed[n].size(), " instead of ", wantT.size(), " values");
          data.erase(n);
          timed.erase(n);
        }
        VP_CHECK(data.empty() && timed.empty(), "data of unknown names was written");
        break;
      }
    }
    for (const auto& n : names) {
      const std::vector<double> got = Profiler::getData(n);
      const std::vector<double> want = m.data.count(n) ? m.data[n] : std::vector<double>();
      VP_CHECK(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](double a, double b) { return vp::sameBits(a, b); }), "data of ", n, ": ", vp::show(got), " instead of ", vp::show(want));
    }
  });
  s.nontrivialIf(recorded >= 4 && reports >= 1 && resets >= 1);
}

VP_PROP(stopwatches, 200000, 1000000) {
  // Any number of stop watches, each its own start; reading does not restart, resetting reads and restarts.
  struct W {
    Stopwatch w;
    double lo, hi;
  };
  std::vector<W> all;
  double glo = 0, ghi = 0;
  bool global = false;
  size_t n = 0, r = 0;
  s.repeat(3, 25, [&] {
    const double before = now();
    switch (s.choice(5)) {
      case 0: {
        Stopwatch w;
        all.push_back({w, before, now()});
        return;
      }
      case 1: {
        GlobalStopwatch(RESET);  // what a reset returns is not documented
        const double after = now();
        global = true;
        glo = before;
        ghi = after;
        return;
      }
      case 2: {
        const double e = s.b() ? GlobalStopwatch(READ) : GlobalStopwatch(), after = now();
        if (global) VP_CHECK(e >= before - ghi - 1e-9 && e <= after - glo + 1e-9, "global stopwatch ", e, " ", before - ghi, " ", after - glo);
        return;
      }
      default: {
        if (all.empty()) return;
        W& w = all[s.choice(all.size())];
        const bool reset = s.chance(1, 3);
        if (s.chance(1, 30)) std::this_thread::sleep_for(std::chrono::microseconds(300));
        const double b = now();
        const double e = reset ? w.w(RESET) : s.b() ? w.w(READ) : w.w();
        const double a = now();
        if (!reset) VP_CHECK(e >= b - w.hi - 1e-9 && e <= a - w.lo + 1e-9, "stopwatch ", e, " not within [", b - w.hi, ", ", a - w.lo, "]");
        if (reset) {
          w.lo = b;
          w.hi = a;
          r++;
        }
        n++;
      }
    }
  });
  s.nontrivialIf(n >= 3 && r >= 1);
}

VP_PROP(unwritable_report, 3000, 20000) {
  const std::string dir = vp::scratchDir();
  Profiler::reset_and_preallocate(0, 0);
  Profiler::addData("x", 1.0);
  const std::string file = dir + "/missing/report";
  switch (s.choice(3)) {
    case 0: VP_THROWS(Profiler::writeAll(file), "wrote to a folder that does not exist"); break;
    case 1: VP_THROWS(Profiler::writeAllSummary(file), "wrote to a folder that does not exist"); break;
    default: VP_THROWS(Profiler::writeGroupSummary(file, {"x"}), "wrote to a folder that does not exist"); break;
  }
  VP_CHECK(Profiler::getData("x") == std::vector<double>{1.0}, "data changed");
  s.nontrivial();
}

}  // namespace
