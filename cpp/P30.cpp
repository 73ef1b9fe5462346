#include "vp.hpp"

#include <arc_utilities/log.hpp>

#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fstream>
#include <set>
#include <thread>

namespace {

using ::Log::Log;

// Silences the standard output while it lives (the library reports every directory it creates).
struct Quiet {
  int keep;
  Quiet() {
    std::cout.flush();
    std::cerr.flush();
    keep = dup(1);
    const int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    close(fd);
  }
  ~Quiet() {
    std::cout.flush();
    dup2(keep, 1);
    close(keep);
  }
};

std::string slurp(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
bool is_dir(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
bool is_file(const std::string& p) {
  struct stat st;
  return stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode);
}
bool is_date(const std::string& l) {
  const std::string form = "dddd-dd-dd dd:dd:dd";
  if (l.size() != form.size()) return false;
  for (size_t i = 0; i < l.size(); i++)
    if (form[i] == 'd' ? !isdigit(l[i]) : l[i] != form[i]) return false;
  return true;
}

std::string line(vp::Src& s) {
  switch (s.choice(6)) {
    case 0: return "";
    case 1: return std::string(s.u(1, 20000), static_cast<char>('a' + s.choice(26)));
    case 2: return s.str(12) + "%s %n %d \\";
    default: return s.str(40);
  }
}

struct File {
  std::string name;    // as given
  std::string full;    // absolute
  bool header = false;
  std::string body;    // expected content behind the header
};

void check_file(const File& f, const std::string& what) {
  const std::string got = slurp(f.full);
  std::string rest = got;
  if (f.header) {
    VP_CHECK(got.size() >= 20 && is_date(got.substr(0, 19)) && got[19] == '\n', what, ": no date at the start of ", f.name);
    rest = got.substr(20);
  }
  VP_CHECK(rest == f.body, what, ": ", f.name, " holds ", vp::cat("\"", rest.substr(0, 200), "\""), " (", rest.size(), " bytes) instead of ", vp::cat("\"", f.body.substr(0, 200), "\""), " (", f.body.size(), " bytes)");
}

VP_PROP(log_histories, 15000, 150000) {
  Quiet quiet;
  const std::string dir = vp::scratchDir();
  VP_CHECK(chdir(dir.c_str()) == 0, "harness: chdir");
  std::vector<File> files;
  struct L {
    std::unique_ptr<Log> log;
    size_t file;
  };
  std::vector<L> logs;
  const std::vector<std::string> names{"a.log", "./b.log", "sub/c.log", "sub/deep/er/d.log", dir + "/e.log", dir + "/abs/olute/f.log", "sub/../g/g.log", "noextension"};
  size_t written = 0, copies = 0;
  s.repeat(3, 25, [&] {
    const uint64_t op = s.choice(10);
    if (logs.empty() || op == 0) {  // a new log; re-opening truncates, which is only sensible once nobody logs to it
      const std::string name = s.pick(names);
      File f;
      f.name = name;
      f.full = name[0] == '/' ? name : dir + "/" + name;
      f.header = s.chance(1, 3);
      size_t k = 0;
      while (k < files.size() && files[k].name != name) k++;
      for (const L& l : logs)
        if (l.file == k) return;
      if (k == files.size())
        files.push_back(f);
      else
        files[k] = f;
      logs.push_back({std::unique_ptr<Log>(f.header ? new Log(name, true) : s.b() ? new Log(name) : new Log(name, false)), k});
      VP_CHECK(is_file(f.full), "no file ", f.full);
    } else {
      const size_t a = s.choice(logs.size()), b = s.choice(logs.size());
      L& l = logs[a];
      switch (op) {
        case 1:
          copies++;
          logs.push_back({std::unique_ptr<Log>(new Log(*l.log)), l.file});
          break;
        case 2: {
          std::unique_ptr<Log> moved(new Log(std::move(*l.log)));
          l.log = std::move(moved);
          break;
        }
        case 3:
          copies++;
          *l.log = *logs[b].log;
          l.file = logs[b].file;
          break;
        case 4:
          if (a == b) break;
          *l.log = std::move(*logs[b].log);
          l.file = logs[b].file;
          logs.erase(logs.begin() + static_cast<long>(b));
          break;
        case 5:
          if (logs.size() > 1) logs.erase(logs.begin() + static_cast<long>(a));
          break;
        default: {
          std::string text;
          const double x = s.generic(-100, 100);
          const int n = static_cast<int>(s.si(1000));
          std::ostringstream o;
          o << std::setprecision(12);
          switch (s.choice(5)) {
            case 0:
              text = line(s);
              ARC_LOG(*l.log, text);
              break;
            case 1:
              ARC_LOG_STREAM(*l.log, "x " << x << " n " << n << " " << line(s).size() * 0);
              o << "x " << x << " n " << n << " 0";
              text = o.str();
              break;
            case 2: {
              const bool on = s.b();
              ARC_LOG_COND(*l.log, on, x);
              if (!on) return;
              o << x;
              text = o.str();
              break;
            }
            case 3: {
              const bool on = s.b();
              ARC_LOG_COND_STREAM(*l.log, on, n << "," << x);
              if (!on) return;
              o << n << "," << x;
              text = o.str();
              break;
            }
            default:
              text = line(s);
              l.log->logMessage(text);
              break;
          }
          files[l.file].body += text + "\n";
          written++;
        }
      }
    }
    for (const File& f : files) check_file(f, "after a step");
  });
  logs.clear();
  for (const File& f : files) check_file(f, "at the end");
  VP_CHECK(chdir("/") == 0, "harness: chdir");
  s.nontrivialIf(written >= 3 && copies >= 1);
}

VP_PROP(log_threads, 1200, 20000) {
  Quiet quiet;
  const std::string dir = vp::scratchDir();
  const size_t T = s.u(2, 4), N = s.u(20, 200), L = s.pick(std::vector<size_t>{5, 100, 3000});
  {
    Log log(dir + "/t.log");
    std::vector<std::thread> th;
    for (size_t t = 0; t < T; t++)
      th.emplace_back([&, t] {
        for (size_t k = 0; k < N; k++) log.logMessage(std::to_string(t) + " " + std::to_string(k) + " " + std::string(L, static_cast<char>('a' + t)));
      });
    for (auto& t : th) t.join();
  }
  std::ifstream in(dir + "/t.log");
  std::string l;
  std::vector<size_t> next(T, 0);
  while (std::getline(in, l)) {
    size_t t = T, k = 0;
    std::istringstream is(l);
    std::string rest;
    is >> t >> k >> rest;
    VP_CHECK(t < T && rest == std::string(L, static_cast<char>('a' + t)) && l == std::to_string(t) + " " + std::to_string(k) + " " + rest, "torn line ", vp::cat("\"", l.substr(0, 200), "\""));
    VP_CHECK(k == next[t], "line ", k, " of thread ", t, " instead of ", next[t]);
    next[t]++;
  }
  for (size_t t = 0; t < T; t++) VP_CHECK(next[t] == N, "thread ", t, ": ", next[t], " of ", N, " lines");
  s.nontrivial();
}

// Layout of the scratch folder: which of the prefixes of a/b/c/d exist as folders, files or links.
VP_PROP(create_directory, 20000, 150000) {
  Quiet quiet;
  const std::string dir = vp::scratchDir();
  VP_CHECK(chdir(dir.c_str()) == 0, "harness: chdir");
  const size_t depth = s.chance(1, 40) ? s.u(6, 60) : s.u(1, 5), existing = s.u(0, depth);
  std::vector<std::string> parts;
  for (size_t k = 0; k < depth; k++) parts.push_back(s.chance(1, 5) ? "." : s.chance(1, 8) ? "with space" : s.chance(1, 30) ? std::string(s.u(100, 250), 'n') : std::string(1, static_cast<char>('a' + s.choice(3))));
  std::string path, made;
  bool blocked = false;
  for (size_t k = 0; k < depth; k++) {
    path += (k ? "/" : "") + parts[k];
    if (k >= existing || parts[k] == ".") continue;
    if (blocked) continue;
    if (s.chance(1, 6)) {
      std::ofstream(path) << "content";
      blocked = true;
      made = path;
    } else if (s.chance(1, 6)) {
      mkdir((dir + "/target" + std::to_string(k)).c_str(), 0755);
      VP_CHECK(symlink((dir + "/target" + std::to_string(k)).c_str(), path.c_str()) == 0, "harness: symlink");
    } else {
      mkdir(path.c_str(), 0755);
    }
  }
  std::string given = path;
  const uint64_t form = s.choice(4);
  if (form == 1) given += "/";
  if (form == 2) given = dir + "/" + path;
  if (form == 3) given = dir + "/" + path + "/";
  if (s.noting()) s.note(vp::cat(given, blocked ? " below the file " + made : ""));
  if (blocked) {
    VP_THROWS(arc_utilities::CreateDirectory(given), "created a directory at or below a file");
    VP_CHECK(slurp(made) == "content", "file in the way was changed");
  } else {
    arc_utilities::CreateDirectory(given);
    VP_CHECK(is_dir(path), "no directory ", path);
    std::ofstream(path + "/keep") << "x";
    arc_utilities::CreateDirectory(given);
    VP_CHECK(slurp(path + "/keep") == "x", "creating it again changed it");
  }
  VP_CHECK(chdir("/") == 0, "harness: chdir");
  s.nontrivialIf(depth - existing >= 2 || blocked);
}

VP_PROP(log_refused, 4000, 80000) {
  Quiet quiet;
  const std::string dir = vp::scratchDir();
  std::string name;
  switch (s.choice(3)) {
    case 0:  // the file is a directory
      name = dir + "/d";
      mkdir(name.c_str(), 0755);
      break;
    case 1:  // the parent is a file
      std::ofstream(dir + "/f") << "content";
      name = dir + "/f/log";
      break;
    default:
      std::ofstream(dir + "/f") << "content";
      name = dir + "/f/deeper/log";
  }
  const int keep = dup(2), fd = open("/dev/null", O_WRONLY);
  dup2(fd, 2);
  close(fd);
  bool threw = false;
  try {
    Log log(name, s.b());
  } catch (const std::exception&) {
    threw = true;
  }
  dup2(keep, 2);
  close(keep);
  VP_CHECK(threw, "log opened at ", name);
  VP_CHECK(!is_file(dir + "/f") || slurp(dir + "/f") == "content", "file in the way was changed");
  s.nontrivial();
}

}  // namespace
