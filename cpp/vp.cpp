#include "vp.hpp"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

extern "C" const char* __asan_default_options() {
  return "exitcode=78:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:"
         "detect_stack_use_after_return=0:handle_abort=0:symbolize=1:print_legend=0:malloc_context_size=6";
}
extern "C" const char* __ubsan_default_options() { return "exitcode=78:print_stacktrace=0"; }

namespace vp {

struct PropInfo {
  std::string name;
  size_t quick, thorough;
  PropFn fn;
};
static std::vector<PropInfo>& props() {
  static std::vector<PropInfo> p;
  return p;
}
Reg::Reg(const char* name, size_t quick, size_t thorough, PropFn fn) {
  props().push_back(PropInfo{name, quick, thorough, fn});
}

struct Stats {
  uint64_t cases = 0, discards = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  std::set<std::string> caseLabels;
};

static uint64_t mix(uint64_t& z) {
  z += 0x9e3779b97f4a7c15ull;
  uint64_t x = z;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

static const size_t CAP = 1u << 18;  // choices per case
struct Shared {
  uint64_t current;
  uint64_t nrec;
  uint64_t failed;
  char msg[8192];
  char note[8192];
  uint64_t rec[CAP];
};

uint64_t Src::choice(uint64_t n) {
  uint64_t v;
  if (mode_ == REPLAY) {
    v = pos_ < nreplay_ ? replay_[pos_] : 0;
    if (n != 0 && v >= n) v = v % n;
  } else {
    const uint64_t r = mix(rng_);
    v = n == 0 ? r : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * n) >> 64);
  }
  ++pos_;
  if (rec_) {
    if (*nrec_ >= cap_) throw Discard{};
    rec_[(*nrec_)++] = v;
  }
  hash_ = (hash_ ^ (v + 0x9e37u)) * 1099511628211ull;
  hash_ ^= hash_ >> 29;
  return v;
}

size_t Src::len(size_t lo, size_t hi) {
  if (hi <= lo) return lo;
  const size_t span = hi - lo;
  size_t lim;
  switch (choice(4)) {
    case 0: lim = std::min<size_t>(span, 3); break;
    case 1: lim = std::min<size_t>(span, 10); break;
    case 2: lim = std::max<size_t>(std::min<size_t>(span, 10), span / 8); break;
    default: lim = span;
  }
  return lo + static_cast<size_t>(choice(lim + 1));
}

size_t Src::big(size_t lo, size_t hi) {
  if (hi <= lo) return lo;
  size_t least = 0, most = 0;
  while (((lo + 1) >> least) > 1) ++least;
  while (((hi + 1) >> most) > 1) ++most;
  const size_t e = u(least, most), at = static_cast<size_t>(1) << e;
  const size_t v = chance(1, 3) ? at + u(0, 2) - 1 : at + static_cast<size_t>(choice(at));
  return std::min(hi, std::max(lo, v));
}

double Src::real(double lo, double hi) {
  const uint64_t k = choice(10);
  if (k == 0) return lo <= 0.0 && 0.0 <= hi ? 0.0 : lo;
  if (k == 1) {
    // a small integer or simple fraction inside the range
    const double den = static_cast<double>(static_cast<int64_t>(1) << choice(4));
    const double a = std::ceil(std::max(lo, -1e6) * den), z = std::floor(std::min(hi, 1e6) * den);
    if (z >= a) {
      const double c = std::min(std::max(0.0, a), z);
      const uint64_t m = static_cast<uint64_t>(std::min(z - a, 64.0));
      double v = c + static_cast<double>(si(static_cast<int64_t>(m)));
      v = std::min(std::max(v, a), z);
      return v / den;
    }
    return lo;
  }
  if (k == 2) return choice(2) ? hi : lo;
  const double f = static_cast<double>(choice(1ull << 53)) / static_cast<double>(1ull << 53);
  return std::min(hi, std::max(lo, lo + f * (hi - lo)));
}

double Src::anyDouble() {
  switch (choice(8)) {
    case 0: return static_cast<double>(si(1000));
    case 1: {
      static const double sp[] = {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(),
                                  -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
                                  std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(),
                                  std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(),
                                  std::numeric_limits<double>::epsilon()};
      return sp[choice(sizeof(sp) / sizeof(sp[0]))];
    }
    case 2:
    case 3:
    case 4: return real(-1e3, 1e3);
    default: {
      const uint64_t b = choice(0);
      double d;
      std::memcpy(&d, &b, 8);
      return d;
    }
  }
}

std::string Src::str(size_t max, bool binary) {
  std::string o;
  const uint64_t cls = binary ? choice(3) : choice(2);
  repeat(0, max, [&] {
    if (cls == 0) o.push_back(static_cast<char>('a' + choice(4)));
    else if (cls == 1) o.push_back(static_cast<char>(' ' + choice(95)));
    else o.push_back(static_cast<char>(choice(256)));
  });
  return o;
}

std::vector<uint8_t> Src::bytes(size_t max) {
  return list(0, max, [&] { return byte(); });
}

void Src::label(const std::string& l) {
  if (stats_) stats_->caseLabels.insert(l);
}

static std::string g_scratch = "/tmp/vp-scratch";

static void rmTree(const std::string& p) {
  // Only ever called on paths this engine created below its own scratch folder.
  if (g_scratch.empty() || p.compare(0, g_scratch.size(), g_scratch) != 0) return;
  struct stat st;
  if (lstat(p.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR* d = opendir(p.c_str())) {
      std::vector<std::string> names;
      while (dirent* e = readdir(d)) {
        const std::string n = e->d_name;
        if (n != "." && n != "..") names.push_back(n);
      }
      closedir(d);
      for (const auto& n : names) rmTree(p + "/" + n);
    }
    rmdir(p.c_str());
  } else {
    unlink(p.c_str());
  }
}

std::string scratchDir() {
  const std::string d = g_scratch + "/p" + std::to_string(getpid());
  rmTree(d);
  if (mkdir(d.c_str(), 0755) != 0) fail("harness: cannot create " + d);
  return d;
}

static const int CPU_LIMIT_S = 20;
static void armTimer() {
  itimerval t{};
  t.it_value.tv_sec = CPU_LIMIT_S;
  setitimer(ITIMER_PROF, &t, nullptr);
}

static void setMsg(char* dst, const std::string& m) {
  const size_t n = std::min<size_t>(m.size(), 8191);
  std::memcpy(dst, m.data(), n);
  dst[n] = 0;
}

enum class Outcome { PASS, FAIL, DISCARD };

static Outcome runOnce(const PropInfo& p, Src& s, Shared* sh) {
  sh->nrec = 0;
  s.rec_ = sh->rec;
  s.nrec_ = &sh->nrec;
  s.cap_ = CAP;
  armTimer();
  try {
    p.fn(s);
    return Outcome::PASS;
  } catch (const Discard&) {
    return Outcome::DISCARD;
  } catch (const Failure& f) {
    setMsg(sh->msg, f.msg);
  } catch (const std::exception& e) {
    setMsg(sh->msg, std::string("unexpected exception: ") + e.what());
  } catch (...) {
    setMsg(sh->msg, "unexpected exception of unknown type");
  }
  setMsg(sh->note, s.note_.str());
  return Outcome::FAIL;
}

static uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t index) {
  uint64_t h = 1469598103934665603ull ^ (seed * 0x9e3779b97f4a7c15ull);
  for (char c : name) h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ull;
  h ^= index * 0xd1342543de82ef95ull;
  mix(h);
  return h;
}

static void redirect(const std::string& file) {
  const int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) {
    dup2(fd, 1);
    dup2(fd, 2);
    ::close(fd);
  }
}

static std::string slurp(const std::string& f, size_t max = 4000) {
  std::ifstream in(f, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (s.size() > max) s = s.substr(s.size() - max);
  return s;
}

static std::string describeExit(int st, const std::string& errfile) {
  std::string o;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) return vp::cat("no answer within ", CPU_LIMIT_S, " s of CPU time (hang)");
    o = vp::cat("killed by signal ", WTERMSIG(st), " ");
  } else {
    o = vp::cat("exit code ", WEXITSTATUS(st), " ");
  }
  const std::string e = slurp(errfile, 200000);
  for (const char* key : {"Assertion", "SUMMARY", "runtime error", "terminate called"}) {
    const size_t k = e.find(key);
    if (k != std::string::npos) {
      const size_t a = e.rfind('\n', k) == std::string::npos ? 0 : e.rfind('\n', k) + 1;
      o += e.substr(a, e.find('\n', k) - a) + " ";
    }
  }
  return o;
}

struct Attempt {
  bool failed = false;
  std::string msg, note;
  std::vector<uint64_t> used;
};

static long rssMb(pid_t pid) {
  std::ifstream f("/proc/" + std::to_string(pid) + "/statm");
  long a = 0, r = 0;
  f >> a >> r;
  return r * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}
static const long RSS_LIMIT_MB = 3000;

// Runs body (whether the case failed) in a forked child.
template <typename Body>
static Attempt inChild(Shared* sh, const std::string& work, const Body& body) {
  Attempt a;
  sh->nrec = 0;
  sh->msg[0] = sh->note[0] = 0;
  const std::string err = work + "/attempt.err";
  const pid_t pid = fork();
  if (pid == 0) {
    redirect(err);
    const bool failed = body();
    _exit(failed ? 77 : 0);
  }
  int st = 0;
  bool oom = false;
  for (;;) {
    const pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (rssMb(pid) > RSS_LIMIT_MB) {
      oom = true;
      kill(pid, SIGKILL);
    }
    usleep(500);
  }
  a.used.assign(sh->rec, sh->rec + sh->nrec);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return a;
  a.failed = true;
  if (oom) a.msg = "memory use grew beyond 3 GB";
  else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) a.msg = sh->msg;
  else a.msg = describeExit(st, err);
  a.note = sh->note;
  return a;
}

// Runs one choice sequence.
static Attempt attempt(const PropInfo& p, const std::vector<uint64_t>& ch, Shared* sh, const std::string& work,
                       bool noting) {
  return inChild(sh, work, [&] {
    Src s;
    Stats st;
    s.stats_ = &st;
    s.mode_ = Src::REPLAY;
    s.replay_ = ch.data();
    s.nreplay_ = ch.size();
    s.noting_ = noting;
    return runOnce(p, s, sh) == Outcome::FAIL;
  });
}

// Several generated cases one after another in one process: what they leave behind in it is part of the input.
struct History {
  uint64_t seed, step, last, count;
};
static Attempt attempt(const PropInfo& p, const History& h, Shared* sh, const std::string& work) {
  return inChild(sh, work, [&] {
    for (uint64_t left = h.count; left-- > 0;) {
      Src s;
      Stats st;
      s.stats_ = &st;
      s.mode_ = Src::RANDOM;
      s.rng_ = caseSeed(h.seed, p.name, h.last - left * h.step);
      s.noting_ = left == 0;
      if (runOnce(p, s, sh) == Outcome::FAIL) return true;
    }
    return false;
  });
}

static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static double now() {
  timeval t;
  gettimeofday(&t, nullptr);
  return static_cast<double>(t.tv_sec) + 1e-6 * static_cast<double>(t.tv_usec);
}

static std::vector<uint64_t> shrink(const PropInfo& p, std::vector<uint64_t> best, Shared* sh, const std::string& work) {
  size_t budget = 1500;
  const double deadline = now() + 45.0;  // bounds only the quality of the reproduction
  auto tryIt = [&](const std::vector<uint64_t>& c) {
    if (budget == 0 || now() > deadline) return false;
    if (!simpler(c, best)) return false;
    --budget;
    Attempt a = attempt(p, c, sh, work, false);
    if (!a.failed) return false;
    best = simpler(a.used, c) ? a.used : c;
    return true;
  };
  bool progress = true;
  while (progress && budget > 0 && now() < deadline) {
    progress = false;
    for (size_t n = best.size() / 2; n >= 1; n /= 2) {
      std::vector<uint64_t> c(best.begin(), best.begin() + static_cast<long>(std::min(n, best.size())));
      if (tryIt(c)) progress = true;
      else break;
    }
    for (size_t k : {32u, 16u, 8u, 5u, 4u, 3u, 2u, 1u}) {
      for (size_t pos = best.size(); pos-- > 0;) {
        if (pos + k > best.size()) continue;
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + static_cast<long>(pos), c.begin() + static_cast<long>(pos + k));
        if (tryIt(c)) progress = true;
        if (budget == 0 || now() > deadline) return best;
      }
    }
    for (size_t pos = 0; pos < best.size(); ++pos) {
      if (best[pos] == 0) continue;
      std::vector<uint64_t> c = best;
      c[pos] = 0;
      if (tryIt(c)) {
        progress = true;
        continue;
      }
      // count-then-elements layouts: lower the count and drop an element after it
      if (best[pos] <= 64) {
        for (size_t k = 1; k <= 4; ++k) {
          if (pos + 1 + k > best.size()) break;
          c = best;
          c[pos] -= 1;
          c.erase(c.begin() + static_cast<long>(pos + 1), c.begin() + static_cast<long>(pos + 1 + k));
          if (tryIt(c)) {
            progress = true;
            break;
          }
        }
      }
      if (pos >= best.size()) break;
      uint64_t lo = 0, hi = best[pos];
      size_t steps = 0;
      while (lo + 1 < hi && steps++ < 24) {
        const uint64_t mid = lo + (hi - lo) / 2;
        if (pos >= best.size()) break;
        c = best;
        c[pos] = mid;
        if (tryIt(c)) {
          progress = true;
          hi = mid;
        } else {
          lo = mid;
        }
        if (budget == 0 || now() > deadline) return best;
      }
      if (budget == 0 || now() > deadline) return best;
    }
  }
  return best;
}

static std::string jsonStr(const std::string& s) {
  std::ostringstream o;
  o << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o << '\\' << c;
    else if (c == '\n') o << "\\n";
    else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o << b;
    } else o << c;
  }
  o << '"';
  return o.str();
}

static void writeReplay(const std::string& file, const std::string& prop, const std::string& input,
                        const std::string& msg, const std::string& note) {
  std::ofstream f(file);
  auto oneLine = [](std::string s) {
    for (char& ch : s)
      if (ch == '\n' || ch == '\r') ch = ' ';
    return s;
  };
  f << "# failure: " << oneLine(msg) << "\n# case: " << oneLine(note) << "\n";
  f << prop << "\n" << input << "\n";
}
static std::string replayText(const std::vector<uint64_t>& c) {
  std::ostringstream o;
  o << c.size() << "\n";
  for (uint64_t v : c) o << v << " ";
  return o.str();
}
static std::string replayText(const History& h) {
  std::ostringstream o;
  o << "history " << h.seed << " " << h.step << " " << h.last << " " << h.count;
  return o.str();
}

struct Result {
  std::string name;
  Stats st;
  uint64_t distinct = 0;
  uint64_t planned = 0;
  bool failed = false;
  bool flaky = false;
  std::string replay, msg, note;
};

static void workerMain(const PropInfo& p, uint64_t seed, size_t w, size_t W, size_t total, Shared* sh,
                       uint64_t* hashes, const std::string& work) {
  redirect(work + "/worker" + std::to_string(w) + ".err");
  Stats st;
  bool failed = false;
  for (size_t k = w; k < total; k += W) {
    sh->current = k;
    Src s;
    s.mode_ = Src::RANDOM;
    s.rng_ = caseSeed(seed, p.name, k);
    s.stats_ = &st;
    s.noting_ = st.samples.size() < 2;
    st.caseLabels.clear();
    const Outcome o = runOnce(p, s, sh);
    st.cases++;
    if (o == Outcome::DISCARD) {
      st.discards++;
      continue;
    }
    for (const auto& l : st.caseLabels) st.labels[l]++;
    if (s.nontrivial_) {
      st.nontrivial++;
      hashes[k] = s.hash_ | 1u;
      if (s.noting_ && !s.note_.str().empty()) st.samples.push_back(s.note_.str().substr(0, 600));
    }
    if (o == Outcome::FAIL) {
      failed = true;
      break;
    }
  }
  itimerval off{};
  setitimer(ITIMER_PROF, &off, nullptr);
  {
    std::ofstream f(work + "/worker" + std::to_string(w) + ".stats", std::ios::binary);
    f << st.cases << " " << st.discards << " " << st.nontrivial << " " << st.labels.size() << " " << st.samples.size()
      << "\n";
    for (const auto& l : st.labels) f << l.second << " " << l.first << "\n";
    for (const auto& t : st.samples) f << t.size() << "\n" << t << "\n";
  }
  _exit(failed ? 77 : 0);
}

static void mergeStats(Stats& into, const std::string& file) {
  std::ifstream f(file, std::ios::binary);
  uint64_t c = 0, d = 0, n = 0, nl = 0, ns = 0;
  if (!(f >> c >> d >> n >> nl >> ns)) return;
  into.cases += c;
  into.discards += d;
  into.nontrivial += n;
  std::string line;
  std::getline(f, line);
  for (uint64_t k = 0; k < nl; ++k) {
    uint64_t v;
    f >> v;
    f.get();
    std::getline(f, line);
    into.labels[line] += v;
  }
  for (uint64_t k = 0; k < ns; ++k) {
    size_t sz;
    f >> sz;
    f.get();
    std::string t(sz, 0);
    f.read(&t[0], static_cast<long>(sz));
    into.samples.push_back(t);
  }
}

static void* shared(size_t n) {
  void* m = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) {
    std::perror("mmap");
    std::exit(2);
  }
  return m;
}

static Result runProp(const PropInfo& p, uint64_t seed, size_t total, size_t W, const std::string& id,
                      const std::string& work, const std::string& replayDir, const char* self) {
  Result r;
  r.name = p.name;
  r.planned = total;
  std::vector<Shared*> sh(W);
  for (auto& x : sh) x = static_cast<Shared*>(shared(sizeof(Shared)));
  uint64_t* hashes = static_cast<uint64_t*>(shared(sizeof(uint64_t) * (total + 1)));
  std::vector<pid_t> pids(W);
  for (size_t w = 0; w < W; ++w) {
    unlink((work + "/worker" + std::to_string(w) + ".stats").c_str());
    pids[w] = fork();
    if (pids[w] == 0) workerMain(p, seed, w, W, total, sh[w], hashes, work);
  }
  size_t alive = W;
  std::vector<bool> done(W, false), oom(W, false);
  int failedWorker = -1;
  int failStatus = 0;
  size_t ticks = 0;
  while (alive > 0) {
    bool any = false;
    for (size_t w = 0; w < W; ++w) {
      if (done[w]) continue;
      int st = 0;
      if (waitpid(pids[w], &st, WNOHANG) == pids[w]) {
        any = true;
        done[w] = true;
        --alive;
        const bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (bad && failedWorker < 0) {
          failedWorker = static_cast<int>(w);
          failStatus = st;
          for (size_t v = 0; v < W; ++v)
            if (!done[v]) kill(pids[v], SIGKILL);
        }
      } else if (ticks % 20 == 0 && rssMb(pids[w]) > RSS_LIMIT_MB) {
        oom[w] = true;
        kill(pids[w], SIGKILL);
      }
    }
    ++ticks;
    if (!any) usleep(2000);
  }
  for (size_t w = 0; w < W; ++w) mergeStats(r.st, work + "/worker" + std::to_string(w) + ".stats");
  {
    std::vector<uint64_t> h;
    for (size_t k = 0; k < total; ++k)
      if (hashes[k]) h.push_back(hashes[k]);
    std::sort(h.begin(), h.end());
    r.distinct = static_cast<uint64_t>(std::unique(h.begin(), h.end()) - h.begin());
  }
  if (failedWorker >= 0) {
    Shared* f = sh[static_cast<size_t>(failedWorker)];
    std::vector<uint64_t> c(f->rec, f->rec + f->nrec);
    const bool isMsg = WIFEXITED(failStatus) && WEXITSTATUS(failStatus) == 77;
    std::string msg = isMsg ? std::string(f->msg)
                            : oom[static_cast<size_t>(failedWorker)]
                                  ? std::string("memory use grew beyond 3 GB")
                                  : describeExit(failStatus, work + "/worker" + std::to_string(failedWorker) + ".err");
    std::cout << "  " << p.name << ": case " << f->current << " failed (" << msg << "), shrinking" << std::endl;
    mkdir(replayDir.c_str(), 0755);
    const std::string file = replayDir + "/" + id + "-" + p.name + ".replay";
    auto confirm = [&](const Attempt& a, const std::string& input) {
      if (!a.failed) return false;
      writeReplay(file, p.name, input, a.msg, a.note);
      r.msg = a.msg;
      r.note = a.note;
      for (int k = 0; k < 3; ++k) {
        const std::string cmd = std::string(self) + " --replay " + file + " --work " + work + " >/dev/null 2>&1";
        const int st = std::system(cmd.c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
      }
      return true;
    };
    const uint64_t failedCase = f->current;
    std::vector<uint64_t> small = shrink(p, c, f, work);
    r.failed = confirm(attempt(p, small, f, work, true), replayText(small)) || confirm(attempt(p, c, f, work, true), replayText(c));
    if (!r.failed) {
      // the case alone passes: does it fail after the cases that ran before it in the same process?
      History h{seed, W, failedCase, failedCase / W + 1};
      if (h.count > 1 && attempt(p, h, f, work).failed) {
        const double deadline = now() + 60.0;
        for (uint64_t n = 2; n < h.count && now() < deadline; n *= 2) {
          const History shorter{seed, W, failedCase, n};
          if (attempt(p, shorter, f, work).failed) {
            h = shorter;
            break;
          }
        }
        r.failed = confirm(attempt(p, h, f, work), replayText(h));
      }
    }
    if (r.failed) {
      r.replay = file;
    } else {
      r.flaky = true;
      r.msg = msg;
      std::cout << "  " << p.name << ": did not fail again on replay; not reported" << std::endl;
    }
  }
  for (auto x : sh) munmap(x, sizeof(Shared));
  munmap(hashes, sizeof(uint64_t) * (total + 1));
  return r;
}

static int replayMain(const std::string& file, const std::string& work) {
  std::ifstream f(file);
  std::string line, name;
  while (std::getline(f, line))
    if (!line.empty() && line[0] != '#') {
      name = line;
      break;
    }
  std::string kind;
  f >> kind;
  History h{};
  std::vector<uint64_t> c;
  if (kind == "history") {
    f >> h.seed >> h.step >> h.last >> h.count;
  } else {
    c.resize(std::strtoull(kind.c_str(), nullptr, 10));
    for (auto& v : c) f >> v;
  }
  for (const auto& p : props()) {
    if (p.name != name) continue;
    Shared* sh = static_cast<Shared*>(shared(sizeof(Shared)));
    Attempt a = kind == "history" ? attempt(p, h, sh, work) : attempt(p, c, sh, work, true);
    if (a.failed) {
      std::cout << "FAILED " << name << "\n  case: " << a.note << "\n  " << a.msg << std::endl;
      return 1;
    }
    std::cout << "passed " << name << std::endl;
    return 0;
  }
  std::cerr << "no property " << name << std::endl;
  return 2;
}

}  // namespace vp

int main(int argc, char** argv) {
  using namespace vp;
  std::string id = "X", out, replay, replayDir = "replays", only, work = "/tmp/vp-work";
  uint64_t seed = 1;
  bool thorough = false;
  size_t workers = 8;
  double scale = 1.0;
  for (int k = 1; k < argc; ++k) {
    const std::string a = argv[k];
    auto next = [&] { return std::string(k + 1 < argc ? argv[++k] : ""); };
    if (a == "--id") id = next();
    else if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--thorough") thorough = true;
    else if (a == "--out") out = next();
    else if (a == "--replay") replay = next();
    else if (a == "--replays") replayDir = next();
    else if (a == "--only") only = next();
    else if (a == "--work") work = next();
    else if (a == "--workers") workers = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--scale") scale = std::atof(next().c_str());
  }
  mkdir(work.c_str(), 0755);
  g_scratch = work + "/scratch";
  mkdir(g_scratch.c_str(), 0755);
  if (!replay.empty()) return replayMain(replay, work);
  std::vector<Result> results;
  bool bad = false;
  for (const auto& p : props()) {
    if (!only.empty() && p.name != only) continue;
    const double t0 = now();
    const size_t total =
        std::max<size_t>(1, static_cast<size_t>(scale * static_cast<double>(thorough ? p.thorough : p.quick)));
    Result r = runProp(p, seed, total, workers, id, work, replayDir, argv[0]);
    std::cout << "  " << p.name << ": " << r.st.cases << " cases, " << r.distinct << " distinct non-trivial, "
              << r.st.discards << " discarded, " << (now() - t0) << " s" << std::endl;
    if (!only.empty())
      for (const auto& l : r.st.labels) std::cout << "      " << l.second << " " << l.first << "\n";
    if (r.failed) {
      bad = true;
      std::cout << "  " << p.name << " FAILED: " << r.msg << "\n    case: " << r.note << std::endl;
    }
    results.push_back(std::move(r));
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"props\":[";
    for (size_t k = 0; k < results.size(); ++k) {
      const Result& r = results[k];
      if (k) f << ",";
      f << "{\"name\":" << jsonStr(r.name) << ",\"planned\":" << r.planned << ",\"cases\":" << r.st.cases
        << ",\"discards\":" << r.st.discards << ",\"nontrivial\":" << r.st.nontrivial << ",\"distinct\":" << r.distinct
        << ",\"failed\":" << (r.failed ? "true" : "false") << ",\"flaky\":" << (r.flaky ? "true" : "false")
        << ",\"replay\":" << jsonStr(r.replay) << ",\"msg\":" << jsonStr(r.msg) << ",\"note\":" << jsonStr(r.note)
        << ",\"labels\":{";
      bool first = true;
      for (const auto& l : r.st.labels) {
        if (!first) f << ",";
        first = false;
        f << jsonStr(l.first) << ":" << l.second;
      }
      f << "},\"samples\":[";
      for (size_t m = 0; m < r.st.samples.size() && m < 4; ++m) {
        if (m) f << ",";
        f << jsonStr(r.st.samples[m]);
      }
      f << "]}";
    }
    f << "]}\n";
  }
  return bad ? 1 : 0;
}
