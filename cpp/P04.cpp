#include "vp.hpp"

#include <arc_utilities/zlib_helpers.hpp>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>

#include <fstream>

using Bytes = std::vector<uint8_t>;
static const size_t MB = 1024 * 1024;

static uint64_t next(uint64_t& z) {
  z += 0x9e3779b97f4a7c15ull;
  uint64_t x = z;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

// Content as a function of a size, a kind and a seed, all drawn from the source.
static Bytes content(vp::Src& s, size_t n) {
  Bytes b(n);
  uint64_t z = s.choice(1u << 20);
  const uint64_t kind = s.choice(4);
  s.label(vp::cat("content ", kind));
  if (kind == 0) {
    std::fill(b.begin(), b.end(), static_cast<uint8_t>(z));
  } else if (kind == 1) {
    for (auto& x : b) x = static_cast<uint8_t>(next(z));
  } else if (kind == 2) {  // runs
    size_t k = 0;
    while (k < n) {
      const uint8_t v = static_cast<uint8_t>(next(z));
      size_t run = 1 + next(z) % 300;
      while (run-- && k < n) b[k++] = v;
    }
  } else {  // text-like
    for (auto& x : b) x = static_cast<uint8_t>("abcdefgh"[next(z) % 8]);
  }
  return b;
}

static Bytes smallContent(vp::Src& s) {
  if (s.b()) return s.bytes(40);
  return content(s, s.len(0, 5000));
}

static bool zlibDecode(const Bytes& c, Bytes& out, size_t expect) {
  out.assign(expect + 64, 0);
  uLongf n = out.size();
  const int r = uncompress(out.data(), &n, c.data(), c.size());
  out.resize(r == Z_OK ? n : 0);
  return r == Z_OK;
}

static void both(vp::Src& s, const Bytes& data) {
  const Bytes keep = data;
  const Bytes c = ZlibHelpers::CompressBytes(data);
  VP_CHECK(keep == data);
  const Bytes back = ZlibHelpers::DecompressBytes(c);
  VP_CHECK(back.size() == data.size(), "size ", back.size(), " of ", data.size());
  VP_CHECK(back == data, "content differs, size ", data.size());
  // The stream is a plain zlib stream ...
  Bytes ref;
  VP_CHECK(zlibDecode(c, ref, data.size()), "zlib itself rejects the compressed stream of ", data.size(), " bytes");
  VP_CHECK(ref == data);
  // ... and any other encoder's stream is understood.
  Bytes other(compressBound(data.size()));
  uLongf n = other.size();
  const int level = static_cast<int>(s.choice(10));
  if (compress2(other.data(), &n, data.data(), data.size(), level) != Z_OK) vp::fail("harness: compress2");
  other.resize(n);
  VP_CHECK(ZlibHelpers::DecompressBytes(other) == data, "stream compressed at level ", level);
}

VP_PROP(round_trip_small, 13000, 210000) {
  const Bytes d = smallContent(s);
  s.note(d.size()).note(" bytes ").note(vp::show(Bytes(d.begin(), d.begin() + static_cast<long>(std::min<size_t>(d.size(), 24)))));
  both(s, d);
  s.nontrivialIf(d.size() > 1);
}

// Sizes at and around multiples of the internal buffer, on the plain and on the compressed side.
VP_PROP(round_trip_buffer_boundaries, 240, 4000) {
  size_t n;
  const uint64_t k = s.choice(3);
  uint64_t z = s.choice(1u << 20);
  if (k == 0) {  // decompressed size at a buffer boundary
    n = (1 + s.choice(3)) * MB + s.choice(5) - 2;
    s.label("plain size at boundary");
    Bytes d = content(s, n);
    s.note("plain size ").note(n);
    both(s, d);
  } else if (k == 1) {  // incompressible: compressed size sweeps over a buffer boundary
    n = MB - 326 + static_cast<size_t>(s.choice(161)) - 80;
    s.label("compressed size at boundary");
    Bytes d(n);
    for (auto& x : d) x = static_cast<uint8_t>(next(z));
    s.note("incompressible size ").note(n);
    both(s, d);
  } else {
    n = static_cast<size_t>(s.choice(3 * MB));
    Bytes d = content(s, n);
    s.note("size ").note(n);
    both(s, d);
  }
  s.nontrivial();
}

// Truncation is always an error.
VP_PROP(truncated_streams_are_errors, 16000, 260000) {
  const Bytes d = smallContent(s);
  Bytes c = ZlibHelpers::CompressBytes(d);
  const size_t cut = static_cast<size_t>(s.choice(c.size()));  // keep 0 .. size-1 bytes
  c.resize(cut);
  s.note("plain ").note(d.size()).note(" kept ").note(cut).note(" bytes");
  VP_THROWS(ZlibHelpers::DecompressBytes(c), "plain ", d.size(), " kept ", cut);
  s.nontrivialIf(cut > 2);
}

// Damage is an error exactly when zlib's own integrity check says so; otherwise the content is what zlib says.
VP_PROP(damaged_streams_are_errors, 12000, 200000) {
  const Bytes d = smallContent(s);
  Bytes c = ZlibHelpers::CompressBytes(d);
  const uint64_t edits = 1 + s.choice(3);
  for (uint64_t k = 0; k < edits; ++k) {
    // the last bytes hold the checksum, the first the header
    size_t at;
    switch (s.choice(3)) {
      case 0: at = c.size() - 1 - static_cast<size_t>(s.choice(std::min<size_t>(6, c.size()))); break;
      case 1: at = static_cast<size_t>(s.choice(std::min<size_t>(3, c.size()))); break;
      default: at = static_cast<size_t>(s.choice(c.size()));
    }
    c[at] = static_cast<uint8_t>(c[at] ^ (1 + s.choice(255)));
  }
  Bytes ref;
  const bool ok = zlibDecode(c, ref, d.size() + 100000);
  s.note("plain ").note(d.size()).note(" edits ").note(edits).note(ok ? " still intact" : " broken");
  s.label(ok ? "intact" : "broken");
  if (ok) {
    VP_CHECK(ZlibHelpers::DecompressBytes(c) == ref);
  } else {
    VP_THROWS(ZlibHelpers::DecompressBytes(c), "plain ", d.size());
    s.nontrivial();
  }
}

// Arbitrary bytes, some starting like a real stream.
VP_PROP(arbitrary_bytes_never_crash, 12000, 300000) {
  Bytes c;
  if (s.b()) c = Bytes{0x78, 0x01};
  const Bytes tail = s.bytes(60);
  c.insert(c.end(), tail.begin(), tail.end());
  Bytes ref;
  const bool ok = zlibDecode(c, ref, 1 << 20);
  s.note(vp::show(c));
  bool threw = false;
  Bytes got;
  try {
    got = ZlibHelpers::DecompressBytes(c);
  } catch (const std::exception&) {
    threw = true;
  }
  VP_CHECK(threw == !ok, "threw ", threw, " zlib ok ", ok);
  if (ok) VP_CHECK(got == ref);
  s.nontrivialIf(c.size() > 2);
}

static Bytes readAll(const std::string& f) {
  std::ifstream in(f, std::ios::binary);
  return Bytes((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
}
static void writeAll(const std::string& f, const Bytes& b) {
  std::ofstream o(f, std::ios::binary);
  o.write(reinterpret_cast<const char*>(b.data()), static_cast<long>(b.size()));
}

VP_PROP(files, 1600, 20000) {
  const std::string dir = vp::scratchDir();
  const std::string f = dir + "/data.z";
  const Bytes old = s.chance(1, 3) ? content(s, s.len(0, 20000)) : Bytes();
  if (!old.empty()) ZlibHelpers::CompressAndWriteToFile(old, f);  // overwritten below
  const Bytes d = s.chance(1, 40) ? content(s, static_cast<size_t>(s.choice(3 * MB))) : smallContent(s);
  ZlibHelpers::CompressAndWriteToFile(d, f);
  VP_CHECK(ZlibHelpers::LoadFromFileAndDecompress(f) == d, "file round trip of ", d.size(), " over ", old.size());
  VP_CHECK(readAll(f) == ZlibHelpers::CompressBytes(d), "the file holds something else than the compressed bytes");
  s.note("file of ").note(d.size()).note(" bytes; ");
  switch (s.choice(6)) {
    case 0: {  // truncated file
      Bytes c = readAll(f);
      c.resize(static_cast<size_t>(s.choice(c.size())));
      writeAll(f, c);
      VP_THROWS(ZlibHelpers::LoadFromFileAndDecompress(f), "truncated file");
      s.note("truncated");
      s.label("truncated");
      break;
    }
    case 1:
      VP_THROWS(ZlibHelpers::LoadFromFileAndDecompress(dir + "/missing.z"));
      VP_THROWS(ZlibHelpers::LoadFromFileAndDecompress(dir));
      s.note("missing");
      s.label("missing");
      break;
    case 2:
      VP_THROWS(ZlibHelpers::CompressAndWriteToFile(d, dir + "/nodir/x.z"));
      s.note("no such directory");
      s.label("no directory");
      break;
    case 3: {  // a file stored as slices
      const size_t parts = 1 + static_cast<size_t>(s.choice(12));
      Bytes all;
      for (size_t k = 0; k < parts; ++k) {
        const Bytes p = s.bytes(30);
        ZlibHelpers::CompressAndWriteToFile(p, dir + "/sliced." + std::to_string(k));
        all.insert(all.end(), p.begin(), p.end());
      }
      VP_CHECK(ZlibHelpers::LoadFromFileAndDecompress(dir + "/sliced") == all, parts, " slices");
      s.note(parts).note(" slices");
      s.label("slices");
      break;
    }
    case 4:  // a full device
      VP_THROWS(ZlibHelpers::CompressAndWriteToFile(d, "/dev/full"), "writing ", d.size(), " bytes to a full device");
      s.note("full device");
      s.label("full device");
      break;
    default: break;
  }
  s.nontrivial();
}
