#include "vp.hpp"

#include <arc_utilities/base64_helpers.hpp>

using Bytes = std::vector<uint8_t>;
static const char* AB = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string reference(const Bytes& b) {
  std::string o;
  uint32_t acc = 0;
  int bits = 0;
  for (uint8_t x : b) {
    acc = (acc << 8) | x;
    bits += 8;
    while (bits >= 6) {
      bits -= 6;
      o.push_back(AB[(acc >> bits) & 63]);
    }
  }
  if (bits > 0) o.push_back(AB[(acc << (6 - bits)) & 63]);
  while (o.size() % 4) o.push_back('=');
  return o;
}

static Bytes data(vp::Src& s) {
  if (s.chance(1, 10)) {
    const size_t n = s.chance(1, 40) ? s.big(3000, 200000) : s.len(0, 3000);
    Bytes b(n);
    uint64_t z = s.bits64();
    for (auto& x : b) {
      z = z * 6364136223846793005ull + 1442695040888963407ull;
      x = static_cast<uint8_t>(z >> 56);
    }
    return b;
  }
  return s.bytes(50);
}

VP_PROP(encode_matches_rfc4648, 400000, 8000000) {
  const Bytes b = data(s);
  const Bytes keep = b;
  const std::string e = Base64Helpers::Encode(b);
  s.note(vp::show(Bytes(b.begin(), b.begin() + static_cast<long>(std::min<size_t>(30, b.size()))))).note(" -> ").note(e.substr(0, 60));
  VP_CHECK(e == reference(b), "got ", e, " expected ", reference(b));
  s.nontrivialIf(b.size() > 0);
  s.label(vp::cat("length mod 3 = ", b.size() % 3));
}

VP_PROP(decode_inverts_encode, 400000, 8000000) {
  const Bytes b = data(s);
  std::string e = reference(b);
  const uint64_t variant = s.choice(3);
  if (variant == 1)
    while (!e.empty() && e.back() == '=') e.pop_back();
  if (variant == 2)
    for (char& c : e) {
      if (c == '+') c = '-';
      if (c == '/') c = '_';
    }
  const Bytes d = Base64Helpers::Decode(e);
  s.note(e.substr(0, 60)).note(" variant ").note(variant);
  VP_CHECK(d == b, "decoded ", vp::show(d), " expected ", vp::show(b), " from ", e);
  VP_CHECK(Base64Helpers::Decode(Base64Helpers::Encode(b)) == b);
  s.nontrivialIf(b.size() > 0);
  s.label(vp::cat("variant ", variant, " mod ", b.size() % 3));
}

// Any text is decoded without touching memory out of bounds, deterministically and with a bounded result.
VP_PROP(decode_arbitrary_text, 400000, 8000000) {
  std::string t;
  const uint64_t cls = s.choice(4);
  const bool large = s.chance(1, 200);
  vp::Src bulk;
  if (large) s.detach(bulk);
  vp::Src& c = large ? bulk : s;
  const auto add = [&] {
    switch (cls) {
      case 0: t.push_back(static_cast<char>(c.choice(256))); break;
      case 1: t.push_back(AB[c.choice(64)]); break;
      case 2: t.push_back(c.chance(1, 3) ? '=' : AB[c.choice(64)]); break;
      default: t.push_back(static_cast<char>(128 + c.choice(128)));
    }
  };
  if (large)
    for (size_t n = s.big(40, 100000); n > 0; --n) add();
  else
    s.repeat(0, 40, add);
  t.shrink_to_fit();
  const Bytes d = Base64Helpers::Decode(t);
  VP_CHECK(d.size() <= (t.size() + 3) / 4 * 3, "decoded ", d.size(), " bytes from ", t.size(), " characters");
  VP_CHECK(Base64Helpers::Decode(t) == d);
  s.note(vp::show(Bytes(t.begin(), t.end())));
  s.nontrivialIf(t.size() > 1);
  s.label(vp::cat("class ", cls));
}
