// C28: QUIC packet protection (secrets, keys, sealing and header masks) follows the
// specification for every cipher suite.
#include "util.hpp"

#include <bnl/quic/crypto.hpp>

#include <ref/crypto.hpp>

using namespace util;
using bnl::base::buffer_view;
using bnl::base::buffer_view_mut;
using bnl::quic::crypto;
using raw = ref::crypto::bytes;

namespace {

const crypto::aead AEADS[] = { crypto::aead::aes_128_gcm, crypto::aead::aes_256_gcm, crypto::aead::chacha20_poly1305 };
const crypto::hash HASHES[] = { crypto::hash::sha256, crypto::hash::sha384 };

raw
unhex(const char *s)
{
  raw out;
  for (; s[0] != 0 && s[1] != 0; s += 2) {
    unsigned v = 0;
    sscanf(s, "%2x", &v);
    out.push_back(static_cast<uint8_t>(v));
  }
  return out;
}

// Distinct bytes, so that no part of a key or secret can stand in for another.
raw
pattern(size_t size, int kind)
{
  raw out(size);
  for (size_t i = 0; i < size; i++) {
    switch (kind) {
      case 0:
        out[i] = static_cast<uint8_t>(i * 7 + 1);
        break;
      case 1:
        out[i] = 0;
        break;
      default:
        out[i] = static_cast<uint8_t>(0xff - 3 * i);
        break;
    }
  }
  return out;
}

buffer_view
view(const raw &b)
{
  return buffer_view(b.data(), b.size());
}

std::string
show(const raw &b)
{
  return mc::hex(std::string(b.begin(), b.end()), 48);
}

template<class B>
raw
bytes_of(const B &b)
{
  return raw(b.data(), b.data() + b.size());
}

// Compares a result of the code with what the specification defines.
void
same(const char *key, const char *what, const bnl::quic::result<buffer> &got, const std::optional<raw> &expected)
{
  mc::step();
  if (!expected) {
    MC_CHECK(!got && got.error() == bnl::quic::error::crypto, key, "%s: no output of that size exists, but no error",
             what);
    return;
  }
  MC_CHECK(got.has_value(), key, "%s: failed", what);
  raw b = bytes_of(got.value());
  MC_CHECK(b == *expected, key, "%s: got %s, the specification defines %s", what, show(b).c_str(),
           show(*expected).c_str());
  mc::outcome(mc::hasher().add(b.size()).add(b.empty() ? 0 : b[0]).h);
}

void
check_key(crypto &c, int aead, int hash, const raw &secret)
{
  auto key = c.packet_protection_key(view(secret));
  mc::step();
  auto data = ref::crypto::expand_label(hash, secret, "quic key", ref::crypto::key_size(aead));
  auto iv = ref::crypto::expand_label(hash, secret, "quic iv", 12);
  auto hp = ref::crypto::expand_label(hash, secret, "quic hp", ref::crypto::key_size(aead));
  MC_CHECK(key.has_value(), "key", "no packet protection key for secret %s", show(secret).c_str());
  // Both as an owner and as a view of it.
  for (int as = 0; as < 2; as++) {
    crypto::key_view v = key.value();
    raw d = as == 0 ? bytes_of(key.value().data()) : bytes_of(v.data());
    raw i = as == 0 ? bytes_of(key.value().iv()) : bytes_of(v.iv());
    raw h = as == 0 ? bytes_of(key.value().hp()) : bytes_of(v.hp());
    MC_CHECK(d == *data, "key", "key %s, not %s", show(d).c_str(), show(*data).c_str());
    MC_CHECK(i == *iv, "iv", "iv %s, not %s", show(i).c_str(), show(*iv).c_str());
    MC_CHECK(h == *hp, "hp", "hp %s, not %s", show(h).c_str(), show(*hp).c_str());
  }
}

void
vectors()
{
  // RFC 9001 A.1 and A.5: same derivation, the salt is an argument. Both the code
  // and the oracle have to agree with them.
  int which = mc::choose(4, "vector");
  raw dcid = unhex("8394c8f03e515708");
  raw salt = unhex("38762cf7f55934b34d179ae6a4c80cadccbb7f0a");
  raw initial = unhex("7db5df06e7a69e432496adedb00851923595221596ae2ae9fb8115c1e9ed0a44");
  raw client = unhex("c00cf151ca5be075ed0ebfb5c80323c42d6b7db67881289af4008f1f6c357aea");
  raw server = unhex("3c199828fd139efd216c155ad844cc81fb82fa8d7446fa7d78be803acdda951b");
  crypto c;
  MC_CHECK(ref::crypto::extract(0, dcid, salt) == initial, "oracle", "the oracle disagrees with RFC 9001 A.1");
  MC_CHECK(ref::crypto::expand_label(0, initial, "client in", 32) == client, "oracle", "oracle: A.1 client");
  MC_CHECK(ref::crypto::expand_label(0, initial, "server in", 32) == server, "oracle", "oracle: A.1 server");
  if (which == 0) {
    same("vector", "initial secret of RFC 9001 A.1", c.initial_secret(view(dcid), view(salt)), initial);
    same("vector", "client secret of RFC 9001 A.1", c.client_initial_secret(view(initial)), client);
    same("vector", "server secret of RFC 9001 A.1", c.server_initial_secret(view(initial)), server);
    return;
  }
  const char *secrets[] = { "", "c00cf151ca5be075ed0ebfb5c80323c42d6b7db67881289af4008f1f6c357aea",
                            "3c199828fd139efd216c155ad844cc81fb82fa8d7446fa7d78be803acdda951b",
                            "9ac312a7f877468ebe69422748ad00a15443f18203a07d6060f688f30f21632b" };
  const char *keys[] = { "", "1f369613dd76d5467730efcbe3b1a22d", "cf3a5331653c364c88f0f379b6067e37",
                         "c6d98ff3441c3fe1b2182094f69caa2ed4b716b65488960a7a984979fb23e1c8" };
  const char *ivs[] = { "", "fa044b2f42a3fd3b46fb255c", "0ac1493ca1905853b0bba03e", "e0459b3474bdd0e44a41c144" };
  const char *hps[] = { "", "9f50449e04a0e810283a1e9933adedd2", "c206b8d9b9f0f37644430b490eeaa314",
                        "25a282b9e82f06f21f488917a4fc8f1b73573685608597d0efcb076b0ab7a7a4" };
  const char *samples[] = { "", "d1b1c98dd7689fb8ec11d242b123dc9b", "2cd0991cd25b0aac406a5816b6394100",
                            "5e5cd55c41f69080575d7999c25a5bfb" };
  const char *masks[] = { "", "437b9aec36", "2ec0d8356a", "aefefe7d03" };
  int aead = which == 3 ? 2 : 0;
  crypto suite(AEADS[aead], crypto::hash::sha256);
  auto key = suite.packet_protection_key(view(unhex(secrets[which])));
  MC_CHECK(key.has_value(), "vector", "no key");
  MC_CHECK(bytes_of(key.value().data()) == unhex(keys[which]), "vector", "wrong key");
  MC_CHECK(bytes_of(key.value().iv()) == unhex(ivs[which]), "vector", "wrong iv");
  MC_CHECK(bytes_of(key.value().hp()) == unhex(hps[which]), "vector", "wrong hp");
  raw sample = unhex(samples[which]);
  MC_CHECK(ref::crypto::mask(aead, unhex(hps[which]), sample) == unhex(masks[which]), "oracle", "oracle: mask");
  raw out(16, 0xa5);
  auto r = suite.hp_mask(buffer_view_mut(out.data(), out.size()), key.value().hp(), view(sample));
  out.resize(5);
  MC_CHECK(r.has_value() && out == unhex(masks[which]), "vector", "header mask %s, RFC 9001 says %s",
           show(out).c_str(), masks[which]);
  mc::step(2);
}

void
secrets()
{
  int aead = mc::choose(3, "aead");
  int hash = mc::choose(2, "hash");
  int kind = mc::choose(3, "pattern");
  size_t size = static_cast<size_t>(mc::choose(mc::thorough() ? 65 : 21, "connection id size"));
  size_t salt_size = mc::pick(std::vector<size_t>{ 0, 1, 20, 64, 65, 128, 129, 200 }, "salt size");
  raw dcid = pattern(size, kind), salt = pattern(salt_size, 2 - kind);
  crypto c(AEADS[aead], HASHES[hash]);
  MC_CHECK(c.aead_overhead() == 16, "overhead", "overhead %zu", c.aead_overhead());
  same("initial", "initial secret", c.initial_secret(view(dcid), view(salt)), ref::crypto::extract(hash, dcid, salt));
  raw secret = ref::crypto::extract(hash, dcid, salt);
  size_t n = ref::crypto::digest(hash);
  same("client", "client initial secret", c.client_initial_secret(view(secret)),
       ref::crypto::expand_label(hash, secret, "client in", n));
  same("server", "server initial secret", c.server_initial_secret(view(secret)),
       ref::crypto::expand_label(hash, secret, "server in", n));
  raw current = secret;
  for (int i = 0; i < (mc::thorough() ? 8 : 3); i++) {
    check_key(c, aead, hash, current);
    raw next = *ref::crypto::expand_label(hash, current, "traffic upd", current.size());
    same("update", "updated secret", c.update_secret(view(current)), next);
    current = next;
  }
  mc::state(mc::hasher().add(aead).add(hash).add(kind).add(size).add(salt_size).h);
}

void
sizes()
{
  int aead = mc::choose(3, "aead");
  int hash = mc::choose(2, "hash");
  int band = mc::choose(5, "band");
  // Every secret size of one byte and around every place where the length or the
  // number of blocks changes.
  std::vector<size_t> all;
  if (band == 0) {
    for (size_t i = 1; i <= 140; i++) {
      all.push_back(i);
    }
  } else if (band == 1) {
    for (size_t i = 240; i <= 275; i++) {
      all.push_back(i);
    }
  } else if (band == 2) {
    for (size_t i = 500; i <= 530; i++) {
      all.push_back(i);
    }
  } else if (band == 3) {
    for (size_t i = 1010; i <= 1030; i++) {
      all.push_back(i);
    }
  } else {
    size_t limit = 255 * ref::crypto::digest(hash);
    for (size_t i = limit - 3; i <= limit + 3; i++) {
      all.push_back(i);
    }
  }
  size_t size = mc::pick(all, "secret size");
  crypto c(AEADS[aead], HASHES[hash]);
  raw secret = pattern(size, 0);
  same("update", "updated secret", c.update_secret(view(secret)),
       ref::crypto::expand_label(hash, secret, "traffic upd", size));
  check_key(c, aead, hash, secret);
  size_t n = ref::crypto::digest(hash);
  same("client", "client initial secret", c.client_initial_secret(view(secret)),
       ref::crypto::expand_label(hash, secret, "client in", n));
  same("server", "server initial secret", c.server_initial_secret(view(secret)),
       ref::crypto::expand_label(hash, secret, "server in", n));
}

// Memory with room behind it that nothing may touch.
struct guarded {
  raw memory;
  size_t size;

  guarded(size_t s)
    : memory(s + 64, 0xa5)
    , size(s)
  {}

  buffer_view_mut view() { return buffer_view_mut(memory.data(), size); }

  bool intact() const
  {
    for (size_t i = size; i < memory.size(); i++) {
      if (memory[i] != 0xa5) {
        return false;
      }
    }
    return true;
  }

  raw content(size_t n) const { return raw(memory.begin(), memory.begin() + static_cast<std::ptrdiff_t>(n)); }
};

void
sealing()
{
  int aead = mc::choose(3, "aead");
  int hash = mc::choose(2, "hash");
  size_t size = static_cast<size_t>(mc::choose(mc::thorough() ? 70 : 36, "plaintext size"));
  raw ad = pattern(mc::pick(std::vector<size_t>{ 0, 1, 17, 40 }, "associated data size"), 2);
  int place = mc::choose(5, "destination"); // exact, one more, one less, none, in place
  crypto c(AEADS[aead], HASHES[hash]);
  raw key = pattern(ref::crypto::key_size(aead), 0), nonce = pattern(12, 2), plain = pattern(size, 0);
  raw sealed = ref::crypto::seal(aead, key, nonce, ad, plain);

  size_t room = place == 1 ? sealed.size() + 1 : place == 2 ? sealed.size() - 1 : place == 3 ? 0 : sealed.size();
  guarded dest(room);
  if (place == 4) {
    std::copy(plain.begin(), plain.end(), dest.memory.begin());
  }
  buffer_view in = place == 4 ? buffer_view(dest.memory.data(), size) : view(plain);
  auto r = c.encrypt(dest.view(), in, view(key), view(nonce), view(ad));
  mc::step();
  MC_CHECK(dest.intact(), "seal-overrun", "sealing %zu bytes wrote behind a destination of %zu bytes", size, room);
  if (room < sealed.size()) {
    MC_CHECK(!r && r.error() == bnl::quic::error::crypto, "seal-room",
             "sealing %zu bytes into %zu bytes didn't fail", size, room);
    return;
  }
  MC_CHECK(r.has_value(), "seal", "sealing %zu bytes failed", size);
  MC_CHECK(dest.content(sealed.size()) == sealed, "seal", "sealing %zu bytes gave %s, not %s", size,
           show(dest.content(sealed.size())).c_str(), show(sealed).c_str());

  auto open = [&](const raw &text, const raw &k, const raw &n, const raw &a, size_t space, const char *what,
                  bool expected) {
    guarded out(space);
    auto o = c.decrypt(out.view(), view(text), view(k), view(n), view(a));
    mc::step();
    MC_CHECK(out.intact(), "open-overrun", "opening %s wrote behind its destination", what);
    if (!expected) {
      MC_CHECK(!o && o.error() == bnl::quic::error::crypto, "open-altered", "opening with %s didn't fail", what);
      return;
    }
    MC_CHECK(o.has_value(), "open", "opening %s failed", what);
    MC_CHECK(out.content(plain.size()) == plain, "open", "opening %s gave other bytes", what);
  };

  open(sealed, key, nonce, ad, size, "sealed bytes", true);
  open(sealed, key, nonce, ad, size + 20, "sealed bytes with more room", true);
  if (size > 0) {
    open(sealed, key, nonce, ad, size - 1, "too little room", false);
  }
  auto flips = [&](raw b, const char *what, auto f) {
    for (size_t i = 0; i < b.size() * 8; i++) {
      b[i / 8] ^= static_cast<uint8_t>(1U << (i % 8));
      f(b, what);
      b[i / 8] ^= static_cast<uint8_t>(1U << (i % 8));
    }
  };
  if (place == 0) {
    flips(sealed, "an altered message", [&](const raw &b, const char *w) { open(b, key, nonce, ad, size, w, false); });
    flips(key, "an altered key", [&](const raw &b, const char *w) { open(sealed, b, nonce, ad, size, w, false); });
    flips(nonce, "an altered nonce", [&](const raw &b, const char *w) { open(sealed, key, b, ad, size, w, false); });
    flips(ad, "altered associated data",
          [&](const raw &b, const char *w) { open(sealed, key, nonce, b, size, w, false); });
    for (size_t n = 0; n < sealed.size(); n++) {
      open(raw(sealed.begin(), sealed.begin() + static_cast<std::ptrdiff_t>(n)), key, nonce, ad, size,
           "a truncated message", false);
    }
    // Keys of the wrong size are refused.
    for (size_t n : { size_t(0), key.size() - 1, key.size() + 1, size_t(48) - key.size() }) {
      raw wrong = pattern(n, 0);
      open(sealed, wrong, nonce, ad, size, "a key of the wrong size", false);
      guarded out(sealed.size());
      auto e = c.encrypt(out.view(), view(plain), view(wrong), view(nonce), view(ad));
      MC_CHECK(!e && e.error() == bnl::quic::error::crypto, "seal-key", "sealing with a key of %zu bytes didn't fail",
               n);
    }
  }
  mc::state(mc::hasher().add(aead).add(hash).add(size).add(ad.size()).add(place).h);
}

void
masks()
{
  int aead = mc::choose(3, "aead");
  int hash = mc::choose(2, "hash");
  int kind = mc::choose(3, "key pattern");
  size_t at = static_cast<size_t>(mc::choose(16, "sample byte"));
  crypto c(AEADS[aead], HASHES[hash]);
  raw key = pattern(ref::crypto::key_size(aead), kind);
  for (int base = 0; base < 3; base++) {
    for (unsigned v = 0; v < 256; v++) {
      raw sample = pattern(16, base);
      sample[at] = static_cast<uint8_t>(v);
      guarded out(16);
      auto r = c.hp_mask(out.view(), view(key), view(sample));
      mc::step();
      MC_CHECK(r.has_value(), "mask", "no mask for sample %s", show(sample).c_str());
      MC_CHECK(out.intact(), "mask-overrun", "the mask was written behind 16 bytes");
      raw expected = ref::crypto::mask(aead, key, sample);
      MC_CHECK(out.content(5) == expected, "mask", "sample %s: mask %s, the specification defines %s",
               show(sample).c_str(), show(out.content(5)).c_str(), show(expected).c_str());
      mc::outcome(mc::hasher().add(expected[0]).add(expected[4]).h);
    }
  }
  mc::state(mc::hasher().add(aead).add(kind).add(at).h);
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "vectors", "the packet protection vectors of RFC 9001 A.1 and A.5, checked against code and oracle", vectors, 1 },
      { "secrets",
        "3 AEADs x 2 hashes x connection ids of every size up to 20 (thorough: 64) x 8 salt sizes x 3 byte patterns, and "
        "chains of key updates",
        secrets, 3 },
      { "sizes",
        "key updates and keys for every secret size up to 140 and around 256, 512, 1024 and the largest HKDF output",
        sizes, 3 },
      { "sealing",
        "3 AEADs x every message size up to 35 (thorough: 69) x 4 sizes of associated data x destinations (exact, larger, "
        "too small, in place); every flipped bit of message, tag, key, nonce and associated data, every truncation",
        sealing, 3 },
      { "masks", "header masks of 3 AEADs x 3 keys x every value of every byte of 3 samples", masks, 3 } });
}
