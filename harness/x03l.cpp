// X03, long messages: beyond 2^32 bits the length counters of the digests must carry.
// Expected digests: hashlib, printed by tools/big_digest.py.
#include "jv.hpp"
#include "library/Java/Security/MessageDigest/MessageDigest.hpp"
namespace {
using Java::Security::MessageDigest;
struct Big { bool sha; int mib, extra; const char *want; };
const Big table[] = {
    {false, 511, 1048575, "a9b1510919d8dcaa86261a41d2a0db6c"},
    {true, 511, 1048575, "7bf13e362e7f1ed418830a7938b1155fc20db9db"},
    {false, 512, 0, "cb8ae63e2d750254315ab2e348e0f793"},
    {true, 512, 0, "2429e1b8cabb6b9179b1728e2c435d163fbe9dd6"},
    {false, 512, 1, "13015c5129feac64a0273972900df0ce"},
    {true, 512, 1, "e6f92d26ab8229c648a5359503a339a06d710d95"},
    {false, 512, 55, "b7d5d1fb3221799bfc0043afe24f7884"},
    {true, 512, 55, "a763dcef3414f61caba528bb0028387e13ac33a1"},
    {false, 512, 56, "52483ccee439904fc7751ebe1e848603"},
    {true, 512, 56, "7a56997d944019b5e59642c281582516d9a9453a"},
    {false, 513, 0, "cea899395f4f1390b34f2900f0d31953"},
    {true, 513, 0, "48a0a66c3b29c810ac2ba3ba203fa95cef70f174"},
    {false, 600, 3, "86db4d149f904177476b9fd6a933f63b"},
    {true, 600, 3, "a8993e77b9a88de5326fa94b2b1567b80f9ec9b7"},
    {false, 1024, 5, "f9c9cd94497d702bd9537b38b0c25170"},
    {true, 1024, 5, "2299f62ae2ed44c63229f2e13c0a1b93b6fabad9"},
};
void run(Src &s) {
    const Big &b = table[s.range(0, (int64_t) (sizeof table / sizeof *table) - 1)];
    size_t total = ((size_t) b.mib << 20) + (size_t) b.extra, step = s.pick<size_t>({(size_t) 1 << 20, ((size_t) 1 << 20) + 1, ((size_t) 64 << 20) - 1, (size_t) 1 << 29, (size_t) 2047 << 20});
    if (step > total) step = total;
    TRACE((b.sha ? "SHA1" : "MD5") << " of " << b.mib << " MiB + " << b.extra << " bytes in updates of " << step);
    std::vector<unsigned char> m(total); for (size_t i = 0; i < total; ++i) { size_t k = i & 0xfffff; m[i] = (unsigned char) (k * 131 + (k >> 8) * 7 + (k >> 16)); }
    MessageDigest d = MessageDigest::getInstance(b.sha ? JString("SHA1") : JString("MD5"));
    for (size_t at = 0; at < total; at += step) d.update((const byte *) m.data() + at, (int) std::min(step, total - at));
    byte out[20]; int n = b.sha ? 20 : 16; CHECK_EQ(d.digest(out, n), n, "digest length"); std::string got; char t[4];
    for (int i = 0; i < n; ++i) { snprintf(t, sizeof t, "%02x", (unsigned char) out[i]); got += t; }
    CHECK_EQ(got, std::string(b.want), "digest of a long message");
    if (total >= (size_t) 1 << 29) markNontrivial();
}
}
PROPERTY(X03L, run, 4, "a message of at least 2^32 bits")
