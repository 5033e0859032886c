// C19 contents of Key-6 containers; C17 malformed Key-6 containers.
#include "stores.h"
using namespace mc;
using namespace st;

static const Bytes PW = S("tect");
static void expect(Ctx& c, const Bytes& store, const Bytes& pw, const Contents& want, const std::string& what)
{
    Out o = key6(store, pw);
    c.step(); c.outcome(mix(hash_str(show(o.c)), o.rc));
    c.check(o.rc == 1, "%s: refused (%d)", what.c_str(), o.rc);
    c.check(o.c == want, "%s: read %s, stored %s", what.c_str(), show(o.c).c_str(), show(want).c_str());
}
static void refuse(Ctx& c, const Bytes& store, const Bytes& pw, const std::string& what)
{
    Out o = key6(store, pw);
    c.step(); c.outcome(o.rc);
    c.check(o.rc == 0, "%s: returned %d with %s", what.c_str(), o.rc, show(o.c).c_str());
    c.check(!o.left, "%s: refused, but a store was left behind", what.c_str());
}
static int pick(Ctx& c, int n, int limit) { return n <= limit ? c.choose(n, "d") : (int)((long)c.choose(limit, "d") * (n - 1) / (limit - 1)); }
// every private number of a small curve; a spread on the others
static void keys(Ctx& c)
{
    int i = c.choose(18, "curve"), le = c.choose(2, "order"), sb = c.choose(i < 8 ? 4 : 2, "sbox");
    const Any& a = any(i);
    long top = a.small ? a.cv->n - 1 : 1000000;
    int lim = c.thorough() ? 400 : i == 0 && sb == 0 ? 1000 : 4;
    uint64_t d = 1 + pick(c, (int)top, lim);
    c.shard();
    Contents w; w.keys = {p8_out(i, le, d, sb)};
    c.state(mix(mix(i, le), mix(sb, d))); c.note("curve %d %s s-box %d d %llu", i, le ? "le" : "be", sb, (unsigned long long)d);
    expect(c, key6_wrap(key6_cipher(p8(i, le, d, sb), PW), d % 3 ? 0 : -1), PW, w, fmt("curve %d %s s-box %d d %llu", i, le ? "le" : "be", sb, (unsigned long long)d));
}
// full-size private numbers and every plaintext length modulo the block
static void lengths(Ctx& c)
{
    int n = 1 + c.choose(53, "bytes"), i = c.choose(2, "curve"), fill = c.choose(2, "filler");
    c.shard();
    const Any& a = any(i ? 17 : 14);
    Bytes d(std::min(n, a.nbytes() - 1), (uint8_t)(0x40 + n));
    Bytes at = n >= a.nbytes() ? attr("1.2.3.4", ref::octet(Bytes(n, 7))) : Bytes();
    Contents w; w.keys = {ref::pkcs8(true, ref::alg_params(a.spec(true)), d)};
    c.state(mix(n, mix(i, fill))); c.note("%d bytes", n);
    expect(c, key6_wrap(key6_cipher(ref::pkcs8(true, ref::alg_params(a.spec(true)), d, at), PW, fill ? 0xa5 : 0), fill ? n % 9 : -1), PW, w, fmt("private number of %d bytes", n));
}
// every split of the ciphertext between the body and the padding field
static void splits(Ctx& c)
{
    static const Bytes ct = key6_cipher(p8(1, true, 5, 0, second(3, 9)), PW);
    int pad = c.choose((int)ct.size() + 2, "padding") - 1;
    c.shard();
    Contents w; w.keys = {p8_out(1, true, 5), p8_out(3, true, 9)};
    c.state(pad); c.note("%d of %zu bytes in the padding field", pad, ct.size());
    expect(c, key6_wrap(ct, pad), PW, w, fmt("%d of %zu bytes in the padding field", pad, ct.size()));
}
// the second key: numbers, encodings, order and presence of the attributes
static void seconds(Ctx& c)
{
    int j = c.choose(8, "second curve");
    int n = (int)ref::tiny(j).n;
    uint64_t e = 1 + pick(c, n - 1, c.thorough() ? 200 : j == 0 ? 1000 : 8);
    int enc = c.choose(4, "encoding");
    c.shard();
    int len = ref::tiny(j).bytes_n() + (enc / 2) * 3;
    int le = (int)e & 1, i = (int)e % 3;
    Contents w; w.keys = {p8_out(i, le, 7), p8_out(j, true, e)};
    c.state(mix(mix(j, e), enc)); c.note("second key %llu on curve %d encoding %d", (unsigned long long)e, j, enc);
    expect(c, key6_wrap(key6_cipher(p8(i, le, 7, 0, curve_attr(ref::custom_spec(ref::tiny(j), false)) + key_attr(e, len, enc & 1)), PW), 8), PW, w, fmt("second key %llu on curve %d encoding %d", (unsigned long long)e, j, enc));
}
static void attributes(Ctx& c)
{
    // any arrangement of up to 3 (4) of: curve, key, unknown, empty-valued, duplicate-ish attributes
    int n = c.choose(c.thorough() ? 5 : 4, "attributes");
    std::vector<int> k;
    for (int i = 0; i < n; i++) k.push_back(c.choose(5, "kind"));
    int multi = c.choose(3, "values");
    c.shard();
    Bytes at; bool cv = false, ke = false;
    Bytes spec = ref::seq({ref::custom_spec(ref::tiny(4), false), ref::octet({1, 2}), ref::octet({3})}), num = ref::octet(key_bits(11, ref::tiny(4).bytes_n()));
    for (int i = 0; i < n; i++) {
        Bytes pre = multi == 1 ? ref::integer(5) : multi == 2 ? ref::der(0x0c, S("x")) : Bytes();
        switch (k[i]) {
        case 0: at = at + attr(CURVE_ATTR, pre + spec); cv = true; break;
        case 1: at = at + attr(KEY_ATTR, pre + num); ke = true; break;
        case 2: at = at + attr("1.2.3.4.5", pre + ref::octet({1, 2, 3})); break;
        case 3: at = at + attr("1.3.6.1.4.1.19398.1.1.2.1", pre + num); break;
        case 4: at = at + attr("2.5.4.3", spec); break;
        }
    }
    Contents w; w.keys = {p8_out(2, true, 3)};
    if (cv && ke) w.keys.push_back(p8_out(4, true, 11));
    std::string t; for (int x : k) t += fmt(" %d", x);
    uint64_t h = multi; for (int x : k) h = mix(h, x);
    c.state(h); c.note("attributes%s values %d", t.c_str(), multi);
    expect(c, key6_wrap(key6_cipher(p8(2, true, 3, 0, at), PW), 8), PW, w, "attributes" + t + fmt(" values %d", multi));
}
static void passwords(Ctx& c)
{
    static const int far[] = {127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 1000, 65535, 65536, 65540};
    int li = c.choose((c.thorough() ? 130 : 70) + 14, "length"), kind = c.choose(2, "content");
    c.shard();
    int len = li < 14 ? far[li] : li - 14;
    Bytes pw(len); for (int i = 0; i < len; i++) pw[i] = kind ? (uint8_t)(i * 37 + 200) : (uint8_t)('a' + i % 26);
    Contents w; w.keys = {p8_out(0, false, 5)};
    c.state(mix(len, kind)); c.note("password of %d bytes", len);
    expect(c, key6_wrap(key6_cipher(p8(0, false, 5), pw), 8), pw, w, fmt("password of %d bytes", len));
}
// large contents
static void large(Ctx& c)
{
    static const int big[] = {1000, 4095, 4096, 16383, 16384, 32767, 32768, 65000, 65535, 65536, 65537, 70000, 131072, 1 << 20};
    int i = c.choose(14, "size"), where = c.choose(3, "where"), pad = c.choose(4, "padding");
    c.shard();
    // an unknown attribute before the second key, in place of it, or a large value beside the key's
    Bytes u = attr("1.2.3.4", ref::octet(Bytes(big[i], 0x33)));
    Bytes at = where == 0 ? u + second(3, 9) : where == 1 ? u : curve_attr(ref::custom_spec(ref::tiny(3), false)) + attr(KEY_ATTR, ref::der(0x0c, Bytes(big[i], 'x')) + ref::octet(key_bits(9, ref::tiny(3).bytes_n())));
    Contents w; w.keys = {p8_out(1, true, 5)}; if (where != 1) w.keys.push_back(p8_out(3, true, 9));
    Bytes ct = key6_cipher(p8(1, true, 5, 0, at), PW);
    c.state(mix(i, mix(where, pad))); c.note("%d bytes at %d, padding %d", big[i], where, pad);
    expect(c, key6_wrap(ct, pad == 0 ? -1 : pad == 1 ? 8 : pad == 2 ? (int)ct.size() - 8 : (int)ct.size()), PW, w, fmt("%d bytes at %d, padding %d", big[i], where, pad));
}
static void types(Ctx& c)
{
    static const char* o[] = {"1.3.6.1.4.1.19398.1.1.1.1", "1.3.6.1.4.1.19398.1.1.1.3", "1.3.6.1.4.1.19398.1.1.1", "1.3.6.1.4.1.19398.1.1.1.2.1", "1.2.3", "2.3.6.1.4.1.19398.1.1.1.2", KEY6_OID};
    int i = c.choose(7, "type"), pad = c.choose(3, "pad") * 8 - 1;
    c.shard();
    Bytes s = key6_wrap(key6_cipher(p8(0, false, 5), PW), pad, o[i]);
    c.state(mix(i, pad)); c.note("type %s", o[i]);
    Contents w; w.keys = {p8_out(0, false, 5)};
    if (i == 6) expect(c, s, PW, w, "right type"); else refuse(c, s, PW, fmt("container of type %s", o[i]));
}

// ---- C17 ------------------------------------------------------------------------
static void robust6(Ctx& c, const Bytes& d, const Bytes& pw, const std::string& what, bool twice, bool leak = false) { robust(c, [&] { return key6(d, pw); }, what, twice, leak); }
static const Bytes& whole() { static const Bytes b = key6_wrap(key6_cipher(p8(1, true, 5, 0, second(3, 9)), PW), 8); return b; }
static void truncated(Ctx& c)
{
    int n = c.choose((int)whole().size() + 1, "length"), ext = c.choose(2, "extended");
    c.shard();
    Bytes b = whole(); if (ext) b = b + Bytes(n, 0x30); else b.resize(n);
    c.state(mix(n, ext)); c.note("container %s %d", ext ? "extended by" : "cut to", n);
    robust6(c, b, PW, fmt("container %s %d", ext ? "extended by" : "cut to", n), false);
}
static const int VALS[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xff};
static void corrupted(Ctx& c)
{
    // the DER skeleton of the container
    int p = c.choose((int)whole().size(), "byte"), vi = c.choose(18, "value");
    c.shard();
    if (p > 44 && p < (int)whole().size() - 2 && vi % 6) { c.step(); return; }
    Bytes b = whole(); b[p] = vi < 16 ? (uint8_t)VALS[vi] : vi == 16 ? b[p] + 1 : b[p] - 1;
    c.state(mix(p, vi)); c.note("byte %d = %02x", p, b[p]);
    robust6(c, b, PW, fmt("container byte %d = %02x", p, b[p]), false);
}
// plaintext damaged before encryption, so that decryption delivers it
static void plaintext(Ctx& c)
{
    static const Bytes pl = p8(1, true, 5, 0, second(3, 9));
    int p = c.choose((int)pl.size(), "byte"), v = c.choose(c.thorough() ? 19 : 7, "value"), sp = c.choose(1, "split");
    (void)sp;
    c.shard();
    static const int q[] = {17, 0, 9, 12, 15, 11, 16};
    int vi = c.thorough() ? v : q[v];
    Bytes b = pl;
    if (vi < 16) b[p] = VALS[vi]; else if (vi == 16) b[p]++; else if (vi == 17) b[p]--; else b.erase(b.begin() + p);
    c.state(mix(p, vi)); c.note("plaintext byte %d variation %d", p, vi);
    std::string w = fmt("plaintext byte %d variation %d (%02x)", p, vi, vi == 18 ? 0 : b[p]);
    robust6(c, key6_wrap(key6_cipher(b, PW), 8), PW, w, false, p % 16 == 0 && vi % 3 == 0);
}
// ciphertext of any length, whole blocks or not, plaintext claiming to be longer than it is
static void cut(Ctx& c)
{
    // the private number comes last and fills more than two blocks
    static const Bytes pl = ref::pkcs8(true, ref::alg_params(any(14).spec(true)), Bytes(31, 0x21));
    int n = c.choose((int)pl.size() + 17, "ciphertext length"), padf = c.choose(3, "padding");
    c.shard();
    Bytes ct = key6_cipher(pl, PW); if ((int)ct.size() > n) ct.resize(n); else ct = ct + Bytes(n - ct.size(), 0x5c);
    Bytes b = key6_wrap(ct, padf == 0 ? -1 : padf == 1 ? std::min(n, 8) : n);
    c.state(mix(n, padf)); c.note("ciphertext of %d bytes", n);
    robust6(c, b, PW, fmt("ciphertext of %d bytes, padding %d", n, padf), true, n % 8 < 2);
}
int main(int argc, char** argv)
{
    if (arg_prop(argc, argv) == "C17" && !CRYPTO_set_mem_functions(fill_malloc, fill_realloc, fill_free)) { fprintf(stderr, "HARNESS-ERROR set_mem\n"); return 3; }
    eng::get(); eng::install_rng();
    std::vector<Group> g;
    if (arg_prop(argc, argv) == "C17") { exercise = true; g = {{"k6_truncated", truncated}, {"k6_corrupted", corrupted}, {"k6_cut", cut}, {"k6_plaintext", plaintext}}; }
    else g = {{"keys", keys}, {"lengths", lengths}, {"splits", splits}, {"seconds", seconds}, {"attributes", attributes}, {"passwords", passwords}, {"large", large}, {"types", types}};
    return main_impl(argc, argv, g);
}
