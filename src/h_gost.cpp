// C04: GOST 28147-89 primitives of the library against the reference.
#include "mc.h"
#include "ref.h"
extern "C" {
#include "gost/gost89.h"
#include "params.h"
}
using namespace mc;

static Bytes pat(size_t n, int s) { Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(i * 29 + s * 53 + (i * i >> 2) + 1); return d; }
// exactly sized heap buffer
struct Buf { uint8_t* p; size_t n; Buf(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Buf() { free(p); } Bytes get() { return Bytes(p, p + n); } };
// s-box number: 0..4 fixed ones; the table of raw nibbles is what counts
static void setup(gost_ctx* g, const Bytes& packed, const Bytes& key, int how)
{
    gost_subst_block sb;
    Bytes p = packed;
    unpack_sbox(p.data(), &sb);
    memset(g, how == 1 ? 0xA5 : 0, sizeof *g);
    gost_init(g, &sb);
    Bytes k = key;
    if (how == 0) gost_key(g, k.data()); else gost_key_nomask(g, k.data());
}
static Bytes weird_key(int i)
{
    Bytes k(32, 0);
    if (i < 256) k[i / 8] = 1 << (i % 8);
    else if (i == 256) k.assign(32, 0xff);
    else if (i == 257) k.assign(32, 0);
    else k = pat(32, i);
    return k;
}
// single blocks: every key bit x every data bit (and the dense ones)
static void block(Ctx& c)
{
    int ki = c.choose(260, "key"), how = c.choose(2, "masked/plain"), sb = c.choose(c.thorough() ? 5 : 2, "sbox");
    c.shard();
    Bytes k = weird_key(ki), s = ref::custom_sbox(sb * (c.thorough() ? 1 : 2));
    gost_ctx g; setup(&g, s, k, how);
    ref::Gost r(s.data(), k.data());
    for (int di = 0; di < 70; di++) {
        Bytes in(8, 0);
        if (di < 64) in[di / 8] = 1 << (di % 8); else if (di == 64) in.assign(8, 0xff); else in = pat(8, di);
        Bytes e(8), d(8), we(8), wd(8), b(8);
        r.enc(in.data(), we.data()); r.dec(in.data(), wd.data());
        gostcrypt(&g, in.data(), e.data()); gostdecrypt(&g, in.data(), d.data());
        c.step(2);
        c.check(e == we, "encrypting %s with key %s s-box %d: %s, expected %s", hex(in).c_str(), hex(k).c_str(), sb, hex(e).c_str(), hex(we).c_str());
        c.check(d == wd, "decrypting %s with key %s s-box %d: %s, expected %s", hex(in).c_str(), hex(k).c_str(), sb, hex(d).c_str(), hex(wd).c_str());
        gostdecrypt(&g, e.data(), b.data());
        c.check(b == in, "decryption does not invert encryption");
        gostcrypt(&g, b.data(), b.data());
        c.check(b == we, "in-place encryption differs");
        gostdecrypt(&g, b.data(), b.data());
        c.check(b == in, "in-place decryption differs");
        Bytes st = pat(8, di + 1), ws = st;
        mac_block(&g, st.data(), in.data()); r.mac16(ws.data(), in.data());
        c.check(st == ws, "MAC block of %s: %s, expected %s", hex(in).c_str(), hex(st).c_str(), hex(ws).c_str());
        c.outcome(hash_bytes(e));
    }
    Bytes kk(32, 0);
    gost_get_key(&g, kk.data());
    c.check(kk == k, "key read back as %s instead of %s", hex(kk).c_str(), hex(k).c_str());
    c.note("key %d %s s-box %d", ki, how ? "plain" : "masked", sb);
    c.state(mix(ki, how * 8 + sb));
}
// every entry of the substitution table: one nibble changed at a time
static void sbox(Ctx& c)
{
    int pos = c.choose(128, "nibble"), val = c.choose(16, "value");
    c.shard();
    Bytes s = ref::custom_sbox(0), p = s;
    int row = pos / 16, col = pos % 16;
    uint8_t& b = s[row * 8 + col / 2];
    b = (col & 1) ? (uint8_t)((b & 0xf0) | val) : (uint8_t)((b & 0x0f) | val << 4);
    gost_subst_block u, v;
    memset(&u, 0xEE, sizeof u);
    Buf in(s);
    unpack_sbox(in.p, &u);
    Buf out(Bytes(64, 0x77));
    pack_sbox(&u, out.p);
    c.step(3);
    c.check(out.get() == s, "pack(unpack) of table with nibble %d = %d gives %s", pos, val, hex(out.get()).c_str());
    Bytes k = pat(32, pos);
    gost_ctx g; memset(&g, 0, sizeof g);
    gost_init(&g, &u);
    gost_key_nomask(&g, k.data());
    memset(&v, 0, sizeof v);
    dstu_get_sbox(&g, &v);
    Buf o2(Bytes(64, 0x11));
    pack_sbox(&v, o2.p);
    c.check(o2.get() == s, "s-box read back from a context differs: nibble %d = %d", pos, val);
    ref::Gost r(s.data(), k.data());
    for (int i = 0; i < 12; i++) {
        Bytes x = pat(8, i * 3 + val), e(8), w(8);
        gostcrypt(&g, x.data(), e.data()); r.enc(x.data(), w.data());
        c.step();
        c.check(e == w, "s-box with nibble %d = %d: block %s encrypts to %s, expected %s", pos, val, hex(x).c_str(), hex(e).c_str(), hex(w).c_str());
        c.outcome(hash_bytes(e));
    }
    c.check(is_default_sbox(s.data()) == (s == p), "default s-box recognition with nibble %d = %d", pos, val);
    unsigned char* cp = copy_sbox(s.data());
    bool same = cp && !memcmp(cp, s.data(), 64);
    free(cp);
    c.check(same, "s-box copy");
    c.note("nibble %d = %d", pos, val); c.state(mix(pos, val));
}
// ECB and CFB of whole blocks
static void modes(Ctx& c)
{
    int nb = c.choose(c.thorough() ? 65 : 20, "blocks"), how = c.choose(2, "mask"), sb = c.choose(3, "sbox"), inplace = c.choose(2, "inplace"), vi = c.choose(3, "iv");
    c.shard();
    Bytes k = pat(32, nb + 3), s = ref::custom_sbox(sb), in = pat(8 * nb, sb), iv = vi == 2 ? Bytes(8, 0xff) : pat(8, vi * 17);
    gost_ctx g; setup(&g, s, k, how);
    ref::Gost r(s.data(), k.data());
    for (int m = 0; m < 4; m++) {
        Buf a(in), b(Bytes(in.size(), 0x3c)), v(iv);
        uint8_t* out = inplace ? a.p : b.p;
        Bytes want;
        c.step();
        if (m == 0) { gost_enc(&g, a.p, out, nb); want = ref::ecb(in, r, true); }
        if (m == 1) { gost_dec(&g, a.p, out, nb); want = ref::ecb(in, r, false); }
        if (m == 2) { gost_enc_cfb(&g, v.p, a.p, out, nb); want = ref::cfb(in, r, iv, true); }
        if (m == 3) { gost_dec_cfb(&g, v.p, a.p, out, nb); want = ref::cfb(in, r, iv, false); }
        Bytes got(out, out + in.size());
        static const char* nm[] = {"ECB encryption", "ECB decryption", "CFB encryption", "CFB decryption"};
        c.outcome(hash_bytes(got));
        c.check(got == want, "%s of %d blocks%s, s-box %d: %s, expected %s", nm[m], nb, inplace ? " in place" : "", sb, hex(got, 40).c_str(), hex(want, 40).c_str());
        c.check(v.get() == iv, "%s changed the IV", nm[m]);
        if (!inplace) c.check(a.get() == in, "%s changed its input", nm[m]);
    }
    c.note("%d blocks s-box %d", nb, sb); c.state(mix(mix(nb, how), mix(sb * 2 + inplace, vi)));
}
// MAC: every data length and every bit length
static void mac(Ctx& c)
{
    int L = c.choose(c.thorough() ? 90 : 42, "len"), bits = c.choose(65, "bits"), withiv = c.choose(3, "iv"), how = c.choose(2, "mask");
    c.shard();
    Bytes k = pat(32, L), in = pat(L, bits), iv = withiv == 0 ? Bytes(8, 0) : withiv == 1 ? Bytes(8, 0) : pat(8, 5);
    gost_ctx g; setup(&g, ref::custom_sbox(0), k, how);
    ref::Gost r(ref::DEFAULT_SBOX, k.data());
    Buf a(in), m(Bytes((bits + 7) / 8, 0x99)), v(iv);
    int rc = withiv == 0 ? gost_mac(&g, bits, a.p, L, m.p) : gost_mac_iv(&g, bits, v.p, a.p, L, m.p);
    Bytes want = ref::mac(in, r, iv, bits);
    c.step(); c.outcome(hash_bytes(m.get())); c.state(mix(mix(L, bits), withiv * 2 + how));
    c.note("MAC of %d bytes, %d bits%s", L, bits, withiv ? " with IV" : "");
    c.check(rc == 1, "MAC returned %d", rc);
    c.check(m.get() == want, "%d-bit MAC of %d bytes%s: %s, expected %s", bits, L, withiv ? " with IV" : "", hex(m.get()).c_str(), hex(want).c_str());
    c.check(a.get() == in && v.get() == iv, "MAC changed its input");
}
// re-keying and re-initialising one context in any order
static void rekey(Ctx& c)
{
    gost_ctx g; memset(&g, 0, sizeof g);
    gost_subst_block u;
    int depth = c.thorough() ? 6 : 5;
    int k = -1, s = -1;
    Bytes key;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(10, "op");
        if (d == 2) c.shard();
        c.step();
        if (op < 6) {
            key = weird_key(258 + op % 2);
            Buf kb(key);
            if (op / 2 == 0) gost_key(&g, kb.p);
            else if (op / 2 == 1) gost_key_nomask(&g, kb.p);
            else { if (s < 0) return; Bytes x = pat(8, d), o(8), w(8); Buf xb(x); gost_enc_with_key(&g, kb.p, xb.p, o.data()); ref::Gost r(ref::custom_sbox(s).data(), key.data()); r.enc(x.data(), w.data()); c.check(o == w, "encryption with a given key: %s, expected %s", hex(o).c_str(), hex(w).c_str()); }
            k = op % 2;
            c.note("key %d by method %d", k, op / 2);
        } else if (op < 9) {
            s = op - 6;
            Bytes p = ref::custom_sbox(s);
            unpack_sbox(p.data(), &u);
            gost_init(&g, &u);
            c.note("s-box %d", s);
        } else { gost_destroy(&g); k = -2; key = Bytes(32, 0); c.note("destroy"); }
        c.state(mix(k + 3, s + 1));
    }
    if (s < 0 || k == -1) return;
    ref::Gost r(ref::custom_sbox(s).data(), key.data());
    for (int i = 0; i < 3; i++) {
        Bytes x = pat(8, i + 40), e(8), w(8);
        gostcrypt(&g, x.data(), e.data()); r.enc(x.data(), w.data());
        c.outcome(hash_bytes(e));
        c.check(e == w, "after the sequence, block %s encrypts to %s, expected %s (key %d, s-box %d)", hex(x).c_str(), hex(e).c_str(), hex(w).c_str(), k, s);
    }
    Bytes kk(32);
    gost_get_key(&g, kk.data());
    c.check(kk == key, "key read back as %s, expected %s", hex(kk).c_str(), hex(key).c_str());
}
int main(int argc, char** argv)
{
    ref::self_check();
    return main_impl(argc, argv, {{"block", block}, {"sbox", sbox}, {"modes", modes}, {"mac", mac}, {"rekey", rekey}});
}
