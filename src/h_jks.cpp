// C16 contents of JKS stores; C20 wrong passwords and tampering (JKS part).
#include "stores.h"
using namespace mc;
using namespace st;

static const Bytes SPW = S("store pass"), KPW = S("key pass");
static Bytes TS(int k) { Bytes b(8, 0); for (int i = 0; i < 8; i++) b[i] = k == 0 ? 0 : k == 1 ? 0xff : (uint8_t)(i * 31 + k); return b; }

struct Entry { Bytes bytes; Contents c; };
// kinds: 0..3 key with that many certificates, 4 key carrying a second key, 5 trusted certificate
static Entry entry(int kind, int pos, const Bytes& alias, const Bytes& ts, const Bytes& kpw)
{
    Entry e;
    if (kind == 5) {
        Bytes x = cert(40 + pos);
        e.bytes = jks_cert_entry(alias, ts, x); e.c.certs = {x};
        return e;
    }
    bool le = pos & 1; int cv = pos % 3; uint64_t d = 3 + pos;
    Bytes at;
    if (kind == 4) { at = second(3 + pos % 2, 7 + pos); }
    e.c.keys.push_back(p8_out(cv, le, d));
    if (kind == 4) e.c.keys.push_back(p8_out(3 + pos % 2, true, 7 + pos));
    std::vector<Bytes> chain;
    int nc = kind == 4 ? 1 : kind;
    for (int i = 0; i < nc; i++) chain.push_back(cert(pos * 4 + i, i * 100));
    e.bytes = jks_key_entry(alias, ts, epki(protect(p8(cv, le, d, 0, at), utf16(kpw), pos)), chain);
    e.c.certs = chain;
    return e;
}
static void add(Contents& a, const Contents& b) { for (auto& k : b.keys) a.keys.push_back(k); for (auto& k : b.certs) a.certs.push_back(k); }
static void expect(Ctx& c, const Bytes& store, const Bytes& spw, const Bytes& kpw, const Contents& want, const char* what)
{
    Out o = jks(store, spw, kpw);
    c.step(); c.outcome(mix(hash_str(show(o.c)), o.rc));
    c.check(o.rc == 1, "%s: refused (%d)", what, o.rc);
    c.check(o.c == want, "%s: read %s, stored %s", what, show(o.c).c_str(), show(want).c_str());
}
static void refuse(Ctx& c, const Bytes& store, const Bytes& spw, const Bytes& kpw, const char* what)
{
    Out o = jks(store, spw, kpw);
    c.step();
    c.check(o.rc != 1, "%s: accepted with %s", what, show(o.c).c_str());
    c.check(o.rc == 0, "%s: returned %d", what, o.rc);
    c.check(!o.left, "%s: refused, but a store was left behind", what);
}
// all sequences of entries
static void entries(Ctx& c)
{
    int n = c.choose(c.thorough() ? 5 : 4, "entries"), magic = c.choose(2, "magic");
    std::vector<int> k;
    for (int i = 0; i < n; i++) { k.push_back(c.choose(6, "kind")); if (i == 0) c.shard(); }
    c.shard();
    std::vector<Bytes> es; Contents want; uint64_t h = magic;
    for (int i = 0; i < n; i++) { Entry e = entry(k[i], i, S(fmt("alias%d", i)), TS(i), KPW); es.push_back(e.bytes); add(want, e.c); h = mix(h, k[i]); }
    c.state(mix(h, n));
    std::string t; for (int x : k) t += fmt(" %d", x);
    c.note("entries%s -> %s", t.c_str(), show(want).c_str());
    Bytes s = jks_sign(jks_body(es, magic ? 0xcececece : 0xfeedfeed), utf16(SPW));
    expect(c, s, SPW, KPW, want, fmt("store with entries%s", t.c_str()).c_str());
    if (h % 8 == 0) { long l = leak_per_run([&] { jks(s, SPW, KPW); }); c.check(l <= 0, "reading leaks %ld allocations", l); }
}
// alias lengths and contents, timestamps
static void aliases(Ctx& c)
{
    static const int big[] = {127, 128, 255, 256, 257, 1000, 32767, 32768, 65535};
    int i = c.choose(70 + 9, "alias length"), kind = c.choose(3, "kind"), ts = c.choose(4, "timestamp"), fill = c.choose(3, "content");
    c.shard();
    int L = i < 70 ? i : big[i - 70];
    Bytes al(L); for (int q = 0; q < L; q++) al[q] = fill == 0 ? 'a' : fill == 1 ? 0 : (uint8_t)(q * 7 + 0x80);
    Entry a = entry(kind == 0 ? 1 : kind == 1 ? 5 : 4, 0, al, TS(ts), KPW), b = entry(5, 1, S("z"), TS(2), KPW);
    Contents w = a.c; add(w, b.c);
    c.state(mix(mix(L, kind), mix(ts, fill))); c.note("alias of %d bytes", L);
    expect(c, jks_sign(jks_body({a.bytes, b.bytes}), utf16(SPW)), SPW, KPW, w, fmt("alias of %d bytes (kind %d, timestamp %d)", L, kind, ts).c_str());
}
// every length of the protected key modulo the digest size, and every certificate size
static void sizes(Ctx& c)
{
    int n = c.choose(c.thorough() ? 300 : 90, "extra"), what = c.choose(3, "what");
    c.shard();
    Contents w; Bytes e;
    if (what == 0) {        // an unknown attribute makes the key longer
        Bytes p = p8(0, true, 5, 0, attr("1.2.3.4", ref::octet(Bytes(n, 0x33))));
        w.keys = {p8_out(0, true, 5)};
        e = jks_key_entry(S("k"), TS(0), epki(protect(p, utf16(KPW))), {});
    } else if (what == 1) { // private number of any size on a large curve
        const Any& a = any(17);
        Bytes d(1 + n % 53, 0x5a);
        Bytes pp = ref::pkcs8(true, ref::alg_params(a.spec(true)), d);
        w.keys = {pp};
        e = jks_key_entry(S("k"), TS(0), epki(protect(pp, utf16(KPW))), {});
    } else {
        Bytes x = cert(1, n * 3), y = cert(2, n);
        w.certs = {x, y}; w.keys = {p8_out(1, false, 9)};
        e = jks_key_entry(S("k"), TS(0), epki(protect(p8(1, false, 9), utf16(KPW))), {x, y});
    }
    c.state(mix(n, what)); c.note("extra %d what %d", n, what);
    expect(c, jks_sign(jks_body({e}), utf16(SPW)), SPW, KPW, w, fmt("size variation %d/%d", what, n).c_str());
}
// many entries, long chains, large certificates and keys: counts and lengths around every power of two
static const int COUNTS[] = {5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
enum { NCOUNT = sizeof(COUNTS) / sizeof(*COUNTS) };
static const int LARGE[] = {1000, 4095, 4096, 16383, 16384, 32700, 32767, 32768, 33000, 65000, 65400, 65535, 65536, 65537, 66000, 70000, 131072, 200000, 1000000};
enum { NLARGE = sizeof(LARGE) / sizeof(*LARGE) };
static std::pair<Bytes, Contents> big_store(int what, int n)
{
    std::vector<Bytes> es; Contents w;
    if (what < 3) {             // n entries: trusted certificates, keys with one certificate each, everything in turn
        for (int i = 0; i < n; i++) { Entry e = entry(what == 0 ? 5 : what == 1 ? 1 : i % 6, i % 90, S(fmt("a%d", i)), TS(i % 3), KPW); es.push_back(e.bytes); add(w, e.c); }
    } else if (what == 3) {     // a key with n certificates, followed by another entry
        Contents a; std::vector<Bytes> ch; for (int i = 0; i < n; i++) ch.push_back(cert(i % 100, i % 300));
        a.keys = {p8_out(1, true, 4)}; a.certs = ch; add(w, a);
        es.push_back(jks_key_entry(S("k"), TS(1), epki(protect(p8(1, true, 4), utf16(KPW))), ch));
        Entry e = entry(2, 1, S("l"), TS(2), KPW); es.push_back(e.bytes); add(w, e.c);
    } else if (what == 4) {     // a certificate of about n bytes, followed by another entry
        w.certs = {cert(3, n)}; es.push_back(jks_cert_entry(S("c"), TS(1), w.certs[0]));
        Entry e = entry(2, 1, S("l"), TS(2), KPW); es.push_back(e.bytes); add(w, e.c);
    } else if (what == 5) {     // the same at the end of a chain
        std::vector<Bytes> ch = {cert(2), cert(3, n)};
        w.keys = {p8_out(1, true, 4)}; w.certs = ch; es.push_back(jks_key_entry(S("k"), TS(1), epki(protect(p8(1, true, 4), utf16(KPW))), ch));
        Entry e = entry(4, 1, S("l"), TS(2), KPW); es.push_back(e.bytes); add(w, e.c);
    } else {                    // a protected key of about n bytes
        w.keys = {p8_out(1, true, 4)};
        es.push_back(jks_key_entry(S("k"), TS(1), epki(protect(p8(1, true, 4, 0, attr("1.2.3.4", ref::octet(Bytes(n, 0x33)))), utf16(KPW))), {cert(1)}));
        w.certs = {cert(1)};
        Entry e = entry(5, 1, S("l"), TS(2), KPW); es.push_back(e.bytes); add(w, e.c);
    }
    return {jks_sign(jks_body(es), utf16(SPW)), w};
}
static void large(Ctx& c)
{
    int what = c.choose(7, "what"), i = c.choose(what < 4 ? NCOUNT : NLARGE, "size");
    c.shard();
    int n = what < 4 ? COUNTS[i] : LARGE[i];
    auto b = big_store(what, n);
    c.state(mix(what, n)); c.note("large store %d/%d", what, n);
    expect(c, b.first, SPW, KPW, b.second, fmt("large store %d/%d", what, n).c_str());
}
static Bytes password(int cls, int len)
{
    static const char* ch[] = {"a", "\xd0\x96", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", " "};
    Bytes o;
    for (int i = 0; i < len; i++) {
        Bytes u;
        if (cls < 6) u = S(ch[cls]);
        else if (cls == 6) u = S(ch[i % 4]);
        else u = Bytes{(uint8_t)(1 + (i * 37) % 127)};
        if (cls == 0) u[0] = (uint8_t)('!' + i % 90);
        o = o + u;
    }
    return o;
}
static void passwords(Ctx& c)
{
    int cls = c.choose(8, "class"), li = c.choose((c.thorough() ? 130 : 45) + 9, "length"), which = c.choose(3, "which");
    static const int far[] = {127, 128, 129, 255, 256, 257, 300, 1000, 5000};
    c.shard();
    int len = li < 9 ? far[li] : li - 8;
    Bytes pw = password(cls, len), sp = which == 1 ? SPW : pw, kp = which == 0 ? KPW : pw;
    Entry e = entry(1, 0, S("k"), TS(2), kp), f = entry(0, 1, S("l"), TS(2), kp);
    Contents w = e.c; add(w, f.c);
    c.state(mix(cls, mix(len, which))); c.note("password class %d of %d characters", cls, len);
    expect(c, jks_sign(jks_body({e.bytes, f.bytes}), utf16(sp)), sp, kp, w, fmt("password class %d of %d characters", cls, len).c_str());
}
// an unreadable entry anywhere refuses the store
static void unreadable(Ctx& c)
{
    int pos = c.choose(3, "position"), kind = c.choose(13, "kind"), other = c.choose(3, "others");
    c.shard();
    std::vector<Bytes> es;
    Bytes good8 = p8(0, true, 5), k16 = utf16(KPW);
    for (int i = 0; i < 3; i++) {
        if (i != pos) { es.push_back(entry(other == 0 ? 1 : other == 1 ? 5 : 4, i, S("g"), TS(2), KPW).bytes); continue; }
        Bytes x = cert(9), bad = x; bad[0] = 0x31;
        switch (kind) {
        case 0: case 1: case 2: case 3: { Bytes e = entry(5, i, S("b"), TS(2), KPW).bytes; static const uint32_t tags[] = {0, 3, 4, 0x01000000}; Bytes t = b32(tags[kind]); std::copy(t.begin(), t.end(), e.begin()); es.push_back(e); break; }
        case 4: es.push_back(jks_key_entry(S("b"), TS(2), epki(protect(good8, k16), "1.3.6.1.4.1.42.2.19.1"), {x})); break;    // PBES1
        case 5: es.push_back(jks_key_entry(S("b"), TS(2), epki(protect(good8, k16), "1.2.3.4.5.6"), {x})); break;              // unknown protection
        case 6: es.push_back(jks_key_entry(S("b"), TS(2), epki(protect(good8, utf16(S("other")))), {x})); break;               // other password
        case 7: es.push_back(jks_key_entry(S("b"), TS(2), epki(protect(S("not a key at all"), k16)), {x})); break;
        case 8: es.push_back(jks_key_entry(S("b"), TS(2), Bytes(30, 0x41), {x})); break;                                       // not a protected key
        case 9: es.push_back(jks_key_entry(S("b"), TS(2), epki(protect(good8, k16)), {x, bad})); break;                        // bad certificate in the chain
        case 10: es.push_back(jks_cert_entry(S("b"), TS(2), bad)); break;
        case 11: { Bytes p = ref::pkcs8(true, ref::alg_params(ref::oid("1.2.3.4.5")), {5}); es.push_back(jks_key_entry(S("b"), TS(2), epki(protect(p, k16)), {})); break; }   // unknown curve
        case 12: es.push_back(jks_key_entry(S("b"), TS(2), epki(Bytes(39, 1)), {})); break;                                    // too short for salt and check
        }
    }
    c.state(mix(pos, mix(kind, other))); c.note("unreadable entry kind %d at %d", kind, pos);
    Bytes s = jks_sign(jks_body(es), utf16(SPW));
    refuse(c, s, SPW, KPW, fmt("unreadable entry of kind %d at position %d", kind, pos).c_str());
    long l = leak_per_run([&] { jks(s, SPW, KPW); });
    c.check(l <= 0, "refusing unreadable entry kind %d leaks %ld allocations", kind, l);
}
// header: magic and version
static void header(Ctx& c)
{
    int f = c.choose(8, "byte"), v = c.choose(256, "value");
    c.shard();
    Entry e = entry(1, 0, S("k"), TS(2), KPW);
    Bytes b = jks_body({e.bytes});
    bool same = b[f] == v;
    b[f] = (uint8_t)v;
    bool ok = same || (Bytes(b.begin(), b.begin() + 4) == b32(0xcececece));
    c.state(f * 256 + v); c.note("header byte %d = %02x", f, v);
    Bytes s = jks_sign(b, utf16(SPW));
    if (ok) expect(c, s, SPW, KPW, e.c, "header"); else refuse(c, s, SPW, KPW, fmt("header byte %d = %02x", f, v).c_str());
}

// ---- C20 ------------------------------------------------------------------------
static std::vector<Bytes> variants()
{
    std::vector<Bytes> v;
    Entry k = entry(1, 0, S("k"), TS(2), KPW), t = entry(5, 1, S("t"), TS(2), KPW), k2 = entry(4, 2, S("m"), TS(2), KPW), k0 = entry(0, 1, S(""), TS(0), KPW);
    v.push_back(jks_sign(jks_body({k.bytes}), utf16(SPW)));
    v.push_back(jks_sign(jks_body({t.bytes, k0.bytes}), utf16(SPW)));
    v.push_back(jks_sign(jks_body({k2.bytes}), utf16(SPW)));
    return v;
}
static void tamper(Ctx& c)
{
    static std::vector<Bytes> v = variants();
    int s = c.choose(c.thorough() ? 3 : 2, "store");
    int p = c.choose((int)v[s].size(), "byte");
    c.shard();
    // thorough: every value; quick: every single-bit change and a few others
    for (int x = 1; x < 256; x++) {
        if (!c.thorough() && (x & (x - 1)) && x != 0xff && x != 0x03 && x != 0x81) continue;
        Bytes b = v[s]; b[p] ^= x;
        refuse(c, b, SPW, KPW, fmt("byte %d of store %d changed by %02x", p, s, x).c_str());
    }
    c.state(mix(s, p)); c.outcome(p % 5); c.note("store %d byte %d", s, p);
}
// moving, dropping, swapping and duplicating bytes
static void splice(Ctx& c)
{
    static std::vector<Bytes> v = variants();
    int s = c.choose(3, "store"), p = c.choose((int)v[s].size(), "position"), what = c.choose(4, "what");
    c.shard();
    Bytes b = v[s];
    switch (what) {
    case 0: b.erase(b.begin() + p); break;
    case 1: b.insert(b.begin() + p, b[p]); if (p == (int)v[s].size() - 1) { c.step(); return; } break;   // appended after the end: not protected
    case 2: if (p + 1 >= (int)b.size() || b[p] == b[p + 1]) { c.step(); return; } std::swap(b[p], b[p + 1]); break;
    case 3: b.resize(p); break;
    }
    if (b.size() >= v[s].size() && Bytes(b.begin(), b.begin() + v[s].size()) == v[s]) { c.step(); return; }
    refuse(c, b, SPW, KPW, fmt("edit %d at byte %d of store %d", what, p, s).c_str());
    c.state(mix(s, mix(p, what))); c.note("store %d edit %d at %d", s, what, p);
}
// every neighbouring password
static void wrong_pw(Ctx& c)
{
    static std::vector<Bytes> v = variants();
    int s = c.choose(3, "store"), which = c.choose(2, "store/key password"), how = c.choose(4, "edit");
    const Bytes& good = which ? KPW : SPW;
    int p = c.choose((int)good.size() + 1, "position");
    c.shard();
    auto tryit = [&](const Bytes& w) {
        if (w == good) return;
        refuse(c, v[s], which ? SPW : w, which ? w : KPW, fmt("wrong %s password %s", which ? "key" : "store", hex(w).c_str()).c_str());
    };
    for (int x = 0; x < 256; x++) {
        Bytes w = good;
        if (how == 0 && p < (int)w.size()) w[p] = (uint8_t)x;
        else if (how == 1) w.insert(w.begin() + p, (uint8_t)x);
        else if (how == 2) { w.resize(p); if (x) break; }
        else if (how == 3) { if (x || p >= (int)w.size()) break; w.erase(w.begin() + p); }
        tryit(w);
    }
    if (how == 2 && p == 0) { tryit(which ? SPW : KPW); tryit(S("STORE PASS")); tryit(S("KEY PASS")); tryit(good + good); }
    c.state(mix(mix(s, which), mix(how, p))); c.note("store %d %s password edit %d at %d", s, which ? "key" : "store", how, p);
}
// ---- C17 ------------------------------------------------------------------------
struct Sample { Bytes body, blob; };
static Bytes rich_p8(int v)
{
    if (v == 0) return p8(1, true, 5, 2, second(3, 9));
    if (v == 1) return p8(2, false, 3, 0, attr("1.2.3.4", ref::octet({1, 2})) + second(6, 200));
    return ref::pkcs8(true, ref::alg_params(any(8).spec(true), sbox_in(2)), Bytes(20, 0x21), second(5, 77));
}
static Bytes store_body(int v)
{
    Bytes k = jks_key_entry(S("key"), TS(2), epki(protect(rich_p8(v), utf16(KPW))), {cert(1), cert(2)}), t = jks_cert_entry(S("t"), TS(1), cert(3));
    return v == 1 ? jks_body({t, k}) : jks_body({k, t});
}
static void rob(Ctx& c, const Bytes& d, const std::string& what, bool leak = true) { robust(c, [&] { return jks(d, SPW, KPW); }, what, true, leak); }
static void jtruncated(Ctx& c)
{
    static const Bytes b[2] = {store_body(0), store_body(1)};
    int v = c.choose(2, "store"), n = c.choose((int)b[v].size() + 24, "length"), how = c.choose(3, "how");
    c.shard();
    Bytes d;
    if (how == 0) { d = jks_sign(b[v], utf16(SPW)); d.resize(std::min((int)d.size(), n)); }
    else if (how == 1) { d = b[v]; d.resize(std::min((int)d.size(), n)); d = jks_sign(d, utf16(SPW)); }
    else { d = jks_sign(b[v], utf16(SPW)) + Bytes(n, 0x11); }
    c.state(mix(v, mix(n, how))); c.note("store %d length %d (%d)", v, n, how);
    rob(c, d, fmt("store %d cut or extended at %d (%d)", v, n, how), n % 4 == 0);
}
// 1, 2 and 4 byte numbers anywhere at boundary values, then signed
static void jmany(Ctx& c)
{
    int what = c.choose(4, "what"), i = c.choose(NCOUNT, "size"), less = c.choose(3, "cut");
    c.shard();
    Bytes d = big_store(what, COUNTS[i]).first;
    if (less) { d.resize(d.size() - 20 - (less - 1) * 37); d = jks_sign(d, utf16(SPW)); }
    c.state(mix(mix(what, i), less)); c.note("large store %d/%d cut %d", what, COUNTS[i], less);
    exercise = false;
    rob(c, d, fmt("large store %d/%d cut %d", what, COUNTS[i], less), i % 8 == 0);
    exercise = true;
}
static void jfields(Ctx& c)
{
    static const Bytes b[2] = {store_body(0), store_body(1)};
    int v = c.choose(2, "store"), p = c.choose((int)b[v].size(), "offset"), w = c.choose(2, "width");
    c.shard();
    int n = w ? 4 : 2;
    if (p + n > (int)b[v].size()) { c.step(); return; }
    uint64_t old = 0; for (int i = 0; i < n; i++) old = old << 8 | b[v][p + i];
    uint64_t rest = b[v].size() - p - n, top = w ? 0xffffffffull : 0xffffull;
    std::set<uint64_t> vals;
    for (uint64_t x : {(uint64_t)0, (uint64_t)1, old - 1, old + 1, rest, rest - 1, rest + 1, rest - 4, rest + 20, rest + 21, top, top - 1, top / 2, top / 2 + 1, top - 40, top - rest, top + 1 - rest}) vals.insert(x & top);
    vals.erase(old);
    for (uint64_t x : vals) {
        if (!c.thorough() && p % 3 && p > 40 && x % 3) continue;
        Bytes d = b[v];
        for (int i = 0; i < n; i++) d[p + i] = (uint8_t)(x >> (8 * (n - 1 - i)));
        rob(c, jks_sign(d, utf16(SPW)), fmt("store %d, %d bytes at %d set to %llx", v, n, p, (unsigned long long)x), (x + p) % 4 == 0);
    }
    c.state(mix(v, mix(p, w))); c.note("store %d number of %d bytes at %d", v, n, p);
}
static const int VALS[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xff};
// every byte of the decrypted key damaged before protection
static void jplain(Ctx& c)
{
    static const Bytes b[3] = {rich_p8(0), rich_p8(1), rich_p8(2)};
    int v = c.choose(3, "key"), p = c.choose((int)b[v].size(), "byte");
    c.shard();
    for (int x = 0; x < (c.thorough() ? 256 + 3 : 21); x++) {
        Bytes d = b[v];
        int k = c.thorough() ? (x < 256 ? 100 + x : x - 240) : x;
        if (k >= 100) d[p] = (uint8_t)(k - 100);
        else if (k < 16) d[p] = (uint8_t)VALS[k];
        else if (k == 16) d.erase(d.begin() + p);
        else if (k == 17) d.insert(d.begin() + p, d[p]);
        else if (k == 18) d.resize(p);
        else if (k == 19) d[p]++;
        else d[p]--;
        rob(c, jks_sign(jks_body({jks_key_entry(S("k"), TS(0), epki(protect(d, utf16(KPW))), {})}), utf16(SPW)), fmt("key %d, byte %d, variation %d", v, p, k), c.thorough() ? x % 16 == p % 16 : x % 3 == p % 3);
    }
    c.state(mix(v, p)); c.note("key %d byte %d", v, p);
}
// the protection envelope: its DER, and protected data of every small size
static void jenvelope(Ctx& c)
{
    static const Bytes e = epki(protect(p8(0, true, 5), utf16(KPW)));
    int how = c.choose(2, "how"), p = c.choose(how ? 64 : (int)e.size(), "position");
    c.shard();
    auto go = [&](const Bytes& env, int x) { rob(c, jks_sign(jks_body({jks_key_entry(S("k"), TS(0), env, {cert(1)})}), utf16(SPW)), fmt("envelope edit %d at %d to %02x", how, p, x), x % 4 == 0); };
    if (how) { go(epki(Bytes(p, 0x5a)), p); go(epki(protect(Bytes(p, 0x30), utf16(KPW))), p); }
    else for (int x = 0; x < 256; x++) if (c.thorough() || p < 40 || x % 16 == 0 || x == 0xff) { Bytes d = e; d[p] = (uint8_t)x; go(d, x); }
    c.state(mix(how, p)); c.note("envelope %d %d", how, p);
}
int main(int argc, char** argv)
{
    bool c17 = arg_prop(argc, argv) == "C17";
    if (c17 && !CRYPTO_set_mem_functions(fill_malloc, fill_realloc, fill_free)) { fprintf(stderr, "HARNESS-ERROR set_mem\n"); return 3; }
    eng::get(); eng::install_rng();
    std::vector<Group> g;
    if (c17) { exercise = true; g = {{"jks_truncated", jtruncated}, {"jks_fields", jfields}, {"jks_many", jmany}, {"jks_plaintext", jplain}, {"jks_envelope", jenvelope}}; }
    else    if (arg_prop(argc, argv) == "C20") g = {{"tamper", tamper}, {"splice", splice}, {"wrong_pw", wrong_pw}};
    else g = {{"header", header}, {"entries", entries}, {"aliases", aliases}, {"sizes", sizes}, {"large", large}, {"passwords", passwords}, {"unreadable", unreadable}};
    return main_impl(argc, argv, g);
}
