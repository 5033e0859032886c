// C18 contents of PKCS#12 containers; C20 wrong passwords and tampering; C17 malformed ones.
#include "p12.h"
using namespace mc;
using namespace p12;

static const Bytes PW = S("password");
static void add(Contents& a, const Contents& b) { for (auto& k : b.keys) a.keys.push_back(k); for (auto& k : b.certs) a.certs.push_back(k); }
struct Bag { Bytes der; Contents c; };
enum { NKIND = 12 };
// every kind of bag, at position 'pos' (which makes its contents unique)
static Bag make(int kind, int pos)
{
    static std::map<std::pair<int, int>, Bag> memo;
    auto it = memo.find({kind, pos});
    if (it != memo.end()) return it->second;
    Bag b;
    bool le = pos & 1; int cv = pos % 4; uint64_t d = 3 + pos; int sb = kind == 1 ? 2 : 0;
    Bytes p = p8(cv, le, d, sb), x = cert(pos + 1, pos * 40);
    switch (kind) {
    case 0: b.der = key_bag(p); b.c.keys = {p8_out(cv, le, d)}; break;
    case 1: b.der = key_bag(p, true); b.c.keys = {p8_out(cv, le, d, sb)}; break;
    case 2: case 3: case 4: b.der = shrouded_bag(p, kind - 2, PW, kind == 3); b.c.keys = {p8_out(cv, le, d)}; break;
    case 5: b.der = cert_bag(x); b.c.certs = {x}; break;
    case 6: b.der = cert_bag(x, true); b.c.certs = {x}; break;
    case 7: b.der = secret_bag(); break;
    case 8: b.der = crl_bag(); break;
    case 9: b.der = safes_bag({}); break;
    case 10: b.der = safes_bag({cert_bag(x), key_bag(p)}); b.c.keys = {p8_out(cv, le, d)}; b.c.certs = {x}; break;
    case 11: b.der = safes_bag({safes_bag({shrouded_bag(p, PDSTU, PW), secret_bag()}), cert_bag(x)}); b.c.keys = {p8_out(cv, le, d)}; b.c.certs = {x}; break;
    }
    return memo[{kind, pos}] = b;
}
// safes: plain, three encrypted kinds, another content type
static Bytes safe(int kind, const std::vector<Bytes>& bags)
{
    if (kind == 0) return data_ci(ref::seqv(bags));
    if (kind == 4) return other_ci();
    return enc_ci(ref::seqv(bags), kind - 1, PW);
}
static void judge(Ctx& c, const Bytes& store, const Bytes& pw, const Contents& want, const std::string& what)
{
    Out o = pfx(store, pw);
    c.step(); c.outcome(mix(hash_str(show(o.c)), o.rc));
    if (want.keys.empty() && want.certs.empty()) {
        c.check(o.rc == 0, "%s: neither keys nor certificates, but returned %d", what.c_str(), o.rc);
        c.check(!o.left, "%s: refused, but a store was left behind", what.c_str());
        return;
    }
    c.check(o.rc == 1, "%s: refused (%d)", what.c_str(), o.rc);
    c.check(o.c == want, "%s: read %s, stored %s", what.c_str(), show(o.c).c_str(), show(want).c_str());
}
static void refuse(Ctx& c, const Bytes& store, const Bytes& pw, const std::string& what)
{
    Out o = pfx(store, pw);
    c.step(); c.outcome(o.rc);
    c.check(o.rc == 0, "%s: returned %d with %s", what.c_str(), o.rc, show(o.c).c_str());
    c.check(!o.left, "%s: refused, but a store was left behind", what.c_str());
}
// shape: number of safes and how many bags each may hold
static void arrange(Ctx& c, int nsafes, int maxbags, int kinds)
{
    std::vector<int> sk, bk; std::vector<Bytes> cis; Contents want; std::string t; uint64_t h = nsafes;
    std::vector<std::vector<int>> all;
    for (int s = 0; s < nsafes; s++) {
        sk.push_back(c.choose(5, "safe"));
        std::vector<int> v;
        if (sk[s] != 4) { int n = c.choose(maxbags + 1, "bags"); for (int i = 0; i < n; i++) v.push_back(c.choose(kinds, "bag")); }
        all.push_back(v);
        if (s == 0 && nsafes > 1) c.shard();
    }
    c.shard();
    int pos = 0;
    static const int few[] = {0, 4, 5, 7, 10, 2};
    for (int s = 0; s < nsafes; s++) {
        std::vector<Bytes> ders; t += fmt(" [%d:", sk[s]); h = mix(h, sk[s]);
        for (int k : all[s]) { int kk = kinds == NKIND ? k : few[k]; Bag b = make(kk, pos++); ders.push_back(b.der); add(want, b.c); t += fmt(" %d", kk); h = mix(h, kk); }
        t += "]";
        cis.push_back(safe(sk[s], ders));
    }
    c.state(h); c.note("safes%s -> %s", t.c_str(), show(want).c_str());
    Bytes d = store(cis, PW, (int)(h % 3));
    judge(c, d, PW, want, "safes" + t);
    if (h % 32 == 0) { long l = leak_per_run([&] { pfx(d, PW); }); c.check(l <= 0, "reading safes%s leaks %ld allocations", t.c_str(), l); }
}
static void one(Ctx& c) { arrange(c, 1, 3, NKIND); }
static void two(Ctx& c) { arrange(c, 2, c.thorough() ? 2 : 1, NKIND); }
static void three(Ctx& c) { arrange(c, 3, 1, c.thorough() ? 6 : 3); }
static void none(Ctx& c) { int n = c.choose(1, ""); (void)n; c.shard(); judge(c, store(std::vector<Bytes>(), PW), PW, {}, "no safes"); c.state(1); }
// passwords for MAC, encrypted safe and shrouded key alike
static void passwords(Ctx& c)
{
    static const int far[] = {127, 128, 129, 255, 256, 257, 300, 1000};
    int li = c.choose((c.thorough() ? 100 : 60) + 8, "length"), kind = c.choose(3, "encryption"), mac = c.choose(3, "mac");
    c.shard();
    int len = li < 8 ? far[li] : li - 7;
    Bytes pw(len); for (int i = 0; i < len; i++) pw[i] = (uint8_t)(33 + (i * 7 + len) % 94);
    Contents w; w.keys = {p8_out(1, true, 5)}; w.certs = {cert(1)};
    Bytes d = store({enc_ci(ref::seqv({cert_bag(cert(1))}), kind, pw), data_ci(ref::seqv({shrouded_bag(p8(1, true, 5), kind, pw)}))}, pw, mac, 1 + len % 3);
    c.state(mix(len, mix(kind, mac))); c.note("password of %d characters, encryption %d, mac %d", len, kind, mac);
    judge(c, d, pw, w, fmt("password of %d characters, encryption %d, mac %d", len, kind, mac));
}
// many bags, safes and levels of nesting; large contents
static const int COUNTS[] = {4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300};
enum { NCOUNT = sizeof(COUNTS) / sizeof(*COUNTS) };
static std::pair<Bytes, Contents> big_store(int what, int n, int content)
{
    // content: keys, certificates, both in turn, everything
    auto kind = [&](int i) { return content == 0 ? 0 : content == 1 ? 5 : content == 2 ? (i & 1 ? 5 : 0) : (i * 7 + 5) % NKIND; };
    Contents w; std::vector<Bytes> bags, cis;
    if (what == 4) {            // n levels of nesting, one bag beside each
        Bytes in; std::vector<Contents> cs;
        n = std::min(n, 20);    // libcrypto reads no more than 30 constructed levels
        for (int i = 0; i < n; i++) { Bag b = make(kind(i), i % 100); cs.push_back(b.c); in = i ? safes_bag({b.der, in}) : safes_bag({b.der}); }
        for (int i = n; i-- > 0;) add(w, cs[i]);
        cis = {safe(0, {in}), safe(0, {make(0, 3).der})}; add(w, make(0, 3).c);
        return {store(cis, PW), w};
    }
    for (int i = 0; i < n; i++) { Bag b = make(kind(i), i % 100); bags.push_back(b.der); add(w, b.c); }
    if (what == 0) cis = {safe(0, bags)};
    if (what == 1) cis = {safe(2, bags)};
    if (what == 2) { cis = {safe(0, {safes_bag(bags), make(5, 1).der})}; add(w, make(5, 1).c); }
    if (what == 3) for (auto& b : bags) cis.push_back(safe(0, {b}));
    return {store(cis, PW), w};
}
static void many(Ctx& c)
{
    int what = c.choose(5, "what"), i = c.choose(NCOUNT, "count"), content = c.choose(4, "content");
    c.shard();
    auto b = big_store(what, COUNTS[i], content);
    if (what == 4 && COUNTS[i] > 20) return;
    c.state(mix(what, mix(i, content))); c.note("%d bags arranged %d", COUNTS[i], what);
    judge(c, b.first, PW, b.second, fmt("%d bags of contents %d arranged %d", COUNTS[i], content, what));
}
static void large(Ctx& c)
{
    static const int big[] = {4095, 4096, 16383, 16384, 32767, 32768, 65000, 65535, 65536, 65537, 70000, 131072, 1000000};
    int i = c.choose(13, "size"), what = c.choose(4, "what"), sk = c.choose(4, "safe");
    c.shard();
    Contents w; std::vector<Bytes> bags;
    Bytes x = cert(1, big[i]), p = p8(1, true, 4, 0, attr("1.2.3.4", ref::octet(Bytes(big[i], 0x33))));
    if (what == 0) { bags = {cert_bag(x)}; w.certs = {x}; }
    else if (what == 3) { bags = {safes_bag({cert_bag(x), key_bag(p8(2, true, 5))})}; w.certs = {x}; w.keys = {p8_out(2, true, 5)}; }
    else { bags = {what == 1 ? key_bag(p) : shrouded_bag(p, PDSTU, PW)}; w.keys = {p8_out(1, true, 4)}; }
    bags.push_back(make(5, 2).der); add(w, make(5, 2).c);
    c.state(mix(i, mix(what, sk))); c.note("%d bytes, kind %d, safe %d", big[i], what, sk);
    judge(c, store({safe(sk, bags)}, PW, i % 3), PW, w, fmt("%d bytes, kind %d, safe %d", big[i], what, sk));
}
// an unreadable bag anywhere refuses the container
static void unreadable(Ctx& c)
{
    int kind = c.choose(11, "kind"), pos = c.choose(3, "position"), where = c.choose(3, "where"), sk = c.choose(4, "safe");
    c.shard();
    Bytes b, x = cert(9), y = x; y[0] = 0x31;
    Bytes ebad = shroud(p8(0, true, 5), PAES, S("other"));
    switch (kind) {
    case 0: b = key_bag(ref::pkcs8(true, ref::alg_params(ref::oid("1.2.3.4.5")), {5})); break;         // unknown curve
    case 1: b = bag(BAG(2), ebad); break;                                                             // other password
    case 2: b = cert_bag(x, false, "1.2.840.113549.1.9.22.2"); break;                                 // SDSI certificate
    case 3: b = cert_bag(y); break;                                                                   // not a certificate
    case 4: b = bag(BAG(2), shroud(ref::pkcs8(true, ref::alg_params(ref::oid("1.2.3.4.5")), {5}), PAES, PW)); break;
    case 5: b = key_bag(ref::seq({ref::integer(0), ref::seq({ref::oid("1.2.3.4"), ref::null()}), ref::octet({1})})); break;   // unknown algorithm
    case 6: b = bag(BAG(2), ref::seq({ref::seq({ref::oid("1.2.3.4"), ref::null()}), ref::octet(Bytes(24, 1))})); break;          // unknown encryption
    case 7: b = cert_bag(Bytes()); break;
    case 8: b = cert_bag(Bytes(x.begin(), x.end() - 1)); break;
    case 9: b = bag(BAG(2), shroud(p8(0, true, 5), PDSTU, S("other"))); break;
    case 10: b = key_bag(ref::pkcs8(true, ref::alg_params(any(0).spec(true), Bytes(63, 1)), {5})); break;   // s-box of 63 bytes
    }
    std::vector<Bytes> bags;
    for (int i = 0; i < 3; i++) bags.push_back(i == pos ? (where == 1 ? safes_bag({b}) : b) : make(i == 0 ? 0 : 5, i).der);
    std::vector<Bytes> cis;
    if (where == 2) cis.push_back(safe(0, {make(5, 7).der, make(0, 8).der}));
    cis.push_back(safe(sk, bags));
    Bytes d = store(cis, PW);
    c.state(mix(mix(kind, pos), mix(where, sk))); c.note("unreadable bag %d at %d", kind, pos);
    refuse(c, d, PW, fmt("unreadable bag %d at %d (%d, safe %d)", kind, pos, where, sk));
    long l = leak_per_run([&] { pfx(d, PW); });
    c.check(l <= 0, "refusing unreadable bag %d at %d leaks %ld allocations", kind, pos, l);
}

// ---- C20 ------------------------------------------------------------------------
static std::vector<Bytes> samples(const Bytes& pw)
{
    std::vector<Bytes> v;
    v.push_back(store({data_ci(ref::seqv({key_bag(p8(0, true, 5)), cert_bag(cert(1))}))}, pw, 0));
    v.push_back(store({enc_ci(ref::seqv({cert_bag(cert(1))}), PDSTU, pw), data_ci(ref::seqv({shrouded_bag(p8(1, false, 5), PDSTU, pw)}))}, pw, 2));
    v.push_back(store({enc_ci(ref::seqv({cert_bag(cert(1)), shrouded_bag(p8(1, false, 5), P3DES, pw)}), PAES, pw)}, pw, 1));
    for (auto& d : v) if (pfx(d, pw).rc != 1) bad("sample");
    return v;
}
// the bytes the MAC covers, the MAC itself, its salt and iteration count
static std::pair<int, int> content_range(const Bytes& d)
{
    const unsigned char* q = d.data();
    PKCS12* p = d2i_PKCS12(nullptr, &q, (long)d.size());
    const ASN1_OCTET_STRING *mac, *salt; const X509_ALGOR* alg; const ASN1_INTEGER* it;
    PKCS12_get0_mac(&mac, &alg, &salt, &it, p);
    Bytes m(ASN1_STRING_get0_data(mac), ASN1_STRING_get0_data(mac) + ASN1_STRING_length(mac));
    PKCS12_free(p);
    // content: OCTET STRING inside [0] of the data ContentInfo
    auto hdr = [&](size_t at, size_t& len) { size_t n = d[at + 1]; size_t h = 2; if (n & 0x80) { int k = n & 0x7f; n = 0; for (int i = 0; i < k; i++) n = n << 8 | d[at + 2 + i]; h = 2 + k; } len = n; return h; };
    size_t l, at = 0; at += hdr(at, l); at += 3; at += hdr(at, l); at += 11; at += hdr(at, l); size_t h = hdr(at, l);
    return {(int)(at + h), (int)(at + h + l)};
}
static void tamper(Ctx& c)
{
    static std::vector<Bytes> v = samples(PW);
    int s = c.choose(3, "store");
    static std::pair<int, int> r[3] = {content_range(v[0]), content_range(v[1]), content_range(v[2])};
    int p = c.choose((int)v[s].size(), "byte");
    c.shard();
    // content, and the MAC, salt and iterations (the last fields of the container)
    int macend = (int)v[s].size(), maclen = s == 0 ? 20 : 32, macat = macend - 8 - 2 - maclen - (0);   // salt 04 08 <8>; iterations default 1 are omitted
    bool in_content = p >= r[s].first && p < r[s].second, in_mac = p >= macat && p < macat + maclen, in_salt = p >= macend - 8;
    if (!in_content && !in_mac && !in_salt) { c.step(); return; }
    for (int x = 1; x < 256; x++) {
        if (!c.thorough() && (x & (x - 1)) && x != 0xff && x != 0x03) continue;
        Bytes b = v[s]; b[p] ^= x;
        refuse(c, b, PW, fmt("byte %d of store %d changed by %02x", p, s, x));
    }
    c.state(mix(s, p)); c.note("store %d byte %d", s, p);
}
static void nomac(Ctx& c)
{
    int s = c.choose(3, "store"), how = c.choose(4, "how");
    c.shard();
    static std::vector<Bytes> v = samples(PW);
    Bytes body(v[s].begin() + content_range(v[s]).first, v[s].begin() + content_range(v[s]).second), d;
    if (how == 0) d = store_raw(body, PW, 9);
    else if (how == 1) d = store_raw(body, S("other"), 0);
    else if (how == 2) { d = store_raw(body, PW, 0, 2); d.back() = 3; }
    else d = store_raw(body, Bytes(), 0);
    refuse(c, d, PW, how == 0 ? "container without MAC" : how == 1 ? "MAC under another password" : how == 2 ? "other iteration count" : "MAC under the empty password");
    c.state(mix(s, how)); c.note("store %d mac variation %d", s, how);
}
static void wrong_pw(Ctx& c)
{
    static std::vector<Bytes> v = samples(PW);
    int s = c.choose(3, "store"), how = c.choose(4, "edit"), p = c.choose((int)PW.size() + 1, "position");
    c.shard();
    auto tryit = [&](const Bytes& w) { if (w != PW) refuse(c, v[s], w, "wrong password " + hex(w)); };
    for (int x = 1; x < 128; x++) {
        Bytes w = PW;
        if (how == 0 && p < (int)w.size()) w[p] = (uint8_t)x;
        else if (how == 1) w.insert(w.begin() + p, (uint8_t)x);
        else if (how == 2) { if (p == (int)w.size() || x > 1) break; w.resize(p); }
        else if (how == 3) { if (x > 1 || p >= (int)w.size()) break; w.erase(w.begin() + p); }
        tryit(w);
    }
    if (how == 2 && p == 0) { tryit(PW + PW); tryit(S("PASSWORD")); tryit(S("drowssap")); }
    c.state(mix(s, mix(how, p))); c.note("store %d password edit %d at %d", s, how, p);
}

// ---- C17 ------------------------------------------------------------------------
static void rob(Ctx& c, const Bytes& d, const std::string& what, bool leak) { robust(c, [&] { return pfx(d, PW); }, what, true, leak); }
static Bytes rich()
{
    return ref::seqv({data_ci(ref::seqv({key_bag(p8(0, true, 5, 2, second(3, 9)), true), safes_bag({cert_bag(cert(1))})})), enc_ci(ref::seqv({cert_bag(cert(2))}), PDSTU, PW), data_ci(ref::seqv({shrouded_bag(p8(1, false, 5), P3DES, PW)}))});
}
static void ptruncated(Ctx& c)
{
    static const Bytes b = store_raw(rich(), PW);
    int n = c.choose((int)b.size() + 16, "length");
    c.shard();
    Bytes d = b; d.resize(n, 0x30);
    c.state(n); c.note("length %d", n);
    rob(c, d, fmt("container cut or extended to %d", n), n % 4 == 0);
}
static const int VALS[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xa0, 0xff};
// every byte of the authenticated content damaged, then authenticated again
static void pcontent(Ctx& c)
{
    static const Bytes b = rich();
    int p = c.choose((int)b.size(), "byte");
    c.shard();
    for (int k = 0; k < (c.thorough() ? 256 + 4 : 22); k++) {
        Bytes d = b;
        int e = c.thorough() ? (k < 256 ? 100 + k : k - 256 + 16) : k;
        if (e >= 100) d[p] = (uint8_t)(e - 100);
        else if (e < 16) d[p] = (uint8_t)VALS[e];
        else if (e == 16) d.erase(d.begin() + p);
        else if (e == 17) d.insert(d.begin() + p, d[p]);
        else if (e == 18) d.resize(p);
        else if (e == 19) d[p] ^= 0x20;
        else if (e == 20) d[p]++;
        else d[p]--;
        rob(c, store_raw(d, PW), fmt("content byte %d variation %d", p, e), k % 16 == p % 16);
    }
    c.state(p); c.note("content byte %d", p);
}
// containers with many bags, whole or with one bag spoilt
static void pmany(Ctx& c)
{
    int what = c.choose(5, "what"), i = c.choose(NCOUNT, "count"), content = c.choose(4, "content"), hurt = c.choose(2, "spoilt");
    c.shard();
    Bytes d = big_store(what, COUNTS[i], content).first;
    if (hurt) { auto r = content_range(d); Bytes a(d.begin() + r.first, d.begin() + r.second); a[a.size() * 2 / 3] ^= 0x11; d = store_raw(a, PW); }
    c.state(mix(mix(what, i), mix(content, hurt))); c.note("%d bags of contents %d arranged %d%s", COUNTS[i], content, what, hurt ? ", spoilt" : "");
    exercise = false;
    rob(c, d, fmt("%d bags of contents %d arranged %d%s", COUNTS[i], content, what, hurt ? ", spoilt" : ""), i % 8 == 0);
    exercise = true;
}
// the MAC part and the outer structure
static void pouter(Ctx& c)
{
    static const Bytes b = store({data_ci(ref::seqv({key_bag(p8(0, true, 5))}))}, PW, 2, 2);
    int p = c.choose((int)b.size(), "byte");
    c.shard();
    for (int k = 0; k < 256; k++) {
        if (!c.thorough() && k % 8 && k != 0x7f && k != 0x81 && k != 0x82 && k != 1 && k != 0x31) continue;
        Bytes d = b; d[p] = (uint8_t)k;
        // huge iteration counts are legal and merely slow
        if (p >= (int)b.size() - 3) continue;
        rob(c, d, fmt("outer byte %d = %02x", p, k), k % 32 == 0);
    }
    c.state(p); c.note("outer byte %d", p);
}
int main(int argc, char** argv)
{
    std::string pr = arg_prop(argc, argv);
    if (pr == "C17" && !CRYPTO_set_mem_functions(fill_malloc, fill_realloc, fill_free)) { fprintf(stderr, "HARNESS-ERROR set_mem\n"); return 3; }
    eng::get(); eng::install_rng();
    std::vector<Group> g;
    if (pr == "C20") g = {{"pfx_tamper", tamper}, {"pfx_nomac", nomac}, {"pfx_wrong_pw", wrong_pw}};
    else if (pr == "C17") { exercise = true; g = {{"pfx_truncated", ptruncated}, {"pfx_content", pcontent}, {"pfx_many", pmany}, {"pfx_outer", pouter}}; }
    else g = {{"none", none}, {"one", one}, {"two", two}, {"three", three}, {"many", many}, {"large", large}, {"passwords", passwords}, {"unreadable", unreadable}};
    return main_impl(argc, argv, g);
}
