// C21 container readers: every way a BIO or FILE can deliver the bytes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "p12.h"
#include <openssl/bio.h>
using namespace mc;
using namespace p12;
static const Bytes PW = S("secret"), KPW = S("other");

// ---- containers of an exact size --------------------------------------------------
enum { JKS, KEY6, P12, NFMT };
static const char* FMT[] = {"JKS", "Key-6", "PKCS#12"};
static Bytes grow(int f, int extra, int fine)
{
    if (f == JKS) return jks_sign(jks_body({jks_key_entry(S("k"), Bytes(8, 1), epki(protect(p8(0, true, 5), utf16(KPW))), {}), jks_cert_entry(Bytes(1 + fine, 'a'), Bytes(8, 2), cert(2, extra))}), utf16(PW));
    if (f == P12) return store({data_ci(ref::seqv({key_bag(p8(0, true, 5)), cert_bag(cert(1, extra)), bag(BAG(5), ref::seq({ref::oid("1.2.3.4"), ctx0(ref::octet(Bytes(1 + fine, 7)))}))}))}, PW, 0);
    Bytes ct = key6_cipher(p8(1, false, 7, 0, attr("1.2.3.4.5", ref::octet(Bytes(extra + 1, 3)))), PW);
    return ref::seq({ref::seq({ref::oid(KEY6_OID), ref::seq({ref::octet(Bytes(4 + fine, 1)), ref::octet(Bytes())})}), ref::octet(ct)});
}
// the container of exactly 'size' bytes (smallest possible if size is 0)
static const Bytes& sized(int f, int size)
{
    static std::map<std::pair<int, int>, Bytes> memo;
    Bytes& b = memo[{f, size}];
    if (!b.empty()) return b;
    if (size > 5000) return b = grow(f, size, 0);   // about that large
    Bytes base = grow(f, 0, 0);
    if (!size) return b = base;
    for (int e = std::max(0, size - (int)base.size() - 40); e <= size; e++)
        for (int fine = 0; fine < 12; fine++) { Bytes d = grow(f, e, fine); if ((int)d.size() == size) return b = d; if ((int)d.size() > size + 30 && fine == 0) { fprintf(stderr, "HARNESS-ERROR no %s of %d bytes\n", FMT[f], size); exit(3); } }
    fprintf(stderr, "HARNESS-ERROR no %s of %d bytes\n", FMT[f], size); exit(3);
}
static Out parse(int f, const Bytes& d)
{
    Heap h(d), a(PW), b(KPW), z(S("secretZ") + Bytes(1, 0));
    return guard([&](KeyStore** ks) {
        return f == JKS ? parseJKS(h.p, h.n, (char*)a.p, a.n, (char*)b.p, b.n, ks) : f == KEY6 ? parseKey6(h.p, h.n, (char*)a.p, a.n, ks) : parsePKCS12(h.p, h.n, (char*)z.p, PW.size(), ks); });
}
static const Out& parsed(int f, int size)
{
    static std::map<std::pair<int, int>, Out> memo;
    auto it = memo.find({f, size});
    if (it == memo.end()) it = memo.emplace(std::make_pair(f, size), parse(f, sized(f, size))).first;
    return it->second;
}
static int read_bio(int f, BIO* bio, KeyStore** ks)
{
    Heap a(PW), b(KPW), z(S("secretZ") + Bytes(1, 0));
    return f == JKS ? readJKS_bio(bio, (char*)a.p, a.n, (char*)b.p, b.n, ks) : f == KEY6 ? readKey6_bio(bio, (char*)a.p, a.n, ks) : readPKCS12_bio(bio, (char*)z.p, PW.size(), ks);
}
static int read_fp(int f, FILE* fp, KeyStore** ks)
{
    Heap a(PW), b(KPW), z(S("secretZ") + Bytes(1, 0));
    return f == JKS ? readJKS(fp, (char*)a.p, a.n, (char*)b.p, b.n, ks) : f == KEY6 ? readKey6(fp, (char*)a.p, a.n, ks) : readPKCS12(fp, (char*)z.p, PW.size(), ks);
}

// ---- a source delivering as told ----------------------------------------------------
struct Source {
    Bytes d; size_t pos = 0; int reads = 0, frees = 0, writes = 0;
    std::function<int(int)> size;   // how much the i-th read may deliver
    int fail_at = -1;               // this read fails
    int end = 0;                    // end of data: 0 returns 0, 1 returns -1, 2 returns -2
    bool over = false;
};
static int src_read(BIO* b, char* out, int n)
{
    Source* s = (Source*)BIO_get_data(b);
    BIO_clear_retry_flags(b);
    int i = s->reads++;
    if (i == s->fail_at) return -1;
    if (s->pos >= s->d.size()) { s->over = true; return s->end == 0 ? 0 : -s->end; }
    int k = std::min(n, std::min((int)(s->d.size() - s->pos), s->size ? s->size(i) : n));
    memcpy(out, s->d.data() + s->pos, k); s->pos += k;
    return k;
}
static int src_write(BIO* b, const char*, int n) { ((Source*)BIO_get_data(b))->writes++; return n; }
static int src_destroy(BIO* b) { ((Source*)BIO_get_data(b))->frees++; return 1; }
static long src_ctrl(BIO* b, int cmd, long, void*)
{
    Source* s = (Source*)BIO_get_data(b);
    if (cmd == BIO_CTRL_EOF) return s->over;
    if (cmd == BIO_CTRL_FLUSH) return 1;
    return 0;
}
static BIO_METHOD* method()
{
    static BIO_METHOD* m = nullptr;
    if (!m) { m = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "src"); BIO_meth_set_read(m, src_read); BIO_meth_set_write(m, src_write); BIO_meth_set_ctrl(m, src_ctrl); BIO_meth_set_destroy(m, src_destroy); }
    return m;
}
struct Bio { BIO* b; Bio(Source& s) : b(BIO_new(method())) { BIO_set_data(b, &s); BIO_set_init(b, 1); } ~Bio() { BIO_free(b); } };
static void same(Ctx& c, const Out& o, const Out& want, const std::string& what)
{
    c.step(); c.outcome(mix(o.rc, hash_str(show(o.c))));
    c.check(o.rc == want.rc, "%s: returned %d, parsing the bytes returns %d", what.c_str(), o.rc, want.rc);
    c.check(o.c == want.c, "%s: read %s, the bytes hold %s", what.c_str(), show(o.c).c_str(), show(want.c).c_str());
    c.check(!o.left, "%s: refused, but a store was left behind", what.c_str());
}
// reads the source twice (refilled in between): the caller's BIO stays usable
static void via_bio(Ctx& c, int f, Source& s, const Out& want, const std::string& what)
{
    Bio b(s);
    auto go = [&](int round) {
        s.pos = 0; s.reads = 0; s.over = false;
        Out o = guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); });
        same(c, o, want, what + (round ? " (second reading)" : ""));
        c.check(s.frees == 0 && s.writes == 0 && BIO_get_data(b.b) == &s, "%s: the source was freed or written to", what.c_str());
        c.check(!want.rc || s.pos == s.d.size(), "%s: %zu of %zu bytes taken", what.c_str(), s.pos, s.d.size());
    };
    go(0); go(1);
    c.check(BIO_method_type(b.b) && BIO_up_ref(b.b) == 1, "%s: source not usable", what.c_str());
    BIO_free(b.b);
    c.check(s.frees == 0, "%s: the source lost its owner", what.c_str());
}
static int SIZES[] = {0, 1023, 1024, 1025, 2047, 2048, 2049, 3072, 1536, 4096};
// every constant chunk size
static void uniform(Ctx& c)
{
    int f = c.choose(NFMT, "format"), si = c.choose(c.thorough() ? 10 : f == KEY6 ? 4 : 7, "size"), lim = c.thorough() ? 1040 : f == KEY6 ? 40 : 130;
    int k = c.choose(lim, "chunk");
    c.shard();
    int n = k + 1;
    if (k >= lim - 16) { static const int big[] = {255, 256, 257, 511, 512, 513, 767, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4096, 100000}; n = big[k - (lim - 16)]; }
    Source s; s.d = sized(f, SIZES[si]); s.size = [n](int) { return n; }; s.end = n % 3;
    c.state(mix(mix(f, si), n)); c.note("%s of %zu bytes in chunks of %d", FMT[f], s.d.size(), n);
    const Out& w = parsed(f, SIZES[si]);
    c.check(w.rc == 1, "%s of %zu bytes cannot be parsed", FMT[f], s.d.size());
    via_bio(c, f, s, w, fmt("%s of %zu bytes in chunks of %d", FMT[f], s.d.size(), n));
}
// every sequence of chunk sizes for the first reads, then one of three continuations
static void patterns(Ctx& c)
{
    static const int P[] = {1, 2, 100, 1023, 1024, 5000};
    int f = c.choose(2, "format") ? P12 : JKS, si = c.choose(c.thorough() ? 4 : 2, "size"), n = c.thorough() ? 5 : 4;
    std::vector<int> q; for (int i = 0; i < n; i++) { q.push_back(P[c.choose(6, "chunk")]); if (i == 1) c.shard(); }
    int cont = c.choose(3, "rest");
    c.shard();
    static const int sz[] = {2048, 1025, 3072, 2049};
    Source s; s.d = sized(f, sz[si]); s.end = cont;
    s.size = [&](int i) { return i < n ? q[i] : cont == 0 ? 1024 : cont == 1 ? q[i % n] : 511; };
    uint64_t h = mix(f, si); std::string t; for (int v : q) { h = mix(h, v); t += fmt(" %d", v); }
    c.state(mix(h, cont)); c.note("%s of %d bytes in chunks%s ..", FMT[f], sz[si], t.c_str());
    via_bio(c, f, s, parsed(f, sz[si]), fmt("%s of %d bytes in chunks%s .. (%d)", FMT[f], sz[si], t.c_str(), cont));
}
struct Cookie { Source* s; int closes = 0; };
static ssize_t ck_read(void* p, char* buf, size_t n)
{
    Source* s = ((Cookie*)p)->s; int i = s->reads++;
    if (i == s->fail_at) { errno = EIO; return -1; }
    if (s->pos >= s->d.size()) return 0;
    size_t k = std::min(n, std::min(s->d.size() - s->pos, (size_t)(s->size ? s->size(i) : (int)n)));
    memcpy(buf, s->d.data() + s->pos, k); s->pos += k;
    return (ssize_t)k;
}
static int ck_close(void* p) { ((Cookie*)p)->closes++; return 0; }
// large containers: whole, and with a read failing or the data ending in the second half
static void bulk(Ctx& c)
{
    static const int sz[] = {8000, 16300, 32700, 65000, 65536, 70000, 131072, 262144, 600000, 1000000};
    static const int CH[] = {100, 1000, 1023, 1024, 1025, 4096, 16384, 65535, 65536, 2000000};
    int f = c.choose(NFMT, "format"), si = c.choose(10, "size"), ch = c.choose(10, "chunk"), how = c.choose(5, "way");
    c.shard();
    const Bytes& d = sized(f, sz[si]);
    int per = std::min(CH[ch], 1024), need = ((int)d.size() + per - 1) / per, at = need / 2 + how;
    std::string what = fmt("%s of %zu bytes in chunks of %d (%d)", FMT[f], d.size(), CH[ch], how);
    c.state(mix(mix(f, si), mix(ch, how))); c.note("%s", what.c_str());
    const Out& w = parsed(f, sz[si]); Out none;
    c.check(w.rc == 1, "%s of %zu bytes cannot be parsed", FMT[f], d.size());
    Source s; s.d = d; s.size = [&](int) { return CH[ch]; };
    if (how == 0) via_bio(c, f, s, w, what);
    else if (how == 1) {
        s.fail_at = at;
        Bio b(s);
        Out o = guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); });
        same(c, o, none, what + " with a failing read");
        s.fail_at = -1; s.pos = 0; s.reads = 0;
        o = guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); });
        same(c, o, w, what + " with a failing read, then whole");
    } else if (how == 2) { s.d.resize(d.size() * 3 / 4); via_bio(c, f, s, parse(f, s.d), what + " cut short"); }
    else if (how == 3) { Heap h(d); BIO* b = BIO_new_mem_buf(h.p, (int)h.n); Out o = guard([&](KeyStore** ks) { return read_bio(f, b, ks); }); same(c, o, w, what + " memory"); BIO_free(b); }
    else {
        Cookie k{&s};
        cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close};
        FILE* fp = fopencookie(&k, "r", io);
        Out o = guard([&](KeyStore** ks) { return read_fp(f, fp, ks); });
        same(c, o, w, what + " from a FILE");
        fclose(fp);
    }
}
// a read fails: refused, whatever was delivered before
static void failing(Ctx& c)
{
    int f = c.choose(NFMT, "format"), si = c.choose(3, "size"), ch = c.choose(4, "chunk"), at = c.choose(24, "failing read");
    c.shard();
    static const int CH[] = {100, 511, 1024, 1500};
    static const int sz[] = {0, 1024, 2049};
    const Bytes& d = sized(f, sz[si]);
    int per = std::min(CH[ch], 1024), need = ((int)d.size() + per - 1) / per;
    if (at >= need) { c.step(); return; }   // everything was delivered before: the failure is an end of data like any other
    Source s; s.d = d; s.fail_at = at; s.size = [&](int) { return CH[ch]; };
    Out none;
    c.state(mix(mix(f, si), mix(ch, at))); c.note("%s of %zu bytes, read %d of %d fails", FMT[f], d.size(), at, need);
    std::string what = fmt("%s of %zu bytes, read %d of %d bytes fails", FMT[f], d.size(), at, CH[ch]);
    {
        Bio b(s);
        Out o = guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); });
        same(c, o, none, what);
        s.fail_at = -1; s.pos = 0; s.reads = 0;
        o = guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); });
        same(c, o, parsed(f, sz[si]), what + ", then the source recovers");
        c.check(s.frees == 0, "%s: the source was freed", what.c_str());
    }
    long l = leak_per_run([&] { Source t; t.d = d; t.fail_at = at; t.size = [&](int) { return CH[ch]; }; Bio b(t); guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); }); });
    c.check(l <= 0, "%s: leaks %ld allocations", what.c_str(), l);
}
// empty sources; other kinds of BIO
static void kinds(Ctx& c)
{
    int f = c.choose(NFMT, "format"), kind = c.choose(8, "kind"), si = c.choose(10, "size");
    c.shard();
    const Bytes& d = sized(f, SIZES[si]);
    Out none; const Out& want = parsed(f, SIZES[si]);
    std::string what = fmt("%s of %zu bytes, source kind %d", FMT[f], d.size(), kind);
    c.state(mix(mix(f, kind), si)); c.note("%s", what.c_str());
    auto leak = [&](const std::function<void()>& g) { long l = leak_per_run(g); c.check(l <= 0, "%s: leaks %ld allocations", what.c_str(), l); };
    if (kind < 3) {   // empty, three ways of ending
        Source s; s.end = kind; via_bio(c, f, s, none, what + " empty");
        leak([&] { Source t; t.end = kind; Bio b(t); guard([&](KeyStore** ks) { return read_bio(f, b.b, ks); }); });
    } else if (kind == 3) {   // memory BIO, read twice by rewinding
        auto go = [&](bool check) {
            Heap h(d); BIO* b = BIO_new_mem_buf(h.p, (int)h.n);
            for (int i = 0; i < 2; i++) { Out o = guard([&](KeyStore** ks) { return read_bio(f, b, ks); }); if (check) { same(c, o, want, what + " memory"); c.check(BIO_eof(b) == 1, "%s: not read to the end", what.c_str()); } BIO_reset(b); }
            BIO_free(b);
        };
        go(true); leak([&] { go(false); });
    } else if (kind == 4) {   // growing memory BIO: written again after reading
        BIO* b = BIO_new(BIO_s_mem());
        for (int i = 0; i < 2; i++) { BIO_write(b, d.data(), (int)d.size()); Out o = guard([&](KeyStore** ks) { return read_bio(f, b, ks); }); same(c, o, want, what + " growing memory"); }
        Out o = guard([&](KeyStore** ks) { return read_bio(f, b, ks); }); same(c, o, none, what + " drained");
        BIO_free(b);
    } else if (kind == 5) {   // base64 filter
        BIO *e = BIO_new(BIO_f_base64()), *m = BIO_new(BIO_s_mem()); e = BIO_push(e, m);
        BIO_write(e, d.data(), (int)d.size()); BIO_flush(e); BIO_pop(e); BIO_free(e); BIO_set_mem_eof_return(m, 0);
        BIO* r = BIO_push(BIO_new(BIO_f_base64()), m);
        Out o = guard([&](KeyStore** ks) { return read_bio(f, r, ks); }); same(c, o, want, what + " base64");
        BIO_free_all(r);
    } else if (kind == 6) {   // buffering filter over a source of odd chunks
        Source s; s.d = d; s.size = [](int i) { return 1 + i * 37 % 700; };
        BIO* b = BIO_new(method()); BIO_set_data(b, &s); BIO_set_init(b, 1);
        BIO* r = BIO_push(BIO_new(BIO_f_buffer()), b);
        Out o = guard([&](KeyStore** ks) { return read_bio(f, r, ks); }); same(c, o, want, what + " buffered");
        c.check(s.frees == 0, "%s: freed", what.c_str());
        BIO_free_all(r);
    } else {   // two halves of a BIO pair
        BIO *a = nullptr, *b = nullptr;
        if (!BIO_new_bio_pair(&a, 8192, &b, 8192)) { fprintf(stderr, "HARNESS-ERROR pair\n"); exit(3); }
        BIO_write(a, d.data(), (int)d.size()); BIO_shutdown_wr(a);
        Out o = guard([&](KeyStore** ks) { return read_bio(f, b, ks); }); same(c, o, want, what + " pair");
        BIO_free(a); BIO_free(b);
    }
}
// ---- FILE* ---------------------------------------------------------------------------
static void files(Ctx& c)
{
    int f = c.choose(NFMT, "format"), si = c.choose(8, "size"), ch = c.choose(f == KEY6 && !c.thorough() ? 6 : 24, "chunk"), buf = c.choose(3, "buffering"), at = c.choose(5, "failing read") - 1;
    c.shard();
    static const int CH[] = {1024, 1, 7, 1023, 1025, 5000, 2, 3, 5, 13, 64, 100, 255, 256, 257, 300, 500, 511, 512, 513, 700, 1000, 1022, 2048};
    const Bytes& d = sized(f, SIZES[si]);
    std::string what = fmt("%s of %zu bytes from a FILE in chunks of %d (buffering %d, failing read %d)", FMT[f], d.size(), CH[ch], buf, at);
    c.state(mix(mix(f, si), mix(ch, mix(buf, at)))); c.note("%s", what.c_str());
    Source s; s.d = d; s.size = [&](int) { return CH[ch]; }; s.fail_at = at;
    Cookie k{&s};
    cookie_io_functions_t io = {ck_read, nullptr, nullptr, ck_close};
    FILE* fp = fopencookie(&k, "r", io);
    static char vb[4096];
    if (buf == 1) setvbuf(fp, nullptr, _IONBF, 0); else if (buf == 2) setvbuf(fp, vb, _IOFBF, 1000);
    Out none;
    Out o = guard([&](KeyStore** ks) { return read_fp(f, fp, ks); });
    bool complete = at < 0 || s.fail_at >= s.reads || s.pos == d.size();
    if (complete) { if (at < 0 || s.fail_at >= s.reads) same(c, o, parsed(f, SIZES[si]), what); }
    else same(c, o, none, what);
    c.check(k.closes == 0, "%s: the FILE was closed", what.c_str());
    clearerr(fp);
    s.fail_at = -1; s.pos = 0;
    o = guard([&](KeyStore** ks) { return read_fp(f, fp, ks); });
    if (complete) same(c, o, parsed(f, SIZES[si]), what + ", second reading");
    fclose(fp);
    c.check(k.closes == 1, "%s: closed %d times", what.c_str(), k.closes);
}
// a real file, read from an offset
static void offset(Ctx& c)
{
    int f = c.choose(NFMT, "format"), si = c.choose(10, "size"), off = c.choose(4, "offset");
    c.shard();
    static const int OFF[] = {0, 1, 1000, 1024};
    const Bytes& d = sized(f, SIZES[si]);
    std::string what = fmt("%s of %zu bytes from a file at offset %d", FMT[f], d.size(), OFF[off]);
    c.state(mix(mix(f, si), off)); c.note("%s", what.c_str());
    FILE* fp = tmpfile();
    if (!fp) { fprintf(stderr, "HARNESS-ERROR tmpfile\n"); exit(3); }
    for (int i = 0; i < OFF[off]; i++) fputc('x', fp);
    fwrite(d.data(), 1, d.size(), fp);
    for (int round = 0; round < 2; round++) {
        fseek(fp, OFF[off], SEEK_SET);
        Out o = guard([&](KeyStore** ks) { return read_fp(f, fp, ks); });
        same(c, o, parsed(f, SIZES[si]), what);
        c.check(ftell(fp) == (long)(OFF[off] + d.size()), "%s: not at the end afterwards", what.c_str());
    }
    Out none, o = guard([&](KeyStore** ks) { return read_fp(f, fp, ks); });
    same(c, o, none, what + ", at its end");
    fclose(fp);
    if (off == 0) { long l = leak_per_run([&] { FILE* t = tmpfile(); fwrite(d.data(), 1, d.size(), t); rewind(t); guard([&](KeyStore** ks) { return read_fp(f, t, ks); }); fclose(t); }); c.check(l <= 0, "%s: leaks %ld allocations", what.c_str(), l); }
}
// every cut of a container through the reader: as parsing the cut bytes
static void cuts(Ctx& c)
{
    int f = c.choose(2, "format") ? P12 : JKS, si = c.choose(2, "size") ? 1025 : 0;
    const Bytes& d = sized(f, si);
    int n = c.choose((int)d.size() + 3, "length"), ch = c.choose(2, "chunk");
    c.shard();
    Source s; s.d = d; s.d.resize(n, 0x41); s.size = [&](int) { return ch ? 97 : 1024; };
    Out w = parse(f, s.d);
    c.state(mix(mix(f, si), mix(n, ch))); c.note("%s cut to %d", FMT[f], n);
    via_bio(c, f, s, w, fmt("%s cut to %d bytes", FMT[f], n));
}
int main(int argc, char** argv)
{
    eng::get(); eng::install_rng();
    return main_impl(argc, argv, {{"uniform", uniform}, {"patterns", patterns}, {"bulk", bulk}, {"failing", failing}, {"kinds", kinds}, {"files", files}, {"offset", offset}, {"cuts", cuts}});
}
