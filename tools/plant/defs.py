KL='-lcrypto -L/repo/_build/keylib -lkeylib -Wl,-rpath,/repo/_build/keylib'
plant('digest-copy-shares-sbox','C01',[('engine/md.c','        to_ctx->dctx.cipher_ctx = &(to_ctx->cctx);\n','')],
 'a digest context copied in the middle of a message, then the original given another s-box (or freed)','the copy keeps using the original context\'s cipher state',r'''
int main() { load();
 B m = pattern(100); unsigned n; B a(32), want = digest(m);
 EVP_MD_CTX *x = EVP_MD_CTX_new(), *y = EVP_MD_CTX_new();
 NEED(EVP_DigestInit_ex(x, EVP_get_digestbynid(NID_dstu34311), NULL) > 0 && EVP_DigestUpdate(x, m.data(), 50) > 0 && EVP_MD_CTX_copy_ex(y, x) > 0);
 B sb = pattern(64, 9); NEED(EVP_MD_CTX_ctrl(x, CTRL_SBOX, 64, sb.data()) > 0);
 NEED(EVP_DigestUpdate(y, m.data() + 50, 50) > 0 && EVP_DigestFinal_ex(y, a.data(), &n) > 0);
 EXPECT(a == want); return 0; }''')
plant('digest-length-32-bits','C01',[('dstulib/gost/gosthash.c','    ghosthash_len fin_len = ctx->len;','    unsigned int fin_len = (unsigned int) ctx->len;')],
 'a message of at least 2^29 bytes (its length in bits needs more than 32 bits)','the length block of the digest is truncated',r'''
int main() { load(); B m = pattern(1 << 20); EVP_MD_CTX* c = EVP_MD_CTX_new(); NEED(EVP_DigestInit_ex(c, EVP_get_digestbynid(NID_dstu34311), NULL) > 0);
 for (int i = 0; i < 512; i++) NEED(EVP_DigestUpdate(c, m.data(), m.size()) > 0);
 B r(32); unsigned n; NEED(EVP_DigestFinal_ex(c, r.data(), &n) > 0); printf("%s\n", hexs(r).c_str());
 EXPECT(hexs(r) == "f4225cb2fc14b73b465c905b06f2b7c0c0b3446ee2d3bc440666efc48fddfd0f"); return 0; }''')
plant('cipher-decrypt-in-place','C02',[('engine/cipher.c','''                memcpy(tmpiv, iv, DSTU_CIPHER_BLOCK_SIZE);
                memcpy(iv, in + (blocks * DSTU_CIPHER_BLOCK_SIZE)- DSTU_CIPHER_BLOCK_SIZE,
                       DSTU_CIPHER_BLOCK_SIZE);
                gost_dec_cfb(gctx, tmpiv, in, out, blocks);''','''                memcpy(tmpiv, iv, DSTU_CIPHER_BLOCK_SIZE);
                gost_dec_cfb(gctx, tmpiv, in, out, blocks);
                memcpy(iv, in + (blocks * DSTU_CIPHER_BLOCK_SIZE)- DSTU_CIPHER_BLOCK_SIZE,
                       DSTU_CIPHER_BLOCK_SIZE);''')],
 'decryption in place in more than one update','the feedback register is loaded from data already overwritten',r'''
int main() { load(); B k = pattern(32, 3), iv = pattern(8, 4), m = pattern(60);
 const EVP_CIPHER* c = EVP_get_cipherbynid(NID_dstu28147_cfb); int n;
 EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); B e(80), d; NEED(c && EVP_EncryptInit_ex(x, c, NULL, k.data(), iv.data()) && EVP_EncryptUpdate(x, e.data(), &n, m.data(), 60)); e.resize(60);
 NEED(EVP_DecryptInit_ex(x, c, NULL, k.data(), iv.data())); NEED(EVP_DecryptUpdate(x, e.data(), &n, e.data(), 24)); NEED(EVP_DecryptUpdate(x, e.data() + 24, &n, e.data() + 24, 36));
 EXPECT(e == m); return 0; }''')
plant('cipher-params-current-iv','C03',[('engine/cipher.c','memcpy(&(params[4]), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);','memcpy(&(params[4]), EVP_CIPHER_CTX_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);')],
 'parameters exported after data was processed','the exported parameters hold the feedback register instead of the IV',r'''
int main() { load(); B k = pattern(32, 3), iv = pattern(8, 4), m = pattern(60);
 const EVP_CIPHER* c = EVP_get_cipherbynid(NID_dstu28147_cfb); int n; B e(80);
 EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); NEED(EVP_EncryptInit_ex(x, c, NULL, k.data(), iv.data()) && EVP_EncryptUpdate(x, e.data(), &n, m.data(), 60));
 ASN1_TYPE* t = ASN1_TYPE_new(); NEED(EVP_CIPHER_param_to_asn1(x, t) > 0 && t->type == V_ASN1_SEQUENCE);
 EXPECT(!memcmp(t->value.sequence->data + 4, iv.data(), 8)); return 0; }''')
plant('mac-iv-single-block','C04',[('dstulib/gost/gost89.c','''    memcpy(buffer, iv, 8);
    for (i = 0; i + 8 <= data_len; i += 8)
        mac_block(ctx, buffer, data + i);
    if (i < data_len) {''','''    memcpy(buffer, iv, 8);
    for (i = 0; i + 8 < data_len; i += 8)
        mac_block(ctx, buffer, data + i);
    if (i < data_len && data_len > 8) {''')],
 'a MAC with initial value over exactly one block or less','the only block is left out',r'''
extern "C" {
#include "gost/gost89.h"
}
int main() { B k = pattern(32, 3), iv(8, 0), m = pattern(40);
 gost_ctx c; gost_init(&c, NULL); gost_key_nomask(&c, k.data());
 for (unsigned n = 1; n <= 40; n++) { B a(8), b(8); gost_mac(&c, 32, m.data(), n, a.data()); gost_mac_iv(&c, 32, iv.data(), m.data(), n, b.data()); EXPECT(a == b); }
 return 0; }''',extra='-x c dstulib/gost/gost89.c')
plant('verify-accepts-larger-s','C06',[('engine/sign.c','if ((BN_cmp(s, n) >= 0) || (BN_cmp(r, n) >= 0))','if ((BN_num_bytes(s) > BN_num_bytes(n)) || (BN_cmp(r, n) >= 0))')],
 'a signature whose s was increased by the group order and still fits the order\'s byte length','a second, different signature of the same message is accepted',r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve9"); BIGNUM *n = BN_new(), *s = BN_new();
 // order of the curve of 431 bits
 EC_KEY* dummy = NULL; B h = pattern(32);
 const char* N = "3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFBA3175458009A8C0A724F02F81AA8A1FCBAF80D90C7A95110504CF";
 NEED(BN_hex2bn(&n, N));
 int tried = 0;
 for (int i = 0; i < 400 && tried < 20; i++) { h[0] = i; h[1] = i >> 8; B sig = rawsign(k, h); NEED(rawverify(k, h, sig) == 1);
  size_t L = BN_num_bytes(n); size_t hd = sig.size() - 2 * L; B v(sig.begin() + hd, sig.end()); B be(v.rbegin(), v.rend());   // s, then r, big-endian
  BN_bin2bn(be.data(), L, s); if (!BN_add(s, s, n)) return 3; if (BN_num_bytes(s) > (int) L) continue;
  B s2(L); BN_bn2binpad(s, s2.data(), L); memcpy(be.data(), s2.data(), L); B f(sig.begin(), sig.begin() + hd); f.insert(f.end(), be.rbegin(), be.rend());
  tried++; EXPECT(rawverify(k, h, f) != 1); }
 NEED(tried > 0); return 0; }''')
plant('keygen-gives-sbox-away','C10',[('engine/pmeth.c','''        sbox = copy_sbox(dstu_ctx->sbox);
        if (!sbox)
            goto err;
        DSTU_KEY_set(key, NULL, sbox);''','''        sbox = dstu_ctx->sbox;
        DSTU_KEY_set(key, NULL, sbox);
        dstu_ctx->sbox = NULL;''')],
 'two keys generated from one context with a custom s-box','only the first key has the s-box',r'''
int main() { load(); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(NID_dstu4145le, NULL); B sb = pattern(64, 5);
 NEED(EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl(c, NID_dstu4145le, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, sb.data()) > 0);
 EVP_PKEY *a = NULL, *b = NULL; NEED(EVP_PKEY_keygen(c, &a) > 0); NEED(EVP_PKEY_keygen(c, &b) > 0);
 EXPECT(EVP_PKEY_parameters_eq(a, b) == 1); return 0; }''')
plant('keygen-context-copy','C10',[('dstulib/key.c','''    if (ctx->sbox)
    {
        copy->sbox = copy_sbox(ctx->sbox);''','''    if (ctx->sbox && !ctx->group)
    {
        copy->sbox = copy_sbox(ctx->sbox);''')],
 'a key generation context with both a curve and an s-box, duplicated before generating','the duplicate has lost the s-box',r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve0"); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, NULL); B sb = pattern(64, 5);
 NEED(EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_CTX_ctrl(c, -1, -1, CTRL_SBOX, 64, sb.data()) > 0 && EVP_PKEY_CTX_ctrl_str(c, "curve", "uacurve3") > 0);
 EVP_PKEY_CTX* d = EVP_PKEY_CTX_dup(c); NEED(d);
 EVP_PKEY *a = NULL, *b = NULL; NEED(EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_keygen(c, &a) > 0); NEED(EVP_PKEY_keygen_init(d) > 0 && EVP_PKEY_keygen(d, &b) > 0);
 EXPECT(EVP_PKEY_parameters_eq(a, b) == 1); return 0; }''')
plant('rbg-reports-success-unseeded','C11',[('engine/rbg.c','''            status = initialized;
        }
        else
            status = 0;''','''            status = initialized;
        }''')],
 'the system generator failing when the generator is first used','a request answered without a seed is reported as successful',r'''
static int bad(unsigned char*, int) { return 0; } static int st(void) { return 1; } static int add(const void*, int, double) { return 1; } static int sd(const void*, int) { return 1; }
static RAND_METHOD fake = {sd, bad, NULL, add, bad, st};
extern "C" RAND_METHOD* RAND_OpenSSL(void) { return &fake; }
int main() { ENGINE* e = load(); const RAND_METHOD* m = ENGINE_get_RAND(e); NEED(m); unsigned char b[8];
 EXPECT(m->bytes(b, 8) != 1); return 0; }''')
plant('rbg-status-unlocked','C12',[('engine/rbg.c','''    if (!dstu_lock())
        return 0;

    int status = dstu_rbg_status_nolock();

    dstu_unlock();

    return status;''','''    int status = initialized;

    if (!status)
        status = dstu_rbg_status_nolock();

    return status;''')],
 'two threads: one asks for the status while the other makes the first request','the generator is seeded twice, the second time in the middle of a request',r'''
#include <pthread.h>
static int seeds; static int slow(unsigned char* b, int n) { __sync_fetch_and_add(&seeds, 1); usleep(200000); for (int i = 0; i < n; i++) b[i] = i * 7 + seeds; return 1; }
static int st(void) { return 1; } static int add(const void*, int, double) { return 1; } static int sd(const void*, int) { return 1; }
static RAND_METHOD fake = {sd, slow, NULL, add, slow, st};
extern "C" RAND_METHOD* RAND_OpenSSL(void) { return &fake; }
static const RAND_METHOD* m;
static void* t1(void*) { unsigned char b[16]; m->bytes(b, 16); return 0; } static void* t2(void*) { m->status(); return 0; }
int main() { ENGINE* e = load(); m = ENGINE_get_RAND(e); pthread_t a, b; pthread_create(&a, 0, t1, 0); usleep(20000); pthread_create(&b, 0, t2, 0); pthread_join(a, 0); pthread_join(b, 0);
 EXPECT(seeds == 1); return 0; }''')
plant('jks-digest-last-byte','C20',[('keylib/jks.c','''    OPENSSL_free(pwd16);

    for (j = 0; j < digestLength; ++j)
        if (digest[j] != entryPtr[j])''','''    OPENSSL_free(pwd16);

    for (j = 0; j + 1 < digestLength; ++j)
        if (digest[j] != entryPtr[j])''')],
 'a store whose digest differs in its last byte only','one byte of the store digest is not compared',r'''
#include "jks.h"
#include "keystore.h"
int main() { load(); FILE* f = fopen("tests/key.jks", "rb"); NEED(f); B d(1 << 20); d.resize(fread(d.data(), 1, d.size(), f)); KeyStore* ks = NULL;
 NEED(parseJKS(d.data(), d.size(), "123456", 6, "qwerty", 6, &ks) == 1);
 for (int i = 1; i <= 20; i++) { B e = d; e[e.size() - i] ^= 1; KeyStore* k2 = NULL; EXPECT(parseJKS(e.data(), e.size(), "123456", 6, "qwerty", 6, &k2) == 0); }
 return 0; }''',lib=KL)
plant('keystore-append-twice','C16',[('keylib/keystore.c','''            to->certs[to->certNum + i] = from->certs[i];''','''            to->certs[to->certNum - to->certNum / 4 + i] = from->certs[i];''')],
 'a store with more than four certificates','later certificates replace earlier ones',r'''
#include "keystore.h"
#include "keystore_internal.h"
int main() { KeyStore* a = KeyStoreNew(0, 0); X509* x[9];
 for (int i = 0; i < 9; i++) { x[i] = X509_new(); KeyStore* t = KeyStoreNew(0, 1); KeyStoreSetCert(t, 0, x[i]); KeyStoreAppend(a, t); KeyStoreFree(t); }
 EXPECT(KeyStoreCertNum(a) == 9); for (int i = 0; i < 9; i++) EXPECT(KeyStoreGetCert(a, i) == x[i]); return 0; }''',lib=KL)
plant('pkcs12-nested-safe-drops-rest','C18',[('keylib/pkcs12.c','''        if (fromBag(sk_PKCS12_SAFEBAG_value(bags, i), password, passSize, ks, keyPos, certPos) == 0)
            return 0;''','''        if (fromBag(sk_PKCS12_SAFEBAG_value(bags, i), password, passSize, ks, keyPos, certPos) == 0)
            return 0;
        if (PKCS12_SAFEBAG_get_nid(sk_PKCS12_SAFEBAG_value(bags, i)) == NID_safeContentsBag)
            break;''')],
 'a container with a nested safe followed by further bags','the bags after a nested safe come out as NULL keys or certificates',r'''
#include "pkcs12.h"
#include "keystore.h"
int main() { load(); EVP_PKEY* k = genkey("uacurve0");
 auto bag = [&] { return PKCS12_SAFEBAG_create0_p8inf(EVP_PKEY2PKCS8(k)); };
 STACK_OF(PKCS12_SAFEBAG)* in = sk_PKCS12_SAFEBAG_new_null(); sk_PKCS12_SAFEBAG_push(in, bag());
 STACK_OF(PKCS12_SAFEBAG)* out = sk_PKCS12_SAFEBAG_new_null();
 // a safe contents bag written by hand
 unsigned char* der = NULL; int n = ASN1_item_i2d((ASN1_VALUE*) in, &der, ASN1_ITEM_rptr(PKCS12_SAFEBAGS)); NEED(n > 0);
 B oid = hexb("060b2a864886f70d010c0a0106"), v(der, der + n); auto tlv = [](unsigned char t, const B& c) { B r = {t, 0x82, (unsigned char)(c.size() >> 8), (unsigned char) c.size()}; r.insert(r.end(), c.begin(), c.end()); return r; };
 B body = oid, ex = tlv(0xa0, v); body.insert(body.end(), ex.begin(), ex.end()); B nested = tlv(0x30, body);
 const unsigned char* p = nested.data(); PKCS12_SAFEBAG* nb = (PKCS12_SAFEBAG*) ASN1_item_d2i(NULL, &p, nested.size(), ASN1_ITEM_rptr(PKCS12_SAFEBAG)); NEED(nb);
 sk_PKCS12_SAFEBAG_push(out, nb); sk_PKCS12_SAFEBAG_push(out, bag());
 STACK_OF(PKCS7)* safes = sk_PKCS7_new_null(); sk_PKCS7_push(safes, PKCS12_pack_p7data(out));
 PKCS12* p12 = PKCS12_add_safes(safes, 0); NEED(p12 && PKCS12_set_mac(p12, "pw", 2, NULL, 8, 1, EVP_sha1()));
 unsigned char* o = NULL; int len = i2d_PKCS12(p12, &o); KeyStore* ks = NULL; NEED(len > 0 && parsePKCS12(o, len, "pw", 2, &ks) == 1);
 EXPECT(KeyStoreKeyNum(ks) == 2); for (int i = 0; i < 2; i++) { EXPECT(KeyStoreGetKey(ks, i)); EXPECT(EVP_PKEY_eq(KeyStoreGetKey(ks, i), k) == 1); } return 0; }''',lib=KL)
plant('reader-stops-at-short-read','C21',[('keylib/pkcs12.c','''            return 0;
        }
        total += bytes;
    }''','''            return 0;
        }
        total += bytes;
        if (bytes < sizeof(buf) && total % 8 != 0)
            break;
    }''')],
 'a container delivered in pieces whose sizes do not add up to multiples of 8','the reader stops before the end',r'''
#include "pkcs12.h"
#include "keystore.h"
static B data; static size_t pos, chunk;
static int rd(BIO*, char* o, size_t n, size_t* r) { size_t k = n < chunk ? n : chunk; if (k > data.size() - pos) k = data.size() - pos; memcpy(o, data.data() + pos, k); pos += k; *r = k; return k > 0; }
int main() { load(); FILE* f = fopen("tests/Key-6.pfx", "rb"); NEED(f); data.resize(1 << 20); data.resize(fread(data.data(), 1, data.size(), f));
 BIO_METHOD* m = BIO_meth_new(BIO_TYPE_SOURCE_SINK | 99, "pieces"); BIO_meth_set_read_ex(m, rd); BIO_meth_set_ctrl(m, [](BIO*, int, long, void*) { return 1L; });
 for (size_t c : {1024, 512, 100, 7, 1}) { pos = 0; chunk = c; BIO* b = BIO_new(m); BIO_set_init(b, 1); KeyStore* ks = NULL; EXPECT(readPKCS12_bio(b, "testplat2021", 12, &ks) == 1); KeyStoreFree(ks); BIO_free(b); }
 return 0; }''',lib=KL)
plant('sbox-pack-swaps','C03',[('dstulib/params.c','        sbox->k6[i >> 4] = (ctx->k65[i] >> 20) & 0xf;\n        sbox->k5[i & 15] = (ctx->k65[i] >> 16) & 0xf;','        sbox->k6[i >> 4] = (ctx->k65[i] >> 20) & 0xf;\n        sbox->k5[i >> 4] = (ctx->k65[i] >> 16) & 0xf;')],
 'parameters of a cipher exported and imported again','a row of the exported s-box is wrong',r'''
int main() { load(); B k = pattern(32, 3), iv = pattern(8, 4), m = pattern(60), sb = pattern(64, 8);
 const EVP_CIPHER* c = EVP_get_cipherbynid(NID_dstu28147_cfb); int n; B e(80), g(80);
 EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); NEED(EVP_EncryptInit_ex(x, c, NULL, k.data(), iv.data()) && EVP_CIPHER_CTX_ctrl(x, CTRL_SBOX, 64, sb.data()) > 0);
 ASN1_TYPE* t = ASN1_TYPE_new(); NEED(EVP_CIPHER_param_to_asn1(x, t) > 0 && t->type == V_ASN1_SEQUENCE);
 EXPECT(!memcmp(t->value.sequence->data + 14, sb.data(), 64)); return 0; }''')
plant('pub-point-trace-unknown','C07',[('dstulib/compress.c','    if ((trace && BN_is_zero(a)) || ((!trace) && BN_is_one(a)))','    if ((trace && BN_is_zero(a)) || ((!trace) && BN_is_one(a) && BN_num_bits(p) % 13))')],
 'public keys on the curve of degree 233','the point cannot be expanded, or is the wrong one',r'''
int main() { load(); int n = 0; const char* cs[] = {"uacurve0","uacurve1","uacurve2","uacurve3","uacurve4","uacurve5","uacurve6","uacurve7","uacurve8","uacurve9"};
 for (const char* c : cs) for (int i = 0; i < 6; i++) { EVP_PKEY* k = genkey(c, i & 1 ? NID_dstu4145be : NID_dstu4145le); unsigned char* o = NULL; int len = i2d_PUBKEY(k, &o); NEED(len > 0); const unsigned char* p = o; EVP_PKEY* q = d2i_PUBKEY(NULL, &p, len); EXPECT(q && EVP_PKEY_eq(k, q) == 1); }
 return 0; }''')
plant('sign-hash-cut-to-order','C05',[('engine/sign.c','    if (!hash_to_field(tbs, tbslen, h, EC_GROUP_get_degree(group)))','    if (!hash_to_field(tbs, tbslen, h, BN_num_bits(n)))'),('engine/sign.c','    if (!hash_to_field(tbs, tbslen, r1, EC_GROUP_get_degree(group)))\n        goto err;\n\n    if (!EC_GROUP_get_order(group, n, ctx))\n        goto err;','    if (!EC_GROUP_get_order(group, n, ctx))\n        goto err;\n\n    if (!hash_to_field(tbs, tbslen, r1, BN_num_bits(n)))\n        goto err;')],
 'a curve whose order has fewer bits than the field, and a hash at least as long as the field','two hashes which differ in a bit of the field get the same signature',r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve1"); B h = pattern(32), g; h[20] = 0; g = h; g[20] = 0x40;   // bit 166 of the field of 2^167
 B s = rawsign(k, h); NEED(rawverify(k, h, s) == 1); EXPECT(rawverify(k, g, s) != 1); return 0; }''')
plant('custom-curve-be','C08',[('dstulib/key.c','        if (is_little_endian)\n            reverse_bytes(compressed, field_size);\n\n        if (!ASN1_OCTET_STRING_set(params->curve->curve.custom_curve->bp','        reverse_bytes(compressed, field_size);\n\n        if (!ASN1_OCTET_STRING_set(params->curve->curve.custom_curve->bp')],
 'a big-endian key on a custom curve','the base point of the encoded parameters is written in the wrong byte order',r'''
int main() { load();
 // GF(2^163), the curve of uacurve0 with another base point would be custom: build it from the named one
 EVP_PKEY* k = genkey("uacurve0", NID_dstu4145be);
 B der = hexb("305b3059300f020200a33009020103020106020107020101041505ff6108462a2dc8210ab403925e638a19c1455d2102150400000000000000000002bec12be2262d39bcf14d04150271d4aa13c9804515d048721c22109b9e402bb98f"); const unsigned char* p = der.data(); EVP_PKEY* q = d2i_KeyParams(NID_dstu4145be, NULL, &p, der.size()); NEED(q);
 unsigned char* o = NULL; int n = i2d_KeyParams(q, &o); EXPECT(n > 0); B got(o, o + n); printf("%s\n", hexs(got).c_str()); EXPECT(got == der); return 0; }''')
plant('key6-second-key-attribute','C19',[('keylib/utils.c','''        if (OBJ_cmp(attrObject, dstu4145Curve) == 0)
            curveAttr = attr;
        else if''','''        if (keyAttr != NULL && OBJ_cmp(attrObject, dstu4145Curve) == 0)
            curveAttr = attr;
        else if''')],
 'a container whose curve attribute comes before the private number attribute','the second key is missing',r'''
#include "keystore.h"
extern "C" {
#include "utils.h"
}
int main(int, char** av) { load(); FILE* f = fopen((std::string(av[1]) + "/inner.der").c_str(), "rb"); NEED(f); B d(1 << 16); d.resize(fread(d.data(), 1, d.size(), f)); KeyStore* ks = NULL;
 // turn the attributes around
 const unsigned char* p = d.data(); PKCS8_PRIV_KEY_INFO* p8 = d2i_PKCS8_PRIV_KEY_INFO(NULL, &p, d.size()); NEED(p8);
 const STACK_OF(X509_ATTRIBUTE)* at = PKCS8_pkey_get0_attrs(p8); int n = sk_X509_ATTRIBUTE_num(at); NEED(n >= 2);
 NEED(keysFromPKCS8(d.data(), d.size(), &ks)); EXPECT(KeyStoreKeyNum(ks) == 2);
 B attrs, rest; std::vector<B> each; for (int i = 0; i < n; i++) { unsigned char* o = NULL; int l = i2d_X509_ATTRIBUTE(sk_X509_ATTRIBUTE_value(at, i), &o); each.push_back(B(o, o + l)); }
 B fwd, rev; for (auto& e : each) fwd.insert(fwd.end(), e.begin(), e.end()); for (int i = n; i--;) rev.insert(rev.end(), each[i].begin(), each[i].end());
 size_t at0 = std::string((char*) d.data(), d.size()).find(std::string((char*) fwd.data(), fwd.size())); NEED(at0 != std::string::npos);
 memcpy(&d[at0], rev.data(), rev.size()); ks = NULL; NEED(keysFromPKCS8(d.data(), d.size(), &ks)); EXPECT(KeyStoreKeyNum(ks) == 2); return 0; }''',lib=KL,files=['/tmp/pl/inner.der'])
plant('digest-verify-public-sbox','C22',[('engine/md.c','sbox_source = dstu_key && dstu_key->sbox ? dstu_key->sbox : default_sbox;','sbox_source = dstu_key && dstu_key->sbox && EC_KEY_get0_private_key(dstu_key->ec) ? dstu_key->sbox : default_sbox;')],
 'a key with a custom s-box: signing with the private key, verifying with the public key alone','the verifier hashes with another s-box than the signer',r'''
int main() { load(); B sb = pattern(64, 5), m = pattern(50); EVP_PKEY* k = genkey("uacurve0", NID_dstu4145le, hexs(sb).c_str());
 unsigned char* o = NULL; int len = i2d_PUBKEY(k, &o); NEED(len > 0); const unsigned char* p = o; EVP_PKEY* q = d2i_PUBKEY(NULL, &p, len); NEED(q);
 EVP_MD_CTX* c = EVP_MD_CTX_new(); const EVP_MD* md = EVP_get_digestbynid(NID_dstu34311); B s(500); size_t n = 500;
 NEED(EVP_DigestSignInit(c, NULL, md, NULL, k) > 0 && EVP_DigestSignUpdate(c, m.data(), 50) > 0 && EVP_DigestSignFinal(c, s.data(), &n) > 0);
 EVP_MD_CTX* d = EVP_MD_CTX_new(); NEED(EVP_DigestVerifyInit(d, NULL, md, NULL, q) > 0 && EVP_DigestVerifyUpdate(d, m.data(), 50) > 0); EXPECT(EVP_DigestVerifyFinal(d, s.data(), n) == 1); return 0; }''')
plant('uacurve8-negated-base','C23',[('dstulib/params.c','''/*Py*/
    0x01, 0xAB, 0x59, 0x7A, 0x5B, 0x44, 0x77, 0xF5, 0x9E, 0x39, 0x53, 0x90,
    0x07, 0xC7, 0xF9, 0x77, 0xD1, 0xA5, 0x67, 0xB9, 0x2B, 0x04, 0x3A, 0x49,
    0xC6, 0xB6, 0x19, 0x84, 0xC3, 0xFE, 0x34, 0x81, 0xAA, 0xF4, 0x54, 0xCD,
    0x41, 0xBA, 0x1F, 0x05, 0x16, 0x26, 0x44, 0x2B, 0x3C, 0x10''','''/*Py*/
    0x33, 0xE1, 0x37, 0xA7, 0x8E, 0x56, 0x87, 0x79, 0xD7, 0x90, 0xC9, 0x70,
    0xD4, 0x3E, 0x98, 0x6E, 0xAB, 0xD3, 0x26, 0x87, 0x50, 0xEC, 0x20, 0x09,
    0xCA, 0x10, 0x98, 0x64, 0x55, 0xC7, 0x81, 0x7F, 0xB8, 0x11, 0xCE, 0xDD,
    0xDE, 0xC2, 0xA0, 0x4F, 0x21, 0x13, 0x05, 0x98, 0x85, 0xB1''')],
 'the named curve of degree 367','its base point is the negative of the right one: keys and signatures are consistent with themselves but with nobody else',r'''
int main() { load(); B der = hexb("30553020060d2a862402010101010301010101300f060d2a862402010101010301010208033100042e35f44af08bd6a708f5db23035da810b187e5413ce1fd627f68cbd317ad41373e5893571b33b2f79c7e45a15381e4"), sig = hexb("045c31c84a2966536935030973b270687fe840af99b33642a00d6e968871e439d9675c8cd0354740c402eeddca17700934fc91e97e14f9e33abdca26bc5a9d6a9c43d6397e96819b0976ca2abc7c2ac196dddac77e5fadd37ace3eeed0f2"); const unsigned char* p = der.data(); EVP_PKEY* k = d2i_PUBKEY(NULL, &p, der.size()); NEED(k);
 EXPECT(rawverify(k, pattern(32), sig) == 1); return 0; }''')
plant('hmac-context-reused','C22',[('engine/md.c','''    memset(&(c->dctx), 0, sizeof(gost_hash_ctx));''','''    c->dctx.len = 0;
    c->dctx.left = 0;
    memset(c->dctx.H, 0, sizeof(c->dctx.H));
    if (c->dctx.cipher_ctx == NULL)
        memset(c->dctx.S, 0, sizeof(c->dctx.S));''')],
 'a digest context used for a second message','the control sum of the first message is carried into the second one, so HMAC and PBKDF2 with a long key or a reused context are wrong',r'''
static B mac(HMAC_CTX* c, const B& k, const B& m) { B r(32); unsigned n; NEED(HMAC_Init_ex(c, k.data(), k.size(), EVP_get_digestbynid(NID_dstu34311), NULL) && HMAC_Update(c, m.data(), m.size()) && HMAC_Final(c, r.data(), &n)); return r; }
int main() { load(); B k1 = pattern(32, 1), k2 = pattern(20, 2), m = pattern(50, 3); HMAC_CTX* c = HMAC_CTX_new(), *d = HMAC_CTX_new();
 mac(c, k1, m); EXPECT(mac(c, k2, m) == mac(d, k2, m));
 B k3 = pattern(70, 4), h(32), x = k3; unsigned n; EVP_Digest(k3.data(), k3.size(), h.data(), &n, EVP_get_digestbynid(NID_dstu34311), NULL); HMAC_CTX* e = HMAC_CTX_new(), *f = HMAC_CTX_new(); EXPECT(mac(e, k3, m) == mac(f, h, m)); return 0; }''')

plant('keygen-public-part-optional','C13',[('dstulib/params.c','''    if (!EC_KEY_set_private_key(key, prk))
        goto err;

    ret = dstu_add_public_key(key);''','''    if (!EC_KEY_set_private_key(key, prk))
        goto err;

    ret = 1;
    if (EC_KEY_get0_public_key(key) == NULL)
        dstu_add_public_key(key);''')],
 'a random source which fails at the second draw (masking of the multiplication) of key generation','generation reports success and hands out a key without public part',r'''
int main() { load(); script_rand(); int failed = 0;
 for (int i = 0; i < 6; i++) { rnd_pos = 0; rnd_calls = 0; rnd_fail = i; EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(NID_dstu4145le, NULL); EVP_PKEY* k = NULL; int ok; ok = EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_keygen(c, &k) > 0; rnd_fail = -1;
  if (ok) { unsigned char* o = NULL; EXPECT(i2d_PUBKEY(k, &o) > 0); } else failed++; }
 EXPECT(failed > 0); return 0; }''')
plant('keygen-sbox-lost-without-memory','C14',[('engine/pmeth.c','''        sbox = copy_sbox(dstu_ctx->sbox);
        if (!sbox)
            goto err;
        DSTU_KEY_set(key, NULL, sbox);''','''        DSTU_KEY_set(key, NULL, copy_sbox(dstu_ctx->sbox));''')],
 'an allocation failing while a key with an s-box of its own is generated','the key is generated all the same, with the default s-box',r'''
static long cnt, fail_at = -1; static void* mm(size_t n, const char*, int) { if (!n) return NULL; if (fail_at >= 0 && cnt++ == fail_at) return NULL; return malloc(n); }
static void* mr(void* p, size_t n, const char* f, int l) { if (!n) { free(p); return NULL; } if (fail_at >= 0 && cnt++ == fail_at) return NULL; return realloc(p, n); } static void mf(void* p, const char*, int) { free(p); }
int main() { NEED(CRYPTO_set_mem_functions(mm, mr, mf)); load(); B sb(64); for (int i = 0; i < 64; i++) sb[i] = i * 37 + 5; char box[129]; for (int i = 0; i < 64; i++) sprintf(box + 2 * i, "%02X", sb[i]); script_rand(); int failed = 0;
 for (long i = 0, end = 0; !end; i++) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(NID_dstu4145le, NULL); NEED(EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl_str(c, "sbox", box) > 0); EVP_PKEY* k = NULL; rnd_pos = 0; cnt = 0; fail_at = i; int ok = EVP_PKEY_keygen(c, &k) > 0; end = cnt <= i; fail_at = -1; EVP_PKEY_CTX_free(c);
  if (!ok) { failed++; continue; } unsigned char* o = NULL; int n = i2d_KeyParams(k, &o); EXPECT(n > 64); EXPECT(std::string((char*)o, n).find(std::string((char*)sb.data(), 64)) != std::string::npos); EVP_PKEY_free(k); }
 EXPECT(failed > 3); return 0; }''')
plant('compare-ignores-base-point','C09',[('engine/ameth.c','''    if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                     EC_KEY_get0_group(second->ec), NULL))
        return 0;

    return 1;''','''    BIGNUM *n[8];
    int i, res;
    for (i = 0; i < 8; i++)
        n[i] = BN_new();

    res = EC_GROUP_get_curve(EC_KEY_get0_group(first->ec), n[0], n[1], n[2], NULL)
        && EC_GROUP_get_order(EC_KEY_get0_group(first->ec), n[3], NULL)
        && EC_GROUP_get_curve(EC_KEY_get0_group(second->ec), n[4], n[5], n[6], NULL)
        && EC_GROUP_get_order(EC_KEY_get0_group(second->ec), n[7], NULL);
    for (i = 0; i < 4; i++)
        res = res && !BN_cmp(n[i], n[i + 4]);
    for (i = 0; i < 8; i++)
        BN_free(n[i]);

    return res;''')],
 'two custom curves which differ in their base point only','keys on curves with different base points compare equal',r'''
int main() { load(); EVP_PKEY* a = genkey("uacurve0", NID_dstu4145be); unsigned char* o = NULL; int n = i2d_KeyParams(a, &o); NEED(n > 0);
 B der = hexb("305b3059300f020200a33009020103020106020107020101041505ff6108462a2dc8210ab403925e638a19c1455d2102150400000000000000000002bec12be2262d39bcf14d04150271d4aa13c9804515d048721c22109b9e402bb98f"); const unsigned char *p = der.data(), *q = o;
 EVP_PKEY *x = d2i_KeyParams(NID_dstu4145be, NULL, &p, der.size()), *y = d2i_KeyParams(NID_dstu4145be, NULL, &q, n); NEED(x && y); EXPECT(EVP_PKEY_parameters_eq(x, x) == 1); EXPECT(EVP_PKEY_parameters_eq(y, a) == 1); EXPECT(EVP_PKEY_parameters_eq(x, y) != 1); return 0; }''')
plant('sbox-setting-static','C25',[('engine/md.c','''static int dstu_md_ctrl(EVP_MD_CTX *ctx, int cmd, int p1, void *p2)
{
    gost_subst_block sbox;''','''static int dstu_md_ctrl(EVP_MD_CTX *ctx, int cmd, int p1, void *p2)
{
    static gost_subst_block sbox;''')],
 'two threads setting different s-boxes on their own digest contexts at the same moment','the unpacked s-box lives in static memory, so that a digest may use parts of another thread\'s',r'''
#include <pthread.h>
static volatile int stop; static int broken;
static B one(const B& sb) { EVP_MD_CTX* c = EVP_MD_CTX_new(); unsigned n; B r(32); NEED(EVP_DigestInit_ex(c, EVP_get_digestbynid(NID_dstu34311), NULL) > 0 && EVP_MD_CTX_ctrl(c, CTRL_SBOX, 64, (void*) sb.data()) > 0 && EVP_DigestUpdate(c, "ab", 2) > 0 && EVP_DigestFinal_ex(c, r.data(), &n) > 0); EVP_MD_CTX_free(c); return r; }
static void* t(void* p) { B sb = pattern(64, 5 + (long) p); B w; { static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_mutex_lock(&m); w = one(sb); pthread_mutex_unlock(&m); } static pthread_barrier_t* b; (void) b;
 extern pthread_barrier_t bar; pthread_barrier_wait(&bar);
 for (int i = 0; i < 60000 && !stop; i++) if (one(sb) != w) { broken = 1; stop = 1; } return 0; }
pthread_barrier_t bar;
int main() { load(); pthread_barrier_init(&bar, 0, 6); pthread_t x[6]; for (long i = 0; i < 6; i++) pthread_create(&x[i], 0, t, (void*) i); for (auto& y : x) pthread_join(y, 0); EXPECT(!broken); return 0; }''',lib='-lcrypto -lpthread')
plant('sign-hash-static-buffer','C25',[('engine/sign.c','''    unsigned char *h = OPENSSL_malloc(hash_len);
    int i;
    if (!h)
        return 0;
''','''    static unsigned char buffer[64]; /* enough for any digest */
    unsigned char *h = hash_len <= (int) sizeof(buffer) ? buffer : OPENSSL_malloc(hash_len);
    int i;
    if (!h)
        return 0;
'''),('engine/sign.c','''    {
        OPENSSL_free(h);
        return 0;
    }

    OPENSSL_free(h);
''','''    {
        if (h != buffer)
            OPENSSL_free(h);
        return 0;
    }

    if (h != buffer)
        OPENSSL_free(h);
''')],
 'two threads verifying (or signing) different hashes at the same moment','the byte-reversed hash lives in a static buffer, so that a thread may use another\'s hash',r'''
#include <pthread.h>
static volatile int stop; static int broken; static pthread_barrier_t bar; static B hs[6], ss[6]; static EVP_PKEY* ks[6];
static void* t(void* p) { long n = (long) p; pthread_barrier_wait(&bar); for (int i = 0; i < 12000 && !stop; i++) if (rawverify(ks[n], hs[n], ss[n]) != 1) { broken = 1; stop = 1; } return 0; }
int main() { load(); pthread_barrier_init(&bar, 0, 6); for (int i = 0; i < 6; i++) { ks[i] = genkey("uacurve0"); hs[i] = pattern(64, i + 3); ss[i] = rawsign(ks[i], hs[i]); }
 pthread_t x[6]; for (long i = 0; i < 6; i++) pthread_create(&x[i], 0, t, (void*) i); for (auto& y : x) pthread_join(y, 0); EXPECT(!broken); return 0; }''',lib='-lcrypto -lpthread')
plant('sign-masks-shared-key','C25',[('engine/sign.c','''        if (!BN_mod_mul(s, d, r, n, ctx))
            goto err;

        if (!BN_mod_add_quick(s, s, e, n))
            goto err;''','''        /* Work with the opposite number, the private one need not be in memory meanwhile */
        if (!BN_sub((BIGNUM *) d, n, d))
            goto err;

        if (!BN_mod_mul(s, d, r, n, ctx) || !BN_sub((BIGNUM *) d, n, d))
            goto err;

        if (!BN_mod_sub_quick(s, e, s, n))
            goto err;''')],
 'two threads signing with the same key at the same moment','signing changes the private number of the key and puts it back afterwards',r'''
#include <pthread.h>
static volatile int stop; static int broken; static pthread_barrier_t bar; static EVP_PKEY* k;
static void* t(void* p) { B h = pattern(32, 7 + (long) p); pthread_barrier_wait(&bar); for (int i = 0; i < 12000 && !stop; i++) { B s = rawsign(k, h); if (rawverify(k, h, s) != 1) { broken = 1; stop = 1; } } return 0; }
int main() { load(); pthread_barrier_init(&bar, 0, 8); k = genkey("uacurve0");
 pthread_t x[8]; for (long i = 0; i < 8; i++) pthread_create(&x[i], 0, t, (void*) i); for (auto& y : x) pthread_join(y, 0); EXPECT(!broken); return 0; }''',lib='-lcrypto -lpthread')
plant('key-attribute-any-type','C17',[('keylib/utils.c','''        if (type != V_ASN1_OCTET_STRING && type != V_ASN1_BIT_STRING)
            continue;''','''        if (type == V_ASN1_NULL || type == V_ASN1_BOOLEAN)
            continue;''')],
 'a container whose private key carries a second-key attribute holding an object identifier','the identifier is used as a string: memory is read out of bounds',r'''
#include "pkcs12.h"
#include "keystore.h"
extern "C" int keysFromPKCS8(const void*, size_t, KeyStore**);
static B tlv(unsigned char t, const B& c) { B r = {t}; if (c.size() < 128) r.push_back(c.size()); else { r.push_back(0x82); r.push_back(c.size() >> 8); r.push_back(c.size()); } r.insert(r.end(), c.begin(), c.end()); return r; }
static B cat(const B& a, const B& b) { B r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static B oid(const char* s) { ASN1_OBJECT* o = OBJ_txt2obj(s, 1); unsigned char* p = NULL; int n = i2d_ASN1_OBJECT(o, &p); return B(p, p + n); }
#include <sys/wait.h>
int main(int argc, char** argv) { if (argc == 1) { for (int t = 0; t < 8; t++) { pid_t p = fork(); if (!p) { execl("/proc/self/exe", "demo", "x", (char*) 0); _exit(3); } int st = 0; waitpid(p, &st, 0); EXPECT(!WIFSIGNALED(st)); NEED(WEXITSTATUS(st) == 0); } return 0; }
 load(); EVP_PKEY* k = genkey("uacurve0"); PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(k);
 B curve = hexb("3004020107a10002"); (void) curve;
 // the curve attribute: not needed for the failure, but must be there
 B c = tlv(0x30, cat(oid("1.3.6.1.4.1.19398.1.1.2.2"), tlv(0x31, tlv(0x30, {}))));
 for (const char* o : {"2.5.4.3", "1.2.840.113549", "2.5.29.15"}) {
  B a = tlv(0x30, cat(oid("1.3.6.1.4.1.19398.1.1.2.3"), tlv(0x31, oid(o))));
  unsigned char* p = NULL; int len = i2d_PKCS8_PRIV_KEY_INFO(i, &p); B d(p, p + len), body(d.begin() + (d[1] < 128 ? 2 : d[1] == 0x81 ? 3 : 4), d.end());
  d = tlv(0x30, cat(body, tlv(0xa0, cat(c, a)))); const unsigned char* q = d.data(); PKCS8_PRIV_KEY_INFO* w = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, d.size()); NEED(w);
  STACK_OF(PKCS12_SAFEBAG)* bags = sk_PKCS12_SAFEBAG_new_null(); (void) bags;
  // JKS containers carry such keys; reading one goes through the same function
  
  KeyStore* ks = NULL;  int r = keysFromPKCS8(d.data(), d.size(), &ks); printf("%d\n", r); }
 return 0; }''',lib=KL)
plant('error-strings-once','C15',[('engine/err.c','''        ERR_unload_strings(0, DSTU_lib_name);
        DSTU_error_init = 1;''','''        ERR_unload_strings(0, DSTU_lib_name);''')],
 'the engine is unloaded and loaded again while its shared object stays mapped','after the second load its errors have no texts',r'''
#include <dlfcn.h>
static ENGINE* again() { char cwd[4000]; NEED(getcwd(cwd, sizeof cwd)); std::string so = std::string(cwd) + "/_build/engine/dstu.so"; NEED(dlopen(so.c_str(), RTLD_NOW)); ENGINE* e = ENGINE_by_id("dynamic"); NEED(e && ENGINE_ctrl_cmd_string(e, "SO_PATH", so.c_str(), 0) && ENGINE_ctrl_cmd_string(e, "LOAD", NULL, 0) && ENGINE_init(e)); ENGINE_set_default_pkey_asn1_meths(e); ENGINE_set_default_pkey_meths(e); return e; }
static void drop(ENGINE* e) { ENGINE_unregister_pkey_asn1_meths(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_finish(e); ENGINE_free(e); }
static bool text() { EVP_PKEY* k = genkey("uacurve0"); EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, NULL); NEED(EVP_PKEY_sign_init(c) > 0); ERR_clear_error(); NEED(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_TYPE_SIG, EVP_PKEY_CTRL_MD, 0, (void*) EVP_sha256()) <= 0);
 bool ok = true; unsigned long e; while ((e = ERR_get_error())) ok = ok && ERR_reason_error_string(e); EVP_PKEY_CTX_free(c); EVP_PKEY_free(k); return ok; }
int main() { ENGINE_load_dynamic(); ENGINE* e = again(); NEED(text()); drop(e); e = again(); EXPECT(text()); return 0; }''',lib='-lcrypto -ldl')
plant('base-point-buffer-leak','C24',[('dstulib/key.c','''                               ASN1_STRING_length(spec->bp),
                               group, g))
        {
            OPENSSL_free(reverse_buffer);
            goto err;
        }

        OPENSSL_free(reverse_buffer);''','''                               ASN1_STRING_length(spec->bp),
                               group, g))
            goto err;

        OPENSSL_free(reverse_buffer);''')],
 'little-endian parameters whose base point is not on the curve','the reversed base point is leaked when such parameters are refused',r'''
static long live; static void* m(size_t n, const char*, int) { if (!n) return 0; live++; return malloc(n); } static void* r(void* p, size_t n, const char*, int) { if (!p) { live++; return malloc(n); } return realloc(p, n); } static void f(void* p, const char*, int) { if (p) live--; free(p); }
int main() { NEED(CRYPTO_set_mem_functions(m, r, f)); load();
 B d = hexb("30313028060b2a8624020101010103010130193017300602010902010402010104026400020200fb0402030003050004021c00"); long at = 0; int refused = 0;
 for (int j = 0; j < 300; j++) { if (j == 100) at = live; B x = d; x[42] = (unsigned char) j; const unsigned char* q = x.data(); EVP_PKEY* k = d2i_PUBKEY(NULL, &q, x.size()); if (!k) refused++; EVP_PKEY_free(k); ERR_clear_error(); }
 NEED(refused > 30); printf("%ld\n", live - at); EXPECT(live - at < 8); return 0; }''')
plant('sig-size-short-form','C05',[('engine/ameth.c','res = ASN1_object_size(0, BN_num_bytes(n) * 2, V_ASN1_OCTET_STRING);','res = 2 + BN_num_bytes(n) * 2; /* tag, length, s and r */')],
 'a curve whose order has more than 63 bytes','the size reported for signatures is one byte short of what signing writes',r'''
int main() { load(); EC_GROUP* g = EC_GROUP_new_by_curve_name(NID_sect571r1); NEED(g);
 for (int nid : {NID_dstu4145le, NID_dstu4145be}) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(nid, NULL); NEED(c && EVP_PKEY_keygen_init(c) > 0 && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, g) > 0);
  EVP_PKEY* k = NULL; NEED(EVP_PKEY_keygen(c, &k) > 0); EVP_PKEY_CTX* s = EVP_PKEY_CTX_new(k, NULL); B h = pattern(32), b(400, 0xee); size_t n = EVP_PKEY_size(k), m = n; NEED(EVP_PKEY_sign_init(s) > 0);
  EXPECT(EVP_PKEY_sign(s, b.data(), &m, h.data(), h.size()) > 0); EXPECT(m <= n); for (size_t i = n; i < b.size(); i++) EXPECT(b[i] == 0xee); b.resize(m); EXPECT(rawverify(k, h, b) == 1); }
 return 0; }''')
plant('cfb-64k-blocks','C02',[('engine/cipher.c','gost_dec_cfb(gctx, tmpiv, in, out, blocks);','gost_dec_cfb(gctx, tmpiv, in, out, (unsigned short) blocks);')],
 'one update of at least half a megabyte','only part of a long piece of data is decrypted',r'''
int main() { load(); const EVP_CIPHER* ci = EVP_get_cipherbynid(NID_dstu28147_cfb); NEED(ci); B key = pattern(32, 3), iv = pattern(8, 4), p = pattern(700003, 5), e(p.size() + 8), d(p.size() + 8); int n = 0;
 EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); NEED(EVP_EncryptInit_ex(c, ci, NULL, key.data(), iv.data()) > 0); for (size_t i = 0; i < p.size(); i += 1000) { size_t m = std::min<size_t>(1000, p.size() - i); NEED(EVP_EncryptUpdate(c, e.data() + i, &n, p.data() + i, m) > 0); }
 EVP_CIPHER_CTX_free(c); c = EVP_CIPHER_CTX_new(); NEED(EVP_DecryptInit_ex(c, ci, NULL, key.data(), iv.data()) > 0); EXPECT(EVP_DecryptUpdate(c, d.data(), &n, e.data(), p.size()) > 0); EXPECT(n == (int) p.size()); d.resize(p.size()); EXPECT(d == p); return 0; }''')
plant('rbg-request-64k','C11',[('engine/rbg.c','for (i = 0; i < (unsigned)num; i++)','for (i = 0; i < (unsigned short)num; i++)')],
 'one request for at least 65536 bytes','the rest of a long request is left as it was although success is reported',r'''
int main() { ENGINE* e = load(); const RAND_METHOD* m = ENGINE_get_RAND(e); NEED(m); B b(66000, 0), z(400, 0); EXPECT(m->bytes(b.data(), b.size()) == 1); EXPECT(B(b.end() - 400, b.end()) != z); return 0; }''')
plant('sbox-text-leading-zero','C10',[('engine/pmeth.c','if (bn_encode(tmp, sbox, sizeof(sbox)))','if (BN_bn2bin(tmp, sbox))')],
 'an s-box given as text which begins with a zero byte','the s-box of the generated key is shifted',r'''
int main() { load(); std::string t = "00"; for (int i = 1; i < 64; i++) { char b[3]; snprintf(b, 3, "%02x", (i * 29 + 7) & 255); t += b; }
 EVP_PKEY* k = genkey("uacurve0", NID_dstu4145le, t.c_str()); unsigned char* p = NULL; int n = i2d_PUBKEY(k, &p); NEED(n > 0); EXPECT(hexs(B(p, p + n)).find(t) != std::string::npos); return 0; }''')
plant('default-sbox-first-half','C08',[('dstulib/params.c','return !memcmp(default_sbox, sbox, sizeof(default_sbox));','return !memcmp(default_sbox, sbox, sizeof(default_sbox) / 2);')],
 'a custom s-box whose first four rows are those of the default one','such an s-box is lost when the key is written or read',r'''
int main() { load(); B sb = hexb("a9d6eb45f13c708280c4967b231f5eadf658eba4c037291d38d96bf025ca4e17f8e9720dc615b43a28975f0bc1dea36438b564ea2c179fd0123d6db8fac57904"); NEED(sb.size() == 64); sb[40] ^= 0x11; std::string t = hexs(sb);
 EVP_PKEY* k = genkey("uacurve0", NID_dstu4145le, t.c_str()); unsigned char* p = NULL; int n = i2d_PUBKEY(k, &p); NEED(n > 0); EXPECT(hexs(B(p, p + n)).find(t) != std::string::npos); return 0; }''')
plant('verify-le-extra-bytes','C06',[('engine/pmeth.c','''        ret = dstu_do_verify(key->ec, tbs, tbslen, sig_be, siglen);
        OPENSSL_free(sig_be);''','''        /* s and r without padding */
        ret = dstu_do_verify(key->ec, tbs, tbslen, sig_be + (siglen - 2 * field_size), 2 * field_size);
        OPENSSL_free(sig_be);''')],
 'a little-endian signature followed by an even number of bytes','bytes after the signature are ignored',r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve0"); B h = pattern(32), s = rawsign(k, h); B raw(s.begin() + 2, s.end()); NEED(rawverify(k, h, raw) == 1); for (int j : {2, 4, 6}) { B t = raw; for (int i = 0; i < j; i++) t.push_back(7 + i); EXPECT(rawverify(k, h, t) != 1); } return 0; }''')
P12=r'''
#include "pkcs12.h"
#include "keystore.h"
static PKCS12_SAFEBAG* kbag(EVP_PKEY* k) { return PKCS12_SAFEBAG_create0_p8inf(EVP_PKEY2PKCS8(k)); }
static B tlv(unsigned char t, const B& c) { B r = {t, 0x82, (unsigned char)(c.size() >> 8), (unsigned char) c.size()}; r.insert(r.end(), c.begin(), c.end()); return r; }
static PKCS12_SAFEBAG* nest(STACK_OF(PKCS12_SAFEBAG)* in) { unsigned char* der = NULL; int n = ASN1_item_i2d((ASN1_VALUE*) in, &der, ASN1_ITEM_rptr(PKCS12_SAFEBAGS)); NEED(n > 0); B body = hexb("060b2a864886f70d010c0a0106"), ex = tlv(0xa0, B(der, der + n)); body.insert(body.end(), ex.begin(), ex.end()); B d = tlv(0x30, body);
 const unsigned char* p = d.data(); PKCS12_SAFEBAG* b = (PKCS12_SAFEBAG*) ASN1_item_d2i(NULL, &p, d.size(), ASN1_ITEM_rptr(PKCS12_SAFEBAG)); NEED(b); return b; }
static B pack(STACK_OF(PKCS12_SAFEBAG)* bags, const char* pw, int mac = 1) { STACK_OF(PKCS7)* s = sk_PKCS7_new_null(); sk_PKCS7_push(s, PKCS12_pack_p7data(bags)); PKCS12* p12 = PKCS12_add_safes(s, 0); NEED(p12); if (mac) NEED(PKCS12_set_mac(p12, pw, strlen(pw), NULL, 8, 1, EVP_sha1())); unsigned char* o = NULL; int n = i2d_PKCS12(p12, &o); NEED(n > 0); return B(o, o + n); }
'''
plant('pkcs12-mac-optional','C20',[('keylib/pkcs12.c','if (PKCS12_verify_mac(pkcs12, password, passSize) == 0)','if (PKCS12_mac_present(pkcs12) && PKCS12_verify_mac(pkcs12, password, passSize) == 0)')],
 'a container from which the integrity data was removed','such a container is accepted with any password',P12+r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve0"); for (int mac : {1, 0}) { STACK_OF(PKCS12_SAFEBAG)* b = sk_PKCS12_SAFEBAG_new_null(); sk_PKCS12_SAFEBAG_push(b, kbag(k)); B d = pack(b, "pw", mac); KeyStore* ks = NULL; int r = parsePKCS12(d.data(), d.size(), "pw", 2, &ks); if (mac) NEED(r == 1); else EXPECT(r == 0); } return 0; }''',lib=KL)
plant('pkcs12-password-as-string','C18',[('keylib/pkcs12.c','bags = PKCS12_unpack_p7encdata(pkcs7, password, passSize);\n        else\n            continue;\n        if (bags == NULL)\n            return 0;\n\n        if (fromBags','bags = PKCS12_unpack_p7encdata(pkcs7, password, strlen(password));\n        else\n            continue;\n        if (bags == NULL)\n            return 0;\n\n        if (fromBags'),('keylib/pkcs12.c','#include "pkcs12.h"\n','#include "pkcs12.h"\n#include <string.h>\n')],
 'an encrypted safe, and a password which is a part of a longer text','the password length given is not used',P12+r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve0"); STACK_OF(PKCS12_SAFEBAG)* b = sk_PKCS12_SAFEBAG_new_null(); sk_PKCS12_SAFEBAG_push(b, kbag(k)); STACK_OF(PKCS7)* s = sk_PKCS7_new_null();
 PKCS7* e = PKCS12_pack_p7encdata(NID_pbe_WithSHA1And3_Key_TripleDES_CBC, "pw", 2, NULL, 8, 10, b); NEED(e); sk_PKCS7_push(s, e); PKCS12* p12 = PKCS12_add_safes(s, 0); NEED(p12 && PKCS12_set_mac(p12, "pw", 2, NULL, 8, 1, EVP_sha1())); unsigned char* o = NULL; int n = i2d_PKCS12(p12, &o); KeyStore* ks = NULL;
 NEED(parsePKCS12(o, n, "pw", 2, &ks) == 1); EXPECT(parsePKCS12(o, n, "pw and more", 2, &ks) == 1 && KeyStoreKeyNum(ks) == 1); return 0; }''',lib=KL)
plant('pkcs12-nested-not-counted','C17',[('keylib/pkcs12.c','''            return countKeysCertsInBags(PKCS12_SAFEBAG_get0_safes(bag), password, passSize, numKeys, numCerts);''','''            return sk_PKCS12_SAFEBAG_num(PKCS12_SAFEBAG_get0_safes(bag)) > 8 ||
                   countKeysCertsInBags(PKCS12_SAFEBAG_get0_safes(bag), password, passSize, numKeys, numCerts);''')],
 'a container with a nested safe of more than eight bags','keys are written beyond the end of the list of keys',P12+r'''
int main() { load(); EVP_PKEY* k = genkey("uacurve0"); STACK_OF(PKCS12_SAFEBAG)*in = sk_PKCS12_SAFEBAG_new_null(), *b = sk_PKCS12_SAFEBAG_new_null(); for (int i = 0; i < 12; i++) sk_PKCS12_SAFEBAG_push(in, kbag(k)); sk_PKCS12_SAFEBAG_push(b, kbag(k)); sk_PKCS12_SAFEBAG_push(b, nest(in));
 B d = pack(b, "pw"); KeyStore* ks = NULL; EXPECT(parsePKCS12(d.data(), d.size(), "pw", 2, &ks) == 1); EXPECT(KeyStoreKeyNum(ks) == 13); return 0; }''',lib=KL)
plant('key6-long-password','C19',[('keylib/key6.c','    hash(password, passSize, key);','    hash(password, passSize & 0xff, key);')],
 'a password of more than 255 bytes','only a part of the password is used',r'''
extern "C" {
#include "key6.h"
#include "keystore.h"
#include "gost/gost89.h"
#include "gost/gosthash.h"
#include "params.h"
}
int main() { load(); EVP_PKEY* k = genkey("uacurve0"); PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(k); unsigned char* p = NULL; int len = i2d_PKCS8_PRIV_KEY_INFO(i, &p); B d(p, p + len); while (d.size() % 8) d.push_back(0);
 std::string pw(300, 'x'); pw[10] = 'y'; B key(32); { EVP_MD_CTX* c = EVP_MD_CTX_new(); unsigned n; const void* in = pw.data(); size_t l = pw.size(); for (int q = 0; q < 10000; q++) { EVP_DigestInit_ex(c, EVP_get_digestbynid(NID_dstu34311), NULL); EVP_DigestUpdate(c, in, l); EVP_DigestFinal_ex(c, key.data(), &n); in = key.data(); l = 32; } }
 // encrypt by block with the library's own cipher in feedback mode of one block
 B e; for (size_t q = 0; q < d.size(); q += 8) { (void) q; } gost_subst_block sb; unpack_sbox(default_sbox, &sb); gost_ctx g; memset(&g, 0, sizeof g); gost_init(&g, &sb); gost_key(&g, key.data()); e.resize(d.size()); gost_enc(&g, d.data(), e.data(), d.size() / 8);
 auto tlv = [](unsigned char t, const B& c) { B r = {t, 0x82, (unsigned char)(c.size() >> 8), (unsigned char) c.size()}; r.insert(r.end(), c.begin(), c.end()); return r; }; auto cat = [](B a, const B& b) { a.insert(a.end(), b.begin(), b.end()); return a; };
 ASN1_OBJECT* o = OBJ_txt2obj("1.3.6.1.4.1.19398.1.1.1.2", 1); unsigned char* op = NULL; int ol = i2d_ASN1_OBJECT(o, &op); B oid(op, op + ol); B st = tlv(0x30, cat(tlv(0x30, cat(oid, tlv(0x30, tlv(4, B(4, 1))))), tlv(4, e)));
 KeyStore* ks = NULL; EXPECT(parseKey6(st.data(), st.size(), pw.data(), pw.size(), &ks) == 1); return 0; }
''',lib=KL,extra='"$work"/*.o',pre='for f in dstulib/*.c dstulib/gost/*.c; do gcc -O1 -w -fPIC -I dstulib -I dstulib/gost -I engine -DCOPY_2ND_ARG_IS_CONST -DDECODE_2ND_ARG_IS_CONST -c $f -o "$work/$(basename $f).o" || exit 3; done\n')
plant('jks-large-entry','C16',[('keylib/jks.c','dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));','dataLength = (uint16_t)ntohl(read32(data, sizeof(typeLength) + typeLength));')],
 'a certificate of more than 65535 bytes','the length of the certificate is cut to 16 bits',r'''
#include "jks.h"
#include "keystore.h"
#include <openssl/sha.h>
static void put(B& b, unsigned v, int n) { while (n--) b.push_back(v >> (8 * n)); }
int main() { load(); EVP_PKEY* k = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256"); NEED(k); X509* x = X509_new(); X509_set_version(x, 2); ASN1_INTEGER_set(X509_get_serialNumber(x), 1); X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 1000); X509_set_pubkey(x, k);
 B big(70000, 7); ASN1_OCTET_STRING* os = ASN1_OCTET_STRING_new(); ASN1_OCTET_STRING_set(os, big.data(), big.size()); ASN1_OBJECT* o = OBJ_txt2obj("1.2.3.4", 1); X509_EXTENSION* e = X509_EXTENSION_create_by_OBJ(NULL, o, 0, os); X509_add_ext(x, e, -1); NEED(X509_sign(x, k, EVP_sha256()));
 unsigned char* p = NULL; int n = i2d_X509(x, &p); NEED(n > 70000); B b; put(b, 0xfeedfeed, 4); put(b, 2, 4); put(b, 1, 4); put(b, 2, 4); put(b, 1, 2); b.push_back('a'); put(b, 0, 8); put(b, 5, 2); for (char c : std::string("X.509")) b.push_back(c); put(b, n, 4); b.insert(b.end(), p, p + n);
 B h; for (char c : std::string("123456")) { h.push_back(0); h.push_back(c); } for (char c : std::string("Mighty Aphrodite")) h.push_back(c); h.insert(h.end(), b.begin(), b.end()); B dg(20); SHA1(h.data(), h.size(), dg.data()); b.insert(b.end(), dg.begin(), dg.end());
 KeyStore* ks = NULL; EXPECT(parseJKS(b.data(), b.size(), "123456", 6, "q", 1, &ks) == 1); EXPECT(KeyStoreCertNum(ks) == 1); return 0; }''',lib=KL)
plant('mac-partial-byte','C04',[('dstulib/gost/gost89.c','        out[i] = buffer[i] & mask;','        out[i] = buffer[i];')],
 'a MAC length which is no multiple of eight bits','bits beyond the length asked for are given out',r'''
extern "C" {
#include "gost/gost89.h"
#include "params.h"
}
int main() { gost_subst_block sb; unpack_sbox(default_sbox, &sb); gost_ctx g; memset(&g, 0, sizeof g); gost_init(&g, &sb); B k = pattern(32), d = pattern(24); gost_key_nomask(&g, k.data()); for (int n = 1; n < 32; n++) { unsigned char m[9] = {0}; gost_mac(&g, n, d.data(), 24, m); if (n & 7) EXPECT((m[n / 8] >> (n & 7)) == 0); } return 0; }''',lib='-lcrypto',extra='"$work"/*.o',pre='for f in dstulib/*.c dstulib/gost/*.c; do gcc -O1 -w -fPIC -I dstulib -I dstulib/gost -I engine -DCOPY_2ND_ARG_IS_CONST -DDECODE_2ND_ARG_IS_CONST -c $f -o "$work/$(basename $f).o" || exit 3; done\n')
plant('compare-x-only','C09',[('engine/ameth.c','''    if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
                     EC_KEY_get0_public_key(first->ec),
                     EC_KEY_get0_public_key(second->ec), NULL))
        return 0;

    return 1;''','''    BIGNUM *x1 = BN_new(), *x2 = BN_new();
    int ret = x1 && x2 &&
              EC_POINT_get_affine_coordinates(EC_KEY_get0_group(first->ec), EC_KEY_get0_public_key(first->ec), x1, NULL, NULL) &&
              EC_POINT_get_affine_coordinates(EC_KEY_get0_group(first->ec), EC_KEY_get0_public_key(second->ec), x2, NULL, NULL) &&
              BN_cmp(x1, x2) == 0;

    BN_free(x1);
    BN_free(x2);
    return ret;''')],
 'two public keys which are negatives of each other','they compare equal',r'''
int main() { load(); for (const char* cv : {"uacurve0", "uacurve3"}) { EVP_PKEY* k = genkey(cv, NID_dstu4145be); unsigned char* p = NULL; int n = i2d_PUBKEY(k, &p); NEED(n > 0); B d(p, p + n); d[n - 1] ^= 1; const unsigned char* q = d.data(); EVP_PKEY* o = d2i_PUBKEY(NULL, &q, n); NEED(o); EXPECT(EVP_PKEY_eq(k, o) == 0); } return 0; }''')
