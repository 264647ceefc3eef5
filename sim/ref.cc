// Independent reference implementations (OpenSSL EVP primitives; the file
// format and HMAC_DRBG written from FORMAT / SP 800-90A).  No code of /repo.
#include "sim.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/sha.h>
#include <unordered_map>
#include <unistd.h>

namespace ref {
static void die(const char *m) { fprintf(stderr, "reference: %s failed\n", m); _exit(92); }
str sha256(const str &d) {
	u8 o[32]; unsigned l;
	if (!EVP_Digest(d.data(), d.size(), o, &l, EVP_sha256(), nullptr)) die("sha256");
	return str((char *)o, 32);
}
str hmac(const str &k, const str &d) {
	u8 o[32]; unsigned l;
	if (!HMAC(EVP_sha256(), k.data(), (int)k.size(), (const u8 *)d.data(), d.size(), o, &l)) die("hmac");
	return str((char *)o, 32);
}
str scrypt(const str &pass, const str &salt, u64 N, u32 r, u32 p, size_t len) {
	static std::unordered_map<str, str> cache;
	str key = fmt("%llu.%u.%u.%zu.%zu.", (unsigned long long)N, r, p, len, pass.size()) + pass + salt;
	auto it = cache.find(key);
	if (it != cache.end()) return it->second;
	str o(len, 0);
	if (!EVP_PBE_scrypt(pass.data(), pass.size(), (const u8 *)salt.data(), salt.size(), N, r, p, 1ull << 34, (u8 *)&o[0], len)) die("scrypt");
	if (len > 100000) return o;
	if (cache.size() > 2000) cache.clear();
	return cache[key] = o;
}
str aesctr(const str &key, const str &d, u64 first) {
	str o(d.size(), 0);
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	u8 iv[16] = {0};
	for (int i = 0; i < 8; i++) iv[15 - i] = (u8)(first >> (8 * i));
	int l;
	if (!EVP_EncryptInit_ex(c, EVP_aes_256_ctr(), nullptr, (const u8 *)key.data(), iv)) die("aes");
	size_t i = 0;
	while (i < d.size()) {
		int n = d.size() - i > (1 << 28) ? 1 << 28 : (int)(d.size() - i);
		if (!EVP_EncryptUpdate(c, (u8 *)&o[i], &l, (const u8 *)d.data() + i, n)) die("aes");
		i += (size_t)n;
	}
	EVP_CIPHER_CTX_free(c);
	return o;
}
Stream::Stream(const str &dk, const str &header) {
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(); u8 iv[16] = {0};
	if (!EVP_EncryptInit_ex(c, EVP_aes_256_ctr(), nullptr, (const u8 *)dk.data(), iv)) die("aes");
	ctr = c;
	EVP_MD_CTX *m = EVP_MD_CTX_new();
	EVP_PKEY *k = EVP_PKEY_new_mac_key(EVP_PKEY_HMAC, nullptr, (const u8 *)dk.data() + 32, 32);
	if (!k || !EVP_DigestSignInit(m, nullptr, EVP_sha256(), nullptr, k)) die("hmac");
	EVP_PKEY_free(k); mac = m;
	update(header.data(), header.size());
}
Stream::~Stream() { EVP_CIPHER_CTX_free((EVP_CIPHER_CTX *)ctr); EVP_MD_CTX_free((EVP_MD_CTX *)mac); }
void Stream::crypt(const char *in, char *out, size_t n) { int l; if (n && !EVP_EncryptUpdate((EVP_CIPHER_CTX *)ctr, (u8 *)out, &l, (const u8 *)in, (int)n)) die("aes"); }
void Stream::update(const char *in, size_t n) { if (!EVP_DigestSignUpdate((EVP_MD_CTX *)mac, in, n)) die("hmac"); }
str Stream::mac_final() { u8 o[32]; size_t l = 32; if (!EVP_DigestSignFinal((EVP_MD_CTX *)mac, o, &l)) die("hmac"); return str((char *)o, 32); }
str aesctr_n(const str &key, u64 nonce, const str &d) {
	str o(d.size(), 0);
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	u8 iv[16] = {0};
	for (int i = 0; i < 8; i++) iv[7 - i] = (u8)(nonce >> (8 * i));
	int l;
	if (!EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ctr() : EVP_aes_256_ctr(), nullptr, (const u8 *)key.data(), iv)) die("aes");
	if (!d.empty() && !EVP_EncryptUpdate(c, (u8 *)&o[0], &l, (const u8 *)d.data(), (int)d.size())) die("aes");
	EVP_CIPHER_CTX_free(c);
	return o;
}
str aesblock(const str &key, const str &b) {
	str o(32, 0); int l;
	EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
	if (!EVP_EncryptInit_ex(c, key.size() == 16 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, (const u8 *)key.data(), nullptr)) die("aes");
	EVP_CIPHER_CTX_set_padding(c, 0);
	if (!EVP_EncryptUpdate(c, (u8 *)&o[0], &l, (const u8 *)b.data(), 16)) die("aes");
	EVP_CIPHER_CTX_free(c); o.resize(16);
	return o;
}
str pbkdf2(const str &pw, const str &salt, u64 c, size_t n) {
	str o(n, 0);
	if (n && !PKCS5_PBKDF2_HMAC(pw.data(), (int)pw.size(), (const u8 *)salt.data(), (int)salt.size(), (int)c, EVP_sha256(), (int)n, (u8 *)&o[0])) die("pbkdf2");
	return o;
}
void be32(str &s, u32 v) { s += (char)(v >> 24); s += (char)(v >> 16); s += (char)(v >> 8); s += (char)v; }
u32 rd32(const str &s, size_t o) { return (u32)(u8)s[o] << 24 | (u32)(u8)s[o + 1] << 16 | (u32)(u8)s[o + 2] << 8 | (u8)s[o + 3]; }
str header_nohmac(const Hdr &h) {
	str s("scrypt\0", 7);
	s += (char)h.logN; be32(s, h.r); be32(s, h.p); s += h.salt;
	s += sha256(s).substr(0, 16);
	return s;
}
str header(const Hdr &h, const str &dk) { str s = header_nohmac(h); return s + hmac(dk.substr(32), s); }
str encrypt_dk(const Hdr &h, const str &dk, const str &pt) {
	str s = header(h, dk) + aesctr(dk.substr(0, 32), pt);
	return s + hmac(dk.substr(32), s);
}
str encrypt(const Hdr &h, const str &pass, const str &pt) { return encrypt_dk(h, scrypt(pass, h.salt, 1ull << h.logN, h.r, h.p, 64), pt); }
bool header_key(const str &pass, const str &ct, str &dk, Hdr *ho) {
	if (ct.size() < 96 || ct.substr(0, 7) != str("scrypt\0", 7)) return false;
	Hdr h; h.logN = (u8)ct[7]; h.r = rd32(ct, 8); h.p = rd32(ct, 12); h.salt = ct.substr(16, 32);
	if (h.logN < 1 || h.logN > 63 || !h.r || !h.p || (u64)h.r * h.p >= (1u << 30)) return false;
	if (ho) *ho = h;
	if (sha256(ct.substr(0, 48)).substr(0, 16) != ct.substr(48, 16)) return false;
	if (4.0 * (double)(1ull << h.logN) * h.r * h.p > 4e6) return false;
	if (h.logN > 18 || h.logN >= 16 * (u64)h.r || (128ull << h.logN) * h.r > (64u << 20) || 128ull * h.r * h.p > (64u << 20)) return false;
	dk = scrypt(pass, h.salt, 1ull << h.logN, h.r, h.p, 64);
	return hmac(dk.substr(32), ct.substr(0, 64)) == ct.substr(64, 32);
}
bool decrypt(const str &pass, const str &ct, str &pt, Hdr *ho) {
	str dk;
	if (ct.size() < 128 || !header_key(pass, ct, dk, ho)) return false;
	if (hmac(dk.substr(32), ct.substr(0, ct.size() - 32)) != ct.substr(ct.size() - 32)) return false;
	pt = aesctr(dk.substr(0, 32), ct.substr(96, ct.size() - 128));
	return true;
}
u64 round_size(Rng &g) {
	static const std::vector<u64> m = {10, 11, 15, 19, 20, 90, 99, 100, 101, 110, 500, 990, 1000, 1010, 5000, 9900, 9990, 10000};
	u64 v = g.pick(m); for (int k = (int)g.range(1, 5); k--;) v *= 1000;
	v /= 10; return g.chance(40) ? v : g.chance(50) ? v - 1 - (g.chance(50) ? 0 : g.below(v / 50)) : v + (g.chance(30) ? 1 : g.below(v / 50));
}
static long double shown(u64 n) {
	if (n < 1000) return n;
	u64 u = 1000; while (n / u >= 1000) u *= 1000;
	u64 q = n < 10 * u ? u / 10 : u; // 10 * u may not overflow: u <= 10^18
	return (long double)(n / q) * (long double)q;
}
bool shown_size(const str &t, const char *after, u64 lo, u64 hi, str &got) {
	size_t i = t.find(after); if (i == str::npos) { got = "nothing"; return false; }
	i += strlen(after); size_t e = t.find_first_of(",;)\n", i); got = t.substr(i, std::min<size_t>(e == str::npos ? 24 : e - i, 24));
	char *q; long double v = strtold(t.c_str() + i, &q), mul = 1; if (q == t.c_str() + i) return false;
	while (*q == ' ') q++;
	const char *pre = "kMGTPE", *x = *q ? strchr(pre, *q) : nullptr;
	if (x) for (const char *y = pre; y <= x; y++) mul *= 1000; else if (*q != 'B') return false;
	v *= mul; return v >= shown(lo) * (1 - 1e-9L) && v <= shown(hi) * (1 + 1e-9L);
}
str stub_dk(const str &pass, const str &salt, u64 N, u32 r, u32 p, size_t len) {
	str d = "stub" + salt; for (int i = 0; i < 8; i++) d += (char)(N >> (8 * i));
	be32(d, r); be32(d, p);
	str o; u8 i = 0;
	while (o.size() < len) { o += hmac(pass, d + (char)i); i++; }
	return o.substr(0, len);
}
// FIPS-197 key schedule for 256-bit keys.
static u8 sbox[256]; static bool sb_ok;
static void mk_sbox() {
	u8 p = 1, q = 1;
	do {
		p = (u8)(p ^ (p << 1) ^ ((p & 0x80) ? 0x1B : 0));
		q ^= (u8)(q << 1); q ^= (u8)(q << 2); q ^= (u8)(q << 4); if (q & 0x80) q ^= 0x09;
		auto rl = [](u8 x, int n) { return (u8)(x << n | x >> (8 - n)); };
		sbox[p] = (u8)(q ^ rl(q, 1) ^ rl(q, 2) ^ rl(q, 3) ^ rl(q, 4) ^ 0x63);
	} while (p != 1);
	sbox[0] = 0x63; sb_ok = true;
}
str aes_schedule(const str &k) {
	if (!sb_ok) mk_sbox();
	u8 w[60][4];
	memcpy(w, k.data(), 32);
	u8 rc = 1;
	for (int i = 8; i < 60; i++) {
		u8 t[4]; memcpy(t, w[i - 1], 4);
		if (i % 8 == 0) { u8 x = t[0]; t[0] = (u8)(sbox[t[1]] ^ rc); t[1] = sbox[t[2]]; t[2] = sbox[t[3]]; t[3] = sbox[x]; rc = (u8)(rc << 1); }
		else if (i % 8 == 4) for (auto &b : t) b = sbox[b];
		for (int j = 0; j < 4; j++) w[i][j] = w[i - 8][j] ^ t[j];
	}
	return str((char *)w, 240);
}
void Drbg::update(const str &d) {
	K = hmac(K, V + str(1, 0) + d); V = hmac(K, V);
	if (!d.empty()) { K = hmac(K, V + str(1, 1) + d); V = hmac(K, V); }
}
void Drbg::instantiate(const str &s) { K = str(32, 0); V = str(32, 1); update(s); ctr = 1; inst = true; }
void Drbg::reseed(const str &s) { update(s); ctr = 1; }
str Drbg::gen(size_t n) {
	str o; while (o.size() < n) { V = hmac(K, V); o += V; }
	o.resize(n); update(""); ctr++; return o;
}
}
