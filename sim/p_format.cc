// C02 format conformance, C03 damage is rejected, C18 info.
#include "cli.h"
#include "api.h"
#include <cstdlib>

// ---------------------------------------------------------------- C02
enum { K2_ENC, K2_DEC, K2_BIG, K2_BAD, K2_VER, K2_N };
static void gen02(Rng &g, Plan &pl) {
	if (!g_asan && pl.get("idx") < 2) { i64 m = pl.get("idx"); long_plan(g, pl, m ? M_DEC : M_ENC, (1ll << 32) + g.range(1, 50000000)); return; }
	int kind = (int)g.pick(std::vector<int>{K2_ENC, K2_ENC, K2_DEC, K2_DEC, K2_DEC, K2_BIG, K2_BIG, K2_BAD, K2_VER});
	gen_cmd(g, pl, g.chance(70) ? 3000 : 150000, kind == K2_ENC ? M_ENC : M_DEC);
	pl.set("kind", kind);
	pl.set("buf", g.chance(25));
	if (kind == K2_ENC) {
		if (!pl.get("auto")) { pl.set("r", g.pick(std::vector<i64>{1, 2, 3, 5, 8, 13}), 1); pl.set("p", g.pick(std::vector<i64>{1, 1, 2, 3, 7}), 1); }
		else pl.set("maxtime_ms", g.pick(std::vector<i64>{1, 10, 40}), 10);
		return;
	}
	if (kind == K2_DEC || kind == K2_VER) {
		i64 lg = g.range(1, 12); i64 cap = 200000 >> lg; if (cap < 1) cap = 1; // r*p
		i64 r = g.chance(50) ? g.range(1, cap < 40 ? cap : 40) : g.pick(std::vector<i64>{1, 2, 3, 5, 7, 8, 9, 16, 32, 33}); if (r > cap) r = cap;
		i64 p = g.range(1, cap / r < 24 ? (cap / r < 1 ? 1 : cap / r) : 24); if (g.chance(50)) p = 1 + p % 3;
		pl.set("logN", lg, 4); pl.set("r", r, 1); pl.set("p", p, 1);
		if (kind == K2_VER) { pl.set("vk", g.range(0, 2)); pl.set("vpos", g.range(0, 15)); }
		if (kind == K2_VER) pl.set("ver", g.chance(30) ? g.range(1, 255) : (i64)1 << g.below(8));
		return;
	}
	// parameters at and beyond the edges; the key derivation is stubbed, everything around it is real
	i64 lg = g.pick(std::vector<i64>{1, 2, 14, 20, 31, 32, 33, 40, 62, 63}), r, p;
	switch (g.below(5)) {
	case 0: r = g.range(1, 1 << 15); p = ((1 << 30) - 1) / r; break;
	case 1: r = (1 << 30) - 1; p = 1; break;
	case 2: r = 1; p = (1 << 30) - 1; break;
	case 3: r = g.range(1, 64); p = g.range(1, 64); break;
	default: r = (i64)1 << g.below(15); p = (i64)1 << g.below(15); break;
	}
	if (g.chance(30)) lg = g.range(1, 63);
	if (kind == K2_BAD) switch (g.below(7)) {
	case 0: lg = 0; r = g.range(1, 9); p = g.range(1, 9); break;
	case 1: lg = 64; break;
	case 2: lg = g.range(64, 255); break;
	case 3: r = 0; p = g.range(0, 5); break;
	case 4: p = 0; r = g.range(1, 5); break;
	case 5: r = (i64)1 << g.range(0, 30); p = (i64)1 << (30 - (r > 1 ? 63 - __builtin_clzll((u64)r) : 0)); break;
	default: { static const std::vector<std::pair<i64, i64>> e = {{0x80000000ll, 2}, {2, 0x80000000ll}, {0xffffffffll, 0xffffffffll}, {0x10000, 0x10000}, {0x8000, 0x8000}, {1, 0x40000000}, {0x40000000, 1}, {0xffffffffll, 1}, {1, 0xffffffffll}, {0x10000, 0x10001}, {3, 0x55555556}, {32769, 32769}};
		auto q = g.pick(e); r = q.first; p = q.second; break; }
	}
	pl.set("force", kind == K2_BIG ? 1 : g.chance(80)); pl.set("logN", lg, 4); pl.set("r", r, 1); pl.set("p", p, 1);
}
// one decryption, by command or in memory; out is what was delivered
struct DecOut { bool ok = false; str out; str errs; str status; bool touched = false; int derivs = 0; u64 hash = 0; str delivered; };
static bool run_dec(const Plan &pl, Result &r, const str &ct, const str &pass, DecOut &d, const std::function<void(World &, Job &)> &tweak = nullptr, int kdf_mode = 0, double big = 4e6) {
	World w(pl); w.keep_log = pl.get("_log"); w.kdf_mode = kdf_mode; w.kdf_big = big;
	if (pl.get("buf")) {
		str in = ct, out(ct.size() + 1, (char)0xEE); size_t ol = ~(size_t)0; int rc = -1;
		// exact-size heap blocks so that the sanitizer sees any overrun
		u8 *ib = (u8 *)malloc(ct.size() ? ct.size() : 1), *ob = (u8 *)malloc(ct.size() ? ct.size() : 1);
		memcpy(ib, ct.data(), ct.size()); memset(ob, 0xEE, ct.size());
		Proc *p = w.spawn_fn("dec_buf", [&]() { rc = api_dec_buf(ib, ct.size(), ob, &ol, (const u8 *)pass.data(), pass.size(), 0, 0.5, 300, pl.get("verbose"), pl.get("force")); return rc; });
		Inode *e = w.anon("stderr0", I_REG); w.set_fd(p, 2, e, true);
		w.run();
		bool c = clean_end(w, r);
		d.ok = c && rc == 0; d.status = fmt("code %d", rc); d.errs = e->data + "."; d.derivs = p->derivs;
		if (d.ok) { if (ol > ct.size()) r.fail("bad-length", "the reported length is larger than the input"); else d.out.assign((char *)ob, ol); }
		free(ib); free(ob);
		d.delivered = ct;
		finish_result(w, r);
		return !r.bad;
	}
	Spec s = spec_from(pl, M_DEC); s.indata = ct; s.pass = pass;
	Job j = start_job(w, s);
	if (j.in) j.in->record = true;
	if (tweak) tweak(w, j);
	w.run();
	settle(w, j);
	clean_end(w, r);
	d.ok = j.proc->ok(); d.status = j.proc->status(); d.out = j.output(w); d.errs = j.errs(); d.derivs = j.proc->derivs;
	if (j.in) d.delivered = j.in->rec;
	d.touched = s.outkind == OUT_NEW ? j.outfile_exists(w) : s.outkind == OUT_OLD ? (j.out->opens_w || j.out->data != s.old) : !d.out.empty();
	if (s.outkind == OUT_OLD && d.touched == false) d.out.clear();
	if (j.so != j.out && !j.so->data.empty()) r.fail("stdout-noise", "data on standard output");
	finish_result(w, r);
	return !r.bad;
}
static void exec02(const Plan &pl, Result &r) {
	if (pl.get("long")) { exec_long(pl, r); return; }
	str pt = plan_data(pl), pass = plan_pass(pl);
	int kind = (int)pl.get("kind");
	r.sample = describe(pl);
	if (kind == K2_ENC) {
		r.nontrivial = true;
		str ct; ref::Hdr want; i64 t = pl.get("maxtime_ms", 10);
		World w(pl); w.keep_log = pl.get("_log");
		if (!pl.get("auto")) { want.logN = 10; want.r = (u32)pl.get("r", 1); want.p = (u32)pl.get("p", 1); } else want.logN = 0;
		if (pl.get("buf")) {
			ct.assign(pt.size() + 128, (char)0xEE); int rc = -1; u8 *ob = (u8 *)malloc(pt.size() + 128);
			Proc *p = w.spawn_fn("enc_buf", [&]() { rc = api_enc_buf((const u8 *)pt.data(), pt.size(), ob, (const u8 *)pass.data(), pass.size(), 0, 0.125, (double)t / 1000, want.logN, want.logN ? want.r : 0, want.logN ? want.p : 0, 0, 0); return rc; });
			w.set_fd(p, 2, w.anon("stderr0", I_REG), true);
			w.run(); clean_end(w, r);
			if (rc) r.fail("enc-failed", fmt("scryptenc_buf returned %d", rc));
			memcpy(&ct[0], ob, ct.size()); free(ob);
		} else {
			Spec s = spec_from(pl, M_ENC); s.indata = pt;
			if (want.logN) { s.logN = want.logN; s.r = want.r; s.p = want.p; } else s.extra = {"-t", fmt("%.3f", (double)t / 1000)};
			Job j = start_job(w, s); w.run(); settle(w, j); clean_end(w, r);
			if (!j.proc->ok()) r.fail("enc-failed", "enc ended with " + j.proc->status() + "; stderr: " + j.errs());
			ct = j.output(w);
		}
		finish_result(w, r);
		if (r.bad) return;
		if (ct.size() != pt.size() + 128) { r.fail("size", fmt("%zu bytes of plaintext became %zu bytes", pt.size(), ct.size())); return; }
		ref::Hdr h; h.logN = (u8)ct[7]; h.r = ref::rd32(ct, 8); h.p = ref::rd32(ct, 12); h.salt = ct.substr(16, 32);
		if (want.logN && (h.logN != want.logN || h.r != want.r || h.p != want.p)) { r.fail("params", fmt("header says %d/%u/%u", h.logN, h.r, h.p)); return; }
		if (h.logN < 1 || h.logN > 20 || !h.r || !h.p || (u64)h.r * h.p > 10000) { r.fail("params", fmt("implausible parameters %d/%u/%u", h.logN, h.r, h.p)); return; }
		str exp = ref::encrypt(h, pass, pt);
		if (exp != ct) { size_t i = 0; while (exp[i] == ct[i]) i++; r.fail("format", fmt("output differs from the format at byte %zu of %zu", i, ct.size())); }
		r.probes["encrypt"]++;
		return;
	}
	ref::Hdr h = plan_hdr(pl);
	DecOut d;
	if (kind == K2_DEC) {
		r.nontrivial = true;
		str ct = ref::encrypt(h, pass, pt);
		if (!run_dec(pl, r, ct, pass, d)) return;
		if (!d.ok) r.fail("dec-refused", fmt("a conforming file (logN %d r %u p %u) was not decrypted: ", h.logN, h.r, h.p) + d.status + " " + d.errs);
		else if (d.out != pt) r.fail("wrong-plaintext", "a conforming file was decrypted to something else");
		r.probes["foreign-file"]++;
		return;
	}
	r.nontrivial = true;
	bool legal = h.logN >= 1 && h.logN <= 63 && h.r && h.p && (u64)h.r * h.p < (1u << 30);
	str dk = kind == K2_VER ? ref::scrypt(pass, h.salt, 1ull << h.logN, h.r, h.p, 64) : ref::stub_dk(pass, h.salt, 1ull << (h.logN & 63), h.r, h.p, 64);
	str ct = ref::encrypt_dk(h, dk, pt);
	if (kind == K2_VER) { // a different version, otherwise consistent
		int vk = (int)pl.get("vk"); size_t vp = (size_t)(u64)(pl.get("vpos") & 15); char vb = (char)(1 << (pl.get("ver", 1) & 7));
		if (vk == 1) ct[vp % 6] ^= vb; // another magic
		else if (vk != 2) ct[6] = (char)pl.get("ver", 1);
		str b = ct.substr(0, 48); b += ref::sha256(b).substr(0, 16); if (vk == 2) b[48 + vp] ^= vb;
		b += ref::hmac(dk.substr(32), b); b += ct.substr(96, ct.size() - 128); ct = b + ref::hmac(dk.substr(32), b);
		legal = ct[6] == 0 && vk != 1 && vk != 2;
	}
	if (!run_dec(pl, r, ct, pass, d, nullptr, kind == K2_VER ? 0 : 2)) return;
	if (legal && (pl.get("force") || kind == K2_VER)) {
		if (!d.ok) r.fail("dec-refused", fmt("conforming parameters (logN %d r %u p %u) were refused: ", h.logN, h.r, h.p) + d.status + " " + d.errs);
		else if (d.out != pt) r.fail("wrong-plaintext", "a conforming file was decrypted to something else");
		r.probes["extreme-params"]++;
	} else if (!legal) {
		if (d.ok) r.fail("accepted", fmt("a header outside the format (version %d logN %d r %u p %u) was accepted", (u8)ct[6], h.logN, h.r, h.p));
		else if (d.errs.empty()) r.fail("silent", "refused without a message");
		else if (d.touched) r.fail("touched", "the output was touched although the header was refused");
		r.probes[kind == K2_VER ? "other-version" : "out-of-range"]++;
	}
}
static Reg r02({"C02", gen02, exec02, "one case = one encryption compared byte for byte with the reference encoder, or one decryption of a file made by the reference encoder (in-range, extreme, out-of-range or other-version headers); all cases are non-trivial; distinct by event-log hash"});

// ---------------------------------------------------------------- C03
static str other_file(const Plan &pl, bool samekey) {
	ref::Hdr h = plan_hdr(pl); if (!samekey) h.salt = prbytes(mix64((u64)pl.get("salt_seed", 1), 99), 32);
	return ref::encrypt(h, plan_pass(pl), prbytes(mix64((u64)pl.get("data_seed", 1), 98), (size_t)pl.get("isize")));
}
static str mutate(const Plan &pl, const str &ct0, const str &dk) {
	str c = ct0; str kh = dk.substr(32);
	auto at = [&](i64 a) { return c.empty() ? (size_t)0 : (size_t)((u64)(a < 0 ? -a : a) % c.size()); };
	for (auto &m : pl.muts) {
		i64 a = m.a < 0 ? -m.a : m.a, b = m.b < 0 ? -m.b : m.b;
		if (m.kind == "flip" && !c.empty()) c[at(a)] ^= (char)(1 << (b & 7));
		else if (m.kind == "set" && !c.empty()) c[at(a)] = (char)b;
		else if (m.kind == "tail" && !c.empty()) c[c.size() - 1 - (size_t)((u64)a % std::min<size_t>(c.size(), 40))] ^= (char)(1 << (b & 7));
		else if (m.kind == "head" && !c.empty()) c[(size_t)((u64)a % std::min<size_t>(c.size(), 100))] ^= (char)(1 << (b & 7));
		else if (m.kind == "trunc") c.resize(c.size() - (size_t)((u64)a % (c.size() + 1)));
		else if (m.kind == "keep") { if ((size_t)a < c.size()) c.resize((size_t)a); }
		else if (m.kind == "del" && !c.empty()) c.erase(at(a), (size_t)(1 + b));
		else if (m.kind == "ins") c.insert(at(a), prbytes((u64)m.c, (size_t)(1 + b % 70000)));
		else if (m.kind == "ext") c += prbytes((u64)m.c, (size_t)(1 + b % 140000));
		else if (m.kind == "extz") c += str((size_t)(1 + b % 140000), 0);
		else if (m.kind == "dup" && !c.empty()) { size_t o = at(a); str x = c.substr(o, (size_t)(1 + b)); c.insert(o, x); }
		else if (m.kind == "swap" && !c.empty()) { size_t x = at(a), y = at(b); size_t n = (size_t)(1 + m.c % 70000); if (x > y) std::swap(x, y); if (x + n > y) n = y - x; if (n && y + n <= c.size()) for (size_t i = 0; i < n; i++) std::swap(c[x + i], c[y + i]); }
		else if (m.kind == "cat") c += a & 1 ? other_file(pl, b & 1) : ct0;
		else if (m.kind == "catbody") c = c.substr(0, c.size() > 32 ? c.size() - 32 : 0) + ct0.substr(96);
		else if (m.kind == "splice") { str o = other_file(pl, b & 1); size_t k = at(a); if (k < o.size()) c = c.substr(0, k) + o.substr(k); }
		else if (m.kind == "mactail") { str o = other_file(pl, b & 1); if (c.size() >= 32) c = c.substr(0, c.size() - 32) + o.substr(o.size() - 32); }
		else if (m.kind == "badsum" && c.size() >= 128) { c[48 + (size_t)(a % 16)] ^= (char)(1 << (b & 7)); str x = c.substr(0, 64); x += ref::hmac(kh, x); x += c.substr(96, c.size() - 128); c = x + ref::hmac(kh, x); }
		else if (m.kind == "badhh" && c.size() >= 128) { c[64 + (size_t)(a % 32)] ^= (char)(1 << (b & 7)); str x = c.substr(0, c.size() - 32); c = x + ref::hmac(kh, x); }
		else if (m.kind == "field" && c.size() >= 128) { // another parameter, checksum and MACs made consistent under the old key
			int f = (int)(a % 3); if (f == 0) c[7] = (char)(1 + b % 14); else { str v; ref::be32(v, (u32)(1 + b % 64)); c.replace(f == 1 ? 8 : 12, 4, v); }
			str x = c.substr(0, 48); x += ref::sha256(x).substr(0, 16); x += ref::hmac(kh, x); x += c.substr(96, c.size() - 128); c = x + ref::hmac(kh, x);
		} else if (m.kind == "fieldsum" && c.size() >= 128) { // salt or parameter changed, only the checksum fixed
			size_t o = 7 + (size_t)(a % 41); c[o] ^= (char)(1 << (b & 7)); str x = c.substr(0, 48); c.replace(48, 16, ref::sha256(x).substr(0, 16));
		} else if (m.kind == "weak" && c.size() >= 128) { // body changed, trailer by a wrong rule
			if (c.size() > 128) c[96 + (size_t)((u64)b % (c.size() - 128))] ^= 1;
			str x = c.substr(0, c.size() - 32), t;
			switch (a % 8) {
			case 0: t = ref::sha256(x); break;
			case 1: t = ref::hmac(dk.substr(0, 32), x); break;
			case 2: t = ref::hmac(kh, x.substr(96)); break;
			case 3: t = ref::hmac("", x); break;
			case 4: t = ref::hmac(kh, x.substr(0, 96) + ref::aesctr(dk.substr(0, 32), x.substr(96))); break;
			case 5: t = str(32, 0); break;
			case 6: t = x.substr(64, 32); break;
			default: t = ref::hmac(kh, x.substr(0, 96)); break;
			}
			c = x + t;
		}
	}
	return c;
}
static void gen03(Rng &g, Plan &pl) {
	if (!g_asan && pl.get("idx") < 2) { // damage in very long streams
		i64 m = pl.get("idx"), len = m ? 560000000 + g.range(0, 9000000) : (1ll << 32) + g.range(100, 50000000); long_plan(g, pl, M_DEC, len);
		if (m) pl.set("ltrunc", g.range(1, 100000)); else pl.set("flip", g.chance(50) ? len + 96 - g.range(0, 90) : g.range(96, 100000000));
		return;
	}
	gen_cmd(g, pl, g.chance(60) ? 2000 : 200000, M_DEC);
	pl.set("buf", g.chance(35));
	pl.set("verbose", 0);
	i64 n = pl.get("isize") + 128;
	static const std::vector<str> ks = {"flip", "flip", "flip", "set", "tail", "tail", "head", "trunc", "trunc", "trunc", "keep", "del", "ins", "ext", "extz", "dup", "swap", "swap", "cat", "catbody", "splice", "mactail", "badsum", "badhh", "field", "fieldsum", "weak", "weak"};
	int nm = g.chance(80) ? 1 : 2;
	bool live = !pl.get("buf") && g.chance(15);
	for (int i = 0; i < nm && !live; i++) {
		Mut m; m.kind = g.pick(ks); m.a = (i64)g.below((u64)n + 5); m.b = (i64)g.below((u64)n + 5); m.c = g.range(0, 1 << 20);
		if (m.kind == "trunc" || m.kind == "del" || m.kind == "ins" || m.kind == "ext" || m.kind == "extz" || m.kind == "dup") {
			i64 len = g.pick(std::vector<i64>{0, 1, 15, 31, 32, 33, 63, 64, 95, 96, 97, 127, 128, 4095, 65503, 65504, 65535, 65536, 65567, 65568});
			if (g.chance(40)) len = g.range(0, 200);
			if (m.kind == "trunc") { if (g.chance(80)) m.a = len + g.below(2); } else m.b = len;
		}
		if (m.kind == "keep") m.a = g.chance(50) ? g.range(0, 140) : 96 + 32 + 65536 * g.range(0, 3) + g.range(-33, 33);
		if (m.kind == "keep" && m.a < 0) m.a = 0;
		pl.muts.push_back(m);
	}
	if (live) { Mut m; m.kind = g.pick(std::vector<str>{"live-set", "live-grow", "live-cut", "live-set"}); m.a = g.range(0, 60); m.b = (i64)g.below((u64)n + 5); m.c = g.range(1, 1 << 20); pl.muts.push_back(m); if (!pl.get("chunk")) { pl.set("chunk", 1); pl.set("chunk_max", n > 20000 ? 4096 : 64, 4096); pl.set("chunk_seed", 7); } if (pl.get("inkind") == IN_STDIN_PIPE) pl.set("inkind", 0); pl.set("stdio_buf", n > 20000 ? 4096 : 128); }
}
static void exec03(const Plan &pl, Result &r) {
	if (pl.get("long")) { exec_long(pl, r); return; }
	str pt = plan_data(pl), pass = plan_pass(pl);
	ref::Hdr h = plan_hdr(pl);
	str dk = ref::scrypt(pass, h.salt, 1ull << h.logN, h.r, h.p, 64);
	str ct = ref::encrypt_dk(h, dk, pt), bad = mutate(pl, ct, dk);
	r.sample = describe(pl);
	auto hook = std::make_shared<i64>(0);
	auto tweak = [&](World &w, Job &j) {
		const Mut *m = nullptr; for (auto &x : pl.muts) if (x.kind.compare(0, 5, "live-") == 0) m = &x;
		if (!m || !j.in) return;
		Mut mm = *m; Inode *in = j.in;
		w.on_call = [=, &w](Proc *, const char *k) {
			if (strcmp(k, "read") || (*hook)++ != mm.a || in->type != I_REG) return;
			w.fired["file-changes-while-read"]++;
			if (mm.kind == "live-set" && !in->data.empty()) { size_t o = (size_t)mm.b % in->data.size(); in->data[o] ^= (char)(1 + mm.c % 255); }
			else if (mm.kind == "live-grow") in->data += prbytes((u64)mm.c, (size_t)(1 + mm.b));
			else if (mm.kind == "live-cut") in->data.resize(in->data.size() - (size_t)mm.b % (in->data.size() + 1));
		};
	};
	DecOut d;
	if (!run_dec(pl, r, bad, pass, d, tweak, 1, 2e5)) return;
	bool live = false; for (auto &m : pl.muts) live |= m.kind.compare(0, 5, "live-") == 0;
	str seen = live ? d.delivered : bad;
	if (live) { str c2; if (d.delivered.empty()) seen = bad; }
	str q; bool good = ref::decrypt(pass, seen, q);
	r.nontrivial = seen != ct;
	for (auto &m : pl.muts) r.probes["mut:" + m.kind]++;
	if (good && !live) {
		if (!d.ok) r.fail("refused", "an intact file was refused: " + d.status + " " + d.errs);
		else if (d.out != q) r.fail("wrong-plaintext", "an intact file was decrypted to something else");
		return;
	}
	if (good) { if (d.ok && d.out != q) r.fail("wrong-plaintext", "decrypted to something else than the delivered file"); return; }
	if (d.ok) { r.fail("accepted", fmt("a damaged file (%zu bytes, original %zu) was accepted, %zu bytes of output", seen.size(), ct.size(), d.out.size())); return; }
	if (d.errs.empty()) { r.fail("silent", "a damaged file was refused without any message"); return; }
	if (d.status.compare(0, 4, "exit") && d.status.compare(0, 4, "code")) { r.fail("death", "ended with " + d.status); return; }
	// what was emitted must be a prefix of the decryption of what was read
	if (!d.out.empty() && !pl.get("buf")) {
		str full, k;
		if (ref::header_key(pass, seen, k)) full = ref::aesctr(k.substr(0, 32), seen.substr(96));
		if (d.out.size() > full.size() || full.compare(0, d.out.size(), d.out)) r.fail("garbage", fmt("%zu bytes were emitted that are not the decryption of the input", d.out.size()));
	}
}
static Reg r03({"C03", gen03, exec03, "one case = one decryption (command or in-memory) of a file altered by the plan's mutations or changed while it is read, judged by a strict reference decoder; non-trivial if the delivered bytes differ from the encryption; distinct by event-log hash"});

// ---------------------------------------------------------------- C18
static void gen18(Rng &g, Plan &pl) {
	pl.set("isize", g.chance(80) ? g.range(0, 300) : pick_size(g, 100000));
	pl.set("data_seed", g.range(1, 1 << 20), 1); pl.set("salt_seed", g.range(1, 1 << 20), 1);
	gen_chunk(g, pl, pl.get("isize"));
	pl.set("inkind", (i64)g.below(IN_N));
	pl.set("named", g.chance(10)); // an output name on the command line
	pl.set("vf", (i64)g.below(4));
	pl.set("kind", g.pick(std::vector<i64>{0, 0, 0, 1, 2, 3, 4, 5, 6, 7})); // 0 fine 1 out of range 2 truncated 3 magic 4 version 5 unreadable 6 missing 7 out of memory
	if (pl.get("kind") == 7) { Fault f; f.kind = "alloc"; f.target = "-"; f.nth = (i64)g.below(12); f.arg = 12; f.count = g.chance(50) ? -1 : 1; pl.faults.push_back(f); }
	i64 lg = g.range(1, 63), r, p;
	switch (g.below(7)) {
	case 6: { u64 t = ref::round_size(g) / 128; while (lg > 1 && (t >> lg) < 1) lg--; while (lg < 63 && (t >> lg) >= 1ull << 30) lg++; while (lg > 1 && (t & ((1ull << lg) - 1)) && (t >> (lg - 1)) < 1ull << 30) lg--; r = (i64)(t >> lg); if (r < 1) r = 1; p = 1; break; } // sizes at which the display changes
	case 0: r = g.range(1, 1 << 15); p = g.range(1, ((1 << 30) - 1) / r); break;
	case 1: r = (1 << 30) - 1; p = 1; break;
	case 2: r = 1; p = (1 << 30) - 1; break;
	case 3: r = (i64)1 << g.below(30); p = 1; break;
	case 4: r = g.range(1, 100); p = g.range(1, 100); lg = g.range(1, 20); break;
	default: r = 8; p = g.range(1, 10); lg = g.range(10, 24); break;
	}
	if (pl.get("kind") == 1) switch (g.below(5)) {
	case 0: lg = 0; break;
	case 1: lg = g.chance(50) ? 64 : g.range(64, 255); break;
	case 2: r = 0; break;
	case 3: p = 0; break;
	default: r = (i64)1 << g.range(15, 31); p = (i64)1 << g.range(15, 31); break;
	}
	pl.set("logN", lg, 4); pl.set("r", r, 1); pl.set("p", p, 1);
	if (pl.get("kind") == 2) pl.set("cut", g.chance(50) ? g.range(0, 95) : g.pick(std::vector<i64>{0, 1, 5, 6, 7, 8, 95}));
	if (pl.get("kind") == 3) { Mut m; m.kind = "magic"; m.a = g.range(0, 5); m.b = g.range(1, 255); pl.muts.push_back(m); }
	if (pl.get("kind") == 4) pl.set("ver", g.range(1, 255));
	if (pl.get("kind") == 5) { Fault f; f.kind = g.chance(40) && pl.get("inkind") == IN_PATH ? "open" : "read"; f.target = "in"; f.nth = 0; f.arg = g.pick(f.kind == "open" ? std::vector<i64>{5, 13, 2, 24, 23, 12, 4, 40} : std::vector<i64>{5, 21, 9, 116}); f.count = -1; if (f.kind == "read" && pl.get("chunk")) f.nth = g.below(2); pl.faults.push_back(f); }
}
static void exec18(const Plan &pl, Result &r) {
	int kind = (int)pl.get("kind");
	ref::Hdr h = plan_hdr(pl);
	bool legal = h.logN >= 1 && h.logN <= 63 && h.r && h.p && (u64)h.r * h.p < (1u << 30);
	str f = ref::encrypt_dk(h, prbytes(5, 64), plan_data(pl));
	for (auto &m : pl.muts) if (m.kind == "magic") f[(size_t)(m.a % 6)] ^= (char)m.b;
	if (pl.get("ver")) f[6] = (char)pl.get("ver");
	if (pl.k.count("cut")) f.resize(std::min<size_t>(f.size(), (size_t)pl.get("cut")));
	World w(pl); w.keep_log = pl.get("_log");
	Spec s; s.mode = M_INFO; s.indata = f; s.inkind = (int)pl.get("inkind"); s.method = PM_TTY; s.no_in = kind == 6 && s.inkind == IN_PATH;
	s.typed_set = true;
	// info asks for nothing: the harness offers no passphrase option, but a terminal that would answer
	s.method = PM_ENV; s.force = pl.get("vf") & 1; s.verbose = pl.get("vf") >> 1 & 1;
	if (s.inkind == IN_STDIN_PIPE) { s.feed_piece = (u64)pl.get("feed_piece"); }
	// the passphrase option is accepted and unused
	Job j = start_job(w, s);
	if (pl.get("named")) j.proc->argv.push_back("out");
	Inode *tty = w.node("/dev/tty", I_TTY); tty->name = "tty"; tty->script = {"secret\n", "secret\n"};
	w.run();
	finish_result(w, r);
	r.sample = describe(pl);
	r.nontrivial = true;
	if (!clean_end(w, r, optparse_oom(w, j)) || optparse_oom(w, j)) return;
	Proc *p = j.proc;
	if (p->derivs) { r.fail("derived", "info derived a key"); return; }
	if (tty->nreads) { r.fail("asked", "info read from the terminal"); return; }
	for (auto &x : p->ops) (void)x;
	for (auto i : w.inodes) if (i != j.so && i != j.err && (i->opens_w || i->truncated)) { r.fail("wrote", "info opened " + i->name + " for writing"); return; }
	if (w.fs.count("out") || w.fs.count(j.outpath())) { r.fail("wrote", "info created an output file"); return; }
	if (j.in && j.in->data != f && s.inkind != IN_STDIN_PIPE) { r.fail("wrote", "info changed its input"); return; }
	bool faulted = false; for (auto &x : w.fired) faulted |= x.first.compare(0, 5, "read:") == 0 || x.first.compare(0, 5, "open:") == 0;
	bool ok = f.size() >= 96 && f.compare(0, 6, "scrypt") == 0 && f[6] == 0 && legal && !s.no_in && !faulted;
	if (faulted && p->ok() && f.size() >= 96 && j.in && j.in->bytes_out >= 96) { r.probes["fault-after-header"]++; ok = true; }
	if (!ok) {
		if (p->ok()) { r.fail("accepted", "info succeeded on " + str(faulted ? "an unreadable input" : s.no_in ? "a missing input" : "a malformed header") + ": " + j.errs()); return; }
		const str &e = j.errs();
		if (e.empty()) { r.fail("silent", "refused without a message"); return; }
		const char *want = s.no_in || faulted ? nullptr : f.size() >= 7 && f.compare(0, 6, "scrypt") == 0 && f[6] != 0 ? "version" : "not valid";
		if (want && !contains(e, want)) { r.fail("message", str("expected a message containing '") + want + "', got: " + e); return; }
		if (!want && !contains(e, j.in && s.inkind != IN_PATH ? "standard input" : "in")) { r.fail("message", "the message does not name the input: " + e); return; }
		if (contains(e, "N = ") || contains(j.so->data, "N = ")) { r.fail("message", "parameters were printed for a refused input"); return; }
		r.probes[fmt("refused-kind%d", kind)]++;
		return;
	}
	bool oom = false; for (auto &x : w.fired) oom |= x.first.compare(0, 6, "alloc:") == 0;
	if (!p->ok() && oom) { if (j.errs().empty()) r.fail("silent", "out of memory without a message"); r.probes["out-of-memory"]++; return; }
	if (!p->ok()) { r.fail("refused", "info refused a well-formed header: " + p->status() + " " + j.errs()); return; }
	str all = j.so->data + j.errs();
	unsigned long long N = 0; unsigned rr = 0, pp = 0;
	size_t a = all.find("N = ");
	if (a == str::npos || sscanf(all.c_str() + a, "N = %llu; r = %u; p = %u", &N, &rr, &pp) != 3 || N != 1ull << h.logN || rr != h.r || pp != h.p) { r.fail("wrong", fmt("header has logN=%d r=%u p=%u, printed: ", h.logN, h.r, h.p) + all); return; }
	long double need = 128.0L * (long double)(1ull << h.logN) * h.r; long double cap = 18446744073709551615.0L;
	bool sat = need > cap; u64 needb = sat ? ~0ull : (u64)need; str got;
	if (!ref::shown_size(all, "at least ", needb, needb, got)) { r.fail("wrong", fmt("minimum memory is %llu bytes, printed: ", (unsigned long long)needb) + all); return; }
	r.probes[sat ? "well-formed-saturated" : "well-formed"]++;
}
static Reg r18({"C18", gen18, exec18, "one case = one 'info' run on a header given by the plan (in or out of range, truncated, other magic or version, unreadable, missing); all non-trivial; distinct by event-log hash"});
