// C14 key derivation in any call history, C15 CPU features.
#include "cli.h"
#include "api.h"
#include <cerrno>
#include <climits>

static u64 memfaults(World &w) { u64 n = 0; for (auto &x : w.fired) for (auto k : {"alloc:", "mmap:", "munmap:"}) if (x.first.compare(0, strlen(k), k) == 0) n += x.second; return n; }
// ---------------------------------------------------------------- C14
struct Call { str pw, salt; u64 N; u32 r, p; size_t len, give; bool valid, refuse; };
static Call mk_call(u64 seed, bool small) {
	Rng g(seed); Call c; c.refuse = false; c.valid = true;
	static const std::vector<size_t> pls = {0, 1, 8, 63, 64, 65, 100, 128, 200};
	c.pw = prbytes(g.next(), g.chance(50) ? g.pick(pls) : g.below(40)); c.salt = prbytes(g.next(), g.chance(30) ? g.pick(pls) : g.below(40));
	c.N = 2ull << g.below(small ? 6 : 9); c.r = (u32)g.range(1, g.chance(20) ? 16 : 4); c.p = (u32)g.range(1, g.chance(20) ? 8 : 2);
	while (4 * c.N * c.r * c.p > (small ? 3000u : 40000u)) { if (c.N > 2) c.N /= 2; else if (c.p > 1) c.p--; else break; }
	c.len = g.chance(50) ? 64 : g.chance(80) ? 1 + g.below(140) : g.chance(50) ? 0 : 1 + g.below(4000);
	c.give = c.len;
	if (g.chance(20)) {
		c.refuse = true; c.valid = false;
		switch (g.below(9)) {
		case 0: c.N = g.chance(50) ? 0 : 1; break;
		case 1: c.N = (2ull << g.below(62)) + 1 + g.below(2) * (g.next() >> 1 | 1); if ((c.N & (c.N - 1)) == 0) c.N = 3; break;
		case 2: c.r = 0; break;
		case 3: c.p = 0; break;
		case 4: c.r = 1u << 15; c.p = 1u << 15; c.N = 2; break;
		case 5: c.r = 1u << g.range(16, 31); c.p = 1u << g.range(16, 31); break;
		case 6: c.r = (u32)g.range(0x40000000, 0xffffffff); c.p = 1; break;
		case 7: c.give = (size_t)(((1ull << 32) - 1) * 32) + 1 + g.below(1000); c.len = 32; c.N = 2; c.r = c.p = 1; break;
		default: c.p = (u32)g.range(0x40000000, 0xffffffff); c.r = (u32)g.range(1, 4); break;
		}
	} else if (g.chance(8)) { // more memory than there is
		c.valid = false; c.N = 1ull << g.range(34, 63); c.r = (u32)g.range(1, 1 << 10); c.p = 1;
	}
	return c;
}
// one dimension beyond what the others reach
static Call mk_large(u64 seed, int shape) {
	Rng g(seed); Call c; c.refuse = false; c.valid = true;
	c.pw = prbytes(g.next(), g.below(40)); c.salt = prbytes(g.next(), g.below(40)); c.N = 2ull << g.below(4); c.r = (u32)g.range(1, 3); c.p = (u32)g.range(1, 3); c.len = 1 + g.below(100);
	switch (shape) {
	case 0: { int lg = (int)g.range(10, 19); c.N = 1ull << lg; c.p = 1; c.r = lg < 16 ? (u32)g.range(1, 1 + (int)((1 << 19) >> lg)) : (u32)g.range(2, 3); break; }
	case 1: c.r = (u32)(g.chance(50) ? g.range(17, 600) : g.range(600, 70000)); c.N = 2; c.p = 1; break;
	case 2: c.p = (u32)(g.chance(50) ? g.range(9, 600) : g.range(600, 70000)); c.N = 2; c.r = 1; break;
	case 3: c.len = 4000 + g.below(g.chance(50) ? 100000 : 6000000); break;
	case 4: c.pw = prbytes(g.next(), 200 + g.below(g.chance(50) ? 5000 : 1000000)); break;
	case 5: c.salt = prbytes(g.next(), 200 + g.below(g.chance(50) ? 5000 : 4000000)); break;
	case 6: c.len = (size_t)(1 << 24) * 32 + 1 + g.below(200); c.N = 2; c.r = c.p = 1; break;
	case 8: c.N = 2; c.r = 1; c.p = (1u << 25) + (u32)g.range(1, 100); c.len = 64; break; // more than 2^32 bytes of blocks
	default: c.N = 1ull << 22; c.r = 9; c.p = 1; c.len = 64; break; // more than 2^32 bytes of memory
	}
	c.give = c.len;
	return c;
}
extern "C" int crypto_scrypt_ref(const u8 *, size_t, const u8 *, size_t, u64, u32, u32, u8 *, size_t) __attribute__((weak));   // the reference implementation in the tree
static bool tsan_build() { char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1); if (n < 0) return false; b[n] = 0; return strstr(b, "/tsan-") != nullptr; }
static void gen14(Rng &g, Plan &pl) {
	if (g.chance(30)) pl.set("stale", g.range(1, 1 << 20));
	i64 idx = pl.get("idx"); bool plain = !g_asan && !tsan_build(), thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	if (plain && (idx == 3 || (thorough && (idx == 4 || idx == 5)) || g.chance(3))) {
		pl.set("large", idx == 3 ? 7 : idx == 4 && thorough ? 8 : idx == 5 && thorough ? 9 : 1 + (i64)g.below(6)); pl.set("calls", 1, 1); pl.set("cseed", g.range(1, 1 << 30), 1);
		if (idx < 6 || g.chance(30)) pl.set("cpu", idx < 6 ? 31 : (i64)g.below(32), 31);
		return;
	}
	pl.set("threads", g.chance(70) ? g.range(2, 4) : 1, 1);
	pl.set("calls", g.range(1, 4), 1);
	pl.set("cseed", g.range(1, 1 << 30), 1);
	pl.set("same", g.chance(20));
	if (g.chance(8)) pl.set("refimpl", 1);
	gen_cpu(g, pl);
	if (g.chance(15)) { pl.set("broken", g.range(1, 31)); pl.set("broken_pos", g.range(0, 2047)); }
	pl.set("sched_seed", g.range(1, 1 << 20)); pl.set("sched_pct", g.pick(std::vector<i64>{3, 10, 30, 60, 100}));
	int n = (int)g.below(4); // 0: no faults
	for (int i = 0; i < n; i++) { Fault f; f.kind = g.pick(std::vector<str>{"alloc", "alloc", "mmap", "munmap"}); f.target = "-"; f.nth = (i64)g.below(g.chance(40) ? 4 : 14); f.arg = f.kind == "munmap" ? EINVAL : ENOMEM; f.count = g.chance(15) ? g.range(2, 6) : 1; pl.faults.push_back(f); }
	if (g.chance(15)) pl.set("ram", g.range(4000, 200000));
}
static void exec14(const Plan &pl, Result &r) {
	World w(pl); w.keep_log = pl.get("_log");
	if (pl.k.count("ram")) w.ram_avail = (u64)pl.get("ram");
	int nt = (int)pl.get("threads", 1), nc = (int)pl.get("calls", 1);
	if (nt < 1) nt = 1; if (nt > 8) nt = 8; if (nc < 1) nc = 1; if (nc > 16) nc = 16;
	int large = (int)pl.get("large"); if (large) { nt = 1; w.ram_avail = 16ull << 30; w.vm_cap = std::max<u64>(w.vm_cap, 16ull << 30); }
	struct Obs { Call c; int rc = -99; str out; u64 f0 = 0, f1 = 0; };
	std::vector<Obs> obs((size_t)(nt * nc));
	for (int t = 0; t < nt; t++) for (int i = 0; i < nc; i++) obs[(size_t)(t * nc + i)].c = large ? mk_large(mix64((u64)pl.get("cseed", 1), 0, (u64)i), large - 1) : mk_call(mix64((u64)pl.get("cseed", 1), pl.get("same") ? 0 : (u64)t, (u64)i), nt > 1);
	auto body = [&](int t) {
		for (int i = 0; i < nc; i++) {
			Obs &o = obs[(size_t)(t * nc + i)]; Call &c = o.c;
			o.out.assign(c.len + 16, (char)0x5c); o.f0 = memfaults(w);
			if (pl.get("stale")) errno = stale_errno(pl.get("stale"), (u64)(t * nc + i));
			bool ri = pl.get("refimpl") && crypto_scrypt_ref && c.r && c.p && c.N != 1;   // (whose callers keep r, p and N within the domain)
			if (ri) r.probes["reference-implementation"]++;
			o.rc = (ri ? crypto_scrypt_ref : crypto_scrypt)((const u8 *)c.pw.data(), c.pw.size(), (const u8 *)c.salt.data(), c.salt.size(), c.N, c.r, c.p, (u8 *)&o.out[0], c.give);
			o.f1 = memfaults(w);
			w.ev(curp(), "derive", "-", o.rc, t * 100 + i);
			sim_yield();
		}
		return 0;
	};
	Proc *p = w.spawn_fn("kdf", [&]() { api_setprogname(); return body(0); });
	for (int t = 1; t < nt; t++) w.add_thread(p, [&, t]() { return body(t); });
	w.run();
	finish_result(w, r);
	r.sample = describe(pl); r.nontrivial = nt > 1 || nc > 1 || memfaults(w);
	if (!w.stuck.empty()) { r.fail("hang", w.stuck); return; }
	if (p->ek != E_EXIT) { r.fail("process-ended", "a key derivation ended the process: " + p->status() + "; stderr: " + w.err(p)); return; }
	for (size_t k = 0; k < obs.size(); k++) {
		Obs &o = obs[k]; Call &c = o.c;
		str what = fmt("thread %zu call %zu: scrypt(N=%llu r=%u p=%u, %zu-byte passphrase, %zu-byte salt, %zu bytes out)", k / (size_t)nc, k % (size_t)nc, (unsigned long long)c.N, c.r, c.p, c.pw.size(), c.salt.size(), c.give);
		if (o.out.substr(c.len) != str(16, 0x5c)) { r.fail("overrun", what + " wrote beyond the buffer"); return; }
		if (c.refuse) { r.probes["outside-domain"]++; if (o.rc == 0) { r.fail("bad-arguments", what + " was accepted"); return; } continue; }
		if (!c.valid) { r.probes["too-large"]++; if (o.rc == 0) { r.fail("bad-arguments", what + " succeeded"); return; } continue; }
		if (o.rc == 0) {
			r.probes["value"]++;
			if (128ull * c.r * c.p > INT_MAX) { r.probes["beyond-reference"]++; continue; } // OpenSSL does not take it
			if (c.len) { str want = ref::scrypt(c.pw, c.salt, c.N, c.r, c.p, c.len); if (o.out.substr(0, c.len) != want) { r.fail("wrong-value", what + " = " + hex(o.out.substr(0, c.len), 16) + " instead of " + hex(want, 16)); return; } }
		} else if (o.rc == -1) {
			r.probes["failed"]++;
			if (o.f1 == o.f0) { r.fail("spurious", what + " failed although nothing it needs failed"); return; }
		} else { r.fail("return", what + fmt(" returned %d", o.rc)); return; }
	}
	if (nt > 1) r.probes["threads"]++;
	if (large) { r.probes[fmt("large-shape%d", large - 1)]++; r.nontrivial = true; }
}
static Reg r14({"C14", gen14, exec14, "one case = a history of key derivations by 1 to 4 threads of one process (in the tsan build any access to static data may switch threads), with failing allocations and mappings, memory exhaustion, CPU feature sets and arguments inside and outside the domain, or one derivation with a very large argument; non-trivial with several threads, calls or faults; distinct by event-log hash, schedules by the hash of all scheduling choices"});

// ---------------------------------------------------------------- C15
static void gen15(Rng &g, Plan &pl) {
	if (!g_asan && pl.get("idx") < 2) { // very long streams with the portable implementations
		i64 m = pl.get("idx"); long_plan(g, pl, m ? M_DEC : M_ENC, m ? 540000000 + g.range(0, 9000000) : (1ll << 32) + g.range(1, 5000000)); pl.set("cpu", m ? (i64)g.below(31) : 30, 31); return;
	}
	pl.set("cpu", (i64)g.below(32), 0x1f); pl.set("cpu2", (i64)g.below(32), 0x1f);
	if (g.chance(45)) {
		pl.set(g.chance(50) ? "broken" : "broken2", g.chance(60) ? 1ll << g.below(5) : g.range(1, 31));
		pl.set("broken_pos", g.range(0, 4095));
		if (g.chance(30)) pl.set("broken_len", g.chance(50) ? 16 : 32);
		if (g.chance(60)) { pl.set("cpu", 31, 0x1f); pl.set("cpu2", 31, 0x1f); }
		if (g.chance(30)) { pl.set("cpu", 27, 0x1f); pl.set("cpu2", 27, 0x1f); }   // no SHA-NI: the SSE2 hash is used
	}
	if (g.chance(30)) pl.set("cpu_noise", g.chance(30) ? 1 : g.range(2, 1 << 20));
	if (g.chance(40)) pl.set("cpu_max", (i64)g.below(8), 0x16);
	pl.set("op", (i64)g.below(4));
	pl.set("pass_seed", g.range(1, 1 << 20), 1); pl.set("salt_seed", g.range(1, 1 << 20), 1); pl.set("pass_len", g.range(0, 80), 10);
	pl.set("data_seed", g.range(1, 1 << 20), 1); pl.set("isize", pick_size(g, g.chance(70) ? 3000 : 200000));
	pl.set("urseed", g.range(1, 1 << 20), 1);
	pl.set("r", g.range(1, 4), 1); pl.set("p", g.range(1, 3), 1);
	gen_chunk(g, pl, pl.get("isize"));
	pl.set("pieces", g.range(1, 12), 1); pl.set("pseed", g.range(1, 1 << 20), 1);
}
static bool warned(const str &e) { return contains(e, "self-test") || contains(e, "broken") || contains(e, "Disabling"); }
static bool broke(World &w) { return w.fired_any("broken:"); }
static void warn_check(World &w, Result &r, const str &errs, const char *side) {
	if (broke(w)) { r.probes["broken-noticed"]++; if (!warned(errs)) r.fail("no-warning", str("a broken accelerated implementation was used or tested without any warning on the ") + side + " side"); }
	else if (warned(errs)) r.fail("false-warning", str("working hardware is reported as broken on the ") + side + " side: " + errs);
}
static std::vector<size_t> cut(Rng &g, size_t n, int pieces) {
	std::vector<size_t> v; static const std::vector<size_t> t = {0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 1000};
	for (int i = 1; i < pieces && n; i++) { size_t k = g.chance(50) ? g.pick(t) : g.below(n + 1); if (k > n) k = n; v.push_back(k); n -= k; }
	v.push_back(n); return v;
}
static void exec15(const Plan &pl, Result &r) {
	if (pl.get("long")) { exec_long(pl, r); return; }
	Plan p2 = pl; p2.k["cpu"] = pl.get("cpu2", 0x1f); p2.k["broken"] = pl.get("broken2");
	str pass = plan_pass(pl), pt = plan_data(pl), salt = plan_salt(pl);
	r.sample = describe(pl); r.nontrivial = true;
	int op = (int)pl.get("op");
	if (op <= 1) { // files: one side encrypts, the other decrypts
		str ct;
		for (int side = 0; side < 2 && !r.bad; side++) {
			const Plan &q = side ? p2 : pl; World w(q); w.keep_log = pl.get("_log");
			Spec s; s.mode = side ? M_DEC : M_ENC; s.pass = pass; s.indata = side ? ct : pt; s.logN = side ? 0 : 10; s.r = (u32)pl.get("r", 1); s.p = (u32)pl.get("p", 1); s.force = op == 1;
			if (side && op == 1) s.inkind = IN_STDIN_FILE, s.outkind = OUT_STDOUT_FILE;
			Job j = start_job(w, s); w.run(); settle(w, j); finish_result(w, r); r.hash = mix64(r.hash, side);
			const char *nm = side ? "decrypting" : "encrypting";
			if (!clean_end(w, r)) return;
			if (!j.proc->ok()) { r.fail("failed", str(nm) + " side ended with " + j.proc->status() + "; stderr: " + j.errs()); return; }
			warn_check(w, r, j.errs(), nm); if (r.bad) return;
			str o = j.output(w);
			if (side == 0) {
				ct = o; str back; ref::Hdr h;
				if (!ref::decrypt(pass, ct, back, &h) || back != pt) { r.fail("wrong-file", "the file produced is not the one the format defines"); return; }
			} else if (o != pt) { r.fail("wrong-plaintext", "another machine decrypts the file to something else"); return; }
		}
		if (pl.get("cpu", 31) != pl.get("cpu2", 31)) r.probes["moved-between-machines"]++;
		return;
	}
	for (int side = 0; side < 2 && !r.bad; side++) {
		const Plan &q = side ? p2 : pl; World w(q); w.keep_log = pl.get("_log");
		Rng g(mix64((u64)pl.get("pseed", 1), 55));
		int np = (int)pl.get("pieces", 1); if (np > 100) np = 100;
		str err;
		Proc *p = w.spawn_fn("prims", [&]() {
			api_setprogname();
			str in = pt.size() > 20000 ? pt.substr(0, 20000) : pt;
			if (op == 2) { // cipher, in any pieces
				for (int round = 0; round < 2 && err.empty(); round++) {
					str key = prbytes(g.next(), g.chance(75) ? 32 : 16); u64 nonce = g.chance(50) ? 0 : g.next();
					void *k = api_key((const u8 *)key.data(), key.size());
					if (!k) { err = "the key could not be expanded"; return 1; }
					str b = prbytes(g.next(), 16), ob(16, 0), want = ref::aesblock(key, b);
					if (g.chance(30)) { api_block((const u8 *)b.data(), (u8 *)&b[0], k); ob = b; } else api_block((const u8 *)b.data(), (u8 *)&ob[0], k);
					if (ob != want) err = fmt("AES-%zu block", key.size() * 8);
					want = ref::aesctr_n(key, nonce, in); str o = in; bool inplace = g.chance(50); if (!inplace) o.assign(in.size(), 0);
					if (g.chance(20)) api_ctr_buf(k, nonce, (const u8 *)(inplace ? o.data() : in.data()), (u8 *)&o[0], in.size());
					else {
						void *s = g.chance(50) ? api_ctr(k, nonce) : api_ctr2(k, nonce); size_t at = 0;
						if (g.chance(30)) { str junk(g.below(100), 'j'); api_ctr_stream(s, (const u8 *)junk.data(), (u8 *)&junk[0], junk.size()); api_ctr_reset(s, g.chance(50) ? k : nullptr, nonce); }
						for (size_t n : cut(g, in.size(), np)) { api_ctr_stream(s, (const u8 *)(inplace ? o.data() : in.data()) + at, (u8 *)&o[at], n); at += n; }
						api_ctr_free(s);
					}
					if (o != want && err.empty()) { size_t i = 0; while (o[i] == want[i]) i++; err = fmt("AES-%zu CTR of %zu bytes, first difference at %zu", key.size() * 8, in.size(), i); }
					api_key_free(k);
				}
			} else { // hashes and key derivation
				u8 o[32]; std::vector<size_t> c = cut(g, in.size(), np);
				api_sha((const u8 *)in.data(), c.data(), c.size(), o);
				if (str((char *)o, 32) != ref::sha256(in)) err = fmt("SHA-256 of %zu bytes", in.size());
				str k = prbytes(g.next(), g.chance(50) ? 32 : g.below(150)); c = cut(g, in.size(), np);
				api_hmac((const u8 *)k.data(), k.size(), (const u8 *)in.data(), c.data(), c.size(), o);
				if (str((char *)o, 32) != ref::hmac(k, in)) err = fmt("HMAC-SHA-256 with a %zu-byte key of %zu bytes", k.size(), in.size());
				u64 it = g.chance(60) ? 1 : g.range(1, 20); size_t n = g.below(200); str d(n, 0), sl = prbytes(g.next(), g.below(150));
				api_pbkdf2((const u8 *)pass.data(), pass.size(), (const u8 *)sl.data(), sl.size(), it, (u8 *)&d[0], n);
				if (d != ref::pbkdf2(pass, sl, it, n)) err = fmt("PBKDF2 with %llu iterations", (unsigned long long)it);
				u64 N = 2ull << g.below(7); u32 rr = (u32)pl.get("r", 1), pp = (u32)pl.get("p", 1); str dk(64, 0);
				if (crypto_scrypt((const u8 *)pass.data(), pass.size(), (const u8 *)salt.data(), 32, N, rr, pp, (u8 *)&dk[0], 64)) err = "scrypt failed";
				else if (dk != ref::scrypt(pass, salt, N, rr, pp, 64)) err = fmt("scrypt(N=%llu r=%u p=%u)", (unsigned long long)N, rr, pp);
			}
			return 0;
		});
		w.run(); finish_result(w, r); r.hash = mix64(r.hash, side);
		if (!clean_end(w, r)) return;
		if (!err.empty()) { r.fail("wrong-value", "wrong result with CPU features " + fmt("%lld", (long long)q.get("cpu", 31)) + ": " + err); return; }
		warn_check(w, r, w.err(p), side ? "second" : "first");
	}
	r.probes["primitives"]++;
}
static Reg r15({"C15", gen15, exec15, "one case = a file encrypted on a machine with one CPU feature set and decrypted on another, or the primitives driven in seeded pieces on both, with any subset of the accelerated routines computing wrongly; compared with OpenSSL; every case non-trivial; distinct by event-log hash"});
