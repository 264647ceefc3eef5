// C16 no key material left in memory, C17 all resources given back.
#include "cli.h"
#include "api.h"
#include <cerrno>
#include <algorithm>

// ---------------------------------------------------------------- library operations
enum { L_ENCBUF, L_DECBUF, L_ENCFILE, L_DECFILE, L_DECPREP, L_READPASS, L_PASSFILE, L_PASSENTRY, L_ENTROPY, L_KDF, L_INFO, L_AES, L_N };
static const char *LN[] = {"scryptenc_buf", "scryptdec_buf", "scryptenc_file", "scryptdec_file", "scryptdec_file_prep/copy", "readpass", "readpass_file", "passphrase_entry_readpass", "crypto_entropy_read", "crypto_scrypt", "scryptdec_file_printparams", "AES key and stream"};
struct LOp {
	int kind = 0, logN = 1; u32 r = 1, p = 1; str pass, pt, ct, wantdk; int dev = 0; bool confirm = false, copy = true; str method; str key; double maxtime = 300; size_t maxmem = 0; bool force = false; size_t n = 0; int damage = 0;
	std::vector<str> lines; bool fromstdin = false;
};
static str sched_cache_key, sched_cache;
static str schedule(const str &k) { if (k != sched_cache_key) { sched_cache = ref::aes_schedule(k); sched_cache_key = k; } return sched_cache; }
static str swap32(const str &s) { str o = s; for (size_t i = 0; i + 4 <= o.size(); i += 4) std::reverse(o.begin() + (long)i, o.begin() + (long)i + 4); return o; }
static str xorpad(const str &k, u8 v) { str o = k; o.resize(64, 0); for (auto &c : o) c ^= (char)v; return o; }
static void win(std::vector<str> &v, const str &s, std::vector<size_t> at, size_t n = 16) { if (W && (W->secsrc.empty() || W->secsrc.back() != s)) W->secsrc.push_back(s); for (size_t a : at) if (a + n <= s.size()) v.push_back(s.substr(a, n)); }
static void pads(std::vector<str> &v, const str &key) {   // how HMAC holds a key
	for (u8 x : {0x36, 0x5c}) { str q = xorpad(key, x); win(v, q, {0}); if (key.size() >= 32) win(v, q, {16}); if (key.size() >= 48) win(v, q, {32}); if (key.size() >= 64) win(v, q, {48}); win(v, swap32(q), {0}, 32); }   // (the message schedule holds it byte-swapped)
}
static void add_pass(std::vector<str> &v, const str &p) {
	if (p.size() < 20) return;
	win(v, p, {0, (p.size() - 16) / 2, p.size() - 16});
	if (p.size() > 64) { str h = ref::sha256(p); win(v, h, {0, 16}); pads(v, h); win(v, swap32(p), {0, 32, (p.size() & ~(size_t)63) - 32}, 32); }
	else { pads(v, p); }
}
static void add_dk(std::vector<str> &v, const str &dk) {
	win(v, dk, {0, 16, 32, 48}); win(v, swap32(dk), {0, 32}, 32);
	str s = schedule(dk.substr(0, 32)); win(v, s, {32, 48, 128, 208, 224});
	win(v, swap32(s), {32, 128, 208}, 32);
	pads(v, dk.substr(32));
}
static LOp mk_op(u64 seed, int only, bool secrets) {
	Rng g(seed); LOp o;
	o.kind = only >= 0 ? only % L_N : (int)g.below(L_N);
	size_t pl = secrets ? (g.chance(75) ? 20 + g.below(45) : 65 + g.below(g.chance(20) ? 1980 : 200)) : g.below(80);
	o.pass.resize(pl); for (auto &c : o.pass) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!%&:/-_="[g.below(70)];
	o.pt = prbytes(g.next(), (size_t)pick_size(g, g.chance(80) ? 3000 : 150000));
	o.logN = (int)g.range(1, 4); o.r = (u32)g.range(1, 3); o.p = (u32)g.range(1, 2); o.force = g.chance(50);
	if (g.chance(12)) { o.force = false; o.maxtime = 1e-9; }
	bool dec = o.kind == L_DECBUF || o.kind == L_DECFILE || o.kind == L_DECPREP || o.kind == L_INFO;
	if (dec) {
		ref::Hdr h; h.logN = o.logN; h.r = o.r; h.p = o.p; h.salt = prbytes(g.next(), 32);
		if (o.maxtime < 1) h.logN = 6, h.r = 8;
		if (g.chance(15)) { h.logN = 14; h.r = h.p = 1; o.force = g.chance(20); o.maxmem = g.chance(50) ? 1 << 20 : 0; o.maxtime = g.chance(50) ? 1e-9 : 300; } // 2 MiB, 2^16 operations
		str key = o.pass;
		o.damage = g.chance(45) ? (int)g.range(1, 7) : 0;
		if (o.damage == 1) key += "x";
		o.ct = ref::encrypt(h, key, o.pt);
		switch (o.damage) {
		case 2: o.ct[g.below(96)] ^= (char)(1 << g.below(8)); break;
		case 3: o.ct[96 + g.below(o.ct.size() - 96)] ^= (char)(1 << g.below(8)); break;
		case 4: o.ct.resize(g.below(o.ct.size())); break;
		case 5: o.ct += prbytes(g.next(), 1 + g.below(50)); break;
		case 6: o.ct[6] = 1; break;
		case 7: o.ct[65] ^= 1; break;
		}
	}
	o.dev = (int)g.below(3); o.confirm = g.chance(50); o.copy = g.chance(85); o.n = g.chance(80) ? 1 + g.below(200) : 1 + g.below(70000);
	if (o.kind == L_PASSENTRY) {
		static const std::vector<str> m = {"dev:tty-stdin", "dev:stdin-once", "dev:tty-once", "env:PW", "env:NONE", "file:passf", "file:missing", "bogus"};
		o.method = g.pick(m); o.confirm = g.chance(50) && o.method == "dev:tty-stdin"; o.dev = o.method == "dev:tty-stdin" ? 1 : o.method == "dev:tty-once" ? 2 : 0;
	}
	if (o.kind == L_READPASS || o.kind == L_PASSENTRY) {
		str l = o.pass + "\n";
		if (o.confirm && g.chance(40)) { o.lines.push_back(l); o.lines.push_back("another thing altogether " + l); }
		o.lines.push_back(l); if (o.confirm) o.lines.push_back(l);
	}
	o.key = prbytes(g.next(), g.chance(50) ? 32 : 16);
	if (o.kind == L_KDF) { o.ct = prbytes(g.next(), 32); o.wantdk = ref::scrypt(o.pass, o.ct, 1ull << o.logN, o.r, o.p, 64); }
	return o;
}
struct Snap { std::vector<std::pair<char *, size_t>> heap, maps; std::vector<int> fds; size_t files; };
static Snap snap(Proc *p) {
	Snap s; for (auto &h : p->heap) s.heap.push_back({h.first, h.second.n}); for (auto &h : p->maps) s.maps.push_back({h.first, h.second});
	for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i]) s.fds.push_back((int)i);
	s.files = 0; for (auto f : p->files) s.files += f->f != nullptr && !f->dead;
	return s;
}
static str diff(const Snap &a, const Snap &b) {
	for (auto &h : b.heap) if (!std::count(a.heap.begin(), a.heap.end(), h)) return fmt("leaves %zu bytes of memory allocated", h.second);
	for (auto &h : a.heap) if (!std::count(b.heap.begin(), b.heap.end(), h)) return fmt("released %zu bytes of memory that it did not allocate", h.second);
	if (a.maps != b.maps) return b.maps.size() > a.maps.size() ? fmt("leaves a mapping of %zu bytes behind", b.maps.back().second) : str("removed a mapping that is not its own");
	for (int f : b.fds) if (!std::count(a.fds.begin(), a.fds.end(), f)) return fmt("leaves descriptor %d open", f);
	for (int f : a.fds) if (!std::count(b.fds.begin(), b.fds.end(), f)) return fmt("closed descriptor %d, which belongs to the caller", f);
	if (a.files != b.files) return b.files > a.files ? "leaves a stream open" : "closed a stream of the caller";
	return "";
}
struct LRes { bool ran = false; int rc = 0, nf0 = 0, nf1 = 0; str out, text; };   // what one call delivered
struct LRun { i64 stale = 0; std::vector<LOp> ops; bool shared = false; std::vector<LRes> res; bool keep = false; int solo = -1; Proc *p = nullptr; str bad, cls; std::vector<int> rc; int done = 0; bool sec = false; bool desync = false; };
static void lbuild(const Plan &pl, World &w, LRun &R, bool sec) {
	R.sec = sec; R.stale = pl.get("stale");
	int n = (int)std::max<i64>(1, std::min<i64>(8, pl.get("nops", 1)));
	for (int i = 0; i < n; i++) R.ops.push_back(mk_op(mix64((u64)pl.get("oseed", 1), 31, (u64)(pl.get("same") ? 0 : i)), pl.get("pair") > 0 ? (int)(i & 1 ? (pl.get("pair") - 1) % L_N : (pl.get("pair") - 1) / L_N) : (int)pl.get("only", -1), sec));
	// the same call again with one thing changed: another passphrase, another way to decrypt the same file, a damaged copy
	if (pl.get("vary")) for (size_t i = 1; i < R.ops.size(); i++) {
		LOp &o = R.ops[i]; u64 h = mix64((u64)pl.get("oseed", 1), 57, (u64)pl.get("vary") * 8 + i);
		bool dec = o.kind == L_DECBUF || o.kind == L_DECFILE || o.kind == L_DECPREP || o.kind == L_INFO;
		if (dec || o.kind == L_ENCBUF || o.kind == L_ENCFILE || o.kind == L_KDF) {
			if (h & 1) { if ((h >> 20 & 1) && !o.pass.empty()) o.pass[(h >> 24) % o.pass.size()] ^= 1; else if (h & 2) o.pass += "x"; else if (!o.pass.empty()) o.pass.pop_back(); if (o.kind == L_KDF) o.wantdk = ref::scrypt(o.pass, o.ct, 1ull << o.logN, o.r, o.p, 64); }
			if (dec && (h & 12) == 12) o.kind = std::vector<int>{L_DECBUF, L_DECFILE, L_DECPREP, L_INFO}[(h >> 4) & 3];
			if (dec && (h & 0xc0) == 0xc0 && o.ct.size() > 128) o.ct[96 + (h >> 8) % (o.ct.size() - 96)] ^= 4;
		}
		if (o.kind == L_AES && (h & 1)) o.key[h % o.key.size()] ^= 1;
	}
	str sin; std::vector<str> tl;
	bool tty = !pl.get("notty");
	for (size_t i = 0; i < R.ops.size(); i++) {
		LOp &o = R.ops[i];
		bool rp = o.kind == L_READPASS || (o.kind == L_PASSENTRY && o.method.compare(0, 4, "dev:") == 0);
		if (o.kind == L_PASSENTRY) w.file("passf", o.pass + "\n")->name = "pass";
		if (R.solo >= 0 && (int)i != R.solo) continue;
		if (rp && (o.dev == 0 || (o.dev == 1 && !tty))) { o.fromstdin = true; for (auto &l : o.lines) sin += l; sin += fmt("marker %zu\n", i); }
		else if (rp && tty) for (auto &l : o.lines) tl.push_back(l);
		if (o.kind == L_ENCFILE) w.file(fmt("i%zu", i), o.pt)->name = "in";
		if (o.kind == L_DECFILE || o.kind == L_DECPREP || o.kind == L_INFO) w.file(fmt("i%zu", i), o.ct)->name = "in";
		if (o.kind == L_PASSFILE) { str c = o.pass; switch (mix64((u64)pl.get("oseed", 1), i) % 6) { case 0: c += "\r\n"; break; case 1: c += "\nmore\n"; break; case 2: break; default: c += "\n"; } w.file(fmt("p%zu", i), c)->name = "pass"; }
	}
	if (pl.k.count("ram")) w.ram_avail = (u64)pl.get("ram");
	LRun *r = &R; World *wp = &w;
	R.res.resize(R.ops.size());
	R.p = w.spawn_fn("lib", [r, wp]() {
		api_setprogname();
		Proc *p = wp->cur->p;
		for (size_t i = 0; i < r->ops.size() && r->bad.empty(); i++) {
			LOp &o = r->ops[i]; int rc = 0;
			if (r->solo >= 0 && (int)i != r->solo) continue;
			LRes &q = r->res[i]; q.nf0 = wp->nfired; size_t e0 = r->keep ? wp->err(p).size() : 0;
			Snap s0 = snap(p), s1 = s0; const u8 *pw = (const u8 *)o.pass.data(), *ctp = (const u8 *)o.ct.data(), *keyp = (const u8 *)o.key.data();
			if (r->shared) { static u8 bpw[4096], bkey[32]; static str bct; memcpy(bpw, o.pass.data(), o.pass.size()); pw = bpw; bct.reserve(1 << 18); bct = o.ct; ctp = (const u8 *)bct.data(); memcpy(bkey, o.key.data(), o.key.size()); keyp = bkey; }   // the caller uses its buffers again
			str pass0 = o.pass, ct0 = o.ct, pt0 = o.pt; str obuf;
			FILE *fi = nullptr, *fo = nullptr; char *rp = nullptr; str sub;
			auto opened = [&]() { s1 = snap(p); };
			auto check = [&](const char *what) { if (!r->bad.empty()) return; if (r->sec) { scan_now(what); return; } str d = diff(s1, snap(p)); if (!d.empty()) { r->bad = fmt("%s (call %zu, returned %d) ", what, i, rc) + d; r->cls = "leaked"; } };
			if (o.kind == L_ENCFILE || o.kind == L_DECFILE || o.kind == L_DECPREP || o.kind == L_INFO) {
				fi = sim_fopen(fmt("i%zu", i).c_str(), "rb");
				if (o.kind != L_INFO) fo = sim_fopen("out", "wb");
				if (!fi || (o.kind != L_INFO && !fo)) { if (fi) sim_fclose(fi); if (fo) sim_fclose(fo); r->rc.push_back(-77); r->done++; q.nf1 = wp->nfired; continue; }
			}
			opened();
			if (r->stale) errno = stale_errno(r->stale, i);   // as an unrelated earlier call may have left it
			switch (o.kind) {
			case L_ENCBUF: obuf.resize(o.pt.size() + 128); rc = api_enc_buf((const u8 *)o.pt.data(), o.pt.size(), (u8 *)&obuf[0], pw, o.pass.size(), o.maxmem, 0.5, o.maxtime, o.logN, o.r, o.p, 0, o.force); break;
			case L_DECBUF: { obuf.resize(o.ct.size() + 1); size_t ol = 0; rc = api_dec_buf(ctp, o.ct.size(), (u8 *)&obuf[0], &ol, pw, o.pass.size(), o.maxmem, 0.5, o.maxtime, 0, o.force); if (rc == 0 && ol <= o.ct.size()) obuf.resize(ol); break; }
			case L_ENCFILE: rc = api_enc_file(fi, fo, pw, o.pass.size(), o.maxmem, 0.5, o.maxtime, o.logN, o.r, o.p, 0, o.force); break;
			case L_DECFILE: rc = api_dec_file(fi, fo, pw, o.pass.size(), o.maxmem, 0.5, o.maxtime, 0, o.force); break;
			case L_DECPREP: {
				void *C = nullptr; rc = api_dec_prep(fi, pw, o.pass.size(), o.maxmem, o.maxtime, o.force, &C);
				if (rc == 0) { if (o.copy) rc = api_dec_copy(C, fo); api_dec_free(C); }
				break; }
			case L_READPASS: rc = api_readpass(&rp, "Prompt", o.confirm ? "Again" : nullptr, o.dev); break;
			case L_PASSFILE: rc = api_readpass_file(&rp, fmt("p%zu", i).c_str()); break;
			case L_PASSENTRY: rc = api_pass_entry(&rp, o.method.c_str(), !o.confirm); break;
			case L_ENTROPY: obuf.resize(o.n); rc = api_entropy_read((u8 *)&obuf[0], o.n); break;
			case L_KDF: obuf.resize(64); rc = crypto_scrypt(pw, o.pass.size(), ctp, 32, 1ull << o.logN, o.r, o.p, (u8 *)&obuf[0], 64); break;
			case L_INFO: rc = api_printparams(fi); break;
			case L_AES: {
				void *k = api_key(keyp, o.key.size()); rc = -1;
				if (k) {
					void *c = o.copy ? api_ctr(k, o.n) : api_ctr2(k, o.n);
					obuf.resize(o.pt.size() + 16);
					if (c) { size_t h = o.pt.size() / 3; api_ctr_stream(c, (const u8 *)o.pt.data(), (u8 *)&obuf[0], h); api_ctr_stream(c, (const u8 *)o.pt.data() + h, (u8 *)&obuf[h], o.pt.size() - h); api_ctr_free(c); rc = 0; if (r->keep) q.out = obuf.substr(0, o.pt.size()); }
					api_ctr_buf(k, 7, (const u8 *)o.pt.data(), (u8 *)&obuf[0], o.pt.size());
					if (r->keep) q.out += obuf.substr(0, o.pt.size());
					api_block((const u8 *)"0123456789abcdef", (u8 *)&obuf[0], k);
					if (r->keep) q.out += obuf.substr(0, 16);
					api_key_free(k);
				}
				break; }
			}
			r->rc.push_back(rc);
			if (r->keep) { q.ran = true; q.rc = rc; if (o.kind != L_AES) q.out = obuf; if (rp) q.out = rp; if (o.kind == L_INFO) q.text = wp->err(p).substr(e0); }
			if (rp) {
				if (rc != 0) { r->bad = fmt("%s (call %zu) failed but returned a buffer", LN[o.kind], i); r->cls = "leaked"; }
				else { auto it = p->heap.find(rp); if (it == p->heap.end()) { r->bad = "the passphrase returned is not an allocated buffer"; r->cls = "returned"; } else { memset(rp, 0, it->second.n); sim_free(rp); } }
			}
			check(LN[o.kind]);
			if (!r->sec && r->bad.empty()) {
				if (o.pass != pass0 || o.ct != ct0 || o.pt != pt0) { r->bad = fmt("%s changed the caller's data", LN[o.kind]); r->cls = "caller-data"; }
				if ((o.fromstdin && rc != 0) || wp->fired_any("open:tty") || wp->fired_any("read:stdin")) r->desync = true;
				if (o.fromstdin && rc == 0 && !r->desync) { // what follows the passphrase is still there for the caller
					char b[64]; char *q = fgets(b, sizeof b, sim_stdin); str want = fmt("marker %zu\n", i);
					if (!wp->fired_any("read:stdin")) { if (!q || want != b) { r->bad = fmt("%s (call %zu) consumed or lost input of the caller: the next line is \"%s\" instead of \"%s\"", LN[o.kind], i, q ? b : "(none)", want.c_str()); r->cls = "caller-input"; } }
				}
			}
			if (fi) sim_fclose(fi);
			if (fo) sim_fclose(fo);
			if (r->keep && fo && wp->fs.count("out")) q.out = wp->fs["out"]->data;
			q.nf1 = wp->nfired;
			s1 = s0; check(LN[o.kind]);
			r->done++;
		}
		return 0;
	});
	Proc *p = R.p;
	p->env["PW"] = R.ops[0].pass;
	Inode *si = w.anon("stdin", I_REG); si->data = sin; w.set_fd(p, 0, si, false);
	if (tty) { Inode *t = w.node("/dev/tty", I_TTY); t->name = "tty"; t->script = tl; }
	if (sec) {
		for (auto &o : R.ops) { add_pass(p->secrets, o.pass); if (o.kind == L_AES) { win(p->secrets, o.key, {0, 16}); if (o.key.size() == 32) win(p->secrets, schedule(o.key), {32, 128, 208, 224}); } if (o.kind == L_KDF) add_dk(p->secrets, o.wantdk); }
		w.on_dk = [](Proc *q, const str &, const str &dk) { add_dk(q->secrets, dk); };
	}
}
static void gen_lib(Rng &g, Plan &pl, bool sec) {
	if (g.chance(40)) pl.set("stale", g.range(1, 1 << 20));
	pl.set("oseed", g.range(1, 1 << 30), 1); pl.set("nops", g.chance(50) ? 1 : g.range(2, 6), 1); pl.set("same", g.chance(25));
	pl.set("urseed", g.range(1, 1 << 20), 1);
	if (g.chance(30)) pl.set("notty", 1);
	if (g.chance(60)) pl.set("only", (i64)g.below(L_N), -1);
	gen_cpu(g, pl);
	pl.set("stdio_buf", g.pick(std::vector<i64>{0, 0, 128, 4096, 65536}));
	if (g.chance(10)) { pl.set("broken", g.range(1, 31)); pl.set("broken_pos", g.range(0, 2047)); }
	if (g.chance(25)) return;
	std::vector<World::Site> s = record_sites(pl, [sec](const Plan &q, World &w) { static LRun R; R = LRun(); lbuild(q, w, R, sec); });
	std::vector<World::Site> u; for (auto &x : s) if (x.kind != "munmap" && x.kind != "kdf" && x.kind != "sigaction" && x.kind != "raise") u.push_back(x);
	if (u.empty()) return;
	std::map<str, std::vector<World::Site>> by; for (auto &x : u) by[x.kind + x.tgt].push_back(x);
	std::vector<str> ks; for (auto &x : by) ks.push_back(x.first);
	int n = (int)g.range(1, g.chance(70) ? 1 : 3);
	for (int i = 0; i < n; i++) { auto &v = g.chance(60) ? by[g.pick(ks)] : u; add_fault_at(g, pl, v[g.below(v.size())]); }
	if (g.chance(5)) pl.set("ram", g.range(500, 20000));
}
static bool lend(World &w, LRun &R, Result &r) {
	if (!w.stuck.empty()) { r.fail("hang", w.stuck); return false; }
	if (R.p->ek != E_EXIT) {
		if (R.p->ek == E_ABORT && contains(w.err(R.p), "incorrect AES")) { r.probes["aes-selftest-abort"]++; return false; }
		if (R.p->ek == E_ABORT && w.fired_any("aes_setkey")) return false;
		r.fail("process-ended", "the library call ended the process: " + R.p->status() + "; stderr: " + w.err(R.p)); return false;
	}
	return true;
}
// ---------------------------------------------------------------- C17
static void gen17(Rng &g, Plan &pl) { gen_lib(g, pl, false); }
static void exec17(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	World w(pl); w.keep_log = pl.get("_log");
	LRun R; lbuild(pl, w, R, false);
	w.run(); finish_result(w, r); r.nontrivial = true;
	if (!lend(w, R, r)) return;
	if (!R.bad.empty()) { r.fail(R.cls, R.bad); return; }
	for (size_t i = 0; i < R.rc.size(); i++) r.probes[str(LN[R.ops[i].kind]) + (R.rc[i] == 0 ? " ok" : " failed")]++;
}
static Reg r17({"C17", gen17, exec17, "one case = a history of 1 to 6 library calls in one process (buffer and stream encryption and decryption, passphrase reading by every method, entropy, key derivation, cipher, printing parameters) with failures injected at recorded operations; after each call the heap, mappings, descriptors and streams are compared with those before it; all non-trivial; distinct by event-log hash"});

// ---------------------------------------------------------------- C16
static void build16(const Plan &pl, World &w, Job &j) {
	Cmd c = plan_cmd(pl);
	int cause = (int)pl.get("cause");
	if (c.s.mode == M_DEC) {
		u64 k = (u64)pl.get("dpos", 1);
		switch (cause) {
		case 1: c.s.indata = ref::encrypt(c.h, c.s.pass + "x", c.pt); break;
		case 2: if (!c.s.indata.empty()) c.s.indata[k % c.s.indata.size()] ^= 1; break;
		case 3: c.s.indata.resize(k % (c.s.indata.size() + 1)); break;
		case 4: c.s.force = false; c.s.extra = {"-t", "0.0000001"}; break;
		case 5: c.s.indata[96 + k % (c.s.indata.size() - 96)] ^= 4; break;
		case 6: c.s.indata += "tail"; break;
		}
	} else if (cause == 4) c.s.extra = {"-M", "1"};
	if (cause == 7) { c.s.out_cap = (u64)pl.get("cap"); }
	if (cause == 8 && (c.s.method == PM_TTY || c.s.method == PM_TTYSTDIN_NOTTY)) { c.s.typed_set = true; str l = c.s.pass + "\n"; c.s.typed = {l, "x" + l, "y" + l, l}; if (pl.get("dpos") & 1) { c.s.typed.push_back(l); c.s.typed.push_back(l); } if (c.s.mode == M_DEC) c.s.typed = {}; }
	j = start_cmd(w, c);
	add_pass(j.proc->secrets, c.s.pass);
	w.on_dk = [](Proc *q, const str &, const str &dk) { add_dk(q->secrets, dk); };
}
static void gen16(Rng &g, Plan &pl) {
	if (g.chance(55)) { pl.set("lib", 1); gen_lib(g, pl, true); return; }
	gen_cmd(g, pl, g.chance(70) ? 3000 : 150000, -1);
	pl.set("pass_len", g.chance(75) ? g.range(20, 64) : g.range(65, g.chance(20) ? 2040 : 200), 10); pl.set("pass_kind", 0);
	if (pl.get("mode") == M_ENC) { pl.set("auto", 0); pl.set("r", 1, 1); pl.set("p", 1, 1); }
	gen_cpu(g, pl);
	if (g.chance(50)) { pl.set("cause", g.range(1, 8)); pl.set("dpos", (i64)g.below(1 << 20), 1); pl.set("cap", g.range(0, pl.get("isize") + 128)); }
	if (g.chance(70)) {
		std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { static Job j; build16(q, w, j); }), u;
		for (auto &x : s) if (x.proc == 0 && x.kind != "kdf" && x.kind != "sigaction" && x.kind != "raise") u.push_back(x);
		std::map<str, std::vector<World::Site>> by; for (auto &x : u) by[x.kind + x.tgt].push_back(x);
		std::vector<str> ks; for (auto &x : by) ks.push_back(x.first);
		int n = (int)g.range(1, g.chance(70) ? 1 : 3);
		if (!u.empty()) for (int i = 0; i < n; i++) { auto &v = g.chance(60) ? by[g.pick(ks)] : u; add_fault_at(g, pl, v[g.below(v.size())]); }
	}
}
static const char *what_secret(size_t) { return ""; }
static void leak_result(World &w, Proc *p, Result &r) {
	(void)w; (void)what_secret;
	if (!p->leak.empty()) { r.fail("leak", "key material in " + p->leak); return; }
	if (!p->stackleak.empty()) { r.fail("stack", "key material on " + p->stackleak); return; }
}
static void live_probe(World &w, Result &r) { // the scanner does find the secrets while they are in use
	bool *seen = new bool[2]();
	(void)r;
	w.on_call = [seen](Proc *p, const char *) {
		if (seen[0] && seen[1]) return;
		if (p->dks.empty()) return;
		str s = schedule(p->dks.back().substr(0, 32)).substr(32, 16);
		if (!seen[0]) for (auto &h : p->heap) if (h.second.n >= 16 && memmem(h.first, h.second.n, s.data(), 16)) { seen[0] = true; W->fired["(probe) live key schedule located"]++; break; }
	};
}
static void exec16(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	World w(pl); w.keep_log = pl.get("_log"); w.kstack = true; r.nontrivial = true;
	live_probe(w, r);
	if (pl.get("lib")) {
		LRun R; lbuild(pl, w, R, true);
		w.run(); finish_result(w, r);
		if (!lend(w, R, r)) return;
		for (size_t i = 0; i < R.rc.size(); i++) r.probes[str(LN[R.ops[i].kind]) + (R.rc[i] == 0 ? " ok" : " failed")]++;
		leak_result(w, R.p, r);
		return;
	}
	Job j; build16(pl, w, j);
	w.run(); settle(w, j); finish_result(w, r);
	if (!clean_end(w, r, optparse_oom(w, j))) return;
	if (j.proc->ek != E_EXIT) return;
	r.probes[j.proc->ok() ? "command ok" : "command failed"]++;
	leak_result(w, j.proc, r);
}
static Reg r16({"C16", gen16, exec16, "one case = a command, or a history of library calls, with failures injected at recorded operations, wrong passphrases, damaged input and full disks; every block is scanned for the passphrase, the derived keys, the expanded cipher key and the HMAC key pads at the moment of release, and stack, static data and live heap when the operation ends; all non-trivial; distinct by event-log hash"});

// ---------------------------------------------------------------- C26
static void gen26(Rng &g, Plan &pl) {
	if (g.chance(40)) pl.set("stale", g.range(1, 1 << 20));
	pl.set("oseed", g.range(1, 1 << 30), 1); pl.set("nops", g.range(2, 8), 1); pl.set("same", g.chance(25));
	pl.set("urseed", g.range(1, 1 << 20), 1);
	if (g.chance(30)) pl.set("notty", 1);
	if (g.chance(35)) pl.set("only", (i64)g.below(L_N), -1);
	if (g.chance(30)) pl.set("pair", 1 + (i64)g.below(L_N * L_N));   // two kinds of call in alternation
	pl.set("shared", g.chance(60));
	if (g.chance(35)) { pl.set("same", 1); pl.set("vary", g.range(1, 1000)); }
	gen_cpu(g, pl);
	pl.set("stdio_buf", g.pick(std::vector<i64>{0, 0, 128, 4096, 65536}));
	if (g.chance(15)) return;
	std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { static LRun R; R = LRun(); lbuild(q, w, R, false); });
	std::vector<World::Site> u; for (auto &x : s) if (x.kind != "munmap" && x.kind != "kdf" && x.kind != "sigaction" && x.kind != "raise" && x.kind != "aes_setkey") u.push_back(x);
	if (u.empty()) return;
	std::map<str, std::vector<World::Site>> by; for (auto &x : u) by[x.kind + x.tgt].push_back(x);
	std::vector<str> ks; for (auto &x : by) ks.push_back(x.first);
	int n = (int)g.range(1, g.chance(60) ? 2 : 5);
	for (int i = 0; i < n; i++) {
		auto &v = g.chance(60) ? by[g.pick(ks)] : u; size_t m = g.chance(60) ? 1 + v.size() / 3 : v.size();
		if (add_fault_at(g, pl, v[g.below(std::min(m, v.size()))])) { Fault &f = pl.faults.back(); if (f.count < 0 && g.chance(85)) f.count = g.range(1, 4); }
	}
}
// the result is what the arguments ask for
static str wrong26(const LOp &o, const LRes &q) {
	str x; ref::Hdr h;
	switch (o.kind) {
	case L_ENCBUF: case L_ENCFILE:
		if (q.out.size() != o.pt.size() + 128 || !ref::decrypt(o.pass, q.out, x, &h) || x != o.pt) return "the result is not the encryption of the data";
		if (h.logN != o.logN || h.r != o.r || h.p != o.p) return "the result has other parameters than requested";
		return "";
	case L_DECBUF: case L_DECFILE: case L_DECPREP:
		if (o.kind == L_DECPREP && !o.copy) return "";
		if (!ref::decrypt(o.pass, o.ct, x)) return "a damaged file or wrong passphrase was accepted";
		return q.out == x ? "" : "the result is not the plaintext";
	case L_KDF: return q.out == o.wantdk ? "" : "the derived key is wrong";
	case L_AES: {
		str blk = "0123456789abcdef";
		return q.out == ref::aesctr_n(o.key, o.n, o.pt) + ref::aesctr_n(o.key, 7, o.pt) + ref::aesblock(o.key, blk) ? "" : "the cipher's output is wrong";
	}
	case L_READPASS: return q.out == o.pass ? "" : "another passphrase was returned";
	}
	return "";
}
static void exec26(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	World w(pl); w.keep_log = pl.get("_log");
	LRun R; R.keep = true; R.shared = pl.get("shared"); lbuild(pl, w, R, false);
	w.run(); finish_result(w, r); r.nontrivial = w.nfired > 0;
	if (!lend(w, R, r)) return;
	if (!R.bad.empty()) { if (R.cls != "leaked") r.fail(R.cls, R.bad); return; }
	bool lost = false, failed = false; std::vector<str> rnd;
	for (size_t i = 0; i < R.ops.size(); i++) {
		LOp &o = R.ops[i]; LRes &q = R.res[i]; bool fault = q.nf1 != q.nf0;
		bool dev = o.kind == L_READPASS || (o.kind == L_PASSENTRY && o.method.compare(0, 4, "dev:") == 0);
		bool outlost = false; if (fault) for (auto &x : w.fired) outlost |= x.first.compare(0, 10, "write:out:") == 0 || x.first.compare(0, 10, "close:out:") == 0 || x.first.compare(0, 9, "write:out") == 0;
		str what = fmt("call %zu of %zu, %s, returned %d", i, R.ops.size(), LN[o.kind], q.rc);
		if (q.ran && q.rc == 0 && !outlost && !(dev && (lost || fault))) {
			{ str e = o.kind == L_PASSENTRY && q.out != (o.method == "env:PW" ? R.ops[0].pass : dev ? o.pass : q.out) ? "another passphrase was returned" : wrong26(o, q); if (!e.empty()) { r.fail("wrong-result", what + fmt(" (after %s): ", failed ? "failed calls" : "successful calls") + e); return; } }
			if (o.kind == L_ENTROPY && q.out.size() >= 16) { for (auto &b : rnd) if (b.find(q.out.substr(0, 16)) != str::npos) { r.fail("wrong-result", what + ": random bytes delivered before"); return; } rnd.push_back(q.out); }
		}
		if (q.ran && !fault && !(dev && lost) && (failed || i)) {
			Plan p2 = pl; p2.faults.clear(); p2.k.erase("stale");
			World w2(p2); LRun S; S.keep = true; S.solo = (int)i; lbuild(p2, w2, S, false);
			w2.run();
			if (!w2.stuck.empty() || S.p->ek != E_EXIT || !S.res[i].ran) { r.fail("alone", what + ": alone in a process it " + (w2.stuck.empty() ? S.p->status() : "hangs")); return; }
			LRes &z = S.res[i];
			if (z.rc != q.rc) { r.fail("history", what + fmt("; as the only call of a process it returns %d", z.rc)); return; }
			bool det = o.kind != L_ENCBUF && o.kind != L_ENCFILE && o.kind != L_ENTROPY;
			if (det && q.rc == 0 && z.out != q.out) { r.fail("history", what + "; as the only call of a process it delivers something else"); return; }
			if (o.kind == L_INFO && z.text != q.text) { r.fail("history", what + "; as the only call of a process it prints " + z.text + " instead of " + q.text); return; }
			r.probes[failed ? "as-fresh-after-failures" : "as-fresh"]++;
		}
		if (q.rc != 0 && fault) failed = true;
		if (dev && (fault || q.rc != 0)) lost = true;
	}
	for (size_t i = 0; i < R.rc.size(); i++) r.probes[str(LN[R.ops[i].kind]) + (R.rc[i] == 0 ? " ok" : " failed")]++;
}
static Reg r26({"C26", gen26, exec26, "one case = a history of 2 to 8 library calls in one process with up to five failures injected; every call that succeeds is compared with the reference, and every call during which nothing went wrong with the same call made alone in a fresh process; non-trivial if a failure was injected; distinct by event-log hash"});
