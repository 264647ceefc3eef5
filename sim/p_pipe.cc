// C19: pipelines of any length, memory and progress.
#include "cli.h"
#include <cerrno>
#include <algorithm>
#include <cstdlib>

static const std::vector<std::vector<int>> CHAIN = {{M_ENC}, {M_DEC}, {M_ENC, M_DEC}, {M_ENC, M_ENC, M_DEC, M_DEC}, {M_DEC, M_ENC}, {M_ENC, M_DEC, M_ENC}, {M_DEC, M_DEC}, {M_ENC, M_ENC}};
static const size_t H0 = 512 << 10;          // a stage may hold back this much besides its stdio buffers

struct Pipe { std::vector<Job> st; std::vector<int> mode; std::vector<str> pass; str first; };
static str stage_pass(const Plan &pl, size_t i) { return plan_pass(pl) + fmt("%zu", i); }

static void build19(const Plan &pl, World &w, Pipe &q) {
	int c = (int)pl.get("chain"); if (c < 0 || c >= (int)CHAIN.size()) c = 0;
	q.mode = CHAIN[(size_t)c];
	str pt = plan_data(pl);
	size_t n = q.mode.size();
	for (size_t i = 0; i < n; i++) q.pass.push_back(stage_pass(pl, i));
	if (c == 2 || c == 5) q.pass[1] = q.pass[0];
	if (c == 3) { q.pass[2] = q.pass[1]; q.pass[3] = q.pass[0]; }
	q.first = pt;
	ref::Hdr h = plan_hdr(pl);
	if (c == 7 || c == 6) { h.logN = 10; h.r = h.p = 1; }
	if (q.mode[0] == M_DEC) {
		if (c == 6) { ref::Hdr h2 = h; h2.logN = 3; q.first = ref::encrypt(h2, q.pass[1], q.first); }
		q.first = ref::encrypt(h, q.pass[0], q.first);
	}
	if (pl.k.count("trunc") && q.mode[0] == M_DEC) { i64 t = pl.get("trunc"); if (t >= 0 && t < (i64)q.first.size()) q.first.resize((size_t)t); }
	if (pl.k.count("flip") && q.mode[0] == M_DEC && !q.first.empty()) q.first[(size_t)(std::max<i64>(0, pl.get("flip")) % (i64)q.first.size())] ^= 4;
	if (pl.k.count("badpass")) { size_t i = (size_t)std::max<i64>(0, pl.get("badpass")) % n; if (q.mode[i] == M_DEC) q.pass[i] += "x"; }
	Inode *prev = nullptr;
	for (size_t i = 0; i < n; i++) {
		Spec s; s.mode = q.mode[i]; s.pass = q.pass[i]; s.tag = fmt("s%zu-", i); s.force = pl.get("force");
		if (s.mode == M_ENC) { s.logN = 10; s.r = 1; s.p = 1; }
		s.pipe_cap = (u64)std::max<i64>(1, pl.get("pipe_cap", 65536)); s.feed_piece = (u64)std::max<i64>(0, pl.get("feed_piece"));
		if (i == 0) {
			s.indata = q.first; s.inkind = (int)pl.get("inkind", IN_STDIN_PIPE);
			if (s.inkind < 0 || s.inkind >= IN_N) s.inkind = IN_STDIN_PIPE;
			if (pl.k.count("feed_die")) s.feed_die = (u64)std::max<i64>(0, pl.get("feed_die"));
		} else { s.inkind = IN_STDIN_PIPE; s.inpipe = prev; }
		if (i + 1 == n) {
			s.outkind = (int)pl.get("outkind", OUT_STDOUT_PIPE);
			if (s.outkind < 0 || s.outkind >= OUT_N) s.outkind = OUT_STDOUT_PIPE;
			if (pl.k.count("drain_die")) s.drain_die = (u64)std::max<i64>(0, pl.get("drain_die"));
			if (pl.k.count("cap")) { s.out_cap = (u64)pl.get("cap"); }
		} else {
			s.outkind = OUT_STDOUT_PIPE;
			Inode *p = w.anon(fmt("p%zu", i + 1), I_PIPE); p->pcap = (u64)std::max<i64>(1, pl.get(fmt("cap%zu", i), 65536)); p->record = true;
			s.outpipe = p; prev = p;
		}
		Job j = start_job(w, s);
		if (j.in) j.in->record = true;
		if (pl.get("sigpipe_ign") >> i & 1) j.proc->sa[SIGPIPE].sa_handler = SIG_IGN;
		q.st.push_back(j);
	}
}
// ---------------------------------------------------------------- very long streams
static str g_pat;
static const size_t PAT = 1000003;
static void pat(u64 pos, char *b, size_t n) {
	if (g_pat.empty()) { g_pat = prbytes(4711, PAT); g_pat += g_pat.substr(0, 1 << 17); }
	size_t o = (size_t)(pos % PAT);
	while (n) { size_t m = std::min(n, g_pat.size() - o); memcpy(b, g_pat.data() + o, m); b += m; n -= m; o = (o + m) % PAT; }
}
void long_plan(Rng &g, Plan &pl, int mode, i64 len) {
	pl.set("urseed", g.range(1, 1 << 20), 1); pl.set("salt_seed", g.range(1, 1 << 20), 1); gen_pass(g, pl);
	pl.set("long", 1); pl.set("long_run", 1); pl.set("stdio_buf", g.pick(std::vector<i64>{0, 65536, 1 << 20})); pl.set("mode", mode, 0); pl.set("len", len);
}
void exec_long(const Plan &pl, Result &r) {
	int mode = (int)pl.get("mode");
	u64 len = (u64)std::max<i64>(0, pl.get("len")); str pass = plan_pass(pl);
	i64 flip = pl.get("flip", -1), trunc = pl.get("ltrunc");
	World w(pl); w.keep_log = pl.get("_log"); w.max_steps = 1000000000;
	Spec s; s.mode = mode; s.pass = pass; s.inkind = IN_STDIN_FILE; s.outkind = OUT_STDOUT_PIPE;
	ref::Hdr h = plan_hdr(pl); h.logN = 4;
	Inode *in = w.anon("in", I_GEN), *out = w.anon("out", I_SINK);
	out->type = I_SINK; s.inpipe = in; s.outpipe = out;
	std::unique_ptr<ref::Stream> rs; str dk, head, tail; u64 opos = 0; str bad; std::vector<char> tmp(1 << 20);
	if (mode == M_ENC) {
		s.logN = 10; s.r = 1; s.p = 1;
		in->glen = len; in->gen = pat;
		out->sink = [&](const char *b, size_t n) {
			while (n && bad.empty()) {
				if (opos < 96) {
					size_t m = std::min<size_t>(n, 96 - opos); head.append(b, m); b += m; n -= m; opos += m;
					if (opos == 96) {
						ref::Hdr hh;
						if (!ref::header_key(pass, head, dk, &hh)) { bad = "the header written is invalid"; break; }
						rs.reset(new ref::Stream(dk, head));
					}
				} else if (opos < 96 + len) {
					size_t m = (size_t)std::min<u64>({n, 96 + len - opos, tmp.size()});
					pat(opos - 96, tmp.data(), m); rs->crypt(tmp.data(), tmp.data(), m); rs->update(tmp.data(), m);
					if (memcmp(tmp.data(), b, m)) { size_t i = 0; while (tmp[i] == b[i]) i++; bad = fmt("wrong ciphertext byte at offset %llu of the stream", (unsigned long long)(opos - 96 + i)); }
					b += m; n -= m; opos += m;
				} else { tail.append(b, n); opos += n; if (tail.size() > 32) bad = "more output than a complete file"; n = 0; }
			}
		};
	} else {
		dk = ref::scrypt(pass, h.salt, 1ull << h.logN, h.r, h.p, 64); head = ref::header(h, dk);
		rs.reset(new ref::Stream(dk, head));
		in->glen = len + 128 - (u64)trunc;
		in->gen = [&](u64 pos, char *b, size_t n) { // always called in sequence
			char *b0 = b; size_t n0 = n; u64 p0 = pos;
			while (n) {
				size_t m;
				if (pos < 96) { m = std::min<size_t>(n, 96 - (size_t)pos); memcpy(b, head.data() + pos, m); }
				else if (pos < 96 + len) { m = (size_t)std::min<u64>(n, 96 + len - pos); pat(pos - 96, b, m); rs->crypt(b, b, m); rs->update(b, m); if (pos + m == 96 + len) tail = rs->mac_final(); }
				else { if (tail.empty()) tail = rs->mac_final(); m = (size_t)std::min<u64>(n, 128 + len - pos); memcpy(b, tail.data() + (pos - 96 - len), m); }
				b += m; n -= m; pos += m;
			}
			if (flip >= 0 && (u64)flip >= p0 && (u64)flip < p0 + n0) b0[(u64)flip - p0] ^= 1;
		};
		out->sink = [&](const char *b, size_t n) {
			while (n && bad.empty()) {
				size_t m = (size_t)std::min<u64>({n, tmp.size()});
				if (opos + m > len) { bad = "more output than the plaintext"; break; }
				pat(opos, tmp.data(), m);
				if (flip < 0 && memcmp(tmp.data(), b, m)) bad = fmt("wrong plaintext near offset %llu", (unsigned long long)opos);
				b += m; n -= m; opos += m;
			}
		};
	}
	Job j = start_job(w, s);
	u64 lagmax = 0; u64 lim = H0 + 2 * (u64)std::max<i64>(0, pl.get("stdio_buf"));
	w.on_call = [&](Proc *p, const char *k) {
		if (p != j.proc || strcmp(k, "read")) return;
		u64 lag = in->bytes_out > out->bytes_in ? in->bytes_out - out->bytes_in : 0;
		if (lag > lagmax) lagmax = lag;
	};
	w.run(); finish_result(w, r);
	r.nontrivial = true; r.probes["long-stream"]++; r.probes["long-stream-MB"] += len >> 20;
	r.sample = fmt("%s of a stream of %llu bytes: ", mode == M_ENC ? "encryption" : "decryption", (unsigned long long)len) + describe(pl);
	if (!clean_end(w, r)) return;
	if (!bad.empty()) { r.fail("wrong-stream", bad); return; }
	bool damaged = flip >= 0 || trunc;
	if (!damaged) {
		if (!j.proc->ok()) { r.fail("failed", "a stream of this length failed: " + j.proc->status() + "; " + j.errs()); return; }
		if (opos != len + (mode == M_ENC ? 128 : 0)) { r.fail("incomplete", fmt("success with %llu bytes written", (unsigned long long)opos)); return; }
		if (mode == M_ENC && tail != rs->mac_final()) { r.fail("wrong-stream", "the final authentication code is wrong"); return; }
	} else if (j.proc->ok()) { r.fail("accepted", "a damaged stream of this length was accepted"); return; }
	if (lagmax > lim) { r.fail("held-back", fmt("%llu bytes received were held back", (unsigned long long)lagmax)); return; }
	u64 mem = j.proc->heap_peak + j.proc->map_peak, ml = (1 << 20) + 2 * 128 * (mode == M_ENC ? 1024ull : 16ull * h.r) + 1024ull * h.r * h.p;
	if (mem > ml) r.fail("memory", fmt("peak memory %llu bytes", (unsigned long long)mem));
}
// ---------------------------------------------------------------- pipelines
static void gen19(Rng &g, Plan &pl) {
	i64 idx = pl.get("idx"); bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	pl.set("urseed", g.range(1, 1 << 20), 1); pl.set("salt_seed", g.range(1, 1 << 20), 1); gen_pass(g, pl);
	if ((idx < 6 && !g_asan) || g.chance(1)) { // beyond 2^32 bytes, and with all the implementations
		pl.set("long", 1); pl.set("stdio_buf", g.pick(std::vector<i64>{0, 0, 65536, 1 << 20}));
		bool big = idx < 6 && !g_asan;
		if (big) pl.set("long_run", 1);
		pl.set("mode", idx % 2 ? M_DEC : M_ENC, 0);
		i64 len = big ? (idx < 3 || (idx == 3 && thorough) ? (1ll << 32) + g.range(1, 100000000) : thorough ? 5000000000ll : 600000000ll + g.range(0, 100000000)) : g.range(100000, g_asan ? 4000000 : 40000000);
		if (thorough && idx < 2 && big) len = (1ll << 36) + g.range(1, 1000000000);
		pl.set("len", len);
		if (idx == 2) { pl.set("mode", M_DEC, 0); pl.set("flip", len - g.range(0, 90000000)); }
		if (idx == 3) { pl.set("ltrunc", g.range(1, 32)); if (!thorough) pl.set("len", 540000000 + g.range(0, 1000000)); }
		if (idx >= 4) pl.set("cpu", (i64)g.pick(std::vector<i64>{0, 1, 3, 29, 15, 23}), 31);
		if (!big) { pl.set("mode", (i64)g.below(2)); if (g.chance(30)) { pl.set("mode", M_DEC); if (g.chance(50)) pl.set("flip", (i64)g.below((u64)len)); else pl.set("ltrunc", g.range(1, 100)); } if (g.chance(40)) { gen_chunk(g, pl, 100000); if (pl.get("chunk") && pl.get("chunk_max", 4096) < 4096) pl.set("chunk_max", 4096, 4096); if (pl.get("stdio_buf") && pl.get("stdio_buf") < 1000) pl.set("stdio_buf", 0); } if (g.chance(30)) gen_cpu(g, pl); }
		return;
	}
	int c = (int)g.pick(std::vector<i64>{0, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7});
	pl.set("chain", c);
	i64 n = g.chance(3) && !g_asan ? g.range(2000000, 6000000) : pick_size(g, g.chance(60) ? 6000 : 400000);
	pl.set("isize", n); pl.set("data_seed", g.range(1, 1 << 20), 1);
	gen_chunk(g, pl, n); if (g.chance(20)) gen_cpu(g, pl);
	if (n > 500000) { if (pl.get("chunk_max", 4096) < 5000) pl.set("chunk", 0); if (pl.get("stdio_buf") && pl.get("stdio_buf") < 4096) pl.set("stdio_buf", 0); }
	pl.set("r", g.range(1, 3), 1); pl.set("logN", g.range(1, 6), 4);
	auto cap = [&](void) -> i64 {
		static const std::vector<i64> cs = {1, 2, 31, 32, 33, 96, 100, 128, 512, 4095, 4096, 4097, 8192, 65535, 65536, 65568, 70000, 131072, 1 << 20};
		i64 v = g.chance(30) ? 65536 : g.pick(cs), lo = n > 500000 ? 16384 : n > 50000 ? 4095 : n > 3000 ? 96 : 1;
		return v < lo ? lo : v;
	};
	pl.set("pipe_cap", cap(), 65536);
	for (size_t i = 0; i + 1 < CHAIN[(size_t)c].size(); i++) pl.set(fmt("cap%zu", i), cap(), 65536);
	pl.set("feed_piece", g.pick(std::vector<i64>{0, 1, 31, 100, 4096, 65536, 70000}));
	if (n > 3000 && pl.get("feed_piece") && pl.get("feed_piece") < 100) pl.set("feed_piece", 100);
	if (n > 50000 && pl.get("feed_piece") && pl.get("feed_piece") < 4096) pl.set("feed_piece", 4096);
	pl.set("sched_seed", g.range(1, 1 << 20)); pl.set("sched_pct", g.pick(std::vector<i64>{0, 5, 30, 80, 100}));
	pl.set("inkind", g.chance(70) ? IN_STDIN_PIPE : g.range(0, 2), IN_STDIN_PIPE);
	pl.set("outkind", g.chance(70) ? OUT_STDOUT_PIPE : g.range(0, 3), OUT_STDOUT_PIPE);
	pl.set("force", g.chance(40));
	if (g.chance(15)) pl.set("sigpipe_ign", g.range(1, 15));
	i64 tot = n + 256;
	if (g.chance(40)) return; // no fault: everything must arrive
	auto near = [&](i64 t) { static const std::vector<i64> e = {0, 1, 95, 96, 97, 127, 128, 4096, 65536, 65632, 65664}; return g.chance(40) ? g.pick(e) : g.chance(40) ? std::max<i64>(0, t - g.range(0, 300)) : (i64)g.below((u64)t + 1); };
	switch (g.below(8)) {
	case 0: pl.set("drain_die", near(tot), -1); break;
	case 1: pl.set("feed_die", near(tot), -1); pl.set("inkind", IN_STDIN_PIPE, IN_STDIN_PIPE); break;
	case 2: pl.set("trunc", near(tot), -1); break;
	case 3: pl.set("flip", near(tot), -1); break;
	case 4: pl.set("badpass", (i64)g.below(CHAIN[(size_t)c].size()), -1); break;
	default: {
		std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { Pipe x; build19(q, w, x); });
		if (s.empty()) break;
		for (int t = (int)g.range(1, 2); t > 0; t--) {
			auto &x = s[g.below(s.size())];
			Fault f; f.proc = x.proc; f.kind = "any"; f.target = "*"; f.nth = x.any;
			if (g.chance(60)) f.act = A_CRASH;
			else if (g.chance(40)) { f.act = A_SIG; f.arg = g.pick(std::vector<i64>{SIGTERM, SIGHUP, SIGINT, SIGKILL}); }
			else {
				std::vector<World::Site> rw; for (auto &y : s) if ((y.kind == "read" || y.kind == "write" || y.kind == "close") && y.tgt.compare(0, 6, "stderr")) rw.push_back(y);
				if (!rw.empty()) add_fault_at(g, pl, rw[g.below(rw.size())]);
				continue;
			}
			pl.faults.push_back(f);
		}
	}
	}
}
static void exec19(const Plan &pl, Result &r) {
	if (pl.get("long")) { exec_long(pl, r); return; }
	r.sample = describe(pl); r.nontrivial = true;
	World w(pl); w.keep_log = pl.get("_log"); w.max_steps = 20000000;
	Pipe q; build19(pl, w, q);
	size_t n = q.st.size();
	std::vector<u64> lag(n, 0);
	u64 lim = H0 + 2 * (u64)std::max<i64>(0, pl.get("stdio_buf"));
	w.on_call = [&](Proc *p, const char *k) {
		if (strcmp(k, "read")) return;
		for (size_t i = 0; i < n; i++) if (q.st[i].proc == p && q.st[i].in && (q.st[i].out || (settle(w, q.st[i]), q.st[i].out))) {
			u64 a = q.st[i].in->bytes_out, b = q.st[i].out->bytes_in;
			if (a > b && a - b > lag[i]) lag[i] = a - b;
		}
	};
	w.run();
	for (auto &j : q.st) settle(w, j);
	finish_result(w, r);
	if (w.nswitch) r.probes["multi-process"]++;
	if (!clean_end(w, r)) return;
	bool planned = w.nfired || !pl.faults.empty() || pl.k.count("drain_die") || pl.k.count("feed_die") || pl.k.count("trunc") || pl.k.count("flip") || pl.k.count("badpass") || pl.k.count("cap");
	for (size_t i = 0; i < n; i++) {
		Job &j = q.st[i]; str who = fmt("stage %zu (%s)", i, j.s.mode == M_ENC ? "enc" : "dec");
		str R = j.in ? j.in->rec : "", pt; u64 acc = j.out ? (j.out->type == I_PIPE ? j.out->pin : j.out->data.size()) : 0;
		str got = !j.out || (j.s.outkind == OUT_OLD && !j.out->truncated) ? "" : i + 1 == n ? j.output(w) : j.out->rec;
		u64 mem = j.proc->heap_peak + j.proc->map_peak, rp = j.s.mode == M_ENC ? 1 : (u64)pl.get("r", 1);
		if (mem > (1 << 20) + 2 * 128 * 1024 * rp + 65536) { r.fail("memory", who + fmt(": peak memory %llu bytes", (unsigned long long)mem)); return; }
		if (lag[i] > lim) { r.fail("held-back", who + fmt(" held back %llu bytes it had received", (unsigned long long)lag[i])); return; }
		bool rok = true; str want;
		if (j.s.mode == M_DEC) { rok = ref::decrypt(q.pass[i], R, pt); want = pt; }
		if (j.proc->ok()) {
			r.probes["stage-ok"]++;
			if (!rok) { r.fail("false-success", who + fmt(" succeeded although the %zu bytes it received are not a valid file", R.size())); return; }
			if (j.in && !j.in->saw_eof) { r.fail("false-success", who + " succeeded without reaching the end of its input"); return; }
			if (j.s.mode == M_ENC) {
				if (acc != R.size() + 128) { r.fail("incomplete", who + fmt(" succeeded: %zu bytes in, %llu accepted", R.size(), (unsigned long long)acc)); return; }
				str dk; if (got.size() >= 96) { if (!ref::header_key(q.pass[i], got, dk)) { r.fail("wrong-output", who + ": invalid header"); return; } ref::Hdr h; ref::header_key(q.pass[i], got, dk, &h); want = ref::encrypt_dk(h, dk, R); }
				else want = got;
			} else if (acc != pt.size()) { r.fail("incomplete", who + fmt(" succeeded: plaintext has %zu bytes, %llu accepted", pt.size(), (unsigned long long)acc)); return; }
			if (got != want.substr(0, got.size())) { r.fail("wrong-output", who + ": the bytes passed on are wrong"); return; }
		} else {
			r.probes["stage-failed"]++;
			bool excuse = !rok || (j.out && (j.out->wfail || j.out->cfail)) || (j.in && j.in->rfail);
			for (auto &f : pl.faults) if (f.proc == j.proc->id) excuse = true;
			if (!planned || !excuse) { r.fail("spurious", who + " failed without a reason: " + j.proc->status() + "; " + j.errs()); return; }
			if (j.s.mode == M_DEC && rok && got != want.substr(0, got.size())) { r.fail("wrong-output", who + ": the bytes passed on are wrong"); return; }
		}
	}
	if (!planned) {
		str o = q.st[n - 1].output(w), want = plan_data(pl);
		if (q.mode[n - 1] == M_DEC) { if (o != want) r.fail("wrong-output", fmt("the pipeline delivered %zu bytes, %zu went in", o.size(), want.size())); }
		r.probes["pipelines-complete"]++;
	}
}
static Reg r19({"C19", gen19, exec19, "one case = one pipeline of one to four enc/dec processes between a producer and a consumer under a seeded schedule, pipe capacities and (in 60% of the cases) death of a neighbour, crash, signal, damaged input or I/O error; or one long stream (generated on the fly, beyond 2^32 bytes in the first cases) compared byte by byte with an incremental reference; distinct by event-log hash"});
