// C01 round trip, C02 format conformance.
#include "cli.h"
#include "api.h"
#include <sys/mman.h>
#include <cstdlib>
#include <algorithm>

// ---- C01
static void gen01(Rng &g, Plan &pl) {
	i64 idx = pl.get("idx"); bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	if (!g_asan && idx < 4) { // beyond 2^32 bytes, in streams and in memory
		i64 len = (1ll << 32) + g.range(1, 50000000);
		if (idx < 2) { long_plan(g, pl, idx ? M_DEC : M_ENC, len); return; }
		if (idx == 2 || thorough) { long_plan(g, pl, M_ENC, len); pl.set("longbuf", idx == 2 ? 1 : 2); return; }
	}
	bool small = g.chance(40);
	i64 n = pick_size(g, small ? 3000 : 200000);
	pl.set("isize", n); pl.set("data_seed", g.range(1, 1 << 20), 1); pl.set("data_kind", g.chance(20) ? g.range(1, 2) : 0);
	gen_pass(g, pl); gen_chunk(g, pl, n); gen_cpu(g, pl);
	if (g.chance(30)) pl.set("cpu2", (i64)g.below(32), -1);
	pl.set("urseed", g.range(1, 1 << 20), 1);
	if (g.chance(25)) { pl.set("buf", 1); return; }
	gen_io(g, pl, M_ENC);
	pl.set("dmethod", (i64)g.below(PM_N), -1); pl.set("dinkind", (i64)g.below(IN_N), -1); pl.set("doutkind", (i64)g.below(OUT_N), -1);
	pl.set("eol", (i64)g.below(3));
	if (g.chance(60)) { pl.set("explicit", 1); pl.set("r", g.range(1, 4), 1); pl.set("p", g.range(1, 3), 1); if (g.chance(10)) pl.set("elogN", 11, 10); }
	else pl.set("maxtime_ms", g.pick(std::vector<i64>{0, 1, 10, 50, 5000}), 5000);
	pl.set("force", g.chance(40)); pl.set("verbose", g.chance(20));
	pl.set("tick_us", g.pick(std::vector<i64>{1, 10, 1000, 4000, 10000}), 1000);
	pl.set("pipe_cap", g.pick(std::vector<i64>{65536, 4096, 1, 100, 8192}), 65536);
	if (n > 5000 && pl.get("pipe_cap", 65536) < 4096) pl.set("pipe_cap", 4096, 65536);
	pl.set("feed_piece", g.pick(std::vector<i64>{0, 1, 100, 4096, 65536, 70000}));
	if (n > 5000 && pl.get("feed_piece") && pl.get("feed_piece") < 4096) pl.set("feed_piece", 4096);
	pl.set("sched_seed", g.range(1, 1 << 20)); pl.set("sched_pct", g.pick(std::vector<i64>{0, 5, 30, 80}));
}
// the in-memory interface on one huge buffer of zeros, which takes no memory
static void exec_longbuf(const Plan &pl, Result &r) {
	size_t len = (size_t)std::max<i64>(0, pl.get("len")), olen = len + 128, outlen = 0; str pass = plan_pass(pl); int e1 = -1, e2 = 0;
	u8 *in = (u8 *)mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *out = (u8 *)mmap(nullptr, olen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), *back = nullptr;
	if (in == MAP_FAILED || out == MAP_FAILED) { r.probes["no-memory"]++; return; }
	{
		World w(pl); w.keep_log = pl.get("_log");
		Proc *p = w.spawn_fn("enc_buf", [&]() { e1 = api_enc_buf(in, len, out, (u8 *)pass.data(), pass.size(), 0, 0.5, 300, 10, 1, 1, 0, 1); return e1; });
		w.set_fd(p, 2, w.anon("stderr0", I_REG), true); w.run(); finish_result(w, r);
		if (!clean_end(w, r)) goto done;
	}
	if (e1) { r.fail("enc-failed", fmt("scryptenc_buf of %zu bytes returned %d", len, e1)); goto done; }
	{
		str dk, head((char *)out, 96);
		if (!ref::header_key(pass, head, dk)) { r.fail("wrong-ciphertext", "the header written is invalid"); goto done; }
		ref::Stream rs(dk, head); std::vector<char> z(1 << 20), t(1 << 20);
		for (size_t i = 0; i < len; i += z.size()) {
			size_t m = std::min(z.size(), len - i); rs.crypt(z.data(), t.data(), m); rs.update(t.data(), m);
			if (memcmp(t.data(), out + 96 + i, m)) { r.fail("wrong-ciphertext", fmt("the ciphertext differs from the documented format near offset %zu", i)); goto done; }
		}
		if (rs.mac_final() != str((char *)out + 96 + len, 32)) { r.fail("wrong-ciphertext", "the final authentication code is wrong"); goto done; }
	}
	if (pl.get("longbuf") == 2) {
		World w(pl); w.keep_log = pl.get("_log");
		back = (u8 *)mmap(nullptr, olen, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		Proc *p = w.spawn_fn("dec_buf", [&]() { e2 = api_dec_buf(out, olen, back, &outlen, (u8 *)pass.data(), pass.size(), 0, 0.5, 300, 0, 1); return e2; });
		w.set_fd(p, 2, w.anon("stderr0", I_REG), true); w.run(); finish_result(w, r);
		if (!clean_end(w, r)) goto done;
		if (e2 || outlen != len || memcmp(back, in, len)) r.fail("wrong-plaintext", fmt("in-memory decryption of %zu bytes returned %d, %zu bytes", len, e2, outlen));
	}
	r.probes["long-buffer"]++;
done:
	munmap(in, len); munmap(out, olen); if (back) munmap(back, olen);
}
static void exec01(const Plan &pl, Result &r) {
	if (pl.get("long")) { r.nontrivial = true; r.sample = describe(pl); if (pl.get("longbuf")) exec_longbuf(pl, r); else exec_long(pl, r); return; }
	str pt = plan_data(pl), pass = plan_pass(pl);
	r.nontrivial = true;
	if (pl.get("buf")) {
		World w(pl); w.keep_log = pl.get("_log");
		str ct(pt.size() + 128, 0), back(pt.size() + 128, 0); size_t outlen = 0; int e1 = -1, e2 = -1;
		Proc *p = w.spawn_fn("enc_buf", [&]() { e1 = api_enc_buf((u8 *)pt.data(), pt.size(), (u8 *)&ct[0], (u8 *)pass.data(), pass.size(), 0, 0.125, 0.01, 0, 0, 0, 0, 0); return e1; });
		Inode *e = w.anon("stderr0", I_REG); w.set_fd(p, 2, e, true);
		w.run();
		if (clean_end(w, r)) {
			if (e1) r.fail("enc-failed", fmt("scryptenc_buf returned %d without any fault; stderr: %s", e1, e->data.c_str()));
			if (!e->data.empty()) r.fail("noise", "stderr: " + e->data);
		}
		finish_result(w, r);
		if (r.bad) return;
		Plan pl2 = pl; if (pl.k.count("cpu2")) pl2.k["cpu"] = pl.get("cpu2");
		World w2(pl2); w2.keep_log = pl.get("_log");
		Proc *p2 = w2.spawn_fn("dec_buf", [&]() { e2 = api_dec_buf((u8 *)ct.data(), ct.size(), (u8 *)&back[0], &outlen, (u8 *)pass.data(), pass.size(), 0, 0.5, 300, 0, 0); return e2; });
		w2.set_fd(p2, 2, w2.anon("stderr0", I_REG), true);
		w2.run();
		if (clean_end(w2, r)) {
			if (e2) r.fail("dec-failed", fmt("scryptdec_buf returned %d", e2));
			else if (outlen != pt.size() || back.substr(0, outlen) != pt) r.fail("wrong-plaintext", fmt("in-memory round trip of %zu bytes differs", pt.size()));
		}
		finish_result(w2, r);
		r.probes["buffer"]++;
		r.sample = "buf " + describe(pl);
		return;
	}
	Spec s = spec_from(pl, M_ENC); s.indata = pt;
	if (pl.get("explicit")) { s.logN = (int)pl.get("elogN", 10); s.r = (u32)pl.get("r", 1); s.p = (u32)pl.get("p", 1); }
	else { i64 t = pl.get("maxtime_ms", 5000); s.extra = {"-t", t == 5000 ? "5" : fmt("%.3f", (double)t / 1000)}; if (t == 5000) s.extra = {"-t", "0.01"}; }
	str ct;
	{
		World w(pl); w.keep_log = pl.get("_log");
		Job j = start_job(w, s);
		w.run();
		if (j.out == nullptr && w.fs.count(j.outpath())) j.out = w.fs[j.outpath()];
		if (clean_end(w, r)) {
			if (!j.proc->ok()) r.fail("enc-failed", "enc ended with " + j.proc->status() + "; stderr: " + j.errs());
			else if (j.so != j.out && !j.so->data.empty()) r.fail("stdout-noise", "enc wrote to standard output");
			else if (!s.verbose && !j.tty && !j.errs().empty() ) r.fail("noise", "enc printed: " + j.errs());
			ct = j.output(w);
		}
		finish_result(w, r);
		if (w.nswitch) r.probes["multi-process"]++;
	}
	if (r.bad) return;
	Plan pl2 = pl; if (pl.k.count("cpu2")) pl2.k["cpu"] = pl.get("cpu2");
	if (pl.k.count("dmethod")) pl2.k["method"] = pl.get("dmethod");
	if (pl.k.count("dinkind")) pl2.k["inkind"] = pl.get("dinkind");
	if (pl.k.count("doutkind")) pl2.k["outkind"] = pl.get("doutkind");
	Spec d = spec_from(pl2, M_DEC); d.indata = ct;
	{
		World w(pl2); w.keep_log = pl.get("_log");
		Job j = start_job(w, d);
		w.run();
		if (j.out == nullptr && w.fs.count(j.outpath())) j.out = w.fs[j.outpath()];
		if (clean_end(w, r)) {
			str o = j.output(w);
			if (!j.proc->ok()) r.fail("dec-failed", "dec ended with " + j.proc->status() + "; stderr: " + j.errs());
			else if (o != pt) { size_t i = 0; while (i < o.size() && i < pt.size() && o[i] == pt[i]) i++; r.fail("wrong-plaintext", fmt("%zu bytes in, %zu bytes back, first difference at %zu", pt.size(), o.size(), i)); }
			else if (j.so != j.out && !j.so->data.empty()) r.fail("stdout-noise", "dec wrote to standard output");
			else if (!d.verbose && !j.tty && !j.errs().empty()) r.fail("noise", "dec printed: " + j.errs());
		}
		finish_result(w, r);
	}
	if (pt.size() > 65536) r.probes["multi-block"]++;
	if (pl.get("chunk")) r.probes["split-io"]++;
	if (pl.get("cpu", 31) != 31 || pl.k.count("cpu2")) r.probes["reduced-cpu"]++;
	r.sample = describe(pl);
}
static Reg r01({"C01", gen01, exec01, "one case = one encryption followed by one decryption under a seeded plan of sizes, stream kinds, chunkings, stdio buffer sizes, entry methods, CPU feature sets and schedules; every case is non-trivial (a full round trip); distinct by the hash of the complete event log of both runs"});
