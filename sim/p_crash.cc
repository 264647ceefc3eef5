// C09: what an interrupted encryption leaves behind.
#include "cli.h"
#include <cerrno>
#include <algorithm>

enum { X_KILL, X_POWER, X_PREFIX, X_N };
static void build09(const Plan &pl, World &w, Job &j, Cmd &c) {
	c = plan_cmd(pl);
	if (pl.get("oldkind")) { // the output held an older encryption made with the same passphrase
		ref::Hdr h = plan_hdr(pl); h.logN = 10;
		i64 n = pl.get("oldsize"); if (n < 0) n = 0; if (n > 400000) n = 400000;
		str op = pl.get("oldkind") == 2 && n <= (i64)c.pt.size() ? c.pt.substr(0, (size_t)n) : prbytes(mix64((u64)pl.get("data_seed", 1), 77), (size_t)n);
		c.s.old = ref::encrypt(h, c.s.pass, op);
	} else c.s.old = prbytes(5, (size_t)std::max<i64>(0, std::min<i64>(400000, pl.get("oldsize"))));
	w.wlog_new = true;
	j = start_cmd(w, c);
	if (j.out) { j.out->keep_wlog = true; }
}
static void gen09(Rng &g, Plan &pl) {
	gen_cmd(g, pl, g.chance(60) ? 6000 : g.chance(80) ? 140000 : 300000, M_ENC);
	pl.set("auto", 0); pl.set("r", 1, 1); pl.set("p", 1, 1);
	pl.set("outkind", g.chance(40) ? OUT_NEW : g.chance(70) ? OUT_OLD : OUT_STDOUT_FILE);
	int kind = (int)g.below(X_N);
	pl.set("crash", kind);
	if (g.chance(60)) { pl.set("oldkind", g.range(1, 2)); }
	pl.set("oldsize", g.chance(50) ? pl.get("isize") : g.range(0, 2 * pl.get("isize") + 300));
	pl.set("vseed", g.range(1, 1 << 20)); pl.set("nvar", g.range(1, 4));
	std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { Job j; Cmd c; build09(q, w, j, c); });
	std::vector<i64> anyn, wr; i64 n = 0;
	for (auto &x : s) if (x.proc == 0) { anyn.push_back(n); if (x.tgt == "out" && x.kind != "open") wr.push_back(n); n++; }
	Fault f; f.kind = "any"; f.target = "*"; f.act = A_CRASH;
	if (kind != X_KILL && g.chance(25)) return; // power is lost after a completed run
	if (!wr.empty() && g.chance(65)) f.nth = g.pick(wr) + g.range(0, 1); else f.nth = n ? (i64)g.below((u64)n) : 0;
	pl.faults.push_back(f);
	if (g.chance(20)) { Fault h; h.kind = "write"; h.target = "out"; h.nth = (i64)g.below(10); h.act = A_SHORT; h.arg = g.pick(std::vector<i64>{1, 31, 32, 33, 96, 512, 4000}); pl.faults.push_back(h); }
	if (g.chance(10)) { Fault h; h.kind = "write"; h.target = "out"; h.nth = (i64)g.below(10); h.arg = g.pick(std::vector<i64>{ENOSPC, EIO}); h.count = g.chance(50) ? -1 : 1; pl.faults.push_back(h); }
}
static void exec09(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	std::vector<std::pair<str, str>> remains; // content, how
	Cmd c; bool finished, opened = false, claimed; str old, full;
	{
		World w(pl); w.keep_log = pl.get("_log");
		Job j; build09(pl, w, j, c);
		w.run(); settle(w, j); finish_result(w, r);
		if (!clean_end(w, r)) return;
		finished = j.proc->ok(); claimed = finished;
		if (!finished && j.proc->ek == E_EXIT && !w.nfired) { r.fail("spurious", "failed without a fault: " + j.errs()); return; }
		old = j.s.outkind == OUT_OLD ? c.s.old : "";
		if (!j.out) { r.probes["died-before-output"]++; r.nontrivial = true; return; }
		opened = j.out->opens_w || j.s.outkind == OUT_STDOUT_FILE;
		full = j.out->data;
		int kind = (int)pl.get("crash");
		if (kind == X_KILL) remains.push_back({full, "killed"});
		else {
			Rng g((u64)pl.get("vseed", 1)); int nv = (int)std::max<i64>(1, std::min<i64>(8, pl.get("nvar", 1)));
			auto &ops = j.out->wlog;
			for (int v = 0; v < nv; v++) {
				str d = old; u64 ext = old.size();
				if (kind == X_PREFIX) { // writes reach the disk in order, the last one torn
					size_t k = ops.empty() ? 0 : (size_t)g.below(ops.size() + 1);
					d = old;
					for (size_t i = 0; i < k; i++) { auto &o = ops[i]; if (o.op == 1) d.clear(); else if (o.op == 0) { size_t n = o.d.size(); if (i + 1 == k && g.chance(60)) n = (size_t)g.below(n + 1); if (d.size() < o.off + n) d.resize(o.off + n, 0); d.replace(o.off, n, o.d, 0, n); } }
				} else { // any subset of what was never synchronised
					size_t synced = 0; for (size_t i = 0; i < ops.size(); i++) if (ops[i].op == 2) synced = i + 1;
					int lose = (int)g.pick(std::vector<i64>{5, 20, 50, 90});
					bool stale = g.chance(40); // gaps show what the blocks held before
					for (size_t i = 0; i < ops.size(); i++) {
						auto &o = ops[i]; bool keep = i < synced || !g.chance(lose);
						if (o.op == 1) { if (keep) { if (!stale) d.clear(); ext = 0; } continue; }
						if (o.op == 2) continue;
						if (ext < o.off + o.d.size()) ext = o.off + o.d.size();
						if (d.size() < ext) d.resize(ext, 0);
						if (!keep) continue;
						if (i >= synced && g.chance(lose)) { // torn: sectors
							for (size_t a = 0; a < o.d.size();) { size_t b = ((o.off + a) / 512 + 1) * 512 - o.off; if (b > o.d.size()) b = o.d.size(); if (g.chance(70)) d.replace(o.off + a, b - a, o.d, a, b - a); a = b; }
						} else d.replace(o.off, o.d.size(), o.d);
					}
					if (d.size() < ext) d.resize(ext, 0);
					d.resize(ext);
					if (g.chance(30) && synced == 0) d.resize((size_t)g.below(d.size() + 1)); // the size was not updated
				}
				remains.push_back({d, fmt("power loss, variant %d", v)});
			}
		}
	}
	r.nontrivial = true;
	std::set<str> seen; str done;
	for (auto &x : remains) {
		if (!seen.insert(x.first).second) continue;
		Plan q = pl; q.faults.clear(); q.muts.clear(); q.k.erase("chunk"); q.k.erase("stdio_buf");
		World w(q); Spec s; s.mode = M_DEC; s.pass = c.s.pass; s.indata = x.first; s.force = true;
		Job j = start_job(w, s); w.run(); settle(w, j);
		r.hash = mix64(r.hash, w.hash); r.sig = mix64(r.sig, w.hash); r.steps += w.steps;
		if (!clean_end(w, r)) return;
		if (!j.proc->ok()) { r.probes["rejected"]++; if (finished && pl.get("crash") == X_KILL) { r.fail("lost", "the completed encryption is rejected"); return; } continue; }
		str o = j.output(w);
		if (o == c.pt) { r.probes["complete"]++; continue; }
		bool is_old = x.first == old && (pl.get("crash") != X_KILL || !opened);
		if (is_old) { r.probes["old-file-intact"]++; continue; }
		r.fail("mistaken", fmt("what is left (%zu bytes of %zu, %s) decrypts successfully to %zu bytes, the plaintext has %zu", x.first.size(), full.size(), x.second.c_str(), o.size(), c.pt.size()));
		return;
	}
}
static Reg r09({"C09", gen09, exec09, "one case = one encryption killed at a planned call or losing power (in-order torn prefix, or any subset of unsynchronised writes with torn sectors, zero or stale gaps and lost size updates, over fresh, foreign or previously encrypted output files), followed by real decryptions of what survived; distinct by event-log hash"});
