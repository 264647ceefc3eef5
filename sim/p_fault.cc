// Faults on one command: C04 refusals, C05 output, C06 input, C07 anything, C20 messages, C21 footprint.
#include "cli.h"
#include "api.h"
#include <cerrno>

static bool has_fault(const Plan &pl, const char *kind, const char *tgt = "*") {
	for (auto &f : pl.faults) if (f.kind == kind && (!strcmp(tgt, "*") || f.target == tgt)) return true;
	return false;
}
static u64 fired_of(World &w, const str &prefix) { u64 n = 0; for (auto &x : w.fired) if (x.first.compare(0, prefix.size(), prefix) == 0) n += x.second; return n; }
static bool died_sigpipe(Proc *p) { return p->ek == E_SIGNAL && p->code == SIGPIPE; }
static str tail(const str &s) { return s.size() > 400 ? s.substr(s.size() - 400) : s; }
static void begin(World &w, const Plan &pl) { w.keep_log = pl.get("_log"); }
static bool out_touched(World &w, Job &j, str *how = nullptr) {
	str h;
	if (j.s.outkind == OUT_NEW) { if (j.outfile_exists(w)) h = "the output file was created"; }
	else if (j.s.outkind == OUT_OLD) {
		auto it = w.fs.find(j.outpath());
		if (it == w.fs.end() || it->second != j.out) h = "the output file was replaced or removed";
		else if (j.out->data != j.s.old) h = "the output file was modified";
		else if (j.out->opens_w) h = "the output file was opened for writing";
	} else if (!j.output(w).empty() || j.so->bytes_in) h = "data was written to standard output";
	if (j.so != j.out && !j.so->data.empty()) h = "data was written to standard output";
	if (how) *how = h;
	return !h.empty();
}
// ---------------------------------------------------------------- C04
enum { R_NOTSCRYPT, R_HEADER, R_PASS, R_NOPASS, R_LIMIT, R_NOOPEN, R_RDHDR, R_SHORT, R_N };
static void gen04(Rng &g, Plan &pl) {
	gen_cmd(g, pl, g.chance(70) ? 3000 : 150000, M_DEC);
	int c = (int)g.below(R_N);
	pl.set("cause", c);
	pl.set("force", c == R_LIMIT ? 0 : g.chance(50));
	if (c == R_NOTSCRYPT || c == R_SHORT) { pl.set("cut", g.chance(50) ? g.range(0, 95) : g.pick(std::vector<i64>{0, 6, 7, 8, 95, 64})); pl.set("junk", g.range(1, 1 << 20)); }
	if (c == R_HEADER) { Mut m; m.kind = g.pick(std::vector<str>{"flip", "flip", "badsum", "badhh", "range"}); m.a = g.range(0, 95); m.b = g.range(0, 7); m.c = g.range(0, 6); pl.muts.push_back(m); }
	if (c == R_LIMIT) { pl.set("limit", g.range(0, 3)); pl.set("logN", g.pick(std::vector<i64>{14, 16, 20, 30}), 4); pl.set("r", 8, 1); }
	if (c == R_NOOPEN) { pl.set("inkind", IN_PATH); if (g.chance(70)) { Fault f; f.kind = "open"; f.target = "in"; f.arg = g.pick(errnos_for("open", "in")); pl.faults.push_back(f); } else pl.set("no_in", 1); }
	if (c == R_RDHDR) { Fault f; f.kind = "read"; f.target = "in"; f.arg = g.pick(std::vector<i64>{EIO, EISDIR, EBADF, ESTALE}); f.count = g.chance(70) ? -1 : 1; f.nth = 0; pl.faults.push_back(f); }
	if (g.chance(35)) { // and something else goes wrong as well
		std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { Cmd c = plan_cmd(q); c.s.no_in = q.get("no_in"); start_cmd(w, c); });
		if (!s.empty()) for (int t = 0; t < 5; t++) { auto &x = s[g.below(s.size())]; if (x.proc == 0 && x.kind != "kdf" && x.kind != "sigaction" && !(x.kind == "read" && x.tgt == "in")) { add_fault_at(g, pl, x); break; } }
	}
	if (g.chance(15)) { Fault f; f.kind = "any"; f.target = "*"; f.nth = (i64)g.below(120); f.act = A_SIG; f.arg = g.pick(std::vector<i64>{SIGINT, SIGTERM, SIGHUP, SIGTSTP, SIGCONT}); pl.faults.push_back(f); }
}
static void exec04(const Plan &pl, Result &r) {
	Cmd c = plan_cmd(pl); int cause = (int)pl.get("cause");
	str dk = cause == R_LIMIT ? str(64, 'k') : ref::scrypt(c.s.pass, c.h.salt, 1ull << c.h.logN, c.h.r, c.h.p, 64);
	c.ct = ref::encrypt_dk(c.h, dk, c.pt);
	switch (cause) {
	case R_NOTSCRYPT: { u64 s = (u64)pl.get("junk", 1); c.ct = s % 4 == 0 ? c.pt : s % 4 == 1 ? prbytes(s, 200) : s % 4 == 2 ? "scrypt" + prbytes(s, 150) : str("Scrypt\0", 7) + c.ct.substr(7); if (c.ct.size() > 6 && c.ct.compare(0, 6, "scrypt") == 0 && c.ct[6] == 0) c.ct[6] = 1; break; }
	case R_SHORT: c.ct.resize((size_t)std::min<i64>(95, pl.get("cut"))); break;
	case R_HEADER: for (auto &m : pl.muts) {
		str &x = c.ct; str kh = dk.substr(32);
		if (m.kind == "flip") x[(size_t)(m.a % 96)] ^= (char)(1 << (m.b & 7));
		else if (m.kind == "badsum") { x[48 + (size_t)(m.a % 16)] ^= (char)(1 << (m.b & 7)); str y = x.substr(0, 64); x.replace(64, 32, ref::hmac(kh, y)); }
		else if (m.kind == "badhh") x[64 + (size_t)(m.a % 32)] ^= (char)(1 << (m.b & 7));
		else { ref::Hdr h = c.h; switch (m.c % 6) { case 0: h.logN = 0; break; case 1: h.logN = 64 + (int)(m.a & 31); break; case 2: h.r = 0; break; case 3: h.p = 0; break; case 4: h.r = 1 << 15; h.p = 1 << 15; break; default: h.r = 1u << 31; h.p = 2; } x = ref::encrypt_dk(h, dk, c.pt); }
	} break;
	default: break;
	}
	c.s.indata = c.ct;
	if (cause == R_PASS) { str q = c.s.pass; u64 k = (u64)pl.get("salt_seed", 1) % 5; if (k == 0) q += "x"; else if (k == 1 && q.size() > 1) q.resize(q.size() - 1); else if (k == 2 && !q.empty()) q[q.size() / 2] = (char)(q[q.size() / 2] == 'a' ? 'b' : 'a'); else if (k == 3) q = " " + q; else q = "wrong"; if (q == c.s.pass) q += "y"; if (q.size() > 2045) q = "short"; c.s.pass = q; }
	if (cause == R_NOPASS) c.s.no_pass = true;
	if (cause == R_LIMIT) { switch (pl.get("limit")) { case 0: c.s.extra = {"-M", "1M"}; break; case 1: c.s.extra = {"-t", "0.000001"}; break; case 2: c.s.extra = {"-M", "1MiB"}; c.s.extra = {"-M", "2000000", "-t", "0.001"}; break; default: c.s.extra = {"-m", "0.001"}; } }
	c.s.no_in = pl.get("no_in");
	World w(pl); begin(w, pl);
	w.kdf_mode = cause == R_LIMIT ? 2 : 1; w.kdf_big = 2e5;
	Job j = start_cmd(w, c);
	Inode *stop = nullptr; (void)stop;
	w.run(); settle(w, j);
	finish_result(w, r);
	r.sample = describe(pl); r.nontrivial = true;
	r.probes[fmt("cause%d", cause)]++;
	if (!clean_end(w, r, optparse_oom(w, j))) return;
	if (cause == R_RDHDR && fired_of(w, "read:in") == 0) { r.nontrivial = false; return; }
	if (cause == R_NOOPEN && !c.s.no_in && fired_of(w, "open:in") == 0) { r.nontrivial = false; return; }
	if (j.proc->ok()) { r.fail("accepted", "a decryption that had to be refused succeeded"); return; }
	str how;
	if (out_touched(w, j, &how)) { r.fail("touched", how + " although the decryption was refused; stderr: " + j.errs()); return; }
	if (cause == R_LIMIT && j.proc->ek == E_EXIT && j.proc->derivs) { r.fail("derived", "a key derivation was started beyond the limits"); return; }
}
static Reg r04({"C04", gen04, exec04, "one case = one decryption that must be refused for the planned reason (not an encrypted file, damaged header, wrong or missing passphrase, limits, unopenable or unreadable input, short header), with additional faults or signals in a third of the cases; non-trivial unless the planned fault did not fire; distinct by event-log hash"});

// ---------------------------------------------------------------- C05
static i64 out_size(const Plan &pl) { return pl.get("isize") + (pl.get("mode") == M_ENC ? 128 : 0); }
static void gen05(Rng &g, Plan &pl) {
	gen_cmd(g, pl, g.chance(60) ? 6000 : 200000, -1);
	i64 n = out_size(pl);
	if (g.chance(30)) pl.set("sigpipe_ign", 1);
	switch (g.below(7)) {
	case 0: case 1: { i64 c = g.chance(50) ? (i64)g.below((u64)n + 1) : n - (i64)g.pick(std::vector<i64>{1, 31, 32, 33, 96, 4095, 4096, 4097, 65536}); if (c < 0) c = 0; if (c >= n && g.chance(80)) c = n ? n - 1 : 0; pl.set("cap", c, -1); pl.set("full", g.pick(std::vector<i64>{ENOSPC, EDQUOT, EFBIG, EIO}), 28);
		if (pl.get("outkind") == OUT_STDOUT_PIPE) pl.set("outkind", OUT_STDOUT_FILE); break; }
	case 2: case 3: { Fault f; f.kind = "write"; f.target = "out"; i64 calls = n / (pl.get("stdio_buf") ? pl.get("stdio_buf") : 4096) + 2; f.nth = (i64)g.below((u64)(calls > 60 ? 60 : calls)); if (g.chance(30)) f.nth = calls - 1 - (i64)g.below(3); if (f.nth < 0) f.nth = 0; f.arg = g.pick(errnos_for("write", "out")); f.count = g.chance(50) ? -1 : 1; pl.faults.push_back(f); break; }
	case 4: { Fault f; f.kind = "close"; f.target = "out"; f.arg = g.pick(std::vector<i64>{EIO, ENOSPC, EDQUOT}); f.count = -1; pl.faults.push_back(f); if (pl.get("outkind") > OUT_OLD) pl.set("outkind", g.range(OUT_NEW, OUT_OLD)); break; }
	case 5: pl.set("outkind", OUT_STDOUT_PIPE); pl.set("drain_die", g.chance(40) ? (i64)g.below((u64)n + 1) : n - g.range(0, 64) < 0 ? 0 : n - g.range(0, 64), -1); if (pl.get("drain_die", -1) < 0) pl.set("drain_die", 0, -1); break;
	default: if (g.chance(70)) { int k = (int)g.range(1, 3); for (int i = 0; i < k; i++) { Fault f; f.kind = "write"; f.target = "out"; f.nth = (i64)g.below(40); f.act = A_SHORT; f.arg = g.pick(std::vector<i64>{1, 2, 31, 32, 33, 100, 4000}); f.count = g.chance(30) ? g.range(2, 30) : 1; pl.faults.push_back(f); } } break;
	}
	if (pl.get("outkind") == OUT_STDOUT_PIPE && pl.get("drain_die", -1) >= 0 && pl.get("sched_pct") == 0) pl.set("sched_pct", 30);
	if (g.chance(12)) { Fault f; f.kind = "alloc"; f.target = "-"; f.nth = 6 + (i64)g.below(12); f.arg = ENOMEM; pl.faults.push_back(f); }
	if (g.chance(12)) { Fault f; f.kind = "read"; f.target = "in"; f.nth = (i64)g.below(8); f.arg = EIO; pl.faults.push_back(f); }
}
static void exec05(const Plan &pl, Result &r) {
	Cmd c = plan_cmd(pl);
	World w(pl); begin(w, pl);
	Job j = start_cmd(w, c);
	w.run(); settle(w, j);
	finish_result(w, r);
	r.sample = describe(pl);
	if (!clean_end(w, r)) return;
	bool other = fired_of(w, "alloc:") || fired_of(w, "read:");
	bool outbad = j.out && (j.out->wfail || j.out->cfail || j.out->ofail);
	r.nontrivial = outbad || fired_of(w, "write:");
	if (outbad) r.probes[j.out->cfail ? "close-failed" : "write-failed"]++;
	if (died_sigpipe(j.proc)) { r.probes["died-of-sigpipe"]++; return; }
	if (j.proc->ok()) {
		if (j.drain && j.drain->ek == E_EXIT && j.drain->code == 1) { // the consumer left: it had been given everything by then or it is fine that the pipe took it all
			r.probes["consumer-left-early"]++;
			if (j.out->pin != (u64)out_size(pl)) r.fail("lost-output", fmt("success although the pipe accepted only %llu of %lld bytes", (unsigned long long)j.out->pin, (long long)out_size(pl)));
			return;
		}
		str q = wrong_result(w, j, c);
		if (!q.empty()) { r.fail("lost-output", "exit status 0 but " + q + "; stderr: " + tail(j.errs())); return; }
		if (j.out && j.out->cfail && (j.s.outkind == OUT_NEW || j.s.outkind == OUT_OLD)) { r.fail("close-ignored", "exit status 0 although closing the output failed; stderr: " + tail(j.errs())); return; }
		if (j.out && j.out->wfail) { r.probes["recovered"]++; }
	} else {
		if (j.proc->ek != E_EXIT) { r.fail("death", "ended with " + j.proc->status()); return; }
		if (j.errs().empty()) { r.fail("silent", j.proc->status() + " without any message"); return; }
		if (!outbad && !other) { r.fail("spurious", "failed although no output operation failed: " + tail(j.errs())); return; }
	}
}
static Reg r05({"C05", gen05, exec05, "one case = one enc or dec with a failing destination (disk full at any byte, write errors, short writes, failing close, dying consumer); non-trivial if an output operation was refused, shortened or failed; distinct by event-log hash"});

// ---------------------------------------------------------------- C06
static void gen06(Rng &g, Plan &pl) {
	gen_cmd(g, pl, g.chance(60) ? 6000 : 200000, -1);
	if (g.chance(50)) { pl.set("chunk", g.range(1, 4)); pl.set("chunk_seed", g.range(1, 1 << 20)); if (pl.get("isize") > 20000) pl.set("chunk_max", g.range(1000, 65536), 4096); }
	i64 n = pl.get("isize") + (pl.get("mode") == M_DEC ? 128 : 0);
	i64 calls = n / 4096 + 2;
	int k = g.chance(75) ? 1 : 2;
	for (int i = 0; i < k; i++) {
		Fault f; f.kind = "read"; f.target = "in";
		f.nth = g.chance(40) ? (i64)g.below(3) : (i64)g.below((u64)calls + 3);
		if (g.chance(20)) f.nth = calls + g.range(-2, 1);
		if (f.nth < 0) f.nth = 0;
		if (g.chance(12)) { f.act = A_SHORT; f.arg = g.range(1, 64); f.count = g.range(1, 20); }
		else { f.arg = g.pick(errnos_for("read", "in")); f.count = g.chance(40) ? -1 : g.chance(30) ? g.range(1, 4) : 1; }
		pl.faults.push_back(f);
	}
}
static void exec06(const Plan &pl, Result &r) {
	Cmd c = plan_cmd(pl);
	World w(pl); begin(w, pl);
	Job j = start_cmd(w, c);
	w.run(); settle(w, j);
	finish_result(w, r);
	r.sample = describe(pl);
	if (!clean_end(w, r)) return;
	bool bad = j.in && j.in->rfail;
	bool soft = true; // only interruptions so far
	for (auto &x : w.fired) if (x.first.compare(0, 8, "read:in:") == 0 && x.first != "read:in:EINTR" && x.first != "read:in:EAGAIN" && x.first != "read:in:short") soft = false;
	r.nontrivial = fired_of(w, "read:in") > 0;
	str o = j.output(w);
	if (j.proc->ok()) {
		str q = wrong_result(w, j, c);
		if (!q.empty()) { r.fail("wrong-result", "exit status 0 but " + q); return; }
		if (bad && !soft) { r.fail("error-ignored", "exit status 0 although reading the input failed"); return; }
		r.probes[bad ? "survived-interruption" : "no-error"]++;
		return;
	}
	if (j.proc->ek != E_EXIT) { r.fail("death", "ended with " + j.proc->status()); return; }
	if (j.errs().empty()) { r.fail("silent", j.proc->status() + " without any message"); return; }
	if (!bad) { r.fail("spurious", "failed although no read failed: " + tail(j.errs())); return; }
	r.probes["read-failed"]++;
	if (c.s.mode == M_ENC) { str q; if (ref::decrypt(c.s.pass, o, q)) { r.fail("sealed", fmt("the failed encryption left a file that decrypts to %zu of %zu bytes", q.size(), c.pt.size())); return; } }
	else if (c.pt.compare(0, o.size(), o) || o.size() > c.pt.size()) {
		str full = ref::aesctr(ref::scrypt(c.s.pass, c.h.salt, 1ull << c.h.logN, c.h.r, c.h.p, 64).substr(0, 32), c.ct.substr(96));
		if (j.s.outkind == OUT_OLD && o == j.s.old) return;
		if (full.compare(0, o.size(), o)) r.fail("garbage", "the failed decryption emitted bytes that are not part of the plaintext");
	}
}
static Reg r06({"C06", gen06, exec06, "one case = one enc or dec with read errors, interruptions or short reads at planned points of the input; non-trivial if one fired; distinct by event-log hash"});

// ---------------------------------------------------------------- C07
static const std::vector<std::vector<str>> &odd_args() {
	static const std::vector<std::vector<str>> v = {
		{}, {"enc"}, {"dec"}, {"info"}, {"frobnicate", "in"}, {"--version"}, {"--version", "x"}, {"enc", "-q", "in"}, {"enc", "in", "out", "more"}, {"info", "in", "out", "more"},
		{"enc", "-t", "nan", "in"}, {"enc", "-m", "nan", "in"}, {"enc", "-m", "0", "in"}, {"enc", "-m", "0.6", "in"}, {"enc", "-m", "-1", "in"}, {"enc", "-t", "-1", "in"}, {"enc", "-t", "inf", "in", "out"}, {"enc", "-t", "1e400", "in"}, {"enc", "-t", "", "in"}, {"enc", "-m", "0x", "in"},
		{"enc", "-M", "", "in"}, {"enc", "-M", "99999999999999999999999", "in"}, {"enc", "-M", "18EB", "in", "out"}, {"enc", "-M", "19EB", "in"}, {"enc", "-M", "1X", "in"}, {"enc", "-M", "-5", "in"}, {"enc", "-M", "0", "-t", "0.01", "in", "out"},
		{"enc", "--logN", "9", "-r", "1", "-p", "1", "in"}, {"enc", "--logN", "41", "-r", "1", "-p", "1", "in"}, {"enc", "--logN", "10", "in"}, {"enc", "-r", "1", "in"}, {"enc", "-p", "1", "in"}, {"enc", "--logN", "10", "-r", "33", "-p", "1", "in"}, {"enc", "--logN", "10", "-r", "0", "-p", "1", "in"}, {"enc", "--logN", "10", "-r", "1", "-p", "2049", "in"}, {"enc", "--logN", "10x", "-r", "1", "-p", "1", "in"}, {"enc", "--logN", "0x0a", "-r", "1", "-p", "1", "in", "out"}, {"enc", "--logN", "18446744073709551626", "-r", "1", "-p", "1", "in"}, {"enc", "--logN", "-1", "-r", "1", "-p", "1", "in"},
		{"dec", "--logN", "10", "-r", "1", "-p", "1", "in"}, {"dec", "-r", "2", "in"}, {"enc", "--passphrase", "bogus", "in"}, {"enc", "--passphrase", "dev:bogus", "in"}, {"enc", "--passphrase", "dev:", "in"}, {"enc", "--passphrase", ":", "in"}, {"enc", "--passphrase", "", "in"}, {"enc", "-P", "-P", "in"}, {"enc", "-P", "--passphrase", "env:X", "in"}, {"enc", "-P", "-"}, {"dec", "-P", "-"}, {"enc", "--passphrase", "env:X", "in"}, {"enc", "--passphrase", "env:", "in"}, {"enc", "--passphrase", "file:", "in"}, {"enc", "--passphrase", "file:nothere", "in"},
		{"enc", "-t"}, {"enc", "--logN"}, {"enc", "--passphrase"}, {"enc", "-tv", "in"}, {"enc", "-vf", "--", "in"}, {"enc", "--", "-in"}, {"enc", "--logN=10", "-r1", "-p1", "in", "out"}, {"enc", "-f=1", "in"}, {"dec", "--verbose", "in"}, {"enc", "", "out"}, {"dec", "in", ""}, {"info", "-"}, {"info", ""}, {"enc", "-v", "-v", "-f", "-f", "-t", "0.01", "in", "out"}, {"dec", "in", "in"},
	};
	return v;
}
static void build07(const Plan &pl, World &w, Job &j, Cmd &c) {
	i64 odd = pl.get("odd", -1);
	c = plan_cmd(pl);
	w.kdf_mode = 1; w.kdf_big = 4e5;
	if (odd >= 0) {
		c.s.mode = M_ENC; c.s.method = PM_ENV; c.s.inkind = IN_PATH; c.s.outkind = OUT_NEW;
		c.s.indata = c.pt;
		j = start_job(w, c.s);
		auto &a = odd_args()[(size_t)odd % odd_args().size()];
		j.proc->argv = {"scrypt"}; for (auto &x : a) j.proc->argv.push_back(x);
		Inode *t = w.node("/dev/tty", I_TTY); t->name = "tty"; t->script = {"pw\n", "pw\n"}; j.tty = t;
	} else { if (pl.get("mode") == M_INFO) c.s.method = PM_ENV; j = start_cmd(w, c); }
	if (pl.get("noargs")) j.proc->argv.clear();
	if (pl.get("tiny_as")) w.ram_avail = (u64)pl.get("tiny_as");
	if (pl.get("rl_as")) w.rl_as = (u64)pl.get("rl_as");
}
static void gen07(Rng &g, Plan &pl) {
	int mode = g.chance(10) ? M_INFO : g.chance(55) ? M_ENC : M_DEC;
	gen_cmd(g, pl, g.chance(80) ? 3000 : 140000, mode);
	if (g.chance(12)) { pl.set("odd", (i64)g.below(odd_args().size()), -1); if (g.chance(50)) return; }
	if (g.chance(8)) pl.set("tiny_as", g.range(1000, 3000000));
	if (g.chance(8)) pl.set("rl_as", g.range(0, 3000000));
	if (g.chance(10)) { pl.set("broken", g.range(1, 31)); pl.set("broken_pos", g.range(0, 255)); }
	if (g.chance(20)) { pl.set("mono_err", g.chance(40) ? EINVAL : 0); pl.set("cpu_err", g.chance(40) ? EINVAL : 0); }
	std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { Job j; Cmd c; build07(q, w, j, c); });
	if (s.empty()) return;
	// choose the kind first, so that rare kinds are as likely as frequent ones
	std::map<str, std::vector<size_t>> by;
	for (size_t i = 0; i < s.size(); i++) if (s[i].proc == 0) by[s[i].kind + " " + s[i].tgt].push_back(i);
	std::vector<str> keys; for (auto &x : by) keys.push_back(x.first);
	if (keys.empty()) return;
	int n = g.chance(60) ? 1 : g.chance(70) ? 2 : (int)g.range(3, 6);
	for (int i = 0; i < n; i++) { auto &v = by[g.pick(keys)]; add_fault_at(g, pl, s[v[g.below(v.size())]]); }
	if (g.chance(6)) { Fault f; f.kind = "any"; f.target = "*"; f.nth = (i64)g.below(s.size()); f.act = A_SIG; f.arg = g.pick(std::vector<i64>{SIGINT, SIGTERM, SIGHUP, SIGTSTP, SIGCONT, SIGPIPE, SIGALRM, SIGQUIT}); pl.faults.push_back(f); }
	if (g.chance(5)) { Fault f; f.kind = "any"; f.target = "*"; f.nth = (i64)g.below(s.size()); f.act = A_JUMP; f.arg = g.pick(std::vector<i64>{1000000, 3600000000ll, 5000001, -1000001, -3600000001ll}); if (f.arg < 0 && pl.get("mono_err")) f.arg = 1000000; pl.faults.push_back(f); }
}
static void exec07(const Plan &pl, Result &r) {
	World w(pl); begin(w, pl);
	w.max_steps = 400000;
	Job j; Cmd c; build07(pl, w, j, c);
	i64 odd = pl.get("odd", -1);
	w.run(); settle(w, j);
	finish_result(w, r);
	r.sample = describe(pl);
	r.nontrivial = w.nfired > 0 || odd >= 0;
	bool getopt_oom = optparse_oom(w, j);
	if (!clean_end(w, r, getopt_oom)) return;
	if (getopt_oom) { r.probes["option-parser-out-of-memory"]++; return; }
	Proc *p = j.proc;
	if (p->ek == E_SIGNAL) {
		bool sent = false; for (auto &x : p->sig_taken) sent |= x.sig == p->code && x.how == 'k';
		if (!sent) { r.fail("death", "ended with " + p->status()); return; }
		r.probes["signalled"]++; return;
	}
	bool errfault = fired_of(w, fmt("write:stderr%d", p->id)) > 0;
	if (p->ok()) {
		if (odd < 0 && c.s.mode != M_INFO) {
			bool consumer_left = j.drain && j.drain->ek == E_EXIT && j.drain->code == 1;
			bool feeder_bad = j.feeder && !j.feeder->ok();
			str q = wrong_result(w, j, c);
			if (!q.empty() && !consumer_left && !feeder_bad) { r.fail("wrong-result", "exit status 0 but " + q + "; stderr: " + tail(j.errs())); return; }
		} else if (odd < 0 && !contains(j.errs(), "N = ") && !errfault) { r.fail("wrong-result", "info printed nothing: " + j.errs()); return; }
		r.probes["succeeded-anyway"]++;
	} else {
		if (p->code == 0) { r.fail("death", p->status()); return; }
		if (j.errs().empty() && !errfault) { r.fail("silent", p->status() + " without any diagnostic"); return; }
		if (w.nfired == 0 && odd < 0 && w.fired.empty() && !pl.get("tiny_as") && !pl.get("rl_as") && !pl.get("mono_err") && !pl.get("cpu_err")) { r.fail("spurious", "failed without any fault: " + tail(j.errs())); return; }
		r.probes["failed-cleanly"]++;
	}
	if (odd >= 0) r.probes["odd-arguments"]++;
}
static Reg r07({"C07", gen07, exec07, "one case = one command (enc, dec, info or unusual arguments) with one to six faults placed on calls that the fault-free run makes (kinds weighted equally), memory or address-space ceilings, broken CPU features, unavailable clocks, signals, clock jumps; non-trivial if a fault fired or the arguments are unusual; distinct by event-log hash"});

// ---------------------------------------------------------------- C20
enum { Q_PASS, Q_MAGIC, Q_VERSION, Q_DAMAGE, Q_NOIN, Q_RDIN, Q_NOOUT, Q_WROUT, Q_FULL, Q_MEMKDF, Q_ALLOC, Q_URANDOM, Q_LIMMEM, Q_LIMTIME, Q_LIMBOTH, Q_RLIMIT, Q_CLOCK, Q_NOPASS, Q_CLOSE, Q_HEADDMG, Q_SHORT, Q_NONE, Q_PWRD, Q_N };
static void gen20(Rng &g, Plan &pl) {
	int q = (int)g.below(Q_N);
	int mode = -1;
	if (q == Q_PASS || q == Q_MAGIC || q == Q_VERSION || q == Q_DAMAGE || q == Q_LIMMEM || q == Q_LIMTIME || q == Q_LIMBOTH || q == Q_HEADDMG || q == Q_SHORT) mode = M_DEC;
	if (q == Q_URANDOM) mode = M_ENC;
	gen_cmd(g, pl, g.chance(70) ? 3000 : 140000, mode);
	pl.set("cause", q);
	if ((q == Q_MAGIC || q == Q_VERSION || q == Q_SHORT || q == Q_NOIN || q == Q_RDIN || q == Q_ALLOC || q == Q_NONE) && g.chance(20)) { pl.set("mode", M_INFO); pl.set("method", PM_ENV, PM_ENV); pl.set("outkind", 0); }
	mode = (int)pl.get("mode");
	pl.set("force", g.chance(40));
	auto fault = [&](const char *k, const char *t, i64 nth, i64 e, i64 cnt) { Fault f; f.kind = k; f.target = t; f.nth = nth; f.arg = e; f.count = cnt; pl.faults.push_back(f); };
	i64 n = pl.get("isize");
	switch (q) {
	case Q_DAMAGE: { Mut m; m.kind = g.pick(std::vector<str>{"body", "tail", "trunc", "ext"}); m.a = (i64)g.below((u64)n + 1); m.b = g.range(0, 40); pl.muts.push_back(m); break; }
	case Q_HEADDMG: { Mut m; m.kind = "head"; m.a = g.range(7, 63); m.b = g.range(0, 7); pl.muts.push_back(m); break; }
	case Q_SHORT: pl.set("cut", g.range(0, 95)); break;
	case Q_VERSION: pl.set("ver", g.range(1, 255)); break;
	case Q_NOIN: pl.set("inkind", IN_PATH); if (g.chance(70)) fault("open", "in", 0, g.pick(errnos_for("open", "in")), -1); else pl.set("no_in", 1); break;
	case Q_RDIN: fault("read", "in", g.chance(50) ? 0 : (i64)g.below((u64)(n / 4096 + 1)), g.pick(std::vector<i64>{EIO, EISDIR, ESTALE, ETIMEDOUT, EBADF}), -1); break;
	case Q_NOOUT: pl.set("outkind", g.range(OUT_NEW, OUT_OLD)); fault("open", "out", 0, g.pick(errnos_for("open", "out")), -1); break;
	case Q_WROUT: fault("write", "out", g.chance(50) ? 0 : (i64)g.below((u64)(n / 4096 + 1)), g.pick(std::vector<i64>{EIO, ENOSPC, EDQUOT, EFBIG}), -1); break;
	case Q_FULL: if (pl.get("outkind") == OUT_STDOUT_PIPE) pl.set("outkind", OUT_NEW); pl.set("cap", (i64)g.below((u64)out_size(pl) + 1), -1); if (pl.get("cap") >= out_size(pl)) pl.set("cap", out_size(pl) ? out_size(pl) - 1 : 0, -1); pl.set("full", g.pick(std::vector<i64>{ENOSPC, EDQUOT}), 28); break;
	case Q_CLOSE: pl.set("outkind", g.range(OUT_NEW, OUT_OLD)); fault("close", "out", 0, g.pick(std::vector<i64>{EIO, ENOSPC}), -1); break;
	case Q_MEMKDF: fault("mmap", "-", g.range(0, 1), ENOMEM, -1); break;
	case Q_ALLOC: fault("alloc", "-", g.range(1, 14), ENOMEM, g.chance(60) ? 1 : -1); break;
	case Q_URANDOM: switch (g.below(3)) { case 0: fault("open", "urandom", 0, g.pick(std::vector<i64>{ENOENT, EMFILE, EACCES}), -1); break; case 1: fault("read", "urandom", g.below(2), EIO, -1); break; default: { Fault f; f.kind = "read"; f.target = "urandom"; f.act = A_EOF; f.count = -1; pl.faults.push_back(f); } } break;
	case Q_LIMMEM: pl.set("force", 0); pl.set("logN", 18, 4); pl.set("r", 8, 1); break;
	case Q_LIMTIME: pl.set("force", 0); pl.set("logN", 12, 4); pl.set("r", 1, 1); pl.set("p", 2000, 1); break;
	case Q_LIMBOTH: pl.set("force", 0); pl.set("logN", 20, 4); pl.set("r", 8, 1); break;
	case Q_RLIMIT: pl.set("force", mode == M_ENC && g.chance(20)); pl.set("auto", mode == M_ENC); fault(g.chance(50) ? "getrlimit" : "sysinfo", "-", 0, g.pick(std::vector<i64>{EINVAL, EPERM}), -1); break;
	case Q_CLOCK: pl.set("force", 0); pl.set("auto", mode == M_ENC); if (g.chance(50)) { fault(g.pick(std::vector<str>{"clock_mono", "clock_cpu", "clock_getres"}).c_str(), "-", (i64)g.below(g.pick(std::vector<u64>{3, 7, 20, 80, 300})), g.pick(std::vector<i64>{EPERM, EFAULT, EOVERFLOW}), -1); break; } pl.set("mono_err", EINVAL); pl.set("cpu_err", EINVAL); pl.set("real_err", EINVAL); break;
	case Q_NOPASS: break;
	case Q_PWRD: {
		int m = g.pick(std::vector<int>{PM_TTY, PM_TTY_ONCE, PM_FILE, PM_STDIN_ONCE, PM_DASH_P}); const char *t = m == PM_FILE ? "pass" : m == PM_TTY || m == PM_TTY_ONCE ? "tty" : "stdin";
		pl.set("method", m, PM_ENV); pl.set("inkind", IN_PATH);
		if ((m == PM_FILE || m == PM_TTY_ONCE) && g.chance(30)) fault("open", t, 0, m == PM_FILE ? g.pick(std::vector<i64>{EACCES, EMFILE, EIO, ELOOP, ENOENT}) : g.pick(std::vector<i64>{ENXIO, EACCES, EIO}), -1);
		else if (m <= PM_TTY_ONCE && !strcmp(t, "tty") && g.chance(20)) fault("tcgetattr", t, 0, g.pick(std::vector<i64>{EIO, EPERM}), 1);
		else fault("read", t, m == PM_TTY && mode == M_ENC ? (i64)g.below(2) : 0, g.pick(std::vector<i64>{EIO, EISDIR, ESTALE, EBADF}), -1);
		break;
	}
	case Q_NONE: if (g.chance(30)) { pl.set("stub", mode == M_DEC); pl.set("force", 1); } break;
	default: break;
	}
	// ordinary (large) parameters; the derivation itself is replaced
	if (mode == M_DEC && (q == Q_PASS || q == Q_DAMAGE || q == Q_HEADDMG || q == Q_VERSION || q == Q_SHORT || q == Q_RDIN || q == Q_WROUT || q == Q_NOPASS) && g.chance(35)) {
		pl.set("stub", 1); pl.set("force", 1); pl.set("logN", g.range(7, 24), 4); pl.set("r", g.pick(std::vector<i64>{1, 8, 8, 16, 32}), 1); pl.set("p", g.range(1, 20), 1);
	}
}
static void exec20(const Plan &pl, Result &r) {
	Cmd c = plan_cmd(pl); int q = (int)pl.get("cause");
	World w(pl); begin(w, pl);
	if (pl.get("real_err")) w.clk_real_err = (int)pl.get("real_err");
	int kd = 0;
	if (c.s.mode == M_DEC) {
		bool lim = q == Q_LIMMEM || q == Q_LIMTIME || q == Q_LIMBOTH;
		bool stub = pl.get("stub");
		str dk = lim ? str(64, 'k') : stub ? ref::stub_dk(q == Q_PASS ? c.s.pass + "?" : c.s.pass, c.h.salt, 1ull << c.h.logN, c.h.r, c.h.p, 64) : ref::scrypt(c.s.pass, c.h.salt, 1ull << c.h.logN, c.h.r, c.h.p, 64);
		str x = ref::encrypt_dk(c.h, dk, c.pt);
		for (auto &m : pl.muts) {
			if (m.kind == "body" && x.size() > 128) x[96 + (size_t)((u64)m.a % (x.size() - 128))] ^= 1;
			else if (m.kind == "tail" || m.kind == "body") x[x.size() - 1 - (size_t)(m.b % 32)] ^= 1;
			else if (m.kind == "trunc") x.resize(x.size() - 1 - (size_t)((u64)m.b % (x.size() - 96)));
			else if (m.kind == "ext") x += str((size_t)(1 + m.b), 'x');
			else if (m.kind == "head") x[(size_t)m.a] ^= (char)(1 << (m.b & 7));
		}
		if (q == Q_MAGIC) x = x.substr(7);
		if (q == Q_VERSION) x[6] = (char)pl.get("ver", 1);
		if (q == Q_SHORT) x.resize((size_t)std::min<i64>(95, pl.get("cut")));
		if (q == Q_PASS && !stub) { ref::Hdr h = c.h; x = ref::encrypt(h, c.s.pass + "?", c.pt); }
		c.ct = x; c.s.indata = x; kd = lim || stub ? 2 : 1;
	}
	w.kdf_mode = kd; w.kdf_big = 4e5;
	if (c.s.mode == M_INFO) {
		str x = ref::encrypt_dk(c.h, str(64, 'k'), c.pt);
		if (q == Q_MAGIC) x = x.substr(7);
		if (q == Q_VERSION) x[6] = (char)pl.get("ver", 1);
		if (q == Q_SHORT) x.resize((size_t)std::min<i64>(95, pl.get("cut")));
		c.ct = x; c.s.indata = x; c.s.method = PM_ENV;
	}
	if (q == Q_LIMMEM) c.s.extra = {"-M", "1000000"};
	if (q == Q_LIMTIME) c.s.extra = {"-t", "0.5"}; // at 1e6 cores/s
	if (q == Q_LIMBOTH) c.s.extra = {"-M", "1000000", "-t", "0.5"};
	c.s.no_in = pl.get("no_in");
	c.s.no_pass = q == Q_NOPASS;
	Job j = start_cmd(w, c);
	w.run(); settle(w, j);
	finish_result(w, r);
	r.sample = describe(pl);
	if (!clean_end(w, r, optparse_oom(w, j)) || optparse_oom(w, j)) return;
	Proc *p = j.proc; const str &e = j.errs();
	if (p->ek == E_SIGNAL) return;
	bool fault = fired_of(w, "read:") || fired_of(w, "write:") || fired_of(w, "open:") || fired_of(w, "alloc:") || fired_of(w, "mmap:") || fired_of(w, "getrlimit:") || fired_of(w, "sysinfo:") || fired_of(w, "clock") || fired_of(w, "disk-full") || fired_of(w, "close:");
	bool intact = c.s.mode == M_ENC || q == Q_PASS || q == Q_NONE || (pl.muts.empty() && q != Q_MAGIC && q != Q_VERSION && q != Q_SHORT);
	auto has = [&](const char *t) { return contains(e, t); };
	bool m_pass = has("assphrase is incorrect"), m_inval = has("not valid scrypt"), m_ver = has("nrecognized scrypt format");
	r.nontrivial = !p->ok();
	r.probes[fmt("cause%d%s", q, p->ok() ? "-ok" : "")]++;
	if (p->ok()) {
		if (m_pass || m_inval || m_ver) r.fail("noise", "success with the message: " + e);
		else if (!w.nfired && w.fired.empty() && !pl.get("mono_err") && !c.s.verbose && !e.empty() && ((c.s.mode != M_INFO && c.s.method != PM_TTY && c.s.method != PM_TTY_ONCE) || has("scrypt:"))) r.fail("noise", "the command succeeded, nothing failed, and it complains: " + e);
		return;
	}
	if (e.empty()) { r.fail("silent", "no message"); return; }
	if (m_pass && (!intact || q != Q_PASS)) { r.fail("wrong-reason", fmt("cause %d reported as a wrong passphrase: ", q) + e); return; }
	if (m_inval && intact) { r.fail("wrong-reason", fmt("cause %d reported as a malformed file: ", q) + e); return; }
	if (m_ver && q != Q_VERSION && q != Q_DAMAGE) { r.fail("wrong-reason", fmt("cause %d reported as an unknown version: ", q) + e); return; }
	struct { int q; const char *must; } T[] = {
		{Q_PASS, "assphrase is incorrect"}, {Q_MAGIC, "not valid scrypt"}, {Q_VERSION, "nrecognized scrypt format"}, {Q_DAMAGE, "not valid scrypt"}, {Q_SHORT, "not valid scrypt"}, {Q_HEADDMG, "not valid scrypt"},
		{Q_LIMMEM, "too much memory"}, {Q_LIMTIME, "too much CPU time"}, {Q_LIMBOTH, "too much memory and CPU time"}, {Q_MEMKDF, "derived key"}, {Q_URANDOM, "salt"},
		{Q_RLIMIT, "available memory"}, {Q_CLOCK, "reading clocks"}};
	for (auto &t : T) if (t.q == q) {
		bool due = fault || q == Q_PASS || q == Q_MAGIC || q == Q_VERSION || q == Q_DAMAGE || q == Q_SHORT || q == Q_HEADDMG || q == Q_LIMMEM || q == Q_LIMTIME || q == Q_LIMBOTH;
		if (due && !has(t.must)) { r.fail("wrong-reason", fmt("cause %d: expected '%s' in: ", q, t.must) + e); return; }
		if (q == Q_LIMMEM && has("CPU time")) { r.fail("wrong-reason", "time blamed, only memory exceeds: " + e); return; }
		if (q == Q_LIMTIME && has("too much memory")) { r.fail("wrong-reason", "memory blamed, only time exceeds: " + e); return; }
	}
	// no other cause is named
	if (q != Q_ALLOC && q != Q_NOPASS) {
		struct { const char *t; std::vector<int> ok; } O[] = {
			{"available memory", {Q_RLIMIT}}, {"reading clocks", {Q_CLOCK}}, {"derived key", {Q_MEMKDF}}, {"reading salt", {Q_URANDOM}}, {"OpenSSL error", {}}, {"allocating memory", {Q_MEMKDF}},
			{"too much memory", {Q_LIMMEM, Q_LIMBOTH}}, {"too much CPU", {Q_LIMTIME}}, {"Error writing file", {Q_WROUT, Q_FULL, Q_CLOSE}}, {"Error reading file", {Q_RDIN}}, {"explicit parameters", {}}, {"Programmer error", {}}, {"close", {Q_CLOSE, Q_WROUT, Q_FULL}}};
		for (auto &o : O) if (has(o.t) && std::find(o.ok.begin(), o.ok.end(), q) == o.ok.end()) { r.fail("wrong-reason", fmt("cause %d reported as something else: ", q) + e); return; }
	}
	if (m_pass || m_inval || m_ver) return;
	auto named = [&](const char *what, const str &name, bool isstd, const char *stdname) { if (!has(what)) r.fail("wrong-reason", fmt("cause %d: expected '%s' in: ", q, what) + e); else if (!contains(e, isstd ? stdname : name)) r.fail("unnamed", str("the message does not name the file: ") + e); };
	int en = pl.faults.empty() ? 0 : (int)pl.faults[0].arg;
	if (q == Q_NOIN) { named("Cannot open input", ": " + j.inpath(), false, ""); if (!r.bad && !has(c.s.no_in ? strerror(ENOENT) : strerror(en))) r.fail("no-cause", "the system's reason is missing: " + e); }
	if (q == Q_NOOUT && fault) { named("Cannot open output", ": " + j.outpath(), false, ""); if (!r.bad && !has(strerror(en))) r.fail("no-cause", "the system's reason is missing: " + e); }
	bool oof = j.s.outkind == OUT_NEW || j.s.outkind == OUT_OLD;
	if (q == Q_RDIN && j.in && j.in->rfail) { named("reading file", "file: " + j.inpath(), j.s.inkind != IN_PATH, "standard input"); if (!r.bad && !has(strerror(en))) r.fail("no-cause", "the system's reason is missing: " + e); }
	if ((q == Q_WROUT || q == Q_FULL || q == Q_CLOSE) && j.out && (j.out->wfail || j.out->cfail)) { named("writing file", "file: " + j.outpath(), !oof, "standard output"); int x = q == Q_FULL ? (int)pl.get("full", 28) : en; if (!r.bad && !has(strerror(x)) && (q != Q_CLOSE || oof)) r.fail("no-cause", fmt("the system's reason (%s) is missing: ", strerror(x)) + e); }
	if (q == Q_PWRD && (fault || fired_of(w, "tcgetattr:"))) {
		if (!has(strerror(en))) { r.fail("no-cause", fmt("the system's reason (%s) is missing: ", strerror(en)) + e); return; }
		if (c.s.method == PM_FILE && !contains(e, c.s.dir + "pass")) { r.fail("unnamed", "the message does not name the passphrase file: " + e); return; }
	}
	if (q == Q_ALLOC && fault && !has(strerror(ENOMEM)) && !has("emory")) { r.fail("no-cause", "memory exhaustion is not mentioned: " + e); }
}
static Reg r20({"C20", gen20, exec20, "one case = one command that fails for exactly one planned cause out of 22, or for none; the diagnostics are compared with that cause, and a command for which nothing fails must be silent; non-trivial if the command failed; distinct by event-log hash"});

// ---------------------------------------------------------------- C21
static void gen21(Rng &g, Plan &pl) {
	gen_cmd(g, pl, g.chance(75) ? 5000 : 140000, g.chance(10) ? M_INFO : -1);
	pl.set("pass_len", g.range(16, 60), 10);
	if (pl.get("isize") < 64) pl.set("isize", g.range(64, 400));
	pl.set("verbose", g.chance(50));
	pl.set("wrongpass", pl.get("mode") == M_DEC && g.chance(25));
	if (pl.get("mode") != M_INFO && g.chance(15)) {
		pl.set("lib", 1); pl.set("verbose", g.chance(85)); if (g.chance(20)) pl.set("damage", g.range(1, 40));
		if (g.chance(25)) { Fault f; f.kind = g.pick(std::vector<str>{"alloc", "mmap", "read", "open", "clock_mono", "sysinfo"}); f.target = "*"; f.nth = (i64)g.below(8); f.arg = f.kind == "alloc" || f.kind == "mmap" ? ENOMEM : f.kind == "read" || f.kind == "open" ? EIO : EPERM; f.count = g.chance(50) ? -1 : 1; pl.faults.push_back(f); }
		return;
	}
	if (g.chance(20)) pl.set("src", g.range(1, 7)); // a passphrase source that must be refused, or is entered only after mistakes
	if (g.chance(55)) {
		std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { Cmd c = plan_cmd(q); if (c.s.mode == M_INFO) c.s.method = PM_ENV; start_cmd(w, c); });
		std::map<str, std::vector<size_t>> by;
		for (size_t i = 0; i < s.size(); i++) if (s[i].proc == 0) by[s[i].kind + " " + s[i].tgt].push_back(i);
		std::vector<str> keys; for (auto &x : by) keys.push_back(x.first);
		int n = g.chance(75) ? 1 : 2;
		for (int i = 0; i < n && !keys.empty(); i++) { auto &v = by[g.pick(keys)]; add_fault_at(g, pl, s[v[g.below(v.size())]]); }
	}
	if (g.chance(10)) { Fault f; f.kind = "any"; f.target = "*"; f.nth = (i64)g.below(200); f.act = A_SIG; f.arg = g.pick(std::vector<i64>{SIGINT, SIGTERM, SIGHUP, SIGTSTP}); pl.faults.push_back(f); }
	pl.set("twin", g.chance(45));
}
// what the plan asks for, with other secrets of the same form if twin is set; false: the two would not be comparable
static bool setup21(const Plan &pl, World &w, Cmd &c, std::map<str, u64> *probes) {
	c = plan_cmd(pl);
	if (c.s.mode == M_INFO) c.s.method = PM_ENV;
	str pass = c.s.pass;
	if (pl.get("wrongpass")) { c.s.pass[0] ^= 1; pass = c.s.pass; }
	w.forbid_dk = true;
	if (int src = c.s.mode == M_INFO || pass.size() < 16 ? 0 : (int)pl.get("src")) {
		str other = pass; other[3] ^= 1; if (other[3] == '\n' || other[3] == '\r' || !other[3]) other[3] = 'q';
		str lng; while (lng.size() < 2100) lng += pass;
		if (c.s.method == PM_FILE) {
			c.s.raw_pass = true;
			switch (src) { case 1: c.s.pass = pass + "\n" + other + "\n"; break; case 2: c.s.pass = pass + "\n\n"; break; case 3: c.s.pass = lng + "\n"; break; case 4: c.s.pass = lng; break; case 5: c.s.pass = "\n" + pass; break; case 6: c.s.pass = pass + "\r" + other; break; default: c.s.pass = pass + "\r\n" + lng; }
		} else if (c.s.method == PM_ENV) { c.s.pass = src & 1 ? pass + "\n" + lng : lng; }
		else {
			c.s.typed_set = true;
			switch (src) { case 1: c.s.typed = {pass + "\n", other + "\n"}; break; case 2: c.s.typed = {other + "\n", pass + "\n", pass + "\n", pass + "\n"}; break; case 3: c.s.typed = {lng + "\n", lng + "\n"}; break; case 4: c.s.typed = {pass + "\n", lng + "\n", other + "\n"}; break; case 5: c.s.typed = {"\n", pass + "\n"}; break; case 6: c.s.typed = {pass + "\n"}; break; default: c.s.typed = {pass + "\r" + other + "\n", pass + "\r" + pass + "\n"}; }
		}
		if (probes) (*probes)["odd-passphrase-source"]++;
		if (other.size() >= 16) { w.forbid.push_back(other.substr(0, 12)); w.forbid.push_back(other.substr(other.size() - 12)); }
	}
	if (c.s.mode != M_INFO) {
		if (pass.size() >= 16) { w.forbid.push_back(pass); w.forbid.push_back(pass.substr(0, 12)); w.forbid.push_back(pass.substr(pass.size() - 12)); w.forbid.push_back(hex(pass, 1000)); }
		if (c.pt.size() > 16) for (int i = 0; i < 6; i++) { // pieces of the plaintext
			size_t o = i == 0 ? 0 : i == 1 ? c.pt.size() - 16 : (size_t)(mix64(pl.seed, 4, (u64)i) % (c.pt.size() - 16));
			(c.s.mode == M_ENC ? w.forbid : w.forbid_diag).push_back(c.pt.substr(o, 16));
		}
	}
	return pass.find_first_of(str("\r\n\0", 3)) == str::npos;
}
// the library on buffers: nothing it says or returns may depend on the secrets
struct Lib21 { int rc = -1; str errs, out, status; size_t len = 0; bool said = false; };
static Lib21 lib21(const Plan &pl, Result &r, bool main) {
	Lib21 o; World w(pl); begin(w, pl); w.kdf_mode = 0;
	str pass = plan_pass(pl), pt = plan_data(pl); ref::Hdr h = plan_hdr(pl);
	bool enc = pl.get("mode") == M_ENC, verbose = pl.get("verbose"), force = pl.get("force"), autop = pl.get("auto");
	str in = enc ? pt : ref::encrypt(h, pass, pt), given = pass; if (pl.get("wrongpass") && !enc && !given.empty()) given[0] ^= 1;
	if (i64 d = pl.get("damage")) if (!enc) in[in.size() - 1 - (size_t)(d % 40)] ^= 4;
	str *out = &o.out; out->assign(in.size() + 200, 0); size_t *len = &o.len; int *rc = &o.rc;
	Proc *p = w.spawn_fn("caller", [=]() {
		api_setprogname();
		if (enc) { *rc = api_enc_buf((const u8 *)in.data(), in.size(), (u8 *)&(*out)[0], (const u8 *)given.data(), given.size(), 0, 0.125, 0.01, autop ? 0 : 10, autop ? 0 : 1, autop ? 0 : 1, verbose, force); *len = in.size() + 128; }
		else *rc = api_dec_buf((const u8 *)in.data(), in.size(), (u8 *)&(*out)[0], len, (const u8 *)given.data(), given.size(), 0, 0.5, 300, verbose, force);
		return 0;
	});
	w.run(); if (main) { finish_result(w, r); clean_end(w, r); }
	o.status = p->status(); o.errs = w.err(p);
	for (auto &d : p->dks) for (size_t i = 0; i < 64; i += 16) if (contains(o.errs, d.substr(i, 16)) || contains(o.errs, hex(d.substr(i, 8)))) o.said = true;
	if (pass.size() >= 12 && contains(o.errs, pass.substr(0, 12))) o.said = true;
	return o;
}
static void exec21_lib(const Plan &pl, Result &r) {
	r.sample = describe(pl); r.nontrivial = true;
	Lib21 a = lib21(pl, r, true); if (r.bad) return;
	if (a.said) { r.fail("leak", "the library printed a secret: " + a.errs); return; }
	Plan q = pl; q.set("pass_seed", (i64)(mix64((u64)pl.get("pass_seed", 1), 31) & 0xfffff) + 1, 1); q.set("data_seed", (i64)(mix64((u64)pl.get("data_seed", 1), 32) & 0xfffff) + 1, 1);
	Lib21 b = lib21(q, r, false);
	if (a.status != b.status || a.rc != b.rc) r.fail("leak", fmt("the outcome depends on the secrets: %d and %d", a.rc, b.rc));
	else if (a.errs != b.errs) r.fail("leak", "the diagnostics depend on the secrets: " + a.errs + " and " + b.errs);
	else if (a.rc == 0 && a.len != b.len) r.fail("leak", "the length of the result depends on the secrets");
	else if (a.rc == 0 && pl.get("mode") == M_ENC && a.out.compare(0, 48, b.out, 0, 48)) r.fail("leak", "parameters or salt depend on the secrets");
	r.probes[a.rc ? "library-failure" : "library-success"]++;
}
static void exec21(const Plan &pl, Result &r) {
	if (pl.get("lib")) { exec21_lib(pl, r); return; }
	World w(pl); begin(w, pl);
	Cmd c; bool cmp = setup21(pl, w, c, &r.probes);
	Job j = start_cmd(w, c);
	w.forbid_out = j.out; // created later for OUT_NEW
	w.on_call = [&w, &j](Proc *, const char *k) { if (!w.forbid_out && !strcmp(k, "write") && w.fs.count(j.outpath())) w.forbid_out = w.fs[j.outpath()]; };
	struct Snap { Inode *i; str d; InoType t; }; std::vector<std::pair<str, Snap>> before;
	for (auto &f : w.fs) before.push_back({f.first, {f.second, f.second->data, f.second->type}});
	str envpass = j.proc->env.count("SCRYPT_PW") ? j.proc->env["SCRYPT_PW"] : "";
	if (j.feeder) { /* the harness's own producer hands over the plaintext */ }
	// only what the command itself writes counts
	if (j.feeder) { w.tails.clear(); }
	w.run(); settle(w, j);
	finish_result(w, r);
	r.sample = describe(pl);
	r.nontrivial = true;
	if (!clean_end(w, r, optparse_oom(w, j))) return;
	if (!w.forbid_hit.empty()) { r.fail("leak", w.forbid_hit); return; }
	for (auto &b : before) {
		auto it = w.fs.find(b.first);
		if (b.first == j.outpath()) continue;
		if (it == w.fs.end() || it->second != b.second.i) { r.fail("footprint", b.first + " was removed or replaced"); return; }
		if (b.second.t == I_REG && it->second->data != b.second.d) { r.fail("footprint", b.first + " was modified"); return; }
		if (it->second->opens_w && b.second.t != I_TTY && b.second.t != I_NULL) { r.fail("footprint", b.first + " was opened for writing"); return; }
	}
	for (auto &f : w.fs) { bool old = false; for (auto &b : before) old |= b.first == f.first; if (!old && f.first != j.outpath()) { r.fail("footprint", "file " + f.first + " was created"); return; } }
	for (auto i : w.inodes) if (!i->meta.empty() && (i != j.out || j.s.outkind == OUT_OLD)) { r.fail("footprint", "the " + i->meta + " of " + i->name + " was changed"); return; }
	if (!w.unlinked.empty()) { r.fail("footprint", w.unlinked[0] + " was removed or renamed"); return; }
	if (c.s.mode == M_INFO && (j.outfile_exists(w) && j.s.outkind == OUT_NEW)) { r.fail("footprint", "info created a file"); return; }
	for (auto i : w.inodes) if (i->opens_w && i != j.out && i->type != I_TTY && i->type != I_NULL && !(i->name == j.s.tag + "out")) { r.fail("footprint", i->name + " was opened for writing"); return; }
	if (j.in && j.in->type == I_REG && j.in->bytes_in) { r.fail("footprint", "the input was written to"); return; }
	if (j.so != j.out && j.so->data.size() && c.s.mode != M_INFO) { r.fail("footprint", "data on standard output"); return; }
	bool data_as_pass = (c.s.method == PM_TTY || c.s.method == PM_TTY_ONCE) && w.fired_any("open:"); // no terminal: the data is read as passphrase
	if (cmp && !data_as_pass && pl.get("twin")) { // the same command with other secrets must look the same to an observer
		Plan q = pl; q.set("pass_seed", (i64)(mix64((u64)pl.get("pass_seed", 1), 31) & 0xfffff) + 1, 1); q.set("data_seed", (i64)(mix64((u64)pl.get("data_seed", 1), 32) & 0xfffff) + 1, 1);
		World v(q); begin(v, q); Cmd d; if (!setup21(q, v, d, nullptr)) return;
		Job k = start_cmd(v, d); v.forbid_out = k.out;
		v.on_call = [&v, &j](Proc *, const char *y) { if (!v.forbid_out && !strcmp(y, "write") && v.fs.count(j.outpath())) v.forbid_out = v.fs[j.outpath()]; };
		v.run(); settle(v, k);
		r.probes["compared-with-other-secrets"]++;
		if (v.forbid_hit.size()) { r.fail("leak", v.forbid_hit); return; }
		if (k.proc->status() != j.proc->status()) { r.fail("leak", "with other secrets of the same length the command ends differently: " + k.proc->status() + " instead of " + j.proc->status()); return; }
		if (k.errs() != j.errs()) { r.fail("leak", "the diagnostics depend on the secrets: " + j.errs() + " and " + k.errs()); return; }
		if (k.outfile_exists(v) != j.outfile_exists(w)) { r.fail("leak", "whether the output is created depends on the secrets"); return; }
		str a = j.output(w), b = k.output(v);
		if (a.size() != b.size()) { r.fail("leak", fmt("the length of the output depends on the secrets: %zu and %zu bytes", a.size(), b.size())); return; }
		if (c.s.mode == M_ENC && a.compare(0, 48, b, 0, 48)) { r.fail("leak", "parameters or salt depend on the secrets"); return; }
		if (j.so != j.out && k.so->data != j.so->data) { r.fail("leak", "what is printed depends on the secrets"); return; }
		if (j.tty && k.tty && j.tty->ttyout != k.tty->ttyout) { r.fail("leak", "what is shown on the terminal depends on the secrets"); return; }
	}
	r.probes[j.proc->ok() ? "success" : "failure"]++;
}
static Reg r21({"C21", gen21, exec21, "one case = one command (half of them failing through a planned fault, a wrong passphrase or a signal) during which every write is searched for the passphrase, the derived keys and the plaintext, and the file system is compared before and after; all non-trivial; distinct by event-log hash"});
