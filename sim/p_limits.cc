// C12 automatic parameters, C13 limits on decryption.
#include "cli.h"
#include "api.h"
#include <cerrno>
#include <cmath>

// ---------------------------------------------------------------- machine
static i64 logu(Rng &g, int lo, int hi) { // log-uniform around powers of two
	int b = (int)g.range(lo, hi); i64 v = 1ll << b;
	switch (g.below(5)) { case 0: return v; case 1: return v - 1; case 2: return v + 1; case 3: return v + (i64)g.below((u64)v); default: return v + v / 2; }
}
static void gen_machine(Rng &g, Plan &pl) {
	pl.set("ram", logu(g, 18, 44));
	pl.set("munit", g.pick(std::vector<i64>{1, 1, 1, 4096, 1024, 65536}), 1);
	if (g.chance(35)) pl.set("as", logu(g, 18, 42));
	if (g.chance(25)) pl.set("rss", logu(g, 18, 42));
	if (g.chance(20)) pl.set("data", logu(g, 18, 42));
	int m = (int)g.below(10);
	if (m < 6) pl.set("phys", 0);                 // the same amount as sysinfo says
	else if (m < 8) { pl.set("phys", g.range(64, 1 << 28)); if (g.chance(50)) pl.set("pgsz", g.pick(std::vector<i64>{16384, 65536, 8192}), 4096); }
	else pl.set("sysconf", m - 7);
	pl.set("speed", g.pick(std::vector<i64>{20000, 100000, 500000, 1000000, 1000000, 2000000, 5000000, 10000000}), 1000000);
	pl.set("tick_us", g.pick(std::vector<i64>{1, 10, 1000, 1000, 4000, 10000, 15600}), 1000);
	if (g.chance(20)) pl.set("res_ns", g.pick(std::vector<i64>{1, 1000, 1000000, 10000000, 50000000}), -1);
	if (g.chance(10)) pl.set("mono_err", g.pick(std::vector<i64>{EINVAL, ENOSYS}));
	else if (g.chance(20)) { Fault f; f.kind = g.pick(std::vector<str>{"clock_mono", "kdf", "any"}); f.target = "*"; f.nth = (i64)g.below(60); f.act = A_JUMP; f.arg = g.chance(50) ? g.range(-3000000, -1) : 2 * g.range(0, 3000000) + 1; pl.faults.push_back(f); } // the wall clock is set
	if (g.chance(15)) { Fault f; f.kind = g.pick(std::vector<str>{"clock_mono", "kdf"}); f.target = "*"; f.nth = (i64)g.below(60); f.act = A_JUMP; f.arg = 2 * g.range(1, 500000); pl.faults.push_back(f); pl.set("stall", 1); } // the machine is busy
	pl.set("urseed", g.range(1, 1 << 20), 1);
}
static void set_machine(World &w, const Plan &pl) {
	w.mem_unit = (u32)pl.get("munit", 1); w.totalram = (u64)pl.get("ram", 1ll << 30) / w.mem_unit * w.mem_unit;
	if (pl.k.count("as")) w.rl_as = (u64)pl.get("as");
	if (pl.k.count("rss")) w.rl_rss = (u64)pl.get("rss");
	if (pl.k.count("data")) w.rl_data = (u64)pl.get("data");
	w.pagesize = pl.get("pgsz", 4096); w.sysconf_mode = (int)pl.get("sysconf");
	w.physpages = pl.get("phys") ? pl.get("phys") : (i64)(w.totalram / (u64)w.pagesize);
	w.kdf_mode = 2;
}
static u64 least_mem(World &w) {
	u64 m = g_alt ? ~0ull : w.totalram;   // (a machine without sysinfo; and there the data segment holds the memory)
	if (g_alt && w.rl_data < m) m = w.rl_data;
	if (w.rl_as < m) m = w.rl_as;
	if (w.rl_rss < m) m = w.rl_rss;
	if (w.sysconf_mode == 0 && (u64)w.pagesize * (u64)w.physpages < m) m = (u64)w.pagesize * (u64)w.physpages;
	return m;
}
struct Lim { u64 mem_lo, mem_hi; double ops_lo, ops_hi, v_lo, v_hi; };
static Lim limits(World &w, const Plan &pl, u64 maxmem, double frac, double maxtime) {
	Lim l; double x = frac * (double)least_mem(w);
	int e; bool exact = frexp(frac, &e) == 0.5;
	auto fin = [&](double v) { u64 m = v <= 0 ? 0 : (u64)v; if (maxmem && m > maxmem) m = maxmem; if (m < 1048576) m = 1048576; return m; };
	l.mem_lo = fin(exact ? x : x - 1); l.mem_hi = fin(exact ? x : x + 1);
	// what a faithful measurement of this machine's speed can come out as
	double tick = (double)w.tick / 1e9, res = w.res_report >= 0 ? (double)w.res_report / 1e9 : tick;
	double d = std::max(1.0, ceil(res / tick - 1e-9)) * tick, // (rounding may let a difference equal to the resolution pass)
	        c1 = 512 / w.cores_per_s + 3e-6, c0 = 64 / w.cores_per_s + 3e-6;
	if (c1 > d) d = std::max(d, floor(c1 / tick) * tick);
	double usec = 2e-6; // time is kept in microseconds
	double hi = 1 + (std::min(tick, c1) + usec) / std::max(d - usec, 1e-6) + 0.01, lo = 1 - (std::min(tick, c0) + usec) / d - 0.06;
	if (pl.get("stall")) lo = 0;
	if (lo < 0) lo = 0;
	l.v_lo = w.cores_per_s * lo; l.v_hi = w.cores_per_s * hi;
	l.ops_lo = l.v_lo * maxtime; l.ops_hi = l.v_hi * maxtime;
	return l;
}
static void gen_opts(Rng &g, Plan &pl) {
	if (g.chance(45)) pl.set("M", g.chance(15) ? g.range(0, 2000000) : g.chance(20) ? (i64)ref::round_size(g) : logu(g, 16, 40), -1);
	if (g.chance(60)) pl.set("m", g.chance(50) ? 1ll << g.below(18) : g.range(1, 262144), -1); // 1/524288ths: at most 0.5
	pl.set("t_us", g.chance(10) ? 0 : g.chance(10) ? 1ll << 50 : logu(g, 8, 33), -1);
	pl.set("unit", (i64)g.below(6));
}
static str size_text(u64 v, int unit) {
	static const u64 mul[] = {1, 1000, 1000000, 1000000000ull}; static const char *pf[] = {"", "k", "M", "G"};
	int u = unit % 4; while (u && v % mul[u]) u--;
	return std::to_string(v / mul[u]) + (unit >= 4 ? " " : "") + pf[u] + (unit % 2 ? "B" : "");
}
struct Opt { u64 maxmem; double frac, t; std::vector<str> args; };
static Opt opts(const Plan &pl, bool enc) {
	Opt o; o.maxmem = 0; o.frac = enc ? 0.125 : 0.5; o.t = enc ? 5 : 300;
	if (pl.k.count("M")) { o.maxmem = (u64)pl.get("M"); o.args.push_back("-M"); o.args.push_back(size_text(o.maxmem, (int)pl.get("unit"))); }
	if (pl.k.count("m")) { i64 m = pl.get("m"); if (m < 1) m = 1; if (m > 262144) m = 262144; o.frac = (double)m / 524288; o.args.push_back("-m"); o.args.push_back(fmt("%.17g", o.frac)); }
	if (pl.k.count("t_us")) { o.t = (double)pl.get("t_us") / 1e6; str s = fmt("%.6f", o.t); o.t = strtod(s.c_str(), nullptr); o.args.push_back("-t"); o.args.push_back(s); }
	return o;
}
static str check_verbose(const str &e, int logN, u32 r, u32 p, const Lim &l, double maxtime, bool est) {
	str want = fmt("Parameters used: N = %llu; r = %u; p = %u;", 1ull << logN, r, p);
	if (!contains(e, want)) return "-v does not show the parameters used (" + want + "): " + e;
	long double need = 128.0L * (long double)(1ull << logN) * r; u64 needb = need > 18446744073709551615.0L ? ~0ull : (u64)need; str got;
	if (!ref::shown_size(e, "at least ", needb, needb, got)) return fmt("-v shows '%s' instead of the %llu bytes needed: ", got.c_str(), (unsigned long long)needb) + e;
	size_t i = e.find("approximately ");
	if (!est) return "";
	if (!ref::shown_size(e, " of memory (", l.mem_lo, l.mem_hi, got)) return fmt("-v shows '%s' instead of the %llu..%llu bytes available: ", got.c_str(), (unsigned long long)l.mem_lo, (unsigned long long)l.mem_hi) + e;
	size_t lim = e.find("limit: ");
	if (lim == str::npos || fabs(atof(e.c_str() + lim + 7) - maxtime) > 0.0501 + maxtime * 1e-9) return fmt("-v does not show the limit of %.1f seconds: ", maxtime) + e;
	if (i == str::npos) return "-v shows no estimate of the time: " + e;
	double s = atof(e.c_str() + i + 14), ops = 4.0 * pow(2, logN) * r * p;
	if (s < ops / l.v_hi - 0.051 - ops / l.v_hi * 1e-6 || (l.v_lo > 0 && s > ops / l.v_lo + 0.051 + ops / l.v_lo * 1e-6)) return fmt("-v estimates %.1f seconds for %.6g operations at %.6g/s: ", s, ops, l.v_hi) + e;
	return "";
}
// ---------------------------------------------------------------- C12
static void gen12(Rng &g, Plan &pl) {
	gen_machine(g, pl); gen_opts(g, pl);
	pl.set("isize", g.range(0, 40)); pl.set("pass_seed", g.range(1, 1 << 20), 1);
	pl.set("force", g.chance(30)); pl.set("verbose", g.chance(40));
	if (g.chance(25)) { pl.set("buf", g.range(1, 2)); if (g.chance(30)) pl.set("m", g.chance(30) ? 524288 : g.range(262144, 524288), -1); }
}
static void exec12(const Plan &pl, Result &r) {
	World w(pl); w.keep_log = pl.get("_log"); set_machine(w, pl);
	Opt o = opts(pl, true); str pass = plan_pass(pl), pt = plan_data(pl), ct, errs;
	Proc *p;
	r.sample = describe(pl); r.nontrivial = true;
	if (pl.get("buf")) {
		if (pl.k.count("m")) { i64 m = pl.get("m"); o.frac = (double)std::min<i64>(least_mem(w) > 1ull << 60 ? 524287 : 524288, m < 1 ? 1 : m) / 524288; }
		auto rc = std::make_shared<int>(-1); auto ob = std::make_shared<str>(pt.size() + 128, 0);
		bool file = pl.get("buf") == 2; Inode *sink = w.anon("out", I_REG), *src = w.file("in", pt);
		(void)src; w.fs["out"] = sink;
		p = w.spawn_fn("enc", [=, &pl]() {
			api_setprogname();
			if (!file) return *rc = api_enc_buf((const u8 *)pt.data(), pt.size(), (u8 *)&(*ob)[0], (const u8 *)pass.data(), pass.size(), o.maxmem, o.frac, o.t, 0, 0, 0, (int)pl.get("verbose"), (int)pl.get("force"));
			FILE *i = sim_fopen("in", "rb"), *f = sim_fopen("out", "wb");
			*rc = api_enc_file(i, f, (const u8 *)pass.data(), pass.size(), o.maxmem, o.frac, o.t, 0, 0, 0, (int)pl.get("verbose"), (int)pl.get("force"));
			sim_fclose(i); sim_fclose(f); return *rc; });
		w.run(); ct = file ? sink->data : *ob; errs = w.err(p);
		finish_result(w, r); if (!clean_end(w, r)) return;
		if (*rc) { r.fail("failed", fmt("encryption returned %d; stderr: ", *rc) + errs); return; }
		r.probes["library"]++;
	} else {
		Spec s; s.mode = M_ENC; s.pass = pass; s.indata = pt; s.force = pl.get("force"); s.verbose = pl.get("verbose"); s.extra = o.args;
		Job j = start_job(w, s); p = j.proc;
		w.run(); settle(w, j); finish_result(w, r); if (!clean_end(w, r)) return;
		errs = j.errs();
		if (!p->ok()) { r.fail("failed", "enc ended with " + p->status() + "; stderr: " + errs); return; }
		ct = j.output(w);
	}
	if (ct.size() != pt.size() + 128) { r.fail("output", "wrong output size"); return; }
	ref::Hdr h; h.logN = (u8)ct[7]; h.r = ref::rd32(ct, 8); h.p = ref::rd32(ct, 12); h.salt = ct.substr(16, 32);
	if (h.logN < 1 || h.logN > 63 || !h.r || !h.p || (u64)h.r * h.p >= 1u << 30) { r.fail("invalid-params", fmt("the picked parameters are invalid: logN=%d r=%u p=%u", h.logN, h.r, h.p)); return; }
	str what = fmt("logN=%d r=%u p=%u", h.logN, h.r, h.p);
	str dk = ref::stub_dk(pass, h.salt, 1ull << h.logN, h.r, h.p, 64);
	if (ct != ref::encrypt_dk(h, dk, pt)) { r.fail("not-recorded", "the parameters in the file (" + what + ") are not the ones used for deriving its key"); return; }
	Lim l = limits(w, pl, o.maxmem, o.frac, o.t);
	double mem = 128.0 * pow(2, h.logN) * h.r, ops = 4 * pow(2, h.logN) * h.r * (double)h.p;
	what += fmt(" need %.6g bytes and %.6g operations; allowed %llu bytes and %.6g..%.6g operations", mem, ops, (unsigned long long)l.mem_hi, l.ops_lo, l.ops_hi);
	r.sig = mix64(r.sig, h.logN, h.p);
	if (mem > (double)l.mem_hi) { r.fail("too-much-memory", what); return; }
	double hi = std::max(l.ops_hi, 32768.0), lo = std::max(l.ops_lo, 32768.0);
	if (ops > hi) { r.fail("too-much-time", what); return; }
	if (2 * mem <= (double)l.mem_lo && 8 * pow(2, h.logN) * h.r * 1.0 <= lo * 0.999999) { r.fail("weak-N", "twice the work factor would have been within the limits: " + what); return; }
	if (4 * pow(2, h.logN) * h.r * ((double)h.p + 1) <= lo * 0.999999 && (u64)h.r * (h.p + 1) <= 0x3fffffff) { r.fail("weak-p", "more parallelism would have been within the limits: " + what); return; }
	if (pl.get("verbose")) { str v = check_verbose(errs, h.logN, h.r, h.p, l, o.t, true); if (!v.empty()) { r.fail("estimate", v); return; } }
	r.probes[h.p == 1 ? "time-bound" : "memory-bound"]++;
	if (l.mem_hi == 1048576) r.probes["memory-floor"]++;
	if (l.ops_hi < 32768) r.probes["work-floor"]++;
	if (pl.get("mono_err")) r.probes["wall-clock-fallback"]++;
}
static Reg r12({"C12", gen12, exec12, "one case = one encryption with automatic parameters on a simulated machine (memory, process limits, speed, clock granularity, stalls, wall-clock settings, -M -m -t or library arguments); the picked parameters are compared with limits computed independently from the simulated truth; every case non-trivial; distinct by event-log hash and picked parameters"});

// ---------------------------------------------------------------- C13
enum { O_DEC, O_DECBUF, O_ENC };
static void gen13(Rng &g, Plan &pl) {
	gen_machine(g, pl); gen_opts(g, pl);
	if (pl.get("t_us", -1) == 1ll << 50) pl.k.erase("t_us");
	int op = g.chance(60) ? O_DEC : g.chance(40) ? O_DECBUF : O_ENC;
	pl.set("op", op);
	pl.set("isize", g.range(0, 300)); pl.set("pass_seed", g.range(1, 1 << 20), 1); pl.set("salt_seed", g.range(1, 1 << 20), 1);
	pl.set("force", g.chance(op == O_ENC ? 20 : 15)); pl.set("verbose", g.chance(30));
	pl.set("outkind", g.below(2));
	// parameters around this machine's limits
	World w(pl); set_machine(w, pl);
	Opt o = opts(pl, op == O_ENC); Lim l = limits(w, pl, o.maxmem, o.frac, o.t);
	i64 r = 8, p = 1; int logN = 14;
	switch (g.below(7)) {
	case 0: logN = (int)g.range(1, 63); r = 1ll << g.below(15); p = 1ll << g.below(15); break;                              // anything valid
	case 1: case 2: case 3: {                                                                                                // memory near the limit
		r = g.chance(50) ? 8 : 1 + (i64)g.below(40); double n = log2((double)l.mem_hi / 128 / (double)r);
		logN = (int)(n < 1 ? 1 : n) + (int)g.range(-1, 2);
		if (g.chance(40)) { u64 N = 1ull << (logN < 1 ? 1 : logN > 40 ? 40 : logN); r = (i64)(l.mem_hi / 128 / N) + g.range(-1, 2); }
		break; }
	case 4: case 5: {                                                                                                        // time near the limit
		r = 1 + (i64)g.below(16); p = 1 + (i64)g.below(8); double n = log2(l.ops_hi / 4 / (double)(r * p) + 1); logN = (int)n + (int)g.range(-1, 2);
		if (g.chance(50) && logN > 1) { double q = l.ops_hi / 4 / pow(2, logN) / (double)r; p = q > 1e6 ? 1000000 : (i64)q + g.range(-1, 2); }
		break; }
	case 6: logN = g.pick(std::vector<int>{0, 64, 200, 1, 63, 62, 61}); r = g.pick(std::vector<i64>{0, 1, 8, 1 << 15, 1 << 29, 0x3fffffff, 1 << 30}); p = g.pick(std::vector<i64>{0, 1, 2, 1 << 15, 1 << 29, 0x3fffffff, 0xffffffffll}); break;
	}
	if (op == O_ENC) { logN = logN < 10 ? 10 : logN > 40 ? 40 : logN; r = r < 1 ? 1 : r > 32 ? 32 : r; p = p < 1 ? 1 : p > 2048 ? 2048 : p; }
	else { if (logN < 0) logN = 1; if (r < 0) r = 1; if (p < 0) p = 1; if (r > 0xffffffffll) r = 1; if (p > 0xffffffffll) p = 1; if (logN == 0 && g.chance(80)) logN = 1; if (!r && g.chance(80)) r = 1; if (!p && g.chance(80)) p = 1; }
	pl.set("logN", logN, 4); pl.set("r", r, 1); pl.set("p", p, 1);
	if (op != O_ENC && g.chance(6)) { Fault f; f.kind = g.pick(std::vector<str>{"sysinfo", "getrlimit", "clock_mono", "clock_getres", "sysconf"}); f.target = "-"; f.nth = f.kind == "clock_mono" ? (i64)g.below(6) : (i64)g.below(2); f.arg = EPERM; f.count = g.chance(50) ? -1 : 1; pl.faults.push_back(f); }
}
static void exec13(const Plan &pl, Result &r) {
	World w(pl); w.keep_log = pl.get("_log"); set_machine(w, pl);
	int op = (int)pl.get("op"); bool force = pl.get("force"), verbose = pl.get("verbose");
	Opt o = opts(pl, op == O_ENC);
	ref::Hdr h = plan_hdr(pl); h.logN &= 255; str pass = plan_pass(pl), pt = plan_data(pl);
	bool valid = h.logN >= 1 && h.logN <= 63 && h.r && h.p && (u64)h.r * h.p < 1u << 30;
	str dk = ref::stub_dk(pass, h.salt, 1ull << (h.logN & 63), h.r, h.p, 64), ct = ref::encrypt_dk(h, dk, pt), errs, got;
	int rc = -1; Proc *p; Job j; bool touched = false;
	r.sample = describe(pl);
	if (op == O_DECBUF) {
		auto ob = std::make_shared<str>(ct.size() + 1, 0); auto ol = std::make_shared<size_t>(0); auto rcp = std::make_shared<int>(-1);
		p = w.spawn_fn("dec", [=]() { api_setprogname(); return *rcp = api_dec_buf((const u8 *)ct.data(), ct.size(), (u8 *)&(*ob)[0], ol.get(), (const u8 *)pass.data(), pass.size(), o.maxmem, o.frac, o.t, verbose, force); });
		w.run(); finish_result(w, r); if (!clean_end(w, r)) return;
		rc = *rcp; errs = w.err(p); got = ob->substr(0, *ol); touched = *ob != str(ct.size() + 1, 0);
	} else {
		Spec s; s.mode = op == O_ENC ? M_ENC : M_DEC; s.pass = pass; s.indata = op == O_ENC ? pt : ct; s.force = force; s.verbose = verbose; s.extra = o.args; s.outkind = (int)pl.get("outkind");
		if (op == O_ENC) { s.logN = h.logN; s.r = h.r; s.p = h.p; }
		j = start_job(w, s); p = j.proc;
		w.run(); settle(w, j); finish_result(w, r); if (!clean_end(w, r)) return;
		if (p->ek != E_EXIT) { r.fail("death", p->status()); return; }
		rc = p->code; errs = j.errs(); got = j.output(w);
		touched = s.outkind == OUT_NEW ? j.outfile_exists(w) : j.out && (j.out->opens_w || j.out->data != s.old);
	}
	Lim l = limits(w, pl, o.maxmem, o.frac, o.t);
	auto at = [&](const char *k) { return w.fired_any(k); };
	bool broken = at("sysinfo:") || at("getrlimit:") || at("sysconf:") || at("clock_mono:") || at("clock_getres:");
	double mem = 128.0 * pow(2, h.logN) * h.r, ops = 4 * pow(2, h.logN) * (double)h.r * h.p;
	str what = fmt("logN=%d r=%u p=%u need %.8g bytes and %.6g operations; allowed %llu bytes and %.6g..%.6g operations%s; ", h.logN, h.r, h.p, mem, ops, (unsigned long long)l.mem_hi, l.ops_lo, l.ops_hi, force ? " (forced)" : "") + (rc ? "refused, stderr: " : "accepted, stderr: ") + errs;
	bool m_sure = mem > (double)l.mem_hi, m_ok = mem <= (double)l.mem_lo, t_sure = ops > l.ops_hi * 1.000001, t_ok = ops < l.ops_lo * 0.999999;
	r.nontrivial = true;
	int MB = api_rc("SCRYPT_ETOOBIG"), TS = api_rc("SCRYPT_ETOOSLOW"), BS = api_rc("SCRYPT_EBIGSLOW");
	bool says_m, says_t;
	if (op == O_ENC) { says_m = contains(errs, "might exceed memory limit"); says_t = contains(errs, "might exceed time limit"); }
	else if (op == O_DEC) { says_m = contains(errs, "too much memory"); says_t = contains(errs, "too much CPU time") || contains(errs, "and CPU time"); }
	else { says_m = rc == MB || rc == BS; says_t = rc == TS || rc == BS; }
	if (op == O_ENC) {
		if (rc) { r.fail("enc-refused", "explicit parameters only warn: " + what); return; }
		if (got.size() < 96 || (u8)got[7] != h.logN || ref::rd32(got, 8) != h.r || ref::rd32(got, 12) != h.p) { r.fail("enc-params", "other parameters than requested: " + what); return; }
		h.salt = got.substr(16, 32);
		if (got != ref::encrypt_dk(h, ref::stub_dk(pass, h.salt, 1ull << h.logN, h.r, h.p, 64), pt)) { r.fail("enc-params", "the key was not derived with the requested parameters: " + what); return; }
		if (force) { if (says_m || says_t) r.fail("warned", "a warning although forced: " + what); }
		else if ((m_sure && !says_m) || (t_sure && !says_t)) r.fail("no-warning", "no warning about exceeding the limits: " + what);
		else if ((m_ok && says_m) || (t_ok && says_t)) r.fail("false-warning", "a warning although within the limits: " + what);
		r.probes["enc-explicit"]++;
	} else if (!valid) {
		r.probes["invalid"]++;
		if (!rc || p->derivs) { r.fail("invalid-accepted", "invalid parameters: " + what); return; }
		if (op == O_DEC && (!contains(errs, "not valid") || errs.empty())) { r.fail("message", "invalid parameters: " + what); return; }
		if (op == O_DECBUF && rc != api_rc("SCRYPT_EINVAL")) { r.fail("message", fmt("code %d for invalid parameters: ", rc) + what); return; }
		if (touched) { r.fail("touched", "output although refused: " + what); return; }
	} else if (force) {
		r.probes["forced"]++;
		if (rc || got != pt) { r.fail("forced-refused", what); return; }
	} else if (broken) {
		r.probes["limits-unknown"]++;
		if (!rc || p->derivs) { r.fail("unchecked", "a derivation was started although the limits could not be determined: " + what); return; }
		if (touched) { r.fail("touched", "output although refused: " + what); return; }
	} else {
		r.probes[m_sure && t_sure ? "over-both" : m_sure ? "over-memory" : t_sure ? "over-time" : m_ok && t_ok ? "within" : "unclear"]++;
		if (m_sure || t_sure || rc) {
			if (!rc) { r.fail("over-limit", what); return; }
			if (p->derivs) { r.fail("derived", "a derivation was begun and then refused: " + what); return; }
			if (p->map_max_req > 1 << 20 || p->heap_max_req > 1 << 20) { r.fail("allocated", fmt("%llu bytes were requested before refusing: ", (unsigned long long)std::max(p->map_max_req, p->heap_max_req)) + what); return; }
			if (touched) { r.fail("touched", "output although refused: " + what); return; }
			if (!says_m && !says_t) { r.fail("refused", "refused for another reason than a limit: " + what); return; }
			if ((m_ok && says_m) || (t_ok && says_t)) { r.fail("false-limit", "refused because of a limit that is not exceeded: " + what); return; }
			if ((m_sure && !says_m) || (t_sure && !says_t)) { r.fail("message", "the message does not name the exceeded limit: " + what); return; }
		} else if (got != pt) { r.fail("output", "wrong plaintext: " + what); return; }
	}
	if (r.bad) return;
	if (verbose && valid && !broken) { str v = check_verbose(errs, h.logN, h.r, h.p, l, o.t, !force); if (!v.empty()) { r.fail("estimate", v + " " + what); return; } }
}
static Reg r13({"C13", gen13, exec13, "one case = one decryption (command or library) or explicit-parameter encryption whose parameters lie around the limits of a simulated machine, with or without -f; the decision, its message, and that nothing was derived, allocated or written before a refusal are compared with limits computed independently; every case non-trivial; distinct by event-log hash"});
