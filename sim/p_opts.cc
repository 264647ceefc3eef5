// C22 numbers and sizes given as options, C25 the command line.
#include "cli.h"
#include <cerrno>
#include <cmath>
#include <cfenv>
#include <algorithm>

// ---------------------------------------------------------------- what a text denotes
enum { N_ACCEPT, N_REFUSE, N_EITHER };
struct Num { int v; std::vector<double> val; u64 u = 0; };
static bool digits(const str &s, size_t i = 0) { if (i >= s.size()) return false; for (; i < s.size(); i++) if (s[i] < '0' || s[i] > '9') return false; return true; }
static str strip0(const str &s) { size_t i = 0; while (i + 1 < s.size() && s[i] == '0') i++; return s.substr(i); }
static bool le(const str &a0, const str &b0) { str a = strip0(a0), b = strip0(b0); return a.size() != b.size() ? a.size() < b.size() : a <= b; }
static str trim(const str &s, bool &ws) { size_t a = 0, b = s.size(); auto sp = [](char c) { return c == ' ' || (c >= 9 && c <= 13); }; while (a < b && sp(s[a])) a++; while (b > a && sp(s[b - 1])) b--; ws = a > 0 || b < s.size(); return s.substr(a, b - a); }
// decimal fraction or exponent; hex: the same with a 0x prefix
static bool realform(const str &s, bool &hex) {
	size_t i = 0, nd = 0; hex = s.size() > 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X');
	auto dg = [&](char c) { return (c >= '0' && c <= '9') || (hex && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))); };
	if (hex) i = 2;
	while (i < s.size() && dg(s[i])) i++, nd++;
	if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && dg(s[i])) i++, nd++; }
	if (!nd) return false;
	if (i < s.size() && ((s[i] | 32) == (hex ? 'p' : 'e'))) { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; return digits(s, i); }
	return i == s.size();
}
static Num classify_int(const str &t, u64 lo, u64 hi) {
	if (digits(t) && (t.size() == 1 || t[0] != '0')) {
		if (le(t, std::to_string(hi)) && le(std::to_string(lo), t)) return {N_ACCEPT, {(double)atoll(t.c_str())}};
		return {N_REFUSE, {}};
	}
	bool ws; str s = trim(t, ws);
	if (!s.empty() && (s[0] == '+' || s[0] == '-')) { if (s[0] == '-') return {N_REFUSE, {}}; s.erase(0, 1); }
	// other notations of an integer: may be refused, but never become another value
	std::vector<double> v; bool hex;
	auto in = [&](double d) { if (d >= (double)lo && d <= (double)hi && d == floor(d)) v.push_back(d); };
	if (digits(s)) { in(strtod(s.c_str(), nullptr)); if (s[0] == '0') { char *e; double d = (double)strtoull(s.c_str(), &e, 8); if (!*e) in(d); } }
	else if (realform(s, hex)) in(strtod(s.c_str(), nullptr));
	return {v.empty() ? N_REFUSE : N_EITHER, v};
}
static Num classify_real(const str &t, bool frac) {
	bool ws, hex; str s = trim(t, ws); bool odd = ws, neg = false;
	if (!s.empty() && (s[0] == '+' || s[0] == '-')) { odd = true; neg = s[0] == '-'; s.erase(0, 1); }
	str l = s; for (auto &c : l) c = (char)tolower(c);
	if (l == "inf" || l == "infinity") return {!neg && !frac ? N_EITHER : N_REFUSE, {INFINITY}};
	if (!realform(s, hex)) return {N_REFUSE, {}};
	double d = strtod(s.c_str(), nullptr);
	bool nz = false; for (char c : hex ? s.substr(2) : s) { if ((c | 32) == (hex ? 'p' : 'e')) break; nz |= c != '0' && c != '.'; }
	if (neg && nz) return {N_REFUSE, {}};
	if (!nz) return {frac ? N_REFUSE : odd || hex ? N_EITHER : N_ACCEPT, {0}};
	if (d < 1e-290) return {N_EITHER, {d, 0}};
	if (frac && d == 0.5 && s != "0.5" && s != ".5" && s != "0.50") return {N_EITHER, {d}};
	if (frac && d > 0.5) return {N_REFUSE, {}};
	if (std::isinf(d)) return {N_EITHER, {d}};
	return {odd || hex ? N_EITHER : N_ACCEPT, {d}};
}
static Num classify_size(const str &t) {
	size_t i = 0; while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++;
	if (!i) return {N_REFUSE, {}};
	str n = t.substr(0, i); int z = 0;
	if (i < t.size() && t[i] == ' ') i++;
	if (i < t.size()) { const char *P = "kMGTPE"; const char *q = strchr(P, t[i]); if (q && t[i]) { z = (int)(q - P + 1) * 3; i++; } }
	if (i < t.size() && t[i] == 'B') i++;
	if (i != t.size()) return {N_REFUSE, {}};
	n = strip0(n); if (n != "0") n += str((size_t)z, '0');
	if (!le(n, "18446744073709551615")) return {N_REFUSE, {}};
	Num r{N_ACCEPT, {0}}; for (char c : n) r.u = r.u * 10 + (u64)(c - '0'); r.val[0] = (double)r.u;
	return r;
}
// ---------------------------------------------------------------- C22
enum { X_LOGN, X_R, X_P, X_M, X_MF, X_T, X_NUM };
static const char *XN[] = {"--logN", "-r", "-p", "-M", "-m", "-t"};
static str get_text(const Plan &pl) { str s; for (auto &m : pl.muts) if (m.kind == "ch" && (m.a & 255)) s += (char)(m.a & 255); return s; }
static void set_text(Plan &pl, const str &s) { for (char c : s) { Mut m; m.kind = "ch"; m.a = (u8)c; pl.muts.push_back(m); } }
static str u128(unsigned __int128 v) { str s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
static str gen_int_text(Rng &g, u64 lo, u64 hi) {
	unsigned __int128 T = (unsigned __int128)1 << 64, v = g.pick(std::vector<u64>{lo, hi, lo + g.below(hi - lo + 1), lo + g.below(hi - lo + 1)});
	switch (g.below(13)) {
	case 0: return u128(lo - 1);
	case 1: return u128(hi + 1 + (g.chance(50) ? g.below(100) : 0));
	case 2: return u128(v + ((unsigned __int128)1 << g.pick(std::vector<int>{8, 16, 31, 32, 33, 63, 64, 65})));
	case 3: return "-" + u128(g.chance(40) ? v : T - v);
	case 4: return "-" + u128(T + T - v);
	case 5: return str(1 + g.below(30), '0') + u128(v);
	case 6: return fmt(g.chance(50) ? "0x%llx" : "0%llo", (unsigned long long)v);
	case 7: return g.pick(std::vector<str>{" ", " ", "+", "+", "\t", "=", "\n "}) + u128(v);
	case 8: return u128(v) + g.pick(std::vector<str>{" ", ".0", ".5", "e0", "e1", "k", "x", "\n", ",0", "B", "0", "-", "=", ":", "\x80"});
	case 9: return g.pick(std::vector<str>{"", "-", "+", " ", "0", "-0", "x", "ten", "0x", "nan", "inf", "1e1", "--", "-f", "\xd9\xa1\xd9\xa0"});
	default: return u128(v);
	}
}
static str gen_size_text(Rng &g) {
	static const char *P[] = {"", "", "k", "M", "G", "T", "P", "E"};
	u64 m = 1; int k = (int)g.below(8); for (int i = 1; i < k; i++) m *= 1000;
	u64 top = ~0ull / m; unsigned __int128 v;
	switch (g.below(7)) { case 6: v = ((1ull << g.range(30, 52)) * (1 + g.below(1000)) - 1 - g.below(2)) / m; break; case 0: v = top; break; case 1: v = (unsigned __int128)top + 1; break; case 2: v = g.next() >> g.below(64); break; case 3: v = top - g.below(3); break; default: { u64 x = (1ull << g.range(18, 50)) / m; v = x + g.below(x + 2); } }
	str n = u128(v);
	switch (g.below(12)) {
	case 0: return n + (g.chance(50) ? " " : "") + P[k] + "B";
	case 1: return n + " " + P[k];
	case 2: return str(1 + g.below(25), '0') + n + P[k];
	case 3: return n + g.pick(std::vector<str>{"K", "m", "g", "Y", "Z", "kk", "MB ", "Bk", "BB", "b", "kiB", "Ki", "  k", " k B", "k ", " B ", ".5M", ".0", "e3", "MBB", "\tk", "M1", "x"});
	case 4: return g.pick(std::vector<str>{"", " ", "B", "k", "kB", " 1", "=1M", "=1048576", "\t2M", "-1", "+1", "0x100000", "1.5G", "-1M", "1 000 000", "1,000,000", "M1", "nan", "inf"});
	case 5: return g.pick(std::vector<str>{"18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551615B", "18446744073709551616 B", "184467440737095516150", "18446744073709552 k", "18446744073709551k", "36893488147419103233", "340282366920938463463374607431768211457", "18E", "19E", "18EB", "18447 P", "18446P", "19000 P", "18014398509481985k", "18446744073709552001", "36893488147419M", "20000000000000M", "99999999999999999999", "184467440737095516160"});
	default: return n + P[k] + (g.chance(40) ? "B" : "");
	}
}
static str gen_real_text(Rng &g, bool frac) {
	double v = frac ? (double)(1 + g.below(1 << 18)) / (1 << 19) : ldexp((double)(1 + g.below(1000)), (int)g.range(-20, 40));
	switch (g.below(11)) {
	case 0: return fmt("%.*e", (int)g.below(20), v);
	case 1: return fmt("%.*f", (int)g.below(30), v);
	case 2: return fmt("%a", v);
	case 3: return g.pick(std::vector<str>{" ", "+", "=", "\n"}) + fmt("%.9g", v);
	case 4: return fmt("-%.9g", v);
	case 5: return fmt("%.9g", v) + g.pick(std::vector<str>{"s", " ", "%", "m", ",5", "e", "e+", ".", "..", "x", "-", "f", "L", "1"});
	case 6: return frac ? g.pick(std::vector<str>{"0.5", ".5", "0.50", "0.500000000000000000000", "0.50001", "0.51", "1", "5e-1", "0.5e0", "50e-2", "5", "2", "100", "1e3", "0.6", "0.5000000001", "0.500000000000001", "0.5000000000000002", "0.50000000000000000000000000001", "0.4999999999999999999999999999", "0.49999999999999994", "0.500000001", "0x1.0000000001p-1"}) : g.pick(std::vector<str>{"0", "0.0", "1", "300", "1e300", "1e309", "1e-5", "10000000000", ".5", "5."});
	case 7: return g.pick(std::vector<str>{"", " ", "-", ".", "e1", "nan", "NAN", "nan(1)", "-nan", "inf", "-inf", "infinity", "INF", "-0", "-0.0", "0", "0e0", "1e-400", "1e400", "-1e-400", "0x", "0x.", "0,5", "1/2", "1e", "half"});
	case 8: return fmt("%.17g", v).substr(0, 1 + g.below(20));
	default: return fmt("%.*g", (int)g.range(1, 17), v);
	}
}
static str gen_text(Rng &g, int x) {
	str t = x == X_LOGN ? gen_int_text(g, 10, 40) : x == X_R ? gen_int_text(g, 1, 32) : x == X_P ? gen_int_text(g, 1, 2048) : x == X_M ? gen_size_text(g) : gen_real_text(g, x == X_MF);
	if (g.chance(12)) { // one slip of the finger
		static const str A = "0123456789 +-.,xXeEkMGTPBbKf\t_'=:"; size_t i = g.below(t.size() + 1);
		switch (g.below(3)) { case 0: t.insert(i, 1, A[g.below(A.size())]); break; case 1: if (i < t.size()) t.erase(i, 1); break; default: if (i < t.size()) t[i] = A[g.below(A.size())]; }
	}
	return t;
}
static void gen22(Rng &g, Plan &pl) {
	int x = (int)g.below(X_NUM); pl.set("opt", x); set_text(pl, gen_text(g, x));
	pl.set("spell", g.chance(40)); pl.set("where", (i64)g.below(3)); pl.set("errno", g.chance(50) ? 0 : g.pick(std::vector<i64>{ERANGE, EINVAL, ENOMEM, ENOENT, EINTR}));
	pl.set("over", (i64)g.below(3)); pl.set("verbose", g.chance(40)); pl.set("mode", g.chance(85) ? 0 : 1);
	pl.set("outkind", (i64)g.below(OUT_N));
	if (g.chance(25)) { // the option is given before with another value
		pl.set("before", 1);
	}
	if (g.chance(12)) { Fault f; if (g.chance(50)) { f.kind = "alloc"; f.target = "-"; f.nth = (i64)g.below(8); f.arg = ENOMEM; } else { f.kind = "write"; f.target = "stderr0"; f.nth = (i64)g.below(3); f.arg = EIO; f.count = -1; } pl.faults.push_back(f); }
}
struct Ram { u64 v; };
static void big_machine(World &w, u64 ram) { w.kdf_mode = 2; w.mem_unit = 1; w.totalram = ram; w.pagesize = 4096; w.physpages = (i64)(ram / 4096); }
// did anything but the command line and the diagnostics play a role?
static str side_effect(World &w, Job &j) {
	Proc *p = j.proc; str e = fmt("stderr%d", p->id);
	if (p->derivs) return "a key was derived";
	for (auto &o : p->ops) {
		const str &k = o.first;
		for (const char *q : {"open ", "read ", "write ", "urandom", "rdrand", "tcgetattr", "tcsetattr", "getenv "}) if (k.compare(0, strlen(q), q) == 0 && k != "write " + e) return "it had already done: " + k;
	}
	if (j.s.outkind == OUT_NEW && j.outfile_exists(w)) return "the output file was created";
	if (j.s.outkind == OUT_OLD && j.out && j.out->data != j.s.old) return "the output file was changed";
	if (!j.so->data.empty()) return "standard output was written";
	return "";
}
static void stale_errno(Proc *p, int e) { for (auto t : p->tasks) t->err = e; }
static str show(const str &t) { str o; for (char c : t) if (c >= 32 && c < 127) o += c; else o += fmt("\\x%02x", (u8)c); return "\"" + o + "\""; }
static void exec22(const Plan &pl, Result &r) {
	int x = (int)pl.get("opt") % X_NUM; if (x < 0) x = 0;
	str t = get_text(pl), pass = "the passphrase", pt = "some data to be protected\n";
	r.sample = str(XN[x]) + " " + show(t) + " " + describe(pl).substr(0, 60); r.nontrivial = true;
	Num n = x == X_LOGN ? classify_int(t, 10, 40) : x == X_R ? classify_int(t, 1, 32) : x == X_P ? classify_int(t, 1, 2048) : x == X_M ? classify_size(t) : classify_real(t, x == X_MF);
	World w(pl); w.keep_log = pl.get("_log"); w.keep_sites = true; bool huge = x == X_M && n.u > 1ull << 50; big_machine(w, huge ? 1ull << 62 : 1ull << 52);
	Spec s; s.pass = pass; s.outkind = (int)pl.get("outkind") & 3; s.verbose = pl.get("verbose");
	s.mode = x <= X_P ? M_ENC : M_DEC;
	bool enc = s.mode == M_ENC, viaenc = !enc && pl.get("mode") && x != X_T && !huge;      // -M -m seen through the warnings of enc
	std::vector<str> opt; bool sep = !pl.get("spell") || t.empty();
	if (x == X_LOGN) { if (pl.get("spell")) opt = {"--logN=" + t}; else opt = {"--logN", t}; }
	else if (sep) opt = {XN[x], t}; else opt = {str(XN[x]) + t};
	if (pl.get("before")) { const char *v[] = {"11", "3", "5", "77M", "0.3", "44"}; opt.insert(opt.begin(), v[x]); opt.insert(opt.begin(), XN[x]); }
	// what a lawful value lets through
	ref::Hdr h; h.logN = 10; h.r = 1; h.p = 1; h.salt = str(32, 's');
	int over = (int)pl.get("over"), expect = -1;   // 1: must be over the limit, 0: must not
	double val = n.val.empty() ? 0 : n.val[0];
	if (enc || viaenc) {
		std::vector<std::pair<str, str>> o = {{"--logN", "10"}, {"-r", "1"}, {"-p", "1"}};
		std::vector<str> ex;
		if (viaenc) { // need 128 * 2^logN * r bytes with r up to 32
			double lim = x == X_M ? (n.u ? (double)n.u : 0.5 * ldexp(1, 52)) : val * ldexp(1, 52);
			lim = std::min(lim, x == X_M ? 0.125 * ldexp(1, 52) : lim); lim = std::max(lim, 1048576.);
			int lg = (int)floor(log2(lim / 128 / 17)); if (lg < 10) lg = 10; if (lg > 40) lg = 40;
			int rr = (int)floor(lim / 128 / pow(2, lg)) + (over ? 1 : 0); if (rr < 1) rr = 1; if (rr > 32) rr = 32;
			double need = 128. * pow(2, lg) * rr; h.logN = lg; h.r = (u32)rr;
			if (need > lim * 1.000001) expect = 1; else if (need < lim * 0.999999) expect = 0;
			o[0].second = std::to_string(lg); o[1].second = std::to_string(rr);
			ex = {"-t", "1e30"}; s.mode = M_ENC;
		}
		for (int i = 0; i < 3; i++) { if (i == (int)pl.get("where")) ex.insert(ex.end(), opt.begin(), opt.end()); if (viaenc || i != x) { ex.push_back(o[(size_t)i].first); ex.push_back(o[(size_t)i].second); } }
		s.extra = ex; s.indata = pt;
	} else {
		if (x == X_T) {
			w.cores_per_s = 1e6; w.tick = 1000; double lim = val * 1e6;
			double want = over == 1 ? lim * 2.5 : over == 0 ? lim / 2.5 : lim * 40;
			double q = want / 8; // ops = 4 * N * r * p, N = 2
			int lg = 1; while (q > 1e6 && lg < 40) q /= 2, lg++;
			if (q < 1) q = 1;
			if (q > 1e8) q = 1e8;
			h.logN = lg; h.p = (u32)(q + 0.5); h.r = 1;
			double ops = 4 * pow(2, lg) * h.p;
			if (ops > 2 * lim) expect = 1; else if (ops < lim / 2) expect = 0;
			if (pl.get("where") == 1) s.extra = {"-m", "0.5"};
		} else {
			if (x == X_M) { // exact: all of these are integers
				u64 L = huge ? 1ull << 61 : 1ull << 51; if (n.u && n.u < L) L = n.u;
				if (L < 1048576) L = 1048576;
				int lg = 1; while ((L / 128 >> lg) > 500000000) lg++;
				if (huge && pl.get("where")) lg += (int)(mix64(pl.seed, 5) % 12);
				u64 k = L / 128 >> lg; if (k < 1) k = 1;
				h.logN = lg; h.r = (u32)(over ? k + 1 + (over > 1 ? (u64)pl.get("where") * 1000 : 0) : k); h.p = 1;
				expect = (unsigned __int128)h.r * (128ull << lg) > L;
			} else {
			double lim = val * ldexp(1, 52);
			lim = std::min(lim, 0.5 * ldexp(1, 52)); lim = std::max(lim, 1048576.);
			int lg = 1; while (lim / 128 / pow(2, lg) > 1e8) lg++;
			double unit = 128. * pow(2, lg), k = floor(lim / unit);
			double rr = over ? k + 1 + (over > 1 ? (double)(pl.get("where") * 1000) : 0) : k;
			h.logN = lg; h.r = (u32)rr; h.p = 1;
			double need = unit * rr;
			if (need > lim + 1) expect = 1; else if (need < lim - 1) expect = 0;
			}
			s.extra = {"-t", "1e30"};
		}
		auto at = pl.get("where") == 2 ? s.extra.end() : s.extra.begin();
		s.extra.insert(at, opt.begin(), opt.end());
		s.indata = ref::encrypt_dk(h, ref::stub_dk(pass, h.salt, 1ull << h.logN, h.r, h.p, 64), pt);
	}
	Job j = start_job(w, s); stale_errno(j.proc, (int)pl.get("errno"));
	w.run(); settle(w, j); finish_result(w, r);
	r.sig = mix64(r.sig, std::hash<str>()(t), (u64)x);
	bool oom = optparse_oom(w, j);
	if (!clean_end(w, r, oom)) return;
	if (oom) { str e = side_effect(w, j); if (!e.empty()) r.fail("side-effect", e); return; }
	Proc *p = j.proc; str errs = j.errs(), out = j.output(w), what = str(XN[x]) + " " + show(t) + ": " + p->status() + ", stderr: " + errs;
	bool werr = w.fired_any("write:stderr0"), fault = w.nfired > 0;
	if (p->ek != E_EXIT) { r.fail("death", what); return; }
	str se = side_effect(w, j);
	bool rejected = p->code != 0 && se.empty();      // before anything was done
	if (n.v == N_REFUSE) {
		if (p->code == 0) { r.fail("accepted", "was accepted: " + what); return; }
		if (!se.empty()) { r.fail("late", "was not refused at once (" + se + "): " + what); return; }
		if (errs.empty() && !werr) { r.fail("silent", "was refused without a message: " + what); return; }
		if (!werr && !contains(errs, XN[x])) { r.fail("message", "the message does not name the option: " + what); return; }
		r.probes["refused"]++; return;
	}
	if (rejected) {
		if (n.v == N_EITHER) { if (!werr && errs.empty()) r.fail("silent", "was refused without a message: " + what); r.probes["other-notation refused"]++; return; }
		if (!fault || werr) { r.fail("refused", "was refused: " + what); return; }
		r.probes["failed after fault"]++; return;
	}
	r.probes[n.v == N_EITHER ? "other-notation accepted" : "accepted"]++;
	if (enc || viaenc) {
		if (p->code != 0) { if (!fault || (werr && !w.fired_any("alloc"))) r.fail("failed", what); return; }
		if (out.size() != pt.size() + 128) { r.fail("output", what); return; }
		double got = x == X_LOGN ? (u8)out[7] : x == X_R ? ref::rd32(out, 8) : ref::rd32(out, 12);
		if (enc) {
			if (!std::count(n.val.begin(), n.val.end(), got)) { r.fail("other-value", fmt("the value used is %.0f: ", got) + what); return; }
			int lg = x == X_LOGN ? (int)got : 10; u32 rr = x == X_R ? (u32)got : 1, pp = x == X_P ? (u32)got : 1;
			if ((u8)out[7] != lg || ref::rd32(out, 8) != rr || ref::rd32(out, 12) != pp) { r.fail("other-option", "another parameter changed: " + what); return; }
			if (out != ref::encrypt_dk({lg, rr, pp, out.substr(16, 32)}, ref::stub_dk(pass, out.substr(16, 32), 1ull << lg, rr, pp, 64), pt)) r.fail("other-value", "the key was not derived with the value given: " + what);
			return;
		}
		if (werr || n.v == N_EITHER || expect < 0) return;
		bool says = contains(errs, "memory limit");
		if (says != (expect == 1)) r.fail("other-value", fmt("explicit parameters needing %.17g bytes were %s: ", 128. * pow(2, h.logN) * h.r, says ? "warned about" : "not warned about") + what);
		return;
	}
	if (n.v == N_EITHER && n.val.size() > 1) return;
	if (fault && p->code != 0 && w.fired_any("alloc")) return;
	if (s.verbose && x == X_T && n.v == N_ACCEPT && !werr && contains(errs, "limit: ")) { str want = fmt("limit: %.1f ", val); if (!contains(errs, want)) { r.fail("other-value", "the limit displayed is not the one given: " + what); return; } }
	if (expect < 0) return;
	if (expect == 0 && p->code != 0) { r.fail("other-value", fmt("a file needing %.17g bytes and %.6g operations was refused: ", 128. * pow(2, h.logN) * h.r, 4 * pow(2, h.logN) * h.r * h.p) + what); return; }
	if (expect == 1 && p->code == 0) { r.fail("other-value", fmt("a file needing %.17g bytes and %.6g operations was accepted: ", 128. * pow(2, h.logN) * h.r, 4 * pow(2, h.logN) * h.r * h.p) + what); return; }
	if (expect == 1 && !werr && !contains(errs, x == X_T ? "CPU time" : "memory")) { r.fail("other-value", "refused for another reason than the limit: " + what); return; }
	if (expect == 0 && out != pt) r.fail("output", what);
}
static Reg r22({"C22", gen22, exec22, "one case = one command with one numeric or size option whose text is generated around the range ends, word sizes, notations, prefixes and typing slips, with stale errno, repeated options and failing allocations; the value the command really used is observed in the file it writes or at the boundary of what it accepts, and compared with what the text denotes; all non-trivial; distinct by event-log hash and text"});

// ---------------------------------------------------------------- C25
// The model: what a command line means.
struct Cfg {
	bool reject = false, either = false, version = false; str why;
	int mode = 0; bool force = false, verbose = false;
	int logN = 0; u32 r = 0, p = 0; bool hasM = false; u64 M = 0; double m = 0, t = 0; int npass = 0; str method = "dev:tty-stdin";
	str in, out; bool hasout = false;
};
static Cfg no(const str &w) { Cfg c; c.reject = true; c.why = w; return c; }
static Cfg parse(const std::vector<str> &a) {
	Cfg c;
	if (a.size() < 2) return no("no command");
	if (a[1] == "--version") { c.version = true; return c; }
	if (a[1] == "enc") { c.mode = M_ENC; c.m = 0.125; c.t = 5; } else if (a[1] == "dec") { c.mode = M_DEC; c.m = 0.5; c.t = 300; } else if (a[1] == "info") { c.mode = M_INFO; c.m = 0.5; c.t = 300; } else return no("unknown command");
	size_t i = 2; str bad; bool sub0 = false;
	auto value = [&](const str &o, const str &v) {
		Num n = o == "--logN" ? classify_int(v, 10, 40) : o == "-r" ? classify_int(v, 1, 32) : o == "-p" ? classify_int(v, 1, 2048) : o == "-M" ? classify_size(v) : classify_real(v, o == "-m");
		if (o == "--passphrase") {
			if (c.npass++) { bad = "two passphrase sources"; return; }
			if (v == "dev:tty-stdin" || v == "dev:stdin-once" || v == "dev:tty-once" || v.compare(0, 4, "env:") == 0 || v.compare(0, 5, "file:") == 0) c.method = v; else bad = "unknown passphrase source " + v;
			return;
		}
		if (o == "-m" && classify_real(v, false).v == N_ACCEPT && classify_real(v, false).val[0] == 0) { sub0 = true; c.m = 0; return; }   // refused unless another value follows
		if (n.v == N_REFUSE) { bad = "not a value for " + o + ": " + v; return; }
		if (n.v == N_EITHER) { c.either = true; return; }
		if (o == "--logN") c.logN = (int)n.val[0]; else if (o == "-r") c.r = (u32)n.val[0]; else if (o == "-p") c.p = (u32)n.val[0]; else if (o == "-M") { c.hasM = n.u != 0; c.M = n.u; } else if (o == "-m") c.m = n.val[0]; else c.t = n.val[0];
	};
	for (; i < a.size() && bad.empty(); i++) {
		const str &s = a[i];
		if (s == "--") { i++; break; }
		if (s.size() < 2 || s[0] != '-') break;
		if (s[1] == '-') {
			size_t e = s.find('='); str nm = s.substr(0, e);
			if (nm != "--logN" && nm != "--passphrase") { bad = "unknown option " + s; break; }
			if (e != str::npos) value(nm, s.substr(e + 1));
			else if (i + 1 < a.size()) value(nm, a[++i]);
			else bad = "missing value for " + nm;
			continue;
		}
		for (size_t k = 1; k < s.size() && bad.empty(); k++) {
			str o = str("-") + s[k];
			if (o == "-f") c.force = true;
			else if (o == "-v") c.verbose = true;
			else if (o == "-P") value("--passphrase", "dev:stdin-once");
			else if (strchr("MmprtT", s[k]) && s[k] != 'T') {
				if (k + 1 < s.size()) value(o, s.substr(k + 1));
				else if (i + 1 < a.size()) value(o, a[++i]);
				else bad = "missing value for " + o;
				break;
			} else bad = "unknown option " + o;
		}
	}
	if (!bad.empty()) return no(bad);
	size_t n = a.size() - i;
	if (n < 1 || n > 2) return no(fmt("%zu operands", n));
	int set = (c.logN != 0) + (c.r != 0) + (c.p != 0);
	if (set && set != 3) return no("incomplete parameters");
	if (set && c.mode == M_DEC) return no("parameters with dec");
	if (c.m == 0) return no("-m 0");
	(void)sub0;
	c.in = a[i]; if (n == 2) { c.out = a[i + 1]; c.hasout = true; }
	if (c.in == "-" && c.method == "dev:stdin-once") return no("passphrase and data from standard input");
	return c;
}
enum { K_F, K_V, K_LOGN, K_R, K_P, K_M, K_MF, K_T, K_PASS, K_BIGP, K_JUNK, K_N };
static const std::vector<str> V_LOGN = {"10", "12", "14", "9", "41", "x"}, V_R = {"1", "2", "32", "8", "0", "33"}, V_P = {"1", "3", "2048", "0", "2049"},
	V_M = {"1048576", "2M", "1TB", "5 MB", "1k", "0", "M", "1Mb"}, V_MF = {"0.5", "0.25", "0.0000001", "0.001", "0", "0.6"}, V_T = {"1000000", "5e5", "0.000001", "0", "-1", "s"},
	V_PASS = {"env:PWA", "file:pf", "dev:stdin-once", "dev:tty-once", "dev:tty-stdin", "env:PWB", "env:NONE", "file:missing", "dev:tty", "env", "tty", "dev:stdin-once2", "", "ENV:PWA", "file", "dev:tty-once2", "dev:tty-stdin2", "dev:stdin", "dev:tty-stdin-once", "Env:PWA", "dev:TTY-ONCE", "DEV:stdin-once", "dev:", "dev", "dev:stdin-once ", " env:PWA", "env:", "file:", "env:pwa", "env:PW", "env:PWAX", "env:PWA ", "env:PWA=", "file:p", "file: pf", "file:pf ", "file:pfx", "env=PWA", "file=pf", "envPWA", "filepf", "pass:PWA", "dev:tty-onc", "dev:stdin-onc", "File:pf", "FILE:pf", "fd:0", "dev:stdin-once:", "dev:tty-once:x", "env:file:pf", "file:env:PWA", "dev:none", "-", "pf", "PWA", "in"},
	V_JUNK = {"-x", "--foo", "--logn", "--log", "--logNN", "--logN10", "-F", "-h", "--help", "--version", "-V", "-q1", "--passphras", "---", "-=", "--=", "--force", "-fx", "-vvq", "--logN:10", "-\x80", "--passphrase2", "--maxmem=1", "--logn=12", "--LOGN=12", "--log=12", "--l=12", "--logNx=12", "--logN =12", "-logN=12", "--r=1", "--p=1", "--Passphrase=env:PWA", "--PASSPHRASE=env:PWA", "--pass=env:PWA", "--passphras=env:PWA", "--passphrase-=env:PWA", "--passphrase:env:PWA", "--passphrases=env:PWA", "-passphrase=env:PWA", "--p=env:PWA", "--f", "--v", "--verbose", "--quiet", "-l", "-n", "-N", "-T1", "-R1", "-\t", "- ", "--ver", "--versio", "-f=", "-v=1", "-P=1", "-fvx", "-fvP0"};
static str sel(const std::vector<str> &v, i64 b) { return v[(size_t)(b < 0 ? 0 : b) % v.size()]; }
static std::vector<str> cmdline(const Plan &pl) {
	std::vector<str> a = {"scrypt"};
	switch (pl.get("command")) { case 0: a.push_back("enc"); break; case 1: a.push_back("dec"); break; case 2: a.push_back("info"); break; case 3: return a; case 4: a.push_back("--version"); break; case 5: a.push_back(sel({"encrypt", "ENC", "", "-f", "e", "decx", "-", "--", "version", "--versions", "in"}, pl.get("cmdv"))); break; }
	bool open = false;     // the last word is a cluster of short options that can be extended
	for (auto &m : pl.muts) if (m.kind == "o") {
		str n, v; bool has = false, lng = false;
		switch (m.a) {
		case K_F: n = "-f"; break; case K_V: n = "-v"; break; case K_BIGP: n = "-P"; break;
		case K_LOGN: n = "--logN"; v = sel(V_LOGN, m.b); has = lng = true; break;
		case K_R: n = "-r"; v = sel(V_R, m.b); has = true; break; case K_P: n = "-p"; v = sel(V_P, m.b); has = true; break;
		case K_M: n = "-M"; v = sel(V_M, m.b); has = true; break; case K_MF: n = "-m"; v = sel(V_MF, m.b); has = true; break; case K_T: n = "-t"; v = sel(V_T, m.b); has = true; break;
		case K_PASS: n = "--passphrase"; v = sel(V_PASS, m.b); has = lng = true; break;
		default: n = sel(V_JUNK, m.b); break;
		}
		bool pack = (m.c & 1) && open && !lng && m.a != K_JUNK, att = (m.c & 2) && has && (lng || !v.empty());
		if (pack) a.back() += n.substr(1); else a.push_back(n);
		open = !lng && !has && m.a != K_JUNK;
		if (att) a.back() += (lng || (m.c & 8) ? "=" : "") + v;
		else if (has && !(m.c & 4)) a.push_back(v);      // 4: the value is forgotten
	}
	if (pl.get("dd")) a.push_back("--");
	int n = (int)pl.get("nop", 2); str odd = sel({"-f", "-x", "--", "--logN=10", "-"}, pl.get("oddname"));
	if (n >= 1) a.push_back(pl.get("noname") == 1 ? "" : pl.get("stdin") ? "-" : pl.get("dd") && pl.get("odd") ? odd == "-" ? "in" : odd : "in");
	if (n >= 2) a.push_back(pl.get("odd") == 2 ? odd : pl.get("noname") == 2 ? "" : "out");
	for (int i = 2; i < n; i++) a.push_back(sel({"extra", "-f", "--", ""}, pl.get("cmdv")));
	return a;
}
static void gen25(Rng &g, Plan &pl) {
	int k = (int)g.below(100); pl.set("command", k < 50 ? 0 : k < 80 ? 1 : k < 90 ? 2 : g.range(3, 5)); pl.set("cmdv", (i64)g.below(12));
	int mode = (int)pl.get("command"); if (g.chance(mode == 3 ? 60 : 12)) pl.set("argv0", mode == 3 && g.chance(50) ? 9 : g.range(1, 8));
	auto add = [&](int a, const std::vector<str> &v, int good) { Mut m; m.kind = "o"; m.a = a; m.b = v.empty() ? 0 : g.chance(94) ? (i64)g.below((u64)good) : (i64)g.below(v.size()); m.c = (i64)g.below(4) | (g.chance(1) ? 4 : 0) | (g.chance(1) ? 8 : 0); pl.muts.push_back(m); };
	bool expl = mode == 0 && g.chance(75), skip = g.chance(6); int sk = (int)g.below(3);
	if (mode == 1 && g.chance(4)) expl = true;
	if (expl) { if (!(skip && sk == 0)) add(K_LOGN, V_LOGN, 3); if (!(skip && sk == 1)) add(K_R, V_R, 4); if (!(skip && sk == 2)) add(K_P, V_P, 3); }
	if (g.chance(35)) add(K_F, {}, 0);
	if (g.chance(35)) add(K_V, {}, 0);
	if (g.chance(30)) add(K_M, V_M, 6);
	if (g.chance(30)) add(K_MF, V_MF, 4);
	if (g.chance(40)) add(K_T, V_T, 4);
	if (g.chance(85)) { if (g.chance(20)) add(K_BIGP, {}, 0); else add(K_PASS, V_PASS, 8); }
	if (g.chance(4)) add(K_PASS, V_PASS, 6);
	if (g.chance(3)) add(K_BIGP, {}, 0);
	if (g.chance(30) && !pl.muts.empty()) { Mut m = pl.muts[g.below(pl.muts.size())]; if (m.a != K_PASS && m.a != K_BIGP) { m.b = (i64)g.below(3); pl.muts.push_back(m); } }  // repeated, another value
	if (g.chance(6)) add(K_JUNK, V_JUNK, (int)V_JUNK.size());
	for (size_t i = pl.muts.size(); i > 1; i--) std::swap(pl.muts[i - 1], pl.muts[g.below(i)]);
	pl.set("dd", g.chance(20)); pl.set("nop", g.chance(92) ? g.range(1, 2) : g.pick(std::vector<i64>{0, 3, 4}), 2);
	pl.set("stdin", g.chance(20)); if (g.chance(15)) { pl.set("odd", g.range(1, 2)); pl.set("oddname", (i64)g.below(5)); }
	if (g.chance(4)) pl.set("noname", g.range(1, 2));
	pl.set("notty", g.chance(20)); pl.set("isize", g.range(0, 200)); pl.set("data_seed", g.range(1, 1000), 1);
	pl.set("outold", g.chance(40)); pl.set("salt_seed", g.range(1, 1000), 1); pl.set("errno", g.chance(70) ? 0 : g.pick(std::vector<i64>{ERANGE, EINVAL, ENOENT}));
	if (g.chance(15)) { Fault f; switch (g.below(4)) { case 0: f.kind = "alloc"; f.target = "-"; f.nth = (i64)g.below(12); f.arg = ENOMEM; break; case 1: f.kind = "write"; f.target = "stderr0"; f.nth = (i64)g.below(3); f.arg = EIO; f.count = -1; break; case 2: f.kind = "open"; f.target = g.pick(std::vector<str>{"in", "out", "tty", "pass"}); f.arg = EACCES; f.count = -1; break; default: f.kind = g.chance(50) ? "read" : "write"; f.target = f.kind == "read" ? "in" : "out"; f.nth = (i64)g.below(3); f.arg = EIO; break; } pl.faults.push_back(f); }
}
static void exec25(const Plan &pl, Result &r) {
	std::vector<str> a = cmdline(pl); Cfg c = parse(a);
	str cl; for (auto &x : a) cl += (cl.empty() ? "" : " ") + (x.empty() || x.find(' ') != str::npos ? "'" + x + "'" : x);
	r.sample = cl; r.nontrivial = true;
	World w(pl); w.keep_log = pl.get("_log"); w.keep_sites = true; big_machine(w, 1ull << 34); w.tick = 1000;
	str pt = plan_data(pl), pin = "given-on-stdin", ptty = "typed-on-the-terminal", pa = "in the environment", pb = "another one", pf = "in a file";
	bool tty = !pl.get("notty"); str pass; bool nopass = false;
	if (c.method == "env:PWA") pass = pa; else if (c.method == "env:PWB") pass = pb; else if (c.method == "file:pf") pass = pf; else if (c.method == "dev:stdin-once") pass = pin;
	else if (c.method == "dev:tty-once") { pass = ptty; nopass = !tty; } else if (c.method == "dev:tty-stdin") { pass = tty ? ptty : pin; if (!tty && c.in == "-" && !c.reject && c.mode != M_INFO) c.either = true; } else nopass = true;
	ref::Hdr h = plan_hdr(pl); h.logN = 12; h.r = 8; h.p = 2; // 4 MiB, 2^18 operations
	str data = c.mode == M_ENC ? pt : ref::encrypt_dk(h, ref::stub_dk(pass, h.salt, 1ull << h.logN, h.r, h.p, 64), pt);
	str outname = c.hasout ? c.out : "out", inname = c.in == "" || c.in == "-" ? "in" : c.in, old = "previous contents\n";
	bool twofiles = inname != outname;
	Proc *p = w.spawn("scrypt", a); Job j; j.proc = p; j.s.mode = c.mode;
	p->env["PWA"] = pa; p->env["PWB"] = pb; w.file("pf", pf + "\n")->name = "pass";
	Inode *in = w.file(inname, data); in->name = "in";
	Inode *out = nullptr; if (pl.get("outold") && twofiles && !outname.empty()) { out = w.file(outname, old); out->name = "out"; }
	Inode *si = w.anon("stdin", I_REG); si->data = c.in == "-" ? data : c.mode == M_ENC && c.method == "dev:tty-stdin" ? pin + "\n" + pin + "\n" : pin + "\nrest\n"; w.set_fd(p, 0, si, false); if (c.in == "-") si->name = "in";
	if (tty) { Inode *t = w.node("/dev/tty", I_TTY); t->name = "tty"; t->script = {ptty + "\n", ptty + "\n"}; }
	Inode *so = w.anon("stdout", I_REG); w.set_fd(p, 1, so, true); j.so = so;
	j.err = w.anon("stderr0", I_REG); w.set_fd(p, 2, j.err, true);
	stale_errno(p, (int)pl.get("errno"));
	w.run(); finish_result(w, r);
	r.sig = mix64(r.sig, std::hash<str>()(cl));
	bool oom = optparse_oom(w, j); if (!clean_end(w, r, oom)) return;
	str errs = j.errs(), what = "`" + cl + "`: " + p->status() + ", stderr: " + errs;
	if (!out && w.fs.count(outname) && twofiles) out = w.fs[outname];
	bool fault = w.nfired > 0, werr = w.fired_any("write:stderr0");
	auto early = [&]() -> str {
		if (p->derivs) return "a key was derived";
		for (auto &o : p->ops) for (const char *q : {"open ", "read ", "write ", "urandom", "rdrand", "tcgetattr", "tcsetattr", "getenv "}) if (o.first.compare(0, strlen(q), q) == 0 && o.first != "write stderr0") return "it had already done: " + o.first;
		return "";
	};
	if (oom) { str e = early(); if (!e.empty()) r.fail("late", e + ": " + what); return; }
	if (p->ek != E_EXIT) { r.fail("death", what); return; }
	auto untouched = [&]() { return in->data == data && (c.in != "-" || si->data == data); };
	if (!untouched() && twofiles) { r.fail("input", "the input was changed: " + what); return; }
	if (c.version) {
		r.probes["--version"]++;
		if (p->code != 0 || so->data.compare(0, 7, "scrypt ") != 0) r.fail("version", what);
		return;
	}
	if (c.reject) {
		r.probes["rejected"]++;
		if (p->code == 0) { r.fail("accepted", "accepted although " + c.why + ": " + what); return; }
		str e = early(); if (!e.empty()) { r.fail("late", e + " although " + c.why + ": " + what); return; }
		if (errs.empty() && !werr) { r.fail("silent", "no message although " + c.why + ": " + what); return; }
		return;
	}
	if (c.either || !twofiles) { r.probes["unspecified"]++; return; }
	if (fault && p->code != 0) { r.probes["failed after fault"]++; if (!werr && errs.empty()) r.fail("silent", what); return; }
	if (c.in.empty() || (c.hasout && c.out.empty() && c.mode != M_INFO)) { // no file has that name
		r.probes["empty name"]++;
		if (p->code == 0) { r.fail("accepted", "success although an operand is no file name: " + what); return; }
		if (errs.empty() && !werr) { r.fail("silent", what); return; }
		if (!so->data.empty() || (out && out->data != old)) r.fail("output", "output although an operand is no file name: " + what);
		return;
	}
	if (c.mode == M_INFO) {
		r.probes["info"]++;
		if (p->code) { r.fail("refused", what); return; }
		str shown = errs + so->data;
		if (!werr && (!contains(shown, fmt("N = %llu;", 1ull << h.logN)) || !contains(shown, fmt("r = %u;", h.r)) || !contains(shown, fmt("p = %u;", h.p)))) { r.fail("info", what + " stdout: " + so->data); return; }
		if (out && out->data != old) r.fail("output", "info wrote the output file: " + what);
		if (p->derivs) r.fail("info", "a key was derived: " + what);
		return;
	}
	if (w.fired_any("open:tty") && c.method == "dev:tty-stdin") pass = pin;
	str got = c.hasout ? out ? out->data : "" : so->data;
	if (c.hasout && !so->data.empty()) { r.fail("output", "data on standard output: " + what); return; }
	if (!c.hasout && out && out->data != old) { r.fail("output", "an output file that was not named was written: " + what); return; }
	if (nopass) { r.probes["no passphrase"]++; if (p->code == 0) r.fail("source", "success without the named passphrase source: " + what); else if (errs.empty()) r.fail("silent", what); return; }
	u64 N = 1ull << (c.mode == M_ENC ? c.logN : h.logN); u32 rr = c.mode == M_ENC ? c.r : h.r, pp = c.mode == M_ENC ? c.p : h.p;
	double mem = 128. * (double)N * rr, ops = 4. * (double)N * rr * pp, lim = c.m * ldexp(1, 34); if (c.hasM) lim = std::min(lim, (double)c.M); lim = std::max(lim, 1048576.);
	double tl = c.t * 1e6; bool big = mem > lim, slow = ops > tl, sure = fabs(ops - tl) > 0.4 * tl && fabs(mem - lim) > 2;
	if (c.mode == M_ENC) {
		if (p->code) { r.fail("refused", what); return; }
		bool expl = c.logN != 0;
		if (got.size() != pt.size() + 128) { r.fail("output", fmt("%zu bytes of output: ", got.size()) + what); return; }
		int lg = (u8)got[7]; u32 gr = ref::rd32(got, 8), gp = ref::rd32(got, 12); str salt = got.substr(16, 32);
		if (expl && (lg != c.logN || gr != c.r || gp != c.p)) { r.fail("parameters", fmt("used: logN=%d r=%u p=%u: ", lg, gr, gp) + what); return; }
		if (!expl && (lg < 1 || lg > 40)) { r.fail("parameters", what); return; }
		if (got != ref::encrypt_dk({lg, gr, gp, salt}, ref::stub_dk(pass, salt, 1ull << lg, gr, gp, 64), pt)) { r.fail("source", "not the input, encrypted with the passphrase of " + c.method + ": " + what); return; }
		if (!expl) { // the limits are those given
			double m2 = 128. * pow(2, lg) * gr, o2 = 4. * pow(2, lg) * gr * gp; r.probes["automatic"]++;
			if (m2 > lim + 2) { r.fail("limit", fmt("%.0f bytes of memory where %.0f were allowed: ", m2, lim) + what); return; }
			double th = std::max(tl, 32768.);
			if (o2 > 1.5 * th) { r.fail("limit", fmt("%.0f operations where %.0f were allowed: ", o2, th) + what); return; }
			if (o2 < 0.2 * th && 4 * m2 <= lim) { r.fail("limit", fmt("only %.0f operations where %.0f were allowed: ", o2, th) + what); return; }
		}
		if (werr) return;
		bool wm = contains(errs, "memory limit"), wt = contains(errs, "time limit");
		if (c.force || !expl) { if (wm || wt) { r.fail("warning", "a warning: " + what); return; } }
		else if (sure && (wm != big || wt != slow)) { r.fail("warning", fmt("over the memory limit: %d, over the time limit: %d: ", big, slow) + what); return; }
		bool quiet = c.method.compare(0, 4, "dev:") != 0 && !c.verbose && (c.force || !expl || (sure && !big && !slow));
		if (quiet && !errs.empty() && !fault) { r.fail("noise", what); return; }
		if (contains(errs, "N = ") != c.verbose) { r.fail("verbose", what); return; }
		r.probes["encrypted"]++;
		return;
	}
	if (!c.force && !sure) { r.probes["unclear"]++; return; }
	bool over = !c.force && (big || slow);
	if (over != (p->code != 0)) { r.fail(over ? "limit" : "refused", what); return; }
	if (over) { r.probes["over the limit"]++; if (!werr && ((big && !contains(errs, "memory")) || (slow && !contains(errs, "CPU time")))) r.fail("limit", "the message does not name the limit: " + what); if (!got.empty() && got != old) r.fail("output", "output although refused: " + what); return; }
	if (got != pt) { r.fail("output", "not the decryption of the named input: " + what); return; }
	if (!werr && contains(errs, "N = ") != c.verbose) { r.fail("verbose", what); return; }
	if (c.method.compare(0, 4, "dev:") != 0 && !c.verbose && !errs.empty() && !fault) { r.fail("noise", what); return; }
	r.probes["decrypted"]++;
}
static Reg r25({"C25", gen25, exec25, "one case = one complete command line: command, options in any order and spelling (packed, attached, separate, repeated, --), operands, and every kind of mistake in them, in a world with four different passphrases and both kinds of input and output, with some allocations, opens and writes failing; outcome compared with an independent model of the documented command line; all non-trivial; distinct by event-log hash and command line"});
