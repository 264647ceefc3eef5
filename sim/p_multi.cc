// C27: independent commands at the same time.  C28: files changed by others while a command runs.
#include "cli.h"
#include <cerrno>
#include <algorithm>
#include <signal.h>

// ---------------------------------------------------------------- C27
static const int MAXCMD = 4;
struct Multi { std::vector<Cmd> c; std::vector<Job> j; };
static Plan sub_plan(const Plan &pl, int i) {
	Plan q; q.prop = pl.prop; q.seed = pl.seed;
	Rng g((u64)pl.get(fmt("c%d", i), i + 1));
	gen_cmd(g, q, std::max<i64>(0, std::min<i64>(300000, pl.get("maxn", 3000))), -1); q.set("dir", 0);
	if (g.chance(15)) q.set("mode", M_INFO);
	if (q.get("mode") == M_INFO) { q.set("method", PM_ENV, PM_ENV); q.set("outkind", 0); if (q.get("inkind") > IN_N - 1) q.set("inkind", 0); }
	int m = (int)pl.get(fmt("m%d", i), -1); if (m >= M_ENC && m <= M_INFO && q.get("mode") != M_INFO && m != M_INFO) q.set("mode", m);
	int io = (int)pl.get("io"); // 1: named files, 2: standard streams
	if (io == 1) { q.set("inkind", IN_PATH); if (q.get("outkind") > OUT_OLD) q.set("outkind", OUT_NEW); }
	if (io == 2 && q.get("mode") != M_INFO) { q.set("inkind", IN_STDIN_PIPE); q.set("outkind", OUT_STDOUT_PIPE); if (q.get("method", PM_ENV) != PM_FILE) q.set("method", PM_ENV, PM_ENV); }
	return q;
}
static void build27(const Plan &pl, World &w, Multi &m) {
	int n = (int)std::max<i64>(1, std::min<i64>(MAXCMD, pl.get("n", 2)));
	bool tty = false; str encin; bool have_encin = false; int sharedin = (int)pl.get("sharein");
	for (int i = 0; i < n; i++) {
		Plan q = sub_plan(pl, i);
		Cmd c = plan_cmd(q);
		if (c.s.mode == M_INFO) { c.ct = ref::encrypt(c.h, c.s.pass, c.pt); c.s.indata = c.ct; }
		if (pl.get("sharepass")) { c.s.pass = plan_pass(pl); if (c.s.mode != M_ENC) { c.ct = ref::encrypt(c.h, c.s.pass, c.pt); c.s.indata = c.ct; } }
		if (sharedin && c.s.mode == M_ENC && c.s.inkind == IN_PATH) {
			if (!have_encin) { encin = c.pt; have_encin = true; }
			c.pt = c.s.indata = encin;
		}
		if (c.s.method == PM_TTY || c.s.method == PM_TTY_ONCE || c.s.method == PM_TTYSTDIN_NOTTY) { if (tty) c.s.method = PM_ENV; tty = true; }
		c.s.tag = fmt("%c-", 'a' + i);
		m.c.push_back(c);
		Job j = start_cmd(w, c);
		if (sharedin && have_encin && c.s.mode == M_ENC && c.s.inkind == IN_PATH && j.in) w.fs[c.s.tag + "in"] = j.in;
		m.j.push_back(j);
	}
}
static void gen27(Rng &g, Plan &pl) {
	int n = (int)g.range(2, MAXCMD);
	pl.set("n", n, 2);
	for (int i = 0; i < n; i++) pl.set(fmt("c%d", i), g.range(1, 1 << 24), i + 1);
	int kind = (int)g.below(4); // all encrypting, all decrypting, mixed
	if (kind < 2) for (int i = 0; i < n; i++) pl.set(fmt("m%d", i), kind, -1);
	pl.set("io", g.chance(60) ? 1 : g.below(3));
	pl.set("maxn", g.chance(70) ? 3000 : g.chance(70) ? 70000 : 200000, 3000);
	pl.set("sharepass", g.chance(30)); pl.set("sharein", g.chance(40)); gen_pass(g, pl);
	pl.set("urseed", g.range(1, 1 << 20), 1); gen_cpu(g, pl);
	gen_chunk(g, pl, pl.get("maxn", 3000));
	pl.set("sched_seed", g.range(1, 1 << 20)); pl.set("sched_pct", g.pick(std::vector<i64>{5, 30, 60, 100}));
	if (g.chance(30)) pl.set("rdrand", 1);
	if (!g.chance(55)) return;
	int victim = (int)g.below((u64)n); int vid = -1;
	std::vector<World::Site> s = record_sites(pl, [&](const Plan &q, World &w) { Multi m; build27(q, w, m); vid = m.j[(size_t)victim].proc->id; });
	std::vector<World::Site> mine; for (auto &x : s) if (x.proc == vid) mine.push_back(x);
	if (mine.empty()) return;
	pl.set("victim", victim + 1);
	int nf = (int)g.range(1, 2);
	for (int i = 0; i < nf; i++) {
		const World::Site &x = g.pick(mine);
		Fault f; f.proc = vid; f.kind = x.kind; f.target = x.tgt; f.nth = x.nth;
		switch (g.below(4)) {
		case 0: f.act = A_CRASH; pl.faults.push_back(f); break;
		case 1: f.act = A_SIG; f.arg = g.pick(std::vector<i64>{SIGINT, SIGTERM, SIGHUP, SIGTSTP, SIGQUIT, SIGCONT}); pl.faults.push_back(f); break;
		default: add_fault_at(g, pl, x);
		}
	}
}
static void exec27(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	World w(pl); w.keep_log = pl.get("_log"); w.max_steps = 6000000;
	Multi m; build27(pl, w, m);
	std::set<str> before; for (auto &x : w.fs) before.insert(x.first);
	std::map<str, str> content; for (auto &x : w.fs) if (x.second->type == I_REG) content[x.first] = x.second->data;
	int victim = pl.faults.empty() ? -1 : (int)pl.get("victim") - 1; size_t n = m.j.size();
	w.run(); finish_result(w, r);
	r.nontrivial = true;
	r.probes[fmt("commands-%zu", n)]++;
	if (!w.stuck.empty()) { r.fail("hang", w.stuck); return; }
	std::set<str> outs, salts; size_t nsalt = 0;
	for (size_t i = 0; i < n; i++) {
		Job &j = m.j[i]; Cmd &c = m.c[i]; Proc *p = j.proc; settle(w, j);
		const char *nm = c.s.mode == M_ENC ? "encryption" : c.s.mode == M_DEC ? "decryption" : "info";
		if (j.s.mode != M_INFO && (j.s.outkind == OUT_NEW || j.s.outkind == OUT_OLD)) outs.insert(j.outpath());
		if (p->group_sig) { r.fail("group-signal", fmt("command %zu sent a signal to the other processes of its group", i)); return; }
		if ((int)i == victim) continue;
		if (p->ek != E_EXIT) { r.fail("disturbed", fmt("command %zu (%s) ended by ", i, nm) + p->status()); return; }
		if (!p->ok()) { r.fail("disturbed", fmt("command %zu (%s) failed beside the others: ", i, nm) + j.errs()); return; }
		str e;
		if (c.s.mode == M_INFO) { if (!contains(j.so->data + j.errs(), fmt("N = %llu; r = %u; p = %u", 1ull << c.h.logN, c.h.r, c.h.p))) e = "the wrong parameters are shown"; }
		else e = wrong_result(w, j, c);
		if (!e.empty()) { r.fail("disturbed", fmt("command %zu (%s) says success, but ", i, nm) + e); return; }
		if (c.s.mode == M_ENC) { str o = j.output(w); salts.insert(o.substr(16, 32)); nsalt++; }
	}
	if (salts.size() != nsalt) { r.fail("same-salt", "two encryptions at the same time used the same salt"); return; }
	for (auto &x : w.fs) if (!before.count(x.first) && !outs.count(x.first)) { r.fail("litter", "a file nobody named was left: " + x.first); return; }
	for (auto &x : content) {
		if (outs.count(x.first)) continue;
		if (!w.fs.count(x.first)) { r.fail("lost-file", x.first + " is gone"); return; }
		if (w.fs[x.first]->data != x.second) { r.fail("changed-file", x.first + " was changed"); return; }
	}
	for (auto i : w.inodes) if (!i->meta.empty()) { bool own = false; for (auto &j : m.j) own |= i == j.out; if (!own) { r.fail("changed-file", "the " + i->meta + " of " + i->name + " was changed"); return; } }
	if (nsalt > 1) r.probes["encryptions-compared"] += nsalt;
	if (victim >= 0) r.probes[m.j[(size_t)victim].proc->ok() ? "victim-survived" : "victim-failed"]++;
}
static Reg r27({"C27", gen27, exec27, "one case = two to four independent commands (enc, dec, info) in one file system, interleaved call by call by the seeded scheduler, optionally sharing input file or passphrase, with faults, signals or a kill aimed at one of them; distinct by event-log hash"});

// ---------------------------------------------------------------- C28
enum { V_MV, V_RM, V_REPLACE, V_CREATE, V_TRUNC, V_APPEND, V_FLIP, V_SWAP, V_N };
static const char *vname[] = {"mv", "rm", "replace", "create", "trunc", "append", "flip", "swap"};
struct Meddle {
	World &w; const Plan &pl; Job &j; Cmd &c;
	std::map<str, Inode *> model; std::map<Inode *, str> want;    // what the files hold as far as the others know
	u64 done = 0; std::set<Inode *> altered; str bad; size_t next = 0; int fresh = 0; bool out_meddled = false;
	Meddle(World &w_, const Plan &p_, Job &j_, Cmd &c_) : w(w_), pl(p_), j(j_), c(c_) {}
	bool written(Inode *i) { return i->opens_w > 0; }
	void start() {
		model = w.fs;
		for (auto &x : w.fs) if (x.second->type == I_REG) want[x.second] = x.second->data;
		if (j.in) j.in->record = true;
		w.keep_opens = true;
	}
	void check() {
		if (bad.empty()) for (auto i : w.inodes) if (!i->meta.empty() && !written(i)) { bad = "the command changed the " + i->meta + " of " + i->name + ", which it had not opened for writing"; return; }
 // the directory is as the others left it, except that the output may have been created
		if (!bad.empty()) return;
		for (auto &x : model) {
			auto i = w.fs.find(x.first);
			if (i == w.fs.end()) { bad = "the command removed or renamed " + x.first; return; }
			if (i->second != x.second) { bad = "the command replaced " + x.first; return; }
		}
		for (auto &x : w.fs) if (!model.count(x.first)) {
			if (x.first != j.outpath() || !written(x.second)) { bad = "the command created " + x.first; return; }
			model[x.first] = x.second;
		}
		for (auto &x : want) if (!written(x.first) && x.first->data != x.second) { bad = "the command changed " + x.first->name + ", which it had not opened for writing"; return; }
	}
	str path(i64 which) { switch (which % 3) { case 0: return j.s.tag + "in"; case 1: return j.outpath(); default: return j.s.tag + "pass"; } }
	str content(const str &pth, u64 seed) {
		if (pth == j.s.tag + "pass") return prbytes(seed, 6) == "" ? "" : fmt("other%llu\n", (unsigned long long)(seed % 97));
		if (pth == j.s.tag + "in" && c.s.mode == M_DEC) { ref::Hdr h = c.h; h.salt = prbytes(seed, 32); return ref::encrypt(h, c.s.pass, prbytes(seed, (size_t)(seed % 700))); }
		return prbytes(seed, (size_t)(seed % 900));
	}
	Inode *fresh_file(const str &pth, u64 seed) {
		Inode *i = w.anon(fmt("new%d-%s", fresh++, pth.c_str()), I_REG); i->data = content(pth, seed);
		want[i] = i->data;
		return i;
	}
	void apply(const Mut &m) {
		int v = -1; for (int i = 0; i < V_N; i++) if (m.kind == vname[i]) v = i;
		str pth = path(std::max<i64>(0, m.b)); u64 x = (u64)std::max<i64>(0, m.c);
		auto it = w.fs.find(pth); Inode *ino = it == w.fs.end() ? nullptr : it->second;
		if (ino && ino->type != I_REG) return;
		bool did = false;
		switch (v) {
		case V_MV: if (ino) { w.fs.erase(it); w.fs[fmt("%s.moved%d", pth.c_str(), fresh++)] = ino; did = true; } break;
		case V_RM: if (ino) { w.fs.erase(it); did = true; } break;
		case V_REPLACE: if (ino) { w.fs[pth] = fresh_file(pth, x); did = true; } break;
		case V_CREATE: if (!ino) { w.fs[pth] = fresh_file(pth, x); did = true; } break;
		case V_SWAP: { auto k = w.fs.find(path(m.b + 1 + (i64)(x & 1))); if (ino && k != w.fs.end() && k->second->type == I_REG) { std::swap(it->second, k->second); did = true; } break; }
		default: // changes in place, never of the file being written
			if (!ino || written(ino)) return;
			if (v == V_TRUNC) ino->data.resize(ino->data.empty() ? 0 : (size_t)(x % ino->data.size()));
			else if (v == V_APPEND) ino->data += prbytes(x, (size_t)(x % 5000) + 1);
			else if (v == V_FLIP && !ino->data.empty()) ino->data[(size_t)(x % ino->data.size())] ^= (char)(1 + x % 255);
			want[ino] = ino->data; altered.insert(ino); did = true;
		}
		if (did) { w.fired[fmt("other-process:%s", vname[v < 0 ? 0 : v])]++; w.nfired++; done++; w.ev(nullptr, "meddle", pth, v, m.c); }
		model = w.fs;
	}
	void step(Proc *p) {
		if (p != j.proc) return;
		check();
		while (next < pl.muts.size() && (i64)p->nsys - 1 >= pl.muts[next].a) apply(pl.muts[next++]);
	}
};
static void build28(const Plan &pl, World &w, Job &j, Cmd &c) {
	c = plan_cmd(pl);
	j = start_cmd(w, c);
}
static void gen28(Rng &g, Plan &pl) {
	gen_cmd(g, pl, g.chance(60) ? 3000 : g.chance(70) ? 70000 : 200000, -1); pl.set("dir", 0);
	pl.set("outkind", g.chance(50) ? OUT_NEW : OUT_OLD); pl.set("auto", 0);
	if (g.chance(75)) pl.set("inkind", IN_PATH);
	if (g.chance(35)) { pl.set("method", PM_FILE, PM_ENV); }
	if (g.chance(15)) pl.set("cap", g.range(0, pl.get("isize") + 200));
	i64 nsys = 0;
	{ Plan q = pl; note_plan(q); World w(q); Job j; Cmd c; build28(q, w, j, c); w.run(); nsys = (i64)j.proc->nsys; }
	int n = (int)g.range(1, 4);
	std::vector<i64> at; i64 lo = g.chance(50) ? 0 : nsys / 2;
	for (int i = 0; i < n; i++) at.push_back(g.range(lo, nsys));
	std::sort(at.begin(), at.end());
	for (int i = 0; i < n; i++) {
		Mut m; m.kind = vname[g.below(V_N)]; m.a = at[(size_t)i]; m.b = g.chance(50) ? 1 : (i64)g.below(3); m.c = g.range(1, 1 << 20);
		if ((m.kind == "trunc" || m.kind == "append" || m.kind == "flip")) m.b = 0;
		pl.muts.push_back(m);
	}
	if (g.chance(25)) {
		std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { Job j; Cmd c; build28(q, w, j, c); });
		std::vector<World::Site> mine; for (auto &x : s) if (x.proc == 0) mine.push_back(x);
		if (!mine.empty()) add_fault_at(g, pl, g.pick(mine));
	}
}
static str first_line(const str &s) { return s.substr(0, s.find_first_of("\r\n")); }
static bool one_line(str s) {
	if (s.size() > 2045 || s.empty() || s.find('\0') != str::npos) return false;
	return s.find_first_not_of("\r\n", first_line(s).size()) == str::npos;
}
static void exec28(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	World w(pl); w.keep_log = pl.get("_log");
	Job j; Cmd c; build28(pl, w, j, c);
	Meddle M(w, pl, j, c); M.start();
	Inode *std_in = j.in;
	w.on_call = [&](Proc *p, const char *) { M.step(p); };
	bool other = false; // a fault other than the meddling
	w.run(); M.check(); finish_result(w, r);
	for (auto &x : w.fired) if (x.first.compare(0, 14, "other-process:")) other = true;
	if (optparse_oom(w, j)) return;
	if (!clean_end(w, r)) return;
	r.nontrivial = M.done > 0;
	if (!M.bad.empty()) { r.fail("directory", M.bad); return; }
	std::vector<Inode *> wr; std::vector<str> in, pass;
	for (auto i : w.inodes) if (i->type == I_REG && i->opens_w) wr.push_back(i);
	for (auto &o : w.opens) if ((o.flags & 3) == 0) { if (o.path == j.s.tag + "in") in.push_back(*o.rec); if (o.path == j.s.tag + "pass") pass.push_back(*o.rec); }
	if (wr.size() > 1) { r.fail("second-output", fmt("the command opened %zu files for writing", wr.size())); return; }
	if (std_in && j.s.inkind != IN_PATH && in.empty()) in.push_back(std_in->rec);
	bool ok = j.proc->ok();
	if (in.size() > 1 || pass.size() > 1) { // looked at twice: the outcome must still be that of one of them
		r.probes["reopened"]++;
	}
	if (!ok) {
		r.probes["failed"]++;
		if (other) return;
		if (in.empty()) { r.probes["input-missing"]++; return; }
		if (j.s.method == PM_FILE && pass.empty()) { r.probes["passphrase-missing"]++; return; }
		if (j.s.method == PM_FILE && !one_line(pass[0])) { r.probes["passphrase-unusable"]++; return; }
		if (j.s.mode == M_ENC) { r.fail("spurious", "the encryption failed although its files could be opened: " + j.errs()); return; }
		str ps = j.s.method == PM_FILE ? first_line(pass[0]) : c.s.pass, q;
		if (in.size() > 1 && pass.size() <= 1) { // the file that was there first was good, and nobody changed it
			for (auto &o : w.opens) if (o.path == j.s.tag + "in" && (o.flags & 3) == 0) { if (!M.altered.count(o.ino) && ref::decrypt(ps, o.ino->data, q)) r.fail("spurious", "the file opened is correct, but the decryption failed: " + j.errs()); break; }
			return;
		}
		if (pass.size() <= 1 && ref::decrypt(ps, in[0], q)) { r.fail("spurious", "the file read was complete and correct, but the decryption failed: " + j.errs()); return; }
		return;
	}
	if (wr.empty()) { r.fail("no-output", "success without having opened the output"); return; }
	if (in.empty()) { r.fail("no-input", "success without having opened the input"); return; }
	if (j.s.method == PM_FILE && pass.empty()) { r.fail("no-passphrase", "success without having opened the passphrase file"); return; }
	const str &o = wr[0]->data; bool good = false; str why;
	std::vector<str> ps; if (j.s.method == PM_FILE) for (auto &i : pass) ps.push_back(first_line(i)); else ps.push_back(c.s.pass);
	for (auto &p : ps) if (p.find('\0') != str::npos) { r.probes["passphrase-unusable"]++; return; } // no passphrase holds a NUL
	std::vector<str> cand = in;
	if (in.size() > 1) for (auto &x : w.opens) if ((x.flags & 3) == 0 && x.path == j.s.tag + "in") cand.push_back(x.ino->data);
	for (auto &d : cand) for (auto &p : ps) {
		str q; ref::Hdr h;
		if (j.s.mode == M_DEC) {
			if (!ref::decrypt(p, d, q)) { if (why.empty()) why = "success, but what was read is not a valid encrypted file"; }
			else if (q != o) why = fmt("what was read decrypts to %zu bytes, the output holds %zu bytes and differs", q.size(), o.size());
			else good = true;
		} else {
			if (!ref::decrypt(p, o, q, &h)) { if (why.empty()) why = fmt("the output (%zu bytes) is not a valid encrypted file", o.size()); }
			else if (q != d) why = fmt("%zu bytes were read, the output decrypts to %zu bytes and differs", d.size(), q.size());
			else good = true;
		}
	}
	if (!good && !other) { r.fail("mixed", why); return; }
	if (!good && other) { // short input after a read fault and the like is judged by other properties; a wrong success is not
		if (j.s.mode == M_DEC) { r.fail("mixed", why); return; }
	}
	r.probes["succeeded"]++;
}
static Reg r28({"C28", gen28, exec28, "one case = one command during which another process renames, removes, replaces, creates, swaps, truncates, extends or alters files at the paths it was given, at planned calls, sometimes with one more fault; distinct by event-log hash"});
