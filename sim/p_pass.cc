// C10, C11: passphrase entry.
#include "cli.h"
#include "api.h"
#include <cerrno>
#include <algorithm>

// ---------------------------------------------------------------- C10
enum { V_ACCEPT, V_REFUSE, V_EITHER, V_OVERLONG };
struct Expect { int v; str pass; };
static const size_t MAXLINE = 2047;
static Expect expect_stream(const str &d, bool confirm, bool tty) {
	std::vector<str> l; size_t i = 0;
	while (i < d.size()) { size_t e = d.find('\n', i); e = e == str::npos ? d.size() : e + 1; l.push_back(d.substr(i, e - i)); i = e; }
	auto content = [](const str &x) { return x.substr(0, x.find_first_of("\r\n")); };
	(void)tty;
	// does not fit: refused (a lone CR in the middle of such a line leaves the choice of refusing or using what precedes it)
	auto longl = [&](const str &x) { size_t n = x.size(); if (n && x[n - 1] == '\n') n--; if (n && x[n - 1] == '\r') n--; return n > MAXLINE; };
	for (size_t k = 0;;) {
		if (k >= l.size()) return {V_REFUSE, ""};
		str a = content(l[k]);
		if (longl(l[k])) return {V_OVERLONG, a};
		if (!confirm) return {V_ACCEPT, a};
		if (k + 1 >= l.size()) return {V_REFUSE, ""};
		str b = content(l[k + 1]);
		if (longl(l[k + 1])) return {V_OVERLONG, b};
		if (l[k] == l[k + 1]) return {V_ACCEPT, a};
		if (a == b) return {V_EITHER, a};
		k += 2;
	}
}
// a repaired defect (see known_findings.txt): an over-long line was taken as several lines
static Expect expect_cut(const str &d, bool confirm) {
	std::vector<str> l; size_t i = 0;
	while (i < d.size()) { size_t e = d.find('\n', i); e = e == str::npos ? d.size() : e + 1; if (e - i > MAXLINE) e = i + MAXLINE; l.push_back(d.substr(i, e - i)); i = e; }
	for (size_t k = 0; k + (confirm ? 1 : 0) < l.size(); k += 2) if (!confirm || l[k] == l[k + 1]) return {V_ACCEPT, l[k].substr(0, l[k].find_first_of("\r\n"))};
	return {V_REFUSE, ""};
}
static Expect expect_file(const str &d) {
	size_t e = d.find('\n');
	if (e != str::npos && e + 1 != d.size()) return {V_REFUSE, ""};
	if (d.size() > MAXLINE) return {V_REFUSE, ""};
	return {V_ACCEPT, d.substr(0, d.find_first_of("\r\n"))};
}
static void gen10(Rng &g, Plan &pl) {
	int mode = g.chance(60) ? M_ENC : M_DEC;
	pl.set("mode", mode); pl.set("isize", g.range(0, 300)); pl.set("data_seed", g.range(1, 1000));
	pl.set("method", (i64)g.below(PM_N), PM_ENV);
	gen_pass(g, pl);
	if (g.chance(15)) pl.set("pass_len", g.pick(std::vector<i64>{2040, 2044, 2045, 2046, 2047, 2048, 2049, 2060, 2500, 3000}), 10);
	pl.set("eol", (i64)g.below(4));
	pl.set("inkind", (i64)g.below(IN_N)); pl.set("outkind", (i64)g.below(OUT_N));
	if (g.chance(30)) pl.set("more", g.range(1, 4)); // what follows the first line
	if (g.chance(35)) pl.set("mism", g.range(1, 4)); // mismatching attempts first
	pl.set("mkind", g.range(0, 7));
	if (g.chance(25)) pl.set("noterm", 1);
	if (g.chance(12)) pl.set("giveup", g.range(1, 3));
	if (g.chance(10)) pl.set("none", 1);
	if (g.chance(10)) pl.set("envnl", 1);
	if (mode == M_DEC && g.chance(40)) pl.set("otherkey", g.range(1, 7));
	if (g.chance(50)) { pl.set("chunk", g.range(1, 4)); pl.set("chunk_seed", g.range(1, 1 << 20)); pl.set("chunk_max", g.range(1, 60), 4096); if (pl.get("pass_len") > 500 && pl.get("chunk") == 4) pl.set("chunk", 2); }
	pl.set("feed_piece", g.chance(30) ? 777 : 0);
	pl.set("stdio_buf", g.pick(std::vector<i64>{0, 0, 0, 100, 1024, 8192}));
	if (g.chance(3)) { // the source fails just where the longest permitted passphrase would end
		pl.set("method", g.pick(std::vector<i64>{PM_STDIN_ONCE, PM_TTYSTDIN_NOTTY, PM_FILE}), PM_ENV);
		pl.set("pass_len", g.range(2047, 2060), 10); pl.set("chunk", 0); pl.set("feed_piece", 0); pl.set("more", 0); pl.set("mism", 0);
		str t = pl.get("method") == PM_FILE ? "pass" : "stdin";
		Fault f; f.target = t; f.kind = "read"; f.act = A_SHORT; f.nth = 0; f.arg = 2047 + (i64)g.below(2); pl.faults.push_back(f);
		f.act = A_ERR; f.nth = 1; f.arg = g.pick(std::vector<i64>{EIO, EAGAIN, EINTR}); f.count = g.chance(50) ? -1 : 1; pl.faults.push_back(f);
	} else
	if (g.chance(30)) {
		int k = (int)g.range(1, 2);
		for (int i = 0; i < k; i++) {
			Fault f; f.target = g.pick(std::vector<str>{"tty", "stdin", "pass"});
			switch (pl.get("method", PM_ENV)) { case PM_TTY: case PM_TTY_ONCE: f.target = "tty"; break; case PM_FILE: f.target = "pass"; break; default: f.target = "stdin"; }
			switch (g.below(8)) {
			case 0: f.kind = "open"; f.arg = g.pick(std::vector<i64>{EACCES, ENXIO, EMFILE, EIO}); f.count = -1; break;
			case 1: f.kind = "alloc"; f.target = "-"; f.nth = (i64)g.below(12); f.arg = ENOMEM; break;
			case 2: f.kind = "read"; f.act = A_SHORT; f.arg = g.range(1, 5); f.count = g.range(1, 9); f.nth = (i64)g.below(5); break;
			case 3: f.kind = "getenv"; f.target = "-"; f.arg = 1; break;
			case 4: f.kind = "close"; f.arg = EIO; break;
			default: f.kind = "read"; f.nth = (i64)g.below(6); f.arg = g.pick(std::vector<i64>{EIO, EAGAIN, EINTR, EISDIR, EBADF}); f.count = g.chance(40) ? -1 : 1; break;
			}
			pl.faults.push_back(f);
			if (f.kind == "open" && f.target == "tty") pl.set("inkind", IN_PATH);
		}
	}
}
static str mutate(const str &p, int kind) {
	str q = p;
	switch (kind % 8) {
	case 0: q += "x"; break;
	case 1: if (!q.empty()) q.resize(q.size() - 1); break;
	case 2: if (!q.empty()) q[q.size() - 1] ^= 1; break;
	case 3: if (!q.empty()) q[0] ^= 1; break;
	case 4: q += " "; break;
	case 5: q = " " + q; break;
	case 6: q = ""; break;
	case 7: for (auto &c : q) if (c >= 'a' && c <= 'z') { c = (char)(c - 32); break; } break;
	}
	for (auto &c : q) if (c == 0 || c == '\r' || c == '\n') c = 'n';
	if (q == p) q = p + "y";
	if (p.size() > 2030 && q.size() > p.size()) { q = p; q[5] ^= 1; if (q[5] == '\n' || q[5] == '\r' || !q[5]) q[5] = 'z'; }
	return q;
}
static void exec10(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	int mode = pl.get("mode") == M_DEC ? M_DEC : M_ENC;
	str pass = plan_pass(pl), pt = plan_data(pl);
	Spec s = spec_from(pl, mode); s.pass = pass; s.force = true; s.logN = 10; s.r = s.p = 1;
	bool tty = s.method == PM_TTY || s.method == PM_TTY_ONCE;
	bool confirm = mode == M_ENC && (s.method == PM_TTY || s.method == PM_TTYSTDIN_NOTTY);
	const char *EOL[] = {"\n", "\r\n", "", "\r"};
	str eol = EOL[pl.get("eol") & 3];
	Expect x{V_ACCEPT, pass}, cut{V_REFUSE, ""};
	if (s.method == PM_ENV) {
		if (pl.get("envnl")) pass += "\n2nd \r\n", x.pass = s.pass = pass;
		if (pl.get("none")) { s.no_pass = true; x = {V_REFUSE, ""}; }
	} else if (s.method == PM_FILE) {
		str c = pass + eol;
		switch (pl.get("more")) { case 1: c = pass + "\nsecond line\n"; break; case 2: c = pass + "\n\n"; break; case 3: c = pass + eol + (eol == "\n" || eol == "\r\n" ? " " : ""); break; case 4: c = "\n" + pass; break; }
		s.raw_pass = true; s.pass = c;
		x = expect_file(c);
		if (pl.get("none")) { s.no_pass = true; x = {V_REFUSE, ""}; }
	} else {
		std::vector<str> l;
		if (tty || (confirm && (eol.empty() || eol == "\r"))) eol = "\n";
		if (confirm) {
			int m = (int)std::max<i64>(0, std::min<i64>(6, pl.get("mism")));
			for (int i = 0; i < m; i++) { str bad = mutate(pass, (int)pl.get("mkind") + i); if ((pl.get("mkind") + i) & 1) { l.push_back(bad + eol); l.push_back(pass + eol); } else { l.push_back(pass + eol); l.push_back(bad + eol); } }
			if (!pl.get("giveup")) { l.push_back(pass + eol); l.push_back(pass + eol); }
			else if (pl.get("giveup") == 2) l.push_back(pass + eol);
		} else l.push_back(pass + eol);
		switch (pl.get("more")) { case 1: l.push_back("second line\n"); break; case 2: l.push_back("\n"); break; case 3: l.push_back(mutate(pass, 0) + "\n"); l.push_back("third"); break; case 4: l.push_back(pass); break; }
		if (tty) for (auto &q : l) if (q.empty() || q.back() != '\n') q += "\n"; // a line of terminal input
		if (pl.get("none")) l.clear();
		s.typed_set = true; s.typed = l;
		str all; for (auto &q : l) all += q;
		x = expect_stream(all, confirm, tty); cut = expect_cut(all, confirm);
	}
	// without a terminal: standard input is read instead, except where the terminal was asked for by name
	bool away = tty && pl.get("noterm"); 
	if (away) {
		s.no_tty = true; s.inkind = IN_PATH;
		str fb = "fallback-" + pass.substr(0, 20); fb += "\n";
		s.stdin_text = fb + fb;
		if (s.method == PM_TTY_ONCE) x = {V_REFUSE, ""}; else { x = expect_stream(s.stdin_text, confirm, false); cut = x; }
	}
	str fkey = x.v == V_ACCEPT ? x.pass : pass;
	bool other = mode == M_DEC && pl.get("otherkey");
	if (x.v == V_OVERLONG) { fkey = x.pass; if (pl.get("otherkey")) fkey = cut.pass; other = false; }
	else if (other) fkey = pl.get("otherkey") == 7 && pass.size() > 3 ? pass.substr(0, pass.size() / 2) : mutate(fkey, (int)pl.get("otherkey"));
	ref::Hdr h = plan_hdr(pl); h.logN = 10; h.r = h.p = 1;
	s.indata = mode == M_ENC ? pt : ref::encrypt(h, fkey, pt);
	World w(pl); w.keep_log = pl.get("_log");
	Job j = start_job(w, s);
	w.run(); settle(w, j); finish_result(w, r);
	r.nontrivial = true;
	Cmd c; c.s = s; c.pt = pt; c.h = h;
	if (!clean_end(w, r, optparse_oom(w, j))) return;
	if (optparse_oom(w, j)) return;
	bool ok = j.proc->ok(); str o = j.output(w);
	str used; bool know = false; // which passphrase was used
	if (ok && mode == M_ENC) {
		str q;
		std::vector<str> cand = {x.pass, pass, cut.pass};
		for (auto &cd : cand) if (!know && ref::decrypt(cd, o, q)) { used = cd; know = true; }
		if (know && q != pt) { r.fail("wrong-result", "the encryption holds something else"); return; }
		if (!know) { r.fail("other-passphrase", "success, but the file was not encrypted with the passphrase supplied"); return; }
	}
	if (ok && mode == M_DEC && o != pt) { r.fail("wrong-result", "the decryption delivered something else"); return; }
	bool fault = w.nfired > 0;
	switch (x.v) {
	case V_ACCEPT:
		if (other) { if (ok) r.fail("other-passphrase", "a file encrypted with a different passphrase was decrypted"); else r.probes["other-key-refused"]++; return; }
		if (!ok && !fault) { r.fail("refused", "the supplied passphrase was not accepted: " + j.proc->status() + " " + j.errs()); return; }
		if (ok && mode == M_ENC && used != x.pass) { r.fail("other-passphrase", fmt("a passphrase of %zu bytes was used as one of %zu", x.pass.size(), used.size())); return; }
		r.probes[ok ? confirm ? "confirmed" : "accepted" : "refused-after-fault"]++;
		break;
	case V_REFUSE:
		if (ok) { r.fail("not-refused", fmt("method %d: success although no complete single passphrase was supplied", s.method)); return; }
		if (j.errs().empty() && !fault) { r.fail("silent", "refused without a message"); return; }
		r.probes["refused"]++;
		break;
	case V_EITHER:
		if (ok && mode == M_ENC && used != x.pass) r.fail("other-passphrase", "success with an unconfirmed passphrase");
		r.probes["either"]++;
		break;
	case V_OVERLONG:
		if (!ok) { r.probes["overlong-refused"]++; return; }
		if ((mode == M_ENC && used == cut.pass && cut.v == V_ACCEPT && cut.pass != x.pass) || (mode == M_DEC && pl.get("otherkey"))) { r.fail("overlong-cut", fmt("a passphrase line of more than 2047 characters was silently cut to the first 2047 (used: %zu bytes of %zu)", cut.pass.size(), x.pass.size())); return; }
		if (mode == M_ENC && used == x.pass) { r.probes["overlong-taken-whole"]++; return; }
		if (mode == M_DEC) { r.probes["overlong-taken-whole"]++; return; }
		r.fail("overlong-other", "an over-long passphrase became something else");
	}
	if (!ok && mode == M_ENC && j.output(w) != (s.outkind == OUT_OLD ? s.old : str()) && !fault) r.fail("touched", "output was written although the passphrase was refused");
}
static Reg r10({"C10", gen10, exec10, "one case = one enc or dec with a planned passphrase source (method, bytes, length, line ending, following lines, confirmation history, delivery in pieces, missing source, failing reads); the passphrase actually used is recovered from the output with the reference decoder; all non-trivial; distinct by event-log hash"});

// ---------------------------------------------------------------- C11
static const int SIGS[] = {SIGHUP, SIGINT, SIGPIPE, SIGQUIT, SIGTERM, SIGTSTP, SIGTTIN, SIGTTOU, SIGALRM};
struct UserCall { int sig; bool ttyok; };
static std::vector<UserCall> g_user;
static World *g_w;
static bool tty_ok(World *w) { for (auto i : w->inodes) if (i->type == I_TTY && memcmp(&i->tio, &i->tio0, sizeof i->tio)) return false; return true; }
static void on_user(int sig) { g_user.push_back({sig, tty_ok(g_w)}); }
static void tty_setup(const Plan &pl, World &w) {
	for (auto i : w.inodes) if (i->type == I_TTY) {
		i64 t = pl.get("tio");
		if (t & 1) i->tio.c_lflag &= ~(tcflag_t)ECHO;
		if (t & 2) i->tio.c_lflag |= ECHONL;
		if (t & 4) i->tio.c_lflag &= ~(tcflag_t)(ECHOE | ECHOK);
		if (t & 8) i->tio.c_iflag |= IUTF8, i->tio.c_cc[VEOL] = 7;
		if (t & 16) i->tio.c_lflag |= NOFLSH | TOSTOP;
		i->tio0 = i->tio;
	}
}
static std::vector<str> typed11(const Plan &pl, bool confirm) {
	str p = plan_pass(pl) + "\n"; std::vector<str> l;
	int m = (int)std::max<i64>(0, std::min<i64>(5, pl.get("mism")));
	if (confirm) for (int i = 0; i < m; i++) { l.push_back(p); l.push_back("other " + p); }
	if (pl.get("eof") == 1) return l;
	l.push_back(p);
	if (confirm && pl.get("eof") != 2) l.push_back(p);
	return l;
}
struct T11 { Job j; Proc *p = nullptr; Inode *tty = nullptr; bool api = false, confirm = false; };
static void disp_setup(const Plan &pl, Proc *p, bool api) {
	int k = 0;
	for (int s : SIGS) {
		i64 d = pl.get("disp") >> (2 * k++) & 3;
		if (d == 1) p->sa[s].sa_handler = SIG_IGN;
		if (d >= 2 && api) { p->sa[s].sa_handler = on_user; p->sa[s].sa_flags = d == 3 ? SA_RESTART : 0; }
	}
}
static void build11(const Plan &pl, World &w, T11 &t, std::function<void(Proc *)> atret = nullptr) {
	t.api = pl.get("api"); g_w = &w; g_user.clear();
	if (!t.api) {
		Cmd c = plan_cmd(pl);
		int m = (int)pl.get("how");
		c.s.method = m == 0 ? PM_TTY : m == 1 ? PM_TTY_ONCE : m == 2 ? PM_STDIN_ONCE : PM_TTYSTDIN_NOTTY;
		if (m >= 2) { c.s.stdin_tty = true; c.s.inkind = IN_PATH; }
		t.confirm = c.s.mode == M_ENC && (m == 0 || m == 3);
		c.s.typed_set = true; c.s.typed = typed11(pl, t.confirm);
		t.j = start_cmd(w, c); t.p = t.j.proc; t.tty = t.j.tty;
	} else {
		int dev = (int)(pl.get("how") % 3); t.confirm = pl.get("confirm");
		int n = (int)std::max<i64>(1, std::min<i64>(4, pl.get("ncalls", 1)));
		std::vector<str> l; for (int i = 0; i < n; i++) for (auto &x : typed11(pl, t.confirm)) l.push_back(x);
		bool conf = t.confirm;
		t.p = w.spawn_fn("caller", [n, dev, conf, atret, &w]() {
			api_setprogname();
			for (int i = 0; i < n; i++) { char *pw = nullptr; int rc = api_readpass(&pw, "Prompt", conf ? "Again" : nullptr, dev); if (rc == 0) sim_free(pw); if (atret) atret(w.cur->p); }
			return 0;
		});
		t.tty = w.node(dev == 0 ? "/dev/pts/0" : "/dev/tty", I_TTY); t.tty->name = "tty"; t.tty->script = l;
		if (dev == 0) w.set_fd(t.p, 0, t.tty, false); else w.set_fd(t.p, 0, w.fs["/dev/null"], false);
	}
	tty_setup(pl, w); disp_setup(pl, t.p, t.api);
}
static void gen11(Rng &g, Plan &pl) {
	pl.set("api", g.chance(45));
	pl.set("mode", g.chance(65) ? M_ENC : M_DEC); pl.set("isize", g.range(0, 100)); pl.set("data_seed", 3);
	pl.set("pass_len", g.range(0, 30), 10); pl.set("pass_seed", g.range(1, 1000), 1);
	pl.set("how", g.range(0, 3)); pl.set("confirm", g.chance(50)); pl.set("ncalls", g.chance(30) ? g.range(2, 4) : 1, 1);
	pl.set("tio", g.chance(50) ? 0 : (i64)g.below(32));
	if (g.chance(35)) pl.set("mism", g.range(1, 3));
	if (g.chance(20)) pl.set("eof", g.range(1, 2));
	if (g.chance(50)) { i64 d = 0; for (int k = 0; k < 9; k++) if (g.chance(35)) d |= (i64)g.below(4) << (2 * k); pl.set("disp", d); }
	if (g.chance(30)) { pl.set("chunk", g.range(1, 4)); pl.set("chunk_seed", g.range(1, 10000)); pl.set("chunk_max", g.range(1, 40), 4096); }
	pl.set("outkind", g.range(0, 2)); pl.set("inkind", 0);
	std::vector<World::Site> s = record_sites(pl, [](const Plan &q, World &w) { static T11 t; t = T11(); build11(q, w, t); });
	std::vector<World::Site> m; for (auto &x : s) if (x.proc == 0) m.push_back(x);
	i64 lo = 0, hi = (i64)m.size(); for (size_t i = 0; i < m.size(); i++) if (m[i].kind == "sigaction") { if (!lo) lo = (i64)i + 1; hi = (i64)i + 4; }
	lo = lo > 4 ? lo - 4 : 0;
	if (hi < lo) hi = lo;
	int n = g.chance(20) ? 0 : g.chance(65) ? 1 : (int)g.range(2, 4);
	int same = SIGS[g.below(9)];
	for (int i = 0; i < n; i++) {
		Fault f; f.kind = "any"; f.target = "*"; f.act = A_SIG; f.arg = g.chance(40) ? same : g.chance(10) ? g.pick(std::vector<i64>{SIGCONT, SIGWINCH, SIGCHLD}) : SIGS[g.below(9)];
		f.nth = g.chance(88) ? g.range(lo, hi) : (i64)g.below(m.size() + 1);
		pl.faults.push_back(f);
	}
	if (g.chance(30)) {
		Fault f; f.target = "tty";
		switch (g.below(7)) {
		case 0: f.kind = "tcgetattr"; f.arg = g.pick(std::vector<i64>{EIO, EINTR, ENOTTY}); break;
		case 1: f.kind = "tcsetattr"; f.arg = g.pick(std::vector<i64>{EIO, EINTR, EINVAL}); break; // the first one: turning echo off
		case 2: case 3: f.kind = "read"; f.nth = (i64)g.below(4); f.arg = g.pick(std::vector<i64>{EIO, EINTR, EAGAIN}); break;
		case 4: f.kind = "read"; f.nth = (i64)g.below(4); f.act = A_EOF; break;
		case 5: f.kind = "close"; f.arg = EIO; break;
		default: f.kind = g.chance(50) ? "alloc" : "write"; f.target = f.kind == "alloc" ? "-" : "stderr0"; f.nth = (i64)g.below(10); f.arg = f.kind == "alloc" ? ENOMEM : EIO; if (f.kind == "write") f.count = -1; break;
		}
		pl.faults.push_back(f);
	}
}
static void exec11(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	World w(pl); w.keep_log = pl.get("_log");
	T11 t; struct sigaction before[65]; bool got = false; str bad;
	build11(pl, w, t, [&](Proc *p) {
		for (int s = 1; s < 65; s++) if (p->sa[s].sa_handler != before[s].sa_handler || p->sa[s].sa_flags != before[s].sa_flags) { if (bad.empty()) bad = fmt("the disposition of signal %d was not restored", s); }
		if (!tty_ok(&w) && bad.empty()) bad = "the terminal settings were not restored when the call returned";
		(void)got;
	});
	memcpy(before, t.p->sa, sizeof before);
	w.run(); finish_result(w, r);
	r.nontrivial = !t.p->sig_taken.empty() || w.nfired || pl.get("eof") || pl.get("mism") || pl.get("tio");
	Proc *p = t.p;
	if (!t.api && optparse_oom(w, t.j)) return;
	if (!clean_end(w, r)) return;
	if (t.p->group_sig) { r.fail("group-signal", "a signal was sent to other processes as well"); return; }
	if (!bad.empty()) { r.fail("not-restored", bad); return; }
	if (!tty_ok(&w)) { r.fail("terminal", "the process ended with altered terminal settings: " + p->status()); return; }
	if (t.tty->typed_echo && !(pl.get("tio") & 1)) { r.fail("echo", fmt("%llu lines were typed with echo on", (unsigned long long)t.tty->typed_echo)); return; }
	if (t.tty->unasked) { r.fail("not-asked", fmt("%llu lines were read from the terminal without having been asked for", (unsigned long long)t.tty->unasked)); return; }
	for (auto &e : p->sig_taken) if ((e.how == 'k' || e.how == 's') && !e.tty_ok) { r.fail("terminal", fmt("signal %d took effect (%c) while the terminal was altered", e.sig, e.how)); return; }
	for (auto &u : g_user) if (!u.ttyok) { r.fail("terminal", fmt("the caller's handler for signal %d ran while the terminal was altered", u.sig)); return; }
	// no effect without a cause
	{ std::map<int, int> eff; for (auto &u : g_user) eff[u.sig]++; for (auto &e : p->sig_taken) if (e.how == 's') eff[e.sig]++;
	  for (auto &x : eff) if (x.second > p->sig_sent[x.first]) { r.fail("spurious-signal", fmt("signal %d took effect %d times but was sent %d times", x.first, x.second, p->sig_sent[x.first])); return; } }
	if (p->ek == E_SIGNAL) { bool sent = p->sig_sent[p->code] > 0; if (!sent) r.fail("death", "ended with " + p->status() + " that nobody sent"); r.probes["killed"]++; return; }
	if (p->ek != E_EXIT) { r.fail("death", p->status()); return; }
	// every signal that arrived had its effect
	std::map<int, int> arrived, seen; for (auto &e : p->sig_taken) arrived[e.sig]++;
	for (auto &u : g_user) seen[u.sig]++;
	for (auto &a : arrived) {
		int s = a.first; bool ours = false; for (int x : SIGS) ours |= x == s;
		if (!ours) continue;
		auto h = before[s].sa_handler; bool stop = s == SIGTSTP || s == SIGTTIN || s == SIGTTOU;
		if (h == SIG_IGN) { r.probes["ignored"]++; continue; }
		if (h == SIG_DFL && !stop) { r.fail("lost-signal", fmt("signal %d arrived during entry but the process went on and ended with %s", s, p->status().c_str())); return; }
		if (h == SIG_DFL) { bool st = false; for (auto &e : p->sig_taken) st |= e.sig == s && e.how == 's'; if (!st) { r.fail("lost-signal", fmt("stop signal %d was lost", s)); return; } r.probes["stopped"]++; continue; }
		if (!seen[s]) { r.fail("lost-signal", fmt("signal %d never reached the caller's handler", s)); return; }
		r.probes["handled"]++;
	}
}
static Reg r11({"C11", gen11, exec11, "one case = one passphrase entry from a terminal (command or library call, up to four calls) with signals at planned calls, prior dispositions, terminal states, mismatches, end of file and failing terminal calls; non-trivial if a signal or fault occurred or the entry did not go straight through; distinct by event-log hash"});
