#include "cli.h"
#include "api.h"
#include <cerrno>
#include <cstdlib>
#include <sys/wait.h>

extern "C" { ssize_t sim_write(int, const void *, size_t); ssize_t sim_read(int, void *, size_t); int sim_close(int); void sim__exit(int); }

bool contains(const str &h, const str &n) { return h.find(n) != str::npos; }
str plan_pass(const Plan &pl) {
	i64 n = pl.get("pass_len", 10); if (n < 0) n = 0;
	if (n > 3000) n = 3000;
	str b = prbytes(mix64((u64)pl.get("pass_seed", 1), 21), (size_t)n);
	int kind = (int)pl.get("pass_kind");
	for (auto &c : b) {
		u8 v = (u8)c;
		if (kind == 0) c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !%&:/-_"[v % 70];
		else if (v == 0 || v == '\r' || v == '\n') c = (char)(0x80 | v);
	}
	return b;
}
str plan_data(const Plan &pl) {
	i64 n = pl.get("isize"); if (n < 0) n = 0;
	u64 sd = mix64((u64)pl.get("data_seed", 1), 22);
	switch (pl.get("data_kind")) {
	case 1: return str((size_t)n, 0);
	case 2: { str s; while ((i64)s.size() < n) s += "scrypt\0" + str("line of text\r\n"); s.resize((size_t)n); return s; }
	default: return prbytes(sd, (size_t)n);
	}
}
str plan_salt(const Plan &pl) { return prbytes(mix64((u64)pl.get("salt_seed", 1), 23), 32); }
ref::Hdr plan_hdr(const Plan &pl) {
	ref::Hdr h; h.logN = (int)pl.get("logN", 4); h.r = (u32)pl.get("r", 1); h.p = (u32)pl.get("p", 1); h.salt = plan_salt(pl);
	return h;
}
i64 pick_size(Rng &g, i64 maxn) {
	static const std::vector<i64> edge = {0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 4064, 4095, 4096, 4097, 8160, 8192, 65471, 65472, 65503, 65504, 65505, 65535, 65536, 65537, 65567, 65568, 65569, 65600, 131039, 131040, 131071, 131072, 131073, 131104, 196608, 262144};
	i64 v;
	switch (g.below(10)) {
	case 0: case 1: v = g.range(0, 200); break;
	case 2: case 3: v = g.range(0, 5000); break;
	case 4: case 5: case 6: v = g.pick(edge); break;
	case 7: v = g.pick(edge) + g.range(-3, 3); break;
	case 8: v = 65536 * g.range(1, 3) + g.range(-40, 40); break;
	default: v = g.range(0, maxn);
	}
	if (v < 0) v = 0;
	if (v > maxn) v %= (maxn + 1);
	return v;
}
void gen_chunk(Rng &g, Plan &pl, i64 isize) {
	int m = (int)g.below(6); // 0: whole
	if (m > 4) m = 0;
	pl.set("chunk", m);
	if (m) {
		pl.set("chunk_seed", g.range(1, 1000000));
		i64 lo = isize > 20000 ? 500 : 1;
		static const std::vector<i64> cm = {1, 2, 7, 31, 32, 33, 96, 128, 512, 1000, 4096, 5000, 32768, 65535, 65536, 65568};
		i64 c = g.pick(cm); if (c < lo) c = lo + c;
		if (m == 4 && isize > 20000) { m = 3; pl.set("chunk", 3); c = g.pick(cm); }
		pl.set("chunk_max", c, 4096);
	}
	static const std::vector<i64> sb = {0, 0, 0, 0, 1024, 128, 4096, 65536, 8192, 100, 1 << 20};
	i64 b = g.pick(sb); if (isize > 20000 && b && b < 1000) b = 0;
	pl.set("stdio_buf", b);
}
void gen_pass(Rng &g, Plan &pl) {
	static const std::vector<i64> len = {0, 1, 8, 12, 20, 63, 64, 65, 100, 128, 500, 1000, 2045, 2046};
	pl.set("pass_len", g.chance(60) ? g.range(1, 40) : g.pick(len), 10);
	pl.set("pass_seed", g.range(1, 1 << 20), 1);
	pl.set("pass_kind", g.chance(30));
}
void gen_cpu(Rng &g, Plan &pl) { if (g.chance(50)) pl.set("cpu", (i64)g.below(32), 0x1f); if (g.chance(40)) pl.set("cpu_noise", g.chance(30) ? 1 : g.range(2, 1 << 20)); if (g.chance(40)) pl.set("cpu_max", (i64)g.below(8), 0x16); }
void gen_io(Rng &g, Plan &pl, int mode) {
	int m = (int)g.below(PM_N);
	int in = (int)g.below(IN_N), out = (int)g.below(OUT_N);
	if (mode == M_INFO) { m = PM_ENV; out = 0; }
	if (m == PM_STDIN_ONCE || m == PM_DASH_P || m == PM_TTYSTDIN_NOTTY) in = IN_PATH;
	pl.set("method", m, PM_ENV); pl.set("inkind", in); pl.set("outkind", out);
}
static str name_prefix(i64 k) {
	switch (k) { case 1: return "%s%s%n-"; case 2: return "%d %i%%-"; case 3: return "with space/"; case 4: return "it's \"quoted\" $HOME `x` \\-"; case 5: return str(3900, 'd') + "/"; case 6: return "./"; case 7: return "gr\xc3\xbc\xc3\x9f\xff-"; case 8: return "a=b:"; case 9: return str(250, 'n'); case 10: return "100%"; }
	return "";
}
Spec spec_from(const Plan &pl, int mode) {
	Spec s; s.mode = mode; s.pass = plan_pass(pl);
	s.method = (int)pl.get("method", PM_ENV); s.inkind = (int)pl.get("inkind"); s.outkind = (int)pl.get("outkind");
	if (s.method < 0 || s.method >= PM_N) s.method = PM_ENV;
	if ((s.method == PM_STDIN_ONCE || s.method == PM_DASH_P || s.method == PM_TTYSTDIN_NOTTY) && s.inkind != IN_PATH) s.inkind = IN_PATH;
	s.force = pl.get("force"); s.verbose = pl.get("verbose");
	s.pipe_cap = (u64)pl.get("pipe_cap", 65536); if (s.pipe_cap < 1) s.pipe_cap = 1;
	s.feed_piece = (u64)pl.get("feed_piece"); s.dir = name_prefix(pl.get("dir"));
	switch (pl.get("eol")) { case 1: s.eol = "\r\n"; break; case 2: s.eol = ""; break; case 3: s.eol = "\r"; break; default: s.eol = "\n"; }
	return s;
}
static Proc *mk_feeder(World &w, Inode *pipe, const str &data, u64 piece, const str &tag, u64 die = ~0ull) {
	auto d = std::make_shared<str>(data.substr(0, die < data.size() ? (size_t)die : data.size()));
	Proc *p = w.spawn_fn(tag + "feeder", [d, piece]() {
		size_t i = 0;
		while (i < d->size()) {
			size_t n = piece && piece < d->size() - i ? (size_t)piece : d->size() - i;
			ssize_t r = sim_write(3, d->data() + i, n);
			if (r < 0) return 1;
			i += (size_t)r;
		}
		sim_close(3);
		return 0;
	});
	w.set_fd(p, 3, pipe, true);
	p->sa[SIGPIPE].sa_handler = SIG_IGN;
	return p;
}
static Proc *mk_drain(World &w, Inode *pipe, std::shared_ptr<str> o, const str &tag, u64 die = ~0ull) {
	Proc *p = w.spawn_fn(tag + "drain", [o, die]() {
		static char b[65536];
		for (;;) { if (o->size() >= die) { sim_close(3); return 1; } size_t m = die - o->size() < sizeof b ? (size_t)(die - o->size()) : sizeof b; ssize_t r = sim_read(3, b, m); if (r < 0) return 1; if (r == 0) break; o->append(b, (size_t)r); }
		sim_close(3);
		return 0;
	});
	w.set_fd(p, 3, pipe, false);
	return p;
}
str Job::output(World &) const {
	if (drained) return *drained;
	if (out) return out->data;
	return "";
}
bool Job::outfile_exists(World &w) const { return w.fs.count(outpath()) != 0; }
Job start_job(World &w, const Spec &s0) {
	Job j; j.s = s0; Spec &s = j.s;
	if (!s.raw_pass && s.pass.size() > 2045 && s.eol == "\r\n") s.eol = "\n"; // longest line that fits
	if (!s.raw_pass && s.pass.empty() && s.eol.empty()) s.eol = "\n";          // an empty stream is not an empty line
	std::vector<str> av = {"scrypt", s.mode == M_ENC ? "enc" : s.mode == M_DEC ? "dec" : "info"};
	if (s.force) av.push_back("-f");
	if (s.verbose) av.push_back("-v");
	if (s.mode == M_ENC && s.logN) { av.push_back("--logN"); av.push_back(std::to_string(s.logN)); av.push_back("-r"); av.push_back(std::to_string(s.r)); av.push_back("-p"); av.push_back(std::to_string(s.p)); }
	for (auto &e : s.extra) av.push_back(e);
	bool usestdin_pass = false, tty = false;
	switch (s.method) {
	case PM_STDIN_ONCE: av.push_back("--passphrase"); av.push_back("dev:stdin-once"); usestdin_pass = true; break;
	case PM_DASH_P: av.push_back("-P"); usestdin_pass = true; break;
	case PM_TTY: tty = true; break;
	case PM_TTYSTDIN_NOTTY: av.push_back("--passphrase"); av.push_back("dev:tty-stdin"); usestdin_pass = true; break;
	case PM_TTY_ONCE: av.push_back("--passphrase"); av.push_back("dev:tty-once"); tty = true; break;
	case PM_ENV: av.push_back("--passphrase"); av.push_back("env:SCRYPT_PW"); break;
	case PM_FILE: av.push_back("--passphrase"); av.push_back("file:" + s.dir + s.tag + "pass"); break;
	}
	str inpath = j.inpath(); w.strip = s.dir;
	av.push_back(s.inkind == IN_PATH ? inpath : "-");
	bool named_out = s.mode != M_INFO && (s.outkind == OUT_NEW || s.outkind == OUT_OLD);
	if (s.out_cap != ~0ull) { w.new_cap = s.out_cap; w.new_full = s.out_full; }
	if (named_out) av.push_back(j.outpath());
	j.proc = w.spawn(s.tag + "scrypt", av);
	Proc *p = j.proc;
	if (s.method == PM_ENV && s.mode != M_INFO && !s.no_pass) p->env["SCRYPT_PW"] = s.pass;
	if (s.method == PM_FILE && s.mode != M_INFO && !s.no_pass) { j.passf = w.file(s.dir + s.tag + "pass", s.raw_pass ? s.pass : s.pass + s.eol); j.passf->name = s.tag + "pass"; }
	// what is typed, or fed on standard input
	std::vector<str> lines = s.typed;
	if (!s.typed_set) {
		bool twice = s.mode == M_ENC && (s.method == PM_TTY || s.method == PM_TTYSTDIN_NOTTY);
		str eol = tty ? "\n" : s.eol;
		if (twice && (eol.empty() || eol == "\r")) eol = "\n";
		lines = {s.pass + eol};
		if (twice) lines.push_back(s.pass + eol);
	}
	if (s.no_pass) lines.clear();
	if (tty && !s.no_tty) { j.tty = w.node("/dev/tty", I_TTY); j.tty->name = "tty"; j.tty->script = lines; }
	// standard input
	Inode *si = nullptr;
	if (usestdin_pass && s.stdin_tty) { si = w.node("/dev/pts/0", I_TTY); si->name = "tty"; si->script = lines; j.tty = si; }
	else if (usestdin_pass) {
		str d; for (auto &l : lines) d += l;
		si = w.anon(s.tag + "stdin", I_REG); si->data = d;
		if (s.feed_piece == 777) { si->type = I_PIPE; si->data.clear(); si->pcap = 65536; w.set_fd(p, 0, si, false); mk_feeder(w, si, d, 5, s.tag); si = nullptr; }
	} else if (!s.stdin_text.empty()) { si = w.anon(s.tag + "stdin", I_REG); si->data = s.stdin_text; if (s.inkind != IN_PATH) j.s.inkind = s.inkind = IN_PATH; }
	else if (s.inpipe) si = s.inpipe, j.in = s.inpipe;
	else if (s.inkind == IN_STDIN_FILE) { si = w.anon(s.tag + "in", I_REG); si->data = s.indata; j.in = si; }
	else if (s.inkind == IN_STDIN_PIPE) { si = w.anon(s.tag + "in", I_PIPE); si->pcap = s.pipe_cap; j.in = si; }
	else si = w.fs["/dev/null"];
	if (si) w.set_fd(p, 0, si, false);
	if (s.inkind == IN_PATH && !s.no_in) { j.in = w.file(inpath, s.indata); j.in->name = s.tag + "in"; }
	// standard output
	Inode *so = w.anon(s.tag + "stdout", I_REG);
	j.so = so;
	if (named_out) {
		if (s.outkind == OUT_OLD) { j.out = w.file(j.outpath(), s.old); j.out->name = s.tag + "out"; j.out->cap = s.out_cap; j.out->full_errno = s.out_full; }
	} else if (s.mode != M_INFO) {
		if (s.outpipe) so = s.outpipe;
		else if (s.outkind == OUT_STDOUT_PIPE) { so = w.anon(s.tag + "out", I_PIPE); so->pcap = s.pipe_cap; }
		else { so->name = s.tag + "out"; so->cap = s.out_cap; so->full_errno = s.out_full; }
		j.out = so; j.so = so;
	}
	w.set_fd(p, 1, so, true);
	j.err = w.anon(fmt("stderr%d", p->id), I_REG); j.err->chunk_mode = 0;
	w.set_fd(p, 2, j.err, true);
	if (s.inkind == IN_STDIN_PIPE && !s.inpipe && !usestdin_pass) j.feeder = mk_feeder(w, j.in, s.indata, s.feed_piece, s.tag, s.feed_die);
	if (!named_out && s.mode != M_INFO && s.outkind == OUT_STDOUT_PIPE && !s.outpipe) { j.drained = std::make_shared<str>(); j.drain = mk_drain(w, j.out, j.drained, s.tag, s.drain_die); }
	return j;
}
void finish_result(World &w, Result &r) {
	r.hash = w.hash; r.sim_ns = (u64)(w.now - 1000000000000ll); r.steps = w.steps;
	for (auto &f : w.fired) r.fired[f.first] += f.second;
	r.nswitch += w.nswitch; if (w.sched_hash) r.sched_hash = mix64(r.sched_hash, w.sched_hash);
	r.sig = mix64(r.sig, w.hash);
	if (w.keep_log) r.log.insert(r.log.end(), w.log.begin(), w.log.end());
}
bool clean_end(World &w, Result &r, bool allow_abort) {
	if (!w.stuck.empty()) { r.fail("hang", w.stuck); return false; }
	for (auto p : w.procs) {
		if (p->ek == E_CRASHED || p->ek == E_FATAL) { r.fail("crash", p->name + ": " + p->status()); return false; }
		if (p->ek == E_ASSERT) { r.fail("assertion", p->name + ": " + p->status()); return false; }
		if (p->ek == E_ABORT && !allow_abort) { r.fail("abort", p->name + ": " + p->status() + " stderr: " + w.err(p)); return false; }
	}
	return true;
}
// ---------------------------------------------------------------- one command
void gen_cmd(Rng &g, Plan &pl, i64 maxn, int mode) {
	if (mode < 0) mode = g.chance(50) ? M_ENC : M_DEC;
	pl.set("mode", mode);
	i64 n = pick_size(g, maxn);
	pl.set("isize", n); pl.set("data_seed", g.range(1, 1 << 20), 1);
	gen_pass(g, pl); gen_chunk(g, pl, n); if (g.chance(30)) gen_cpu(g, pl);
	pl.set("urseed", g.range(1, 1 << 20), 1); pl.set("salt_seed", g.range(1, 1 << 20), 1);
	gen_io(g, pl, mode);
	pl.set("eol", (i64)g.below(3));
	pl.set("r", g.range(1, 3), 1); pl.set("p", g.range(1, 2), 1); pl.set("logN", g.range(1, 6), 4);
	if (mode == M_ENC && g.chance(20)) pl.set("auto", 1);
	pl.set("force", g.chance(40)); pl.set("verbose", g.chance(20));
	pl.set("pipe_cap", g.pick(std::vector<i64>{65536, 4096, 300, 8192}), 65536);
	if (n > 5000 && pl.get("pipe_cap", 65536) < 4096) pl.set("pipe_cap", 4096, 65536);
	pl.set("feed_piece", g.pick(std::vector<i64>{0, 0, 100, 4096, 65536, 70000}));
	if (n > 5000 && pl.get("feed_piece") && pl.get("feed_piece") < 4096) pl.set("feed_piece", 4096);
	pl.set("sched_seed", g.range(1, 1 << 20)); pl.set("sched_pct", g.pick(std::vector<i64>{0, 5, 30, 80}));
	if (g.chance(12)) pl.set("dir", g.range(1, 10));
	if (g.chance(8)) pl.set("argv0", g.range(1, 8));
}
Cmd plan_cmd(const Plan &pl) {
	Cmd c; int mode = (int)pl.get("mode");
	c.s = spec_from(pl, mode); c.pt = plan_data(pl); c.h = plan_hdr(pl);
	if (mode == M_ENC) {
		c.s.indata = c.pt;
		if (pl.get("auto")) c.s.extra = {"-t", "0.01"};
		else { c.s.logN = 10; c.s.r = (u32)pl.get("r", 1); c.s.p = (u32)pl.get("p", 1); }
	} else { bool big = pl.get("stub") || c.h.logN < 1 || c.h.logN > 22 || 4.0 * (double)(1ull << c.h.logN) * c.h.r * c.h.p > 4e6; c.ct = big ? ref::encrypt_dk(c.h, str(64, 'k'), c.pt) : ref::encrypt(c.h, c.s.pass, c.pt); c.s.indata = c.ct; }
	if (pl.k.count("cap")) { c.s.out_cap = (u64)pl.get("cap"); c.s.out_full = (int)pl.get("full", 28); }
	if (pl.k.count("drain_die")) c.s.drain_die = (u64)pl.get("drain_die");
	if (pl.k.count("feed_die")) c.s.feed_die = (u64)pl.get("feed_die");
	if (pl.get("sigpipe_ign")) c.ign_pipe = true;
	return c;
}
Job start_cmd(World &w, const Cmd &c) {
	Job j = start_job(w, c.s);
	if (c.ign_pipe) j.proc->sa[SIGPIPE].sa_handler = SIG_IGN;
	return j;
}
void settle(World &w, Job &j) { if (j.out == nullptr && w.fs.count(j.outpath())) j.out = w.fs[j.outpath()]; }
// The documented fallback: without a terminal the passphrase comes from standard input, even if that also carries the
// data: the first two lines that agree are the passphrase, and what follows them is the data.
static bool by_fallback(Job &j, const Cmd &c, const str &o) {
	if (c.s.mode != M_ENC || c.s.method != PM_TTY || c.s.inkind == IN_PATH || contains(j.errs(), "Please enter passphrase")) return false;
	size_t i = 0; const str &d = c.pt; str l[2], q;
	for (int k = 0;; k ^= 1) {
		if (i >= d.size()) return false;
		size_t e = d.find('\n', i); e = e == str::npos ? d.size() : e + 1; if (e - i > 2047) e = i + 2047;
		l[k] = str(d.substr(i, e - i).c_str()); i = e;   // (it is used as a C string)
		if (l[k].size() == 2047 && l[k].back() != '\n') { if (i < d.size() && d[i] == '\r') i++; if (i < d.size() && d[i++] != '\n') return false; }
		if (k && l[0] == l[1]) break;
	}
	ref::Hdr h;
	return ref::decrypt(l[0].substr(0, l[0].find_first_of("\r\n")), o, q, &h) && q == d.substr(i) && (!c.s.logN || (h.logN == c.s.logN && h.r == c.s.r && h.p == c.s.p));
}
str wrong_result(World &w, Job &j, const Cmd &c) {
	str o = j.output(w);
	if (w.nfired && by_fallback(j, c, o)) return "";
	if (c.s.mode == M_DEC) {
		if (o != c.pt) return fmt("the output is not the plaintext (%zu of %zu bytes)", o.size(), c.pt.size());
	} else if (c.s.mode == M_ENC) {
		str q; ref::Hdr h;
		if (o.size() != c.pt.size() + 128) return fmt("%zu bytes of output instead of %zu", o.size(), c.pt.size() + 128);
		if (!ref::decrypt(c.s.pass, o, q, &h)) return "the output is not a valid encrypted file";
		if (q != c.pt) return "the output decrypts to something else";
		if (c.s.logN && (h.logN != c.s.logN || h.r != c.s.r || h.p != c.s.p)) return "the output has other parameters than requested";
	}
	if (c.s.mode != M_INFO && j.so != j.out && !j.so->data.empty()) return "unexpected data on standard output";
	return "";
}
bool optparse_oom(World &w, Job &j) {
	bool a = false; for (auto &x : w.fired) { a |= x.first.compare(0, 6, "alloc:") == 0; if (x.first.compare(0, 10, "aes_setkey") == 0 && j.proc->ek == E_ABORT && (contains(j.errs(), "incorrect AES") || w.fired_any(fmt("write:stderr%d", j.proc->id)))) return true; }
	return a && j.proc->ek == E_ABORT && j.proc->nsys < 14 && (!j.errs().empty() || w.fired_any(fmt("write:stderr%d", j.proc->id)));
}
str describe(const Plan &pl) {
	str o; for (auto &x : pl.k) o += x.first + "=" + std::to_string(x.second) + " ";
	for (auto &f : pl.faults) o += fmt("[%s %s#%lld %s %lld%s] ", f.kind.c_str(), f.target.c_str(), (long long)f.nth, act_name(f.act), (long long)f.arg, f.count == 1 ? "" : " repeated");
	for (auto &m : pl.muts) o += fmt("<%s %lld %lld %lld> ", m.kind.c_str(), (long long)m.a, (long long)m.b, (long long)m.c);
	return o;
}
// ---------------------------------------------------------------- fault placement
std::vector<World::Site> record_sites(const Plan &pl, const Build &b) {
	Plan q = pl; q.faults.clear(); note_plan(q);
	World w(q); w.keep_sites = true;
	b(q, w);
	w.run();
	return w.sites;
}
std::vector<int> errnos_for(const str &k, const str &t) {
	if (k == "open") return t == "tty" ? std::vector<int>{ENXIO, ENODEV, EIO, EMFILE, EACCES} : std::vector<int>{ENOENT, EACCES, EMFILE, ENFILE, ENOMEM, EINTR, EISDIR, ENOSPC, EROFS, EDQUOT};
	if (k == "read") return {EIO, EINTR, EISDIR, EAGAIN, EBADF, ESTALE, ETIMEDOUT};
	if (k == "write") return {ENOSPC, EIO, EDQUOT, EFBIG, EPIPE, EINTR, EAGAIN};
	if (k == "close") return {EIO, ENOSPC, EDQUOT, EINTR};
	if (k == "fsync") return {EIO, ENOSPC, EDQUOT};
	if (k == "alloc" || k == "mmap") return {ENOMEM};
	if (k == "munmap") return {EINVAL, ENOMEM};
	if (k == "tcgetattr" || k == "tcsetattr") return {EIO, EINTR, ENOTTY};
	if (k == "clock_getres") return {EPERM, EFAULT}; // a clock that does not exist: knob mono_err
	if (k == "clock_mono" || k == "clock_real" || k == "clock_cpu") return {EPERM, EFAULT};
	if (k == "getrlimit" || k == "sysinfo") return {EINVAL, EFAULT, EPERM};
	if (k == "sysconf") return {EINVAL, EPERM, 0};
	if (k == "rdrand") return {EIO};
	if (k == "aes_setkey") return {EINVAL};
	return {};
}
bool add_fault_at(Rng &g, Plan &pl, const World::Site &s) {
	std::vector<int> e = errnos_for(s.kind, s.tgt);
	Fault f; f.proc = s.proc; f.kind = s.kind; f.target = s.tgt; f.nth = s.nth;
	if ((s.kind == "read" || s.kind == "write") && g.chance(30)) {
		f.act = A_SHORT; f.arg = g.pick(std::vector<i64>{1, 2, 7, 31, 32, 33, 64, 96, 500, 4000});
	} else if (s.kind == "read" && s.tgt == "urandom" && g.chance(30)) f.act = A_EOF;
	else {
		if (e.empty()) return false;
		f.act = A_ERR; f.arg = g.pick(e);
		f.count = g.chance(25) ? -1 : g.chance(10) ? g.range(2, 3) : 1;
		if (s.kind == "close" && f.arg == EINTR) f.count = f.count < 0 ? 2 : f.count;
	}
	pl.faults.push_back(f);
	return true;
}
