// Simulator core: plans, coroutines, scheduling, processes, fault matching.
#include "sim.h"
#include <algorithm>
#include <cstdarg>
#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>

World *W = nullptr;
bool g_asan = false, g_alt = false;
std::vector<Prop> &all_props() { static std::vector<Prop> v; return v; }

extern "C" {
extern char __start_simstate[] __attribute__((weak));
extern char __stop_simstate[] __attribute__((weak));
int scrypt_main(int, char **);
void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile *, size_t) __attribute__((weak));
}

asm(R"(
.text
.globl sim_ctx_switch
.type sim_ctx_switch,@function
sim_ctx_switch:
	endbr64
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_ctx_switch,.-sim_ctx_switch
)");

int stale_errno(i64 seed, u64 i) { static const int E[] = {0, ENOMEM, EINTR, EIO, ERANGE, EAGAIN, ENOENT, EINVAL, EPIPE, 99999}; return E[mix64((u64)seed, i) % 10]; }
u64 mix64(u64 a, u64 b, u64 c) {
	u64 z = a * 0x9E3779B97F4A7C15ull + b * 0xBF58476D1CE4E5B9ull + c * 0x94D049BB133111EBull + 0x2545F4914F6CDD1Dull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
str prbytes(u64 seed, size_t n) {
	str s(n, 0);
	Rng r(seed);
	size_t i = 0;
	for (; i + 8 <= n; i += 8) { u64 v = r.next(); memcpy(&s[i], &v, 8); }
	if (i < n) { u64 v = r.next(); memcpy(&s[i], &v, n - i); }
	return s;
}
str fmt(const char *f, ...) {
	char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
str hex(const str &s, size_t max) {
	str o; for (size_t i = 0; i < s.size() && i < max; i++) o += fmt("%02x", (u8)s[i]);
	if (s.size() > max) o += fmt("..(%zu)", s.size());
	return o;
}

// ---------------------------------------------------------------- plan text
static const char *actn[] = {"err", "short", "eof", "sig", "crash", "eintr", "jump"};
const char *act_name(int a) { return actn[a]; }
str Plan::text() const {
	str o = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
	for (auto &x : k) o += "knob " + x.first + " " + std::to_string(x.second) + "\n";
	for (auto &f : faults)
		o += fmt("fault proc=%d kind=%s target=%s nth=%lld act=%s arg=%lld count=%lld\n", f.proc, f.kind.c_str(), f.target.c_str(), (long long)f.nth, actn[f.act], (long long)f.arg, (long long)f.count);
	for (auto &m : muts)
		o += fmt("mut kind=%s a=%lld b=%lld c=%lld\n", m.kind.c_str(), (long long)m.a, (long long)m.b, (long long)m.c);
	return o;
}
bool Plan::parse(const str &t, Plan &o) {
	size_t i = 0; o = Plan();
	while (i < t.size()) {
		size_t e = t.find('\n', i); if (e == str::npos) e = t.size();
		str l = t.substr(i, e - i); i = e + 1;
		if (l.empty() || l[0] == '#') continue;
		char a[256], b[256], c[64]; long long x, y, z, n; int pr;
		if (sscanf(l.c_str(), "prop %200s", a) == 1) o.prop = a;
		else if (sscanf(l.c_str(), "seed %lld", &x) == 1) { unsigned long long u = 0; sscanf(l.c_str(), "seed %llu", &u); o.seed = u; }
		else if (sscanf(l.c_str(), "knob %200s %lld", a, &x) == 2) o.k[a] = x;
		else if (sscanf(l.c_str(), "fault proc=%d kind=%200s target=%200s nth=%lld act=%60s arg=%lld count=%lld", &pr, a, b, &n, c, &x, &y) == 7) {
			Fault f; f.proc = pr; f.kind = a; f.target = b; f.nth = n; f.arg = x; f.count = y; f.act = -1;
			for (int q = 0; q < 7; q++) if (!strcmp(actn[q], c)) f.act = q;
			if (f.act < 0) return false;
			o.faults.push_back(f);
		} else if (sscanf(l.c_str(), "mut kind=%200s a=%lld b=%lld c=%lld", a, &x, &y, &z) == 4) { Mut m; m.kind = a; m.a = x; m.b = y; m.c = z; o.muts.push_back(m); }
		else return false;
	}
	return !o.prop.empty();
}

// ---------------------------------------------------------------- stacks
static std::vector<char *> stkpool, kstkpool;
void *sim_kstack, *sim_kuser;
extern "C" void sim_do_scan(const char *) __attribute__((weak));
static const size_t KSTK = 384u << 10;
size_t stk_size() { return g_asan ? (1u << 20) : (448u << 10); }
static char *stk_get() {
	char *s;
	if (!stkpool.empty()) { s = stkpool.back(); stkpool.pop_back(); }
	else {
		char *m = (char *)mmap(nullptr, stk_size() + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) { perror("mmap stack"); _exit(90); }
		mprotect(m, 4096, PROT_NONE);
		s = m + 4096;
	}
	if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(s, stk_size());
	memset(s, 0xCB, stk_size());
	return s;
}

// ---------------------------------------------------------------- static data
static char *g_state0; static size_t g_state_n;
static void rawcopy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
__attribute__((constructor(65000))) static void init_state() {
	g_asan = __sanitizer_start_switch_fiber != nullptr;
	char b[512]; ssize_t n = readlink("/proc/self/exe", b, sizeof(b) - 1); if (n > 0) { b[n] = 0; g_alt = strstr(b, "/alt-") != nullptr; }   // the alternative configuration
}
static void snap0() {
	if (g_state0) return;
	g_state_n = __start_simstate ? (size_t)(__stop_simstate - __start_simstate) : 0;
	g_state0 = (char *)malloc(g_state_n + 1);
	rawcopy(g_state0, __start_simstate, g_state_n);
}
static Proc *g_loaded; // whose static data is in place
size_t state_size() { return g_state_n; }
const char *state_of(Proc *p) { return p == g_loaded ? __start_simstate : p->state; }
bool in_simstate(const void *a) { return (const char *)a >= __start_simstate && (const char *)a < __stop_simstate; }
static void load_proc(Proc *p) {
	if (g_loaded != p) {
		if (g_loaded) {
			rawcopy(g_loaded->state, __start_simstate, g_state_n);
		}
		rawcopy(__start_simstate, p->state, g_state_n);
		g_loaded = p;
	}
	sim_stdin = p->in; sim_stdout = p->out; sim_stderr = p->err;
}
static void save_std(Proc *p) { p->in = sim_stdin; p->out = sim_stdout; p->err = sim_stderr; }

// ---------------------------------------------------------------- World
World::World(const Plan &pl) : plan(&pl) {
	snap0();
	W = this;
	fhit.assign(pl.faults.size(), 0);
	node("/dev/urandom", I_URANDOM)->name = "urandom";
	node("/dev/random", I_URANDOM)->name = "urandom";
	node("/dev/null", I_NULL)->name = "null";
	// generic knobs shared by all scenarios
	urseed = mix64(pl.get("urseed", 1), 11);
	rdseed = mix64(pl.get("urseed", 1), 12);
	rdrand_mode = (int)pl.get("rdrand_fail");
	tick = pl.get("tick_us", 1000) * 1000;
	if (pl.get("tick_ns")) tick = pl.get("tick_ns");
	res_report = pl.get("res_ns", -1);
	cores_per_s = (double)pl.get("speed", 1000000);
	cpu_mask = (u32)(pl.get("cpu", 0x1f));
	broken_mask = (u32)pl.get("broken");
	sched_seed = pl.get("sched_seed"); sched_pct = (int)pl.get("sched_pct");
	stdio_buf = pl.get("stdio_buf");
	chunk_seed = pl.get("chunk_seed"); heap_yield = mix64(sched_seed, 99);
	clk_mono_err = (int)pl.get("mono_err"); clk_cpu_err = (int)pl.get("cpu_err");
	nsched = 0;
}
World::~World() {
	for (auto p : procs) {
		close_dead_streams(p);
		for (auto &h : p->heap) free(h.first);
		for (auto &m : p->maps) munmap(m.first, m.second);
		free(p->state);
		for (auto f : p->files) delete f;
	}
	g_loaded = nullptr;
	for (auto t : tasks) { if (t->stk) stkpool.push_back(t->stk); if (t->kstk) kstkpool.push_back(t->kstk); delete t; }
	for (auto p : procs) delete p;
	for (auto i : inodes) delete i;
	if (g_state0) rawcopy(__start_simstate, g_state0, g_state_n);
	if (W == this) W = nullptr;
}
Inode *World::anon(const str &n, InoType t) {
	Inode *i = new Inode; i->name = n; i->type = t;
	i->chunk_mode = (int)plan->get("chunk"); i->chunk_max = plan->get("chunk_max", 4096);
	if (t == I_TTY) {
		memset(&i->tio, 0, sizeof i->tio);
		i->tio.c_iflag = ICRNL | IXON; i->tio.c_oflag = OPOST | ONLCR; i->tio.c_cflag = CS8 | CREAD;
		i->tio.c_lflag = ISIG | ICANON | ECHO | ECHOE | ECHOK | IEXTEN;
		i->tio.c_cc[VINTR] = 3; i->tio.c_cc[VEOF] = 4; i->tio.c_cc[VMIN] = 1;
		i->tio0 = i->tio;
	}
	inodes.push_back(i); return i;
}
Inode *World::node(const str &path, InoType t) { Inode *i = anon(path, t); fs[path] = i; i->existed = true; return i; }
Inode *World::file(const str &path, const str &d) { Inode *i = node(path, I_REG); i->data = d; return i; }

void World::set_fd(Proc *p, int fd, Inode *ino, bool wr) {
	while ((int)p->fds.size() <= fd) p->fds.push_back(nullptr);
	auto of = std::make_shared<OpenFile>(); of->ino = ino; of->flags = wr ? O_WRONLY : O_RDONLY;
	p->fds[fd] = of;
	if (ino->type == I_PIPE) { if (wr) ino->writers++; else ino->readers++; }
	if (fd < 3) {
		FILE **f = fd == 0 ? &p->in : fd == 1 ? &p->out : &p->err;
		*f = mk_stream(p, fd, wr, ino->name, fd == 2, wr && ino->type == I_TTY);
		p->files.back()->std_ = true;
	}
}
static Proc *mkproc(World *w, const str &name) {
	Proc *p = new Proc; p->w = w; p->id = (int)w->procs.size(); p->name = name;
	p->state = (char *)malloc(g_state_n + 1); rawcopy(p->state, g_state0, g_state_n);
	memset(p->sa, 0, sizeof p->sa);
	w->procs.push_back(p);
	return p;
}
static void add_task(World *w, Proc *p, std::function<int()> fn) {
	Task *t = new Task; t->p = p; t->id = (int)w->tasks.size(); t->entry = std::move(fn);
	p->tasks.push_back(t); w->tasks.push_back(t);
	(void)w;
}
Proc *World::spawn(const str &name, const std::vector<str> &argv) {
	Proc *p = mkproc(this, name); p->argv = argv;
	// the name the program was invoked by
	if (plan && !argv.empty()) switch (plan->get("argv0")) {
	case 1: p->argv[0] = "/usr/local/bin/scrypt"; break;
	case 2: p->argv[0] = "./scrypt"; break;
	case 3: p->argv[0] = ""; break;
	case 4: p->argv[0] = "/" + str(3000, 'x') + "/scrypt"; break;
	case 5: p->argv[0] = "100%s%n%d"; break;
	case 6: p->argv[0] = "bin/"; break;
	case 7: p->argv[0] = str(300, 'y'); break;
	case 8: p->argv[0] = "scrypt enc"; break;
	case 9: if (argv.size() == 1) p->argv.clear(); break;   // no name at all
	}
	add_task(this, p, [p]() {
		int argc = (int)p->argv.size();
		char **av = (char **)malloc(sizeof(char *) * (argc + 1));
		for (int i = 0; i < argc; i++) av[i] = (char *)p->argv[i].c_str();
		av[argc] = nullptr;
		return scrypt_main(argc, av); // av is leaked on exit(); tiny
	});
	return p;
}
Proc *World::spawn_fn(const str &name, std::function<int()> fn) {
	Proc *p = mkproc(this, name); p->argv = {name};
	add_task(this, p, fn);
	Inode *e = anon(fmt("stderr%d", p->id), I_REG); e->chunk_mode = 0;
	set_fd(p, 2, e, true);
	return p;
}
Task *World::add_thread(Proc *p, std::function<int()> fn) { add_task(this, p, fn); p->threaded = true; return tasks.back(); }

// ---------------------------------------------------------------- switching
static void *main_fake;
static const void *main_bot; static size_t main_sz;
extern "C" void sim_ctx_switch(void **, void *);
static void to_main(bool dying) {
	Task *t = W->cur;
	t->err = errno;
	if (!t->p->exiting || !dying) save_std(t->p);
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(dying ? nullptr : &t->fake, main_bot, main_sz);
	void *ks = sim_kstack;
	sim_ctx_switch(&t->sp, W->main_sp);
	sim_kstack = ks;
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(t->fake, &main_bot, &main_sz);
	errno = t->err;
}
void proc_exit(int);
extern "C" void sim_task_main() {
	Task *t = W->cur;
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(nullptr, &main_bot, &main_sz);
	errno = 0;
	t->ret = t->entry();
	if (t->p->tasks.size() > 1) {
		t->done = true;
		bool all = true;
		for (auto x : t->p->tasks) all &= x->done;
		if (all) W->finish(t->p, E_EXIT, 0, "");
	} else {
		// returning from the entry is exit()
		proc_exit(t->ret);
	}
	to_main(true);
	abort();
}
static void to_task(Task *t) {
	W->cur = t; sim_kstack = nullptr;
	load_proc(t->p);
	if (!t->started) {
		t->started = true;
		t->stk = stk_get();
		if (W->kstack && !g_asan) {
			if (kstkpool.empty()) kstkpool.push_back((char *)malloc(KSTK));
			t->kstk = kstkpool.back(); kstkpool.pop_back();
			sim_kstack = (void *)(((u64)t->kstk + KSTK) & ~(u64)63);
		}
		u64 *sp = (u64 *)(t->stk + stk_size() - 512);
		*--sp = 0;                      // alignment / fake return
		*--sp = (u64)sim_task_main;     // ret target; at entry rsp%16==8
		for (int i = 0; i < 6; i++) *--sp = 0;
		t->sp = sp;
	}
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&main_fake, t->stk, stk_size());
	sim_ctx_switch(&W->main_sp, t->sp);
	sim_kstack = nullptr;
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
	W->cur = nullptr;
}
Proc *curp() { return W && W->cur ? W->cur->p : nullptr; }

// on the stack a lone 16 bytes may be a register the compiler put aside; a buffer holds more of the secret than that
static int scan_stk(const char *p, size_t n, const std::vector<str> &secrets) {
	for (size_t i = 0; i < secrets.size(); i++) {
		const str &s = secrets[i]; if (s.size() < 8) continue;
		for (const char *q = p, *e = p + n; q < e && (q = (const char *)memmem(q, (size_t)(e - q), s.data(), s.size())); q++) {
			if (s.size() > 16) return (int)i;
			for (const str &f : W->secsrc) for (size_t k = f.find(s); k != str::npos; k = f.find(s, k + 1)) {
				bool more = false;
				if (k >= 8 && q - p >= 8) { more = true; if (!memcmp(q - 8, f.data() + k - 8, 8)) return (int)i; }
				if (k + 24 <= f.size() && e - q >= 24) { more = true; if (!memcmp(q + 16, f.data() + k + 16, 8)) return (int)i; }
				if (!more) return (int)i;
			}
		}
	}
	return -1;
}
[[noreturn]] void sim_die(ExitKind k, int code, const str &why) {
	W->finish(W->cur->p, k, code, why);
	to_main(true);
	abort();
}
static u64 scan_stack(Task *t, Proc *p) {
	if (g_asan || p->secrets.empty() || !t->stk || !p->stackleak.empty()) return 0;
	char *s = t->stk, *e = t->stk + stk_size();
	while (s < e && *(u64 *)s == 0xCBCBCBCBCBCBCBCBull) s += 8;
	int i = scan_stk(s, (size_t)(e - s), p->secrets);
	if (i >= 0) p->stackleak = fmt("stack: secret #%d", i);
	return 0;
}
void scan_now(const char *what) { if (sim_do_scan) sim_do_scan(what); else sim_scan_impl(what); }
extern "C" void sim_scan_impl(const char *what) {
	Proc *p = curp(); Task *t = W->cur;
	if (p->secrets.empty() || !p->leak.empty() || !p->stackleak.empty()) return;
	int i;
	if (!g_asan) {
		char *s = t->stk, *e = (char *)__builtin_frame_address(0);
		if (t->kstk && e >= t->kstk && e < t->kstk + KSTK) e = (char *)sim_kuser;
		while (s < e && *(u64 *)s == 0xCBCBCBCBCBCBCBCBull) s += 8;
		if ((i = scan_stk(s, (size_t)(e - s), p->secrets)) >= 0) { p->stackleak = fmt("the stack after %s: secret #%d", what, i); return; }
	}
	for (auto &h : p->heap) if ((i = scan_secret(h.first, h.second.n, p->secrets)) >= 0) { p->leak = fmt("a heap block of %zu bytes live after %s: secret #%d", h.second.n, what, i); return; }
	if ((i = scan_secret(__start_simstate, g_state_n, p->secrets)) >= 0) p->leak = fmt("static data after %s: secret #%d", what, i);
}
void World::finish(Proc *p, ExitKind k, int code, const str &why) {
	if (p->ek != E_RUNNING) return;
	p->ek = k; p->code = code; p->why = why;
	ev(p, "exit", p->status(), k, code);
	for (auto t : p->tasks) {
		t->done = true; t->blocked = false;
		scan_stack(t, p);
	}
	if (!p->secrets.empty()) {
		for (auto &h : p->heap) if (p->leak.empty()) {
			int i = scan_secret(h.first, h.second.n, p->secrets);
			if (i >= 0) p->leak = fmt("heap block of %zu bytes live at exit: secret #%d", h.second.n, i);
		}
		const char *st = p == g_loaded ? __start_simstate : p->state;
		int i = scan_secret(st, g_state_n, p->secrets);
		if (i >= 0 && p->leak.empty()) p->leak = fmt("static data: secret #%d", i);
	}
	if (g_loaded == p && p->ek != E_RUNNING) save_std(p);
	// the kernel closes the descriptors
	for (auto &of : p->fds) if (of && of.use_count() == 1 && of->ino->type == I_PIPE) {
		if (of->flags & O_WRONLY) of->ino->writers--; else of->ino->readers--;
	}
	// a close that nobody asked for can fail as well, and nobody hears about it
	if (k == E_EXIT) for (size_t fd = 3; fd < p->fds.size(); fd++) {
		auto &of = p->fds[fd];
		if (!of || of.use_count() != 1 || of->ino->type != I_REG || (of->flags & O_ACCMODE) == O_RDONLY) continue;
		for (size_t i = 0; i < plan->faults.size(); i++) {
			const Fault &f = plan->faults[i];
			if (f.kind != "close" || f.act != A_ERR || (f.proc != -1 && f.proc != p->id) || (f.target != "*" && f.target != of->ino->name)) continue;
			i64 n = fhit[i]++;
			if (n >= f.nth && (f.count < 0 || n < f.nth + f.count)) { of->ino->cfail = true; fired["close:at-exit"]++; nfired++; ev(p, "close", of->ino->name, (i64)fd, -1); }
		}
	}
	p->fds.clear();
	for (auto f : p->files) f->dead = true;
}
str Proc::status() const {
	switch (ek) {
	case E_RUNNING: return "running";
	case E_EXIT: return fmt("exit %d", code);
	case E_SIGNAL: return fmt("killed by signal %d", code);
	case E_ABORT: return "abort";
	case E_ASSERT: return "assertion failed: " + why;
	case E_CRASHED: return "crashed: " + why;
	default: return "fatal: " + why;
	}
}
void World::run() {
	for (;;) {
		Task *pick = nullptr; int n = 0;
		Task *run[64];
		bool alive = false;
		for (auto t : tasks) {
			if (t->done) continue;
			alive = true;
			if (t->blocked && t->ready && t->ready()) { t->blocked = false; t->ready = nullptr; }
			if (!t->blocked && n < 64) run[n++] = t;
		}
		if (!alive) break;
		if (n == 0) {
			stuck = "deadlock";
			for (auto t : tasks) if (!t->done) stuck += fmt(" [%s blocked]", t->p->name.c_str());
			break;
		}
		if (n == 1) pick = run[0];
		else {
			u64 r = mix64(sched_seed, 77, nsched++);
			if (sched_seed == 0) pick = run[nsched % n]; else pick = run[r % n];
			sched_hash = mix64(sched_hash, pick->id, 5);
			nswitch++;
		}
		to_task(pick);
		if (!stuck.empty()) break;
	}
	// anything still alive at this point is abandoned
	for (auto p : procs) if (p->ek == E_RUNNING) { p->ek = E_FATAL; p->why = stuck; for (auto t : p->tasks) t->done = true; for (auto f : p->files) f->dead = true; }
}
void sim_yield() {
	World *w = W;
	if (w->tasks.size() < 2) return;
	if (w->sched_pct <= 0) return;
	u64 r = mix64(w->sched_seed, 78, w->nsched++);
	if ((int)(r % 100) >= w->sched_pct) return;
	int live = 0;
	for (auto t : w->tasks) live += !t->done;
	if (live < 2) return;
	to_main(false);
}
void sim_block(std::function<bool()> ready) {
	Task *t = W->cur;
	t->blocked = true; t->ready = std::move(ready);
	to_main(false);
}
void sim_give_up(const str &why) {
	W->stuck = why;
	to_main(true);
	abort();
}

// ---------------------------------------------------------------- events and faults
void World::ev(Proc *p, const char *kind, const str &tgt, i64 a, i64 b) {
	u64 h = hash;
	auto add = [&](const char *s, size_t n) { for (size_t i = 0; i < n; i++) { h ^= (u8)s[i]; h *= 1099511628211ull; } };
	int id = p ? p->id : -1;
	add((const char *)&id, sizeof id); add(kind, strlen(kind)); add(tgt.data(), tgt.size());
	add((const char *)&a, 8); add((const char *)&b, 8); add((const char *)&now, 8);
	hash = h;
	if (keep_log) log.push_back({id, kind, tgt, a, b});
}
void deliver(Proc *p, int sig) {
	World *w = p->w;
	if (p->sigmask >> sig & 1) { p->pending |= 1ull << sig; return; }
	struct sigaction &sa = p->sa[sig];
	bool ttyok = true;
	for (auto i : w->inodes) if (i->type == I_TTY && memcmp(&i->tio, &i->tio0, sizeof i->tio)) ttyok = false;
	w->ev(p, "signal", "", sig, sa.sa_handler == SIG_DFL ? 0 : sa.sa_handler == SIG_IGN ? 1 : 2);
	if (sig == SIGKILL) { p->sig_taken.push_back({sig, 'k', ttyok}); sim_die(E_SIGNAL, sig, ""); }
	if (sa.sa_handler == SIG_IGN && sig != SIGSTOP) { p->sig_taken.push_back({sig, 'i', ttyok}); return; }
	if (sa.sa_handler != SIG_DFL && sig != SIGSTOP) {
		p->sig_taken.push_back({sig, 'h', ttyok});
		if (!(sa.sa_flags & SA_RESTART)) p->intr = true; else p->restarted = true;
		void (*h)(int) = sa.sa_handler;
		if (sa.sa_flags & SA_RESETHAND) sa.sa_handler = SIG_DFL;
		int e = errno;
		h(sig);
		errno = e;
		return;
	}
	switch (sig) {
	case SIGCHLD: case SIGCONT: case SIGURG: case SIGWINCH: p->sig_taken.push_back({sig, 'i', ttyok}); return;
	case SIGSTOP: case SIGTSTP: case SIGTTIN: case SIGTTOU:
		p->stops++; p->sig_taken.push_back({sig, 's', ttyok}); w->now += 5000000000ll; return;
	default: p->sig_taken.push_back({sig, 'k', ttyok}); sim_die(E_SIGNAL, sig, "");
	}
}
Fault *World::hit(Proc *p, const char *kind, const str &tgt) {
	steps++;
	if (steps > max_steps) { stuck = "no progress: step budget exhausted"; to_main(true); abort(); }
	now += call_cost;
	p->nsys++;
	if (keep_sites) {
		str key = str(kind) + " " + tgt;
		sites.push_back({p->id, kind, tgt, p->ops[key]++, (i64)p->nsys - 1});
	}
	if (on_call) on_call(p, kind);
	Fault *res = nullptr;
	for (size_t i = 0; i < plan->faults.size(); i++) {
		const Fault &f = plan->faults[i];
		if (f.proc != -1 && f.proc != p->id) continue;
		if (f.kind != "any" && f.kind != kind) continue;
		if (f.target != "*" && f.target != tgt) continue;
		i64 n = fhit[i]++;
		if (n < f.nth || (f.count >= 0 && n >= f.nth + f.count)) continue;
		if (f.act == A_SIG) {
			fired[fmt("signal:%s", strsignal((int)f.arg))]++; nfired++;
			ev(p, "fault-sig", kind, f.arg);
			p->sig_sent[(int)f.arg]++; deliver(p, (int)f.arg);
			continue;
		}
		if (f.act == A_CRASH) {
			fired["kill"]++; nfired++;
			ev(p, "fault-crash", kind, 0);
			sim_die(E_SIGNAL, 9, "");
		}
		if (f.act == A_JUMP) { fired["clock-jump"]++; nfired++; if (f.arg > 0 && f.arg % 2 == 0) now += f.arg * 1000; else rt_off += f.arg * 1000; ev(p, "fault-jump", kind, f.arg); continue; }
		if (!res) res = const_cast<Fault *>(&f);
	}
	return res;
}
void note_fault(Proc *p, const char *kind, const str &tgt, const Fault *f) {
	World *w = p->w;
	w->nfired++;
	str nm = f->act == A_ERR ? fmt("%s:%s:%s", kind, tgt.c_str(), strerrorname_np((int)f->arg) ? strerrorname_np((int)f->arg) : "?") : fmt("%s:%s:%s", kind, tgt.c_str(), actn[f->act]);
	w->fired[nm]++;
	w->ev(p, "fault", nm, f->arg);
}
int scan_secret(const char *p, size_t n, const std::vector<str> &secrets) {
	for (size_t i = 0; i < secrets.size(); i++) {
		const str &s = secrets[i];
		if (s.size() >= 8 && n >= s.size() && memmem(p, n, s.data(), s.size())) return (int)i;
	}
	return -1;
}
const str &World::err(Proc *p) {
	static str none;
	for (auto i : inodes) if (i->name == fmt("stderr%d", p->id)) return i->data;
	return none;
}
