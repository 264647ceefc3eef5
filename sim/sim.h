// Deterministic simulator for scrypt: declarations.
//
// Everything the code under test asks of its environment arrives at one of the
// sim_* functions in syscalls.cc (the objects built from /repo are rewritten at
// link level so that e.g. `read` is `sim_read`).  A World owns all simulated
// devices, the clock and the scheduler; a Proc is one simulated process (its
// own copy of the code's static data, descriptors, heap, signal dispositions);
// a Task is one thread of control (a coroutine).  One Plan decides everything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <signal.h>
#include <termios.h>
#include <sys/resource.h>

typedef std::string str;
typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- PRNG
struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); }
	u64 next() {
		u64 z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(int pct) { return below(100) < (u64)pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
u64 mix64(u64 a, u64 b = 0, u64 c = 0);
int stale_errno(i64 seed, u64 i);   // what an unrelated earlier call may have left in errno
str prbytes(u64 seed, size_t n);

// ---------------------------------------------------------------- Plan
enum Act { A_ERR, A_SHORT, A_EOF, A_SIG, A_CRASH, A_EINTR, A_JUMP };
struct Fault {
	int proc = 0;        // process index, -1 any
	str kind;            // call kind, "any" = every call
	str target;          // object class, "*" any
	i64 nth = 0;         // n-th matching call (0-based)
	int act = A_ERR;
	i64 arg = 0;         // errno, signal, length, ...
	i64 count = 1;       // number of consecutive matching calls it applies to (-1: for ever)
};
struct Mut { str kind; i64 a = 0, b = 0, c = 0; };
struct Plan {
	str prop;
	u64 seed = 0;
	std::map<str, i64> k;     // knobs that differ from their default
	std::vector<Fault> faults;
	std::vector<Mut> muts;
	i64 get(const str &n, i64 d = 0) const { auto i = k.find(n); return i == k.end() ? d : i->second; }
	void set(const str &n, i64 v, i64 d = 0) { if (v == d) k.erase(n); else k[n] = v; }
	str text() const;
	static bool parse(const str &text, Plan &out);
};
const char *act_name(int);

// ---------------------------------------------------------------- coroutine
struct Ctx { void *sp = nullptr; };
extern "C" void sim_ctx_switch(void **save, void *load);

struct Proc; struct World;
struct Task {
	Proc *p = nullptr;
	int id = 0;
	void *sp = nullptr;
	char *stk = nullptr;           // base (lowest address)
	char *kstk = nullptr;          // where the simulated system's functions run, so that they leave the program's dead stack as it is
	std::function<int()> entry;
	bool started = false, done = false;
	bool blocked = false;
	std::function<bool()> ready;     // when blocked
	i64 wake_at = -1;
	int err = 0;
	int ret = 0;
	int in_handler = 0;
	// wrappers' notes
	void *fake = nullptr; // asan fake stack
};

// ---------------------------------------------------------------- devices
enum InoType { I_REG, I_PIPE, I_TTY, I_NULL, I_URANDOM, I_GEN, I_SINK };
struct WOp { u64 off; u64 len; int op; /*0 write 1 trunc 2 fsync*/ str d; };
struct Inode {
	str name; InoType type = I_REG;
	str data;
	u64 cap = ~0ull;            // REG: bytes the disk still lets this file hold
	int full_errno = 28;
	// pipe
	u64 pcap = 65536; int readers = 0, writers = 0; u64 rpos = 0;
	u64 pin = 0, pout = 0;      // total through pipe
	bool record = false; str rec;      // pipes: what was written;  any input: what was delivered to readers
	u64 die_after = ~0ull;      // reader/writer processes of a dying peer (see cli.cc)
	// generator / sink
	u64 gseed = 0, glen = 0, gpos = 0;
	std::function<void(u64, char *, size_t)> gen;
	std::function<void(const char *, size_t)> sink;
	// bookkeeping
	bool existed = false;
	int opens_r = 0, opens_w = 0; bool truncated = false; u64 nwrites = 0;
	u64 nreads = 0, bytes_in = 0, bytes_out = 0;
	bool wfail = false, cfail = false, rfail = false, ofail = false; // a fault hit this object
	bool saw_eof = false;
	str meta;                   // attributes the code changed (mode, owner, times, ...)
	std::vector<WOp> wlog; bool keep_wlog = false;
	int chunk_mode = 0; i64 chunk_max = 0; // read/write splitting
	int open_errno = 0;         // opening fails permanently
	u64 avail_from = 0;
	// tty
	struct termios tio; struct termios tio0;
	std::vector<str> script; size_t scr_i = 0, scr_off = 0; // lines typed
	u64 unasked = 0, asked_at = 0, typed_echo = 0, typed_noecho = 0; int flushes = 0; str ttyout;
};
struct OpenFile { Inode *ino = nullptr; u64 off = 0; int flags = 0; bool tty_stdin = false; std::shared_ptr<str> rec; };
struct OpenRec { str path; Inode *ino; int flags; std::shared_ptr<str> rec; };   // what was delivered through it

struct SFile {            // a stdio stream of a simulated process
	FILE *f = nullptr; Proc *p = nullptr; int fd = -1; bool wr = false; bool dead = false; bool std_ = false; int id = 0;
	str tgt;
};
struct HeapBlk { size_t n; size_t seq; };

enum ExitKind { E_RUNNING, E_EXIT, E_SIGNAL, E_ABORT, E_ASSERT, E_CRASHED, E_FATAL };

struct Proc {
	World *w = nullptr; int id = 0; str name;
	std::vector<Task *> tasks;
	char *state = nullptr;          // saved static data when not running
	std::map<str, str> env; u64 prng = 1;
	std::vector<std::shared_ptr<OpenFile>> fds;
	std::vector<SFile *> files;
	FILE *in = nullptr, *out = nullptr, *err = nullptr;
	std::map<char *, HeapBlk> heap; std::map<char *, size_t> maps;
	u64 heap_cur = 0, heap_peak = 0, map_cur = 0, map_peak = 0, map_max_req = 0, heap_max_req = 0;
	ExitKind ek = E_RUNNING; int code = 0; str why;
	struct sigaction sa[65]; u64 pending = 0; int stops = 0;
	struct SigEv { int sig; char how; bool tty_ok; }; // how: k killed, s stopped, h handler, i ignored
	std::map<int, int> sig_sent;   // by others
	std::vector<SigEv> sig_taken; u64 sigmask = 0; bool intr = false, restarted = false;
	std::vector<void (*)()> atexits;
	std::map<str, i64> ops;         // "kind target" -> count
	u64 nsys = 0;
	std::vector<str> argv;
	bool threaded = false;
	bool exiting = false; bool group_sig = false;  // signalled processes other than itself
	int allocs = 0;
	std::vector<str> secrets;       // checked at release (C16)
	str leak;                       // first secret found in released memory
	str stackleak;
	int derivs = 0;                 // key derivations started by the command (not the benchmark)
	u64 max_N = 0; 
	std::vector<str> dks;           // derived keys seen
	bool exited() const { return ek == E_EXIT; }
	bool ok() const { return ek == E_EXIT && code == 0; }
	str status() const;
};

struct Ev { int p; const char *kind; str tgt; i64 a, b; };

struct World {
	str strip;                      // beginning of path names that is left out of the names of fault targets
	std::vector<str> secsrc;        // what the processes' secrets were cut out of
	bool kstack = false;            // system functions on a stack of their own (plain build)
	const Plan *plan = nullptr;
	std::map<str, Inode *> fs;
	std::vector<Inode *> inodes;
	std::vector<Proc *> procs;
	std::vector<Task *> tasks;
	Task *cur = nullptr;
	void *main_sp = nullptr;
	// clock, in ns
	i64 now = 1000000000000ll;
	i64 tick = 1000000;          // clock granularity seen by the code, ns
	i64 res_report = -1;         // clock_getres value (ns), -1 = tick
	i64 call_cost = 200;         // each system call takes this long
	double cores_per_s = 1e6;    // CPU speed: salsa20/8 cores per second
	int clk_mono_err = 0, clk_cpu_err = 0, clk_real_err = 0;
	i64 rt_off = 0;              // settings of the wall clock
	// resources
	u64 totalram = 1ull << 30; u32 mem_unit = 1;
	u64 rl_as = RLIM_INFINITY, rl_rss = RLIM_INFINITY, rl_data = RLIM_INFINITY;
	i64 pagesize = 4096, physpages = (1ll << 30) / 4096; int sysconf_mode = 0;
	u64 vm_cap = 80ull << 20;    // real memory the simulation hands out in one mapping
	u64 ram_avail = ~0ull;       // total that allocations may use before they fail
	// randomness
	str rd_bad; u64 urseed = 1, urpos = 0; i64 urflip = -1; u64 rdseed = 2, rdpos = 0; int rdrand_mode = 0; // 0 ok 1 always fails
	str ur_log; bool keep_ur = false; std::vector<str> rd_log;
	// cpu features
	u32 cpu_mask = 0x1f; u32 broken_mask = 0;
	// kdf
	int kdf_mode = 0;            // 0 real, 1 stub when too large, 2 always stub
	double kdf_big = 4e6;        // salsa20/8 cores
	bool forbid_dk = false;      // derived keys become forbidden as they are made
	std::function<void(Proc *, const str &pw, const str &dk)> on_dk;
	// scheduling
	u64 sched_seed = 0; int sched_pct = 0; u64 nsched = 0, nswitch = 0, sched_hash = 0;
	int sched_first = -1;
	i64 stdio_buf = 0;           // 0: library default
	// budget
	u64 steps = 0, max_steps = 2000000;
	str stuck;                   // hang / deadlock
	// log
	u64 hash = 1469598103934665603ull; std::vector<Ev> log; bool keep_log = false;
	std::map<str, u64> fired;    // fault kinds fired
	std::vector<i64> fhit;       // per fault: matching calls seen
	int nfired = 0;
	// op sites (for the generator)
	bool keep_sites = false;
	struct Site { int proc; str kind, tgt; i64 nth; i64 any; };
	std::vector<Site> sites;
	str passthru;
	std::vector<str> forbid;     // secrets that must never be written
	std::vector<str> forbid_diag; // never on anything but the named output
	str forbid_hit; Inode *forbid_out = nullptr;
	u64 new_cap = ~0ull; int new_full = 28; // disk space for files created during the run
	bool wlog_new = false;
	std::vector<str> unlinked;
	bool keep_opens = false; std::vector<OpenRec> opens;
	std::map<str, str> tails;    // per fd tail for spanning search
	// per-call hooks
	std::function<void(Proc *, const char *)> on_call;
	u64 chunk_seed = 0; u64 chunk_ctr = 0;
	int max_inflight = 0;
	u64 heap_yield = 1;

	explicit World(const Plan &p);
	~World();
	Inode *file(const str &path, const str &data);
	Inode *node(const str &path, InoType t);
	Inode *anon(const str &name, InoType t);
	Proc *spawn(const str &name, const std::vector<str> &argv);            // scrypt command
	Proc *spawn_fn(const str &name, std::function<int()> fn);             // library caller
	Task *add_thread(Proc *p, std::function<int()> fn);
	void set_fd(Proc *p, int fd, Inode *ino, bool wr);
	void run();
	void finish(Proc *p, ExitKind k, int code, const str &why);
	const str &err(Proc *p);
	void ev(Proc *p, const char *kind, const str &tgt, i64 a, i64 b = 0);
	Fault *hit(Proc *p, const char *kind, const str &tgt);
	bool fired_any(const str &prefix) const { for (auto &x : fired) if (x.first.compare(0, prefix.size(), prefix) == 0) return true; return false; }
	void tick_clock(i64 ns) { now += ns; }
};

extern World *W;                     // the running world
extern "C" { extern FILE *sim_stdin, *sim_stdout, *sim_stderr; }
extern bool g_alt, g_asan;
size_t stk_size();

Proc *curp();
void sim_yield();
bool in_simstate(const void *a);
void sim_block(std::function<bool()> ready);
[[noreturn]] void sim_die(ExitKind k, int code, const str &why);
FILE *mk_stream(Proc *p, int fd, bool wr, const str &tgt, bool unbuf, bool linebuf);
void close_dead_streams(Proc *p);
void deliver(Proc *p, int sig);
extern "C" void *sim_kstack, *sim_kuser;
extern "C" void sim_scan_impl(const char *what);
//   // top of the current task's system stack (0: run on the caller's)
void scan_now(const char *what);   // the running process: dead stack below the caller, live heap, static data
int scan_secret(const char *p, size_t n, const std::vector<str> &secrets);

// ---------------------------------------------------------------- reference
namespace ref {
str sha256(const str &);
str hmac(const str &key, const str &data);
str scrypt(const str &pass, const str &salt, u64 N, u32 r, u32 p, size_t len); // cached
str aesctr(const str &key32, const str &data, u64 first_block = 0);
str aesctr_n(const str &key, u64 nonce, const str &data);   // 16- or 32-byte key
str aesblock(const str &key, const str &block);
str pbkdf2(const str &pw, const str &salt, u64 c, size_t n);
struct Hdr { int logN; u32 r, p; str salt; };
str header(const Hdr &h, const str &dk);
str header_nohmac(const Hdr &h);      // first 64 bytes
str encrypt(const Hdr &h, const str &pass, const str &pt);
str encrypt_dk(const Hdr &h, const str &dk, const str &pt);
bool decrypt(const str &pass, const str &ct, str &pt, Hdr *h = nullptr);  // strict
bool header_key(const str &pass, const str &ct, str &dk, Hdr *h = nullptr); // header (first 96 bytes) valid?
str aes_schedule(const str &key32);
void be32(str &s, u32 v);
u32 rd32(const str &s, size_t o);
// Incremental CTR + HMAC, for streams too long to hold.
struct Stream {
	void *ctr = nullptr, *mac = nullptr;
	Stream(const str &dk, const str &header);
	~Stream();
	void crypt(const char *in, char *out, size_t n);
	void update(const char *in, size_t n);
	str mac_final();
	Stream(const Stream &) = delete;
};
// HMAC_DRBG of SP 800-90A as documented in crypto_entropy.h
struct Drbg {
	str K, V; u64 ctr = 0; bool inst = false;
	void update(const str &data);
	void instantiate(const str &seed48);
	void reseed(const str &seed32);
	str gen(size_t n);
};
u64 round_size(Rng &g);                // a size at or around which its display changes
bool shown_size(const str &text, const char *after, u64 lo, u64 hi, str &got); // a size in [lo, hi], cut to the documented digits, follows
str stub_dk(const str &pass, const str &salt, u64 N, u32 r, u32 p, size_t len);
}

// ---------------------------------------------------------------- results
struct Result {
	bool bad = false, isknown = false; str cls, detail;
	u64 hash = 0; u64 sim_ns = 0; u64 steps = 0;
	std::map<str, u64> fired; std::map<str, u64> probes;
	u64 sig = 0;            // signature for "distinct" counting
	bool nontrivial = false;
	str sample;
	u64 sched_hash = 0; u64 nswitch = 0;
	std::vector<Ev> log;
	void fail(const str &c, const str &d) { if (!bad || isknown) { bad = true; isknown = false; cls = c; detail = d; } }
	// a recorded genuine defect: reported once, does not stop the search; only known_findings.txt makes it acceptable
	void finding(const str &c, const str &d) { if (!bad) { fail(c, d); isknown = true; } }
};
struct Prop {
	const char *id;
	void (*gen)(Rng &, Plan &);
	void (*exec)(const Plan &, Result &);
	const char *rule;
};
std::vector<Prop> &all_props();
void note_plan(const Plan &);
struct Reg { Reg(const Prop &p) { all_props().push_back(p); } };
str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
str hex(const str &s, size_t max = 64);
