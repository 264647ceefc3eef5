// Workloads shared by the scenarios: scrypt commands inside the simulator.
#pragma once
#include "sim.h"

enum { M_ENC, M_DEC, M_INFO };
enum { PM_STDIN_ONCE, PM_TTY, PM_TTYSTDIN_NOTTY, PM_TTY_ONCE, PM_ENV, PM_FILE, PM_DASH_P, PM_N };
enum { IN_PATH, IN_STDIN_FILE, IN_STDIN_PIPE, IN_N };
enum { OUT_NEW, OUT_OLD, OUT_STDOUT_FILE, OUT_STDOUT_PIPE, OUT_N };

struct Spec {
	int mode = M_ENC;
	str pass = "passphrase";
	str indata;
	Inode *inpipe = nullptr, *outpipe = nullptr;  // already existing pipes
	int method = PM_ENV, inkind = IN_PATH, outkind = OUT_NEW;
	int logN = 0; u32 r = 0, p = 0;
	bool force = false, verbose = false;
	str eol = "\n";
	std::vector<str> typed;              // overrides what is typed / fed on stdin
	bool typed_set = false;
	std::vector<str> extra;              // more options
	str old = "previous contents of the output file\n";
	str tag;                             // prefix for object names
	str dir;                             // what the names given to the command begin with
	u64 pipe_cap = 65536; u64 feed_piece = 0;
	bool no_tty = false; str stdin_text;   // no terminal; what standard input holds then
	u64 out_cap = ~0ull; int out_full = 28;
	u64 drain_die = ~0ull, feed_die = ~0ull;   // the peer goes away after so many bytes
	bool no_in = false, no_pass = false;
	bool stdin_tty = false;              // standard input is a terminal
	bool raw_pass = false;               // pass file content given verbatim
};
struct Job {
	Spec s; Proc *proc = nullptr; Inode *in = nullptr, *out = nullptr, *so = nullptr, *err = nullptr, *tty = nullptr, *passf = nullptr;
	Proc *feeder = nullptr, *drain = nullptr; std::shared_ptr<str> drained;
	const str &errs() const { return err->data; }
	str output(World &w) const;          // what the destination received
	bool outfile_exists(World &w) const;
	str outpath() const { return s.dir + s.tag + "out"; }
	str inpath() const { return s.dir + s.tag + "in"; }
};
Job start_job(World &w, const Spec &s);
str plan_pass(const Plan &pl);
str plan_data(const Plan &pl);
str plan_salt(const Plan &pl);
i64 pick_size(Rng &g, i64 maxn);
void gen_chunk(Rng &g, Plan &pl, i64 isize);
void gen_pass(Rng &g, Plan &pl);
void gen_io(Rng &g, Plan &pl, int mode);     // method, inkind, outkind
Spec spec_from(const Plan &pl, int mode);
void gen_cpu(Rng &g, Plan &pl);
void finish_result(World &w, Result &r);
bool clean_end(World &w, Result &r, bool allow_abort = false);  // no crash, no assertion, no hang, no leak of control
bool contains(const str &h, const str &n);
str describe(const Plan &pl);
ref::Hdr plan_hdr(const Plan &pl);
// Choose faults by first executing the fault-free run and recording its calls.
typedef std::function<void(const Plan &, World &)> Build;
std::vector<World::Site> record_sites(const Plan &pl, const Build &b);
bool add_fault_at(Rng &g, Plan &pl, const World::Site &s);
std::vector<int> errnos_for(const str &kind, const str &tgt);

struct Cmd { Spec s; str pt, ct; ref::Hdr h; bool ign_pipe = false; };
void gen_cmd(Rng &g, Plan &pl, i64 maxn, int mode);
Cmd plan_cmd(const Plan &pl);
Job start_cmd(World &w, const Cmd &c);
void settle(World &w, Job &j);
str wrong_result(World &w, Job &j, const Cmd &c);   // empty: exactly what was asked
// deliberate aborts with a diagnostic: the option parser cannot allocate its tables, or the AES
// self-test finds that libcrypto does not work
bool optparse_oom(World &w, Job &j);
void long_plan(Rng &g, Plan &pl, int mode, i64 len);   // one very long stream, checked against an incremental reference
void exec_long(const Plan &pl, Result &r);
