// Runner: search, exact execution of a plan, minimisation.
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <unordered_set>

extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:print_summary=1:detect_odr_violation=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=99"; }

// edge coverage of the instrumented variant
static u8 g_cov[1 << 18]; static u32 g_covn; static bool g_covon = true;
extern "C" void __sanitizer_cov_trace_pc(void) {
	if (!g_covon) return;
	u64 pc = (u64)__builtin_return_address(0);
	u32 h = (u32)((pc * 0x9E3779B97F4A7C15ull) >> 43) & ((1 << 21) - 1);
	if (!(g_cov[h >> 3] >> (h & 7) & 1)) { g_cov[h >> 3] |= (u8)(1 << (h & 7)); g_covn++; }
}

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static const Prop *find(const str &id) { for (auto &p : all_props()) if (id == p.id) return &p; return nullptr; }
static int CPU_S = 60;
static void cpu_limit(int s) { struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = s; setitimer(ITIMER_PROF, &v, nullptr); }
static void on_prof(int) { _exit(97); }
static void watchdog() { signal(SIGPROF, on_prof); }

static void exec_plan(const Prop *p, const Plan &pl, Result &r) {
	cpu_limit(pl.get("long_run") ? 800 : CPU_S);
	p->exec(pl, r);
}
static str readfile(const char *f) { FILE *h = fopen(f, "rb"); if (!h) return ""; str s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static void writefile(const str &f, const str &s) { FILE *h = fopen(f.c_str(), "wb"); if (!h) { perror(f.c_str()); _exit(95); } fwrite(s.data(), 1, s.size(), h); fclose(h); }
static str jstr(const str &s) { str o = "\""; for (char ch : s) { u8 c = (u8)ch; if (c == '"' || c == '\\') { o += '\\'; o += ch; } else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += ch; } return o + "\""; }
struct Shared { volatile u64 idx; volatile u64 done; char plan[60000]; };
static Shared *g_sh;
void note_plan(const Plan &pl) { if (!g_sh) return; str t = pl.text(); if (t.size() >= sizeof g_sh->plan) t.resize(sizeof g_sh->plan - 1); memcpy(g_sh->plan, t.c_str(), t.size() + 1); }
static Plan make_plan(const Prop *p, u64 base, u64 idx) {
	cpu_limit(CPU_S);
	Plan pl; pl.prop = p->id; pl.seed = mix64(base, idx, std::hash<str>()(p->id) & 0xffff);
	Rng g(pl.seed); pl.k["idx"] = (i64)idx; p->gen(g, pl); pl.k.erase("idx");
	return pl;
}
static str death_class(int st) {
	if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return "cpu-hang";
	if (WIFEXITED(st) && WEXITSTATUS(st) == 99) return "memory-error";
	if (WIFEXITED(st)) return fmt("harness-exit-%d", WEXITSTATUS(st));
	return fmt("crash-signal-%d", WTERMSIG(st));
}
struct Out { bool bad; str cls, detail; u64 hash; };
// Run one plan in a forked child.
static Out exec_forked(const Prop *p, const Plan &pl, bool quiet = true) {
	int fd[2]; if (pipe(fd)) _exit(95);
	fflush(stdout); fflush(stderr);
	pid_t c = fork();
	if (c == 0) {
		close(fd[0]);
		if (quiet) { FILE *x = freopen("/dev/null", "w", stderr); (void)x; }
		watchdog();
		Result r; exec_plan(p, pl, r);
		str o = fmt("%d %llu ", r.bad, (unsigned long long)r.hash) + r.cls + "\n" + r.detail;
		size_t i = 0; while (i < o.size()) { ssize_t n = write(fd[1], o.data() + i, o.size() - i); if (n <= 0) break; i += (size_t)n; }
		_exit(0);
	}
	close(fd[1]);
	str s; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, (size_t)n);
	close(fd[0]);
	int st; waitpid(c, &st, 0);
	Out o; o.bad = false; o.hash = 0;
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { o.bad = true; o.cls = death_class(st); o.detail = "the process executing the plan died"; return o; }
	int bad = 0; unsigned long long h = 0; char cls[256] = "";
	sscanf(s.c_str(), "%d %llu %255[^\n]", &bad, &h, cls);
	o.bad = bad; o.hash = h; o.cls = cls; size_t e = s.find('\n'); if (e != str::npos) o.detail = s.substr(e + 1);
	return o;
}
// ---------------------------------------------------------------- minimisation
static Plan shrink(const Prop *p, Plan best, const str &cls, double tmax, int &tries) {
	double t0 = now_s();
	auto test = [&](const Plan &q) { if (now_s() - t0 > tmax) return false; tries++; Out o = exec_forked(p, q); return o.bad && o.cls == cls; };
	bool again = true;
	while (again && now_s() - t0 < tmax) {
		again = false;
		for (size_t i = 0; i < best.faults.size();) { Plan q = best; q.faults.erase(q.faults.begin() + (long)i); if (test(q)) { best = q; again = true; } else i++; }
		for (size_t i = 0; i < best.muts.size();) { Plan q = best; q.muts.erase(q.muts.begin() + (long)i); if (test(q)) { best = q; again = true; } else i++; }
		std::vector<str> ks; for (auto &x : best.k) ks.push_back(x.first);
		for (auto &k : ks) {
			if (k == "cause" || k == "sub" || k == "kind" || k == "odd" || k == "src" || k == "stub") continue; // what the case is about
			Plan q = best; q.k.erase(k);
			if (test(q)) { best = q; again = true; continue; }
			for (;;) { // towards zero
				i64 v = best.k[k]; if (v == 0 || v == 1 || v == -1) break;
				Plan h = best; h.k[k] = v / 2;
				if (test(h)) { best = h; again = true; continue; }
				h.k[k] = v > 0 ? v - 1 : v + 1;
				if (v > -64 && v < 64 && test(h)) { best = h; again = true; continue; }
				break;
			}
		}
		for (size_t i = 0; i < best.faults.size(); i++) {
			if (best.faults[i].count != 1) { Plan q = best; q.faults[i].count = 1; if (test(q)) { best = q; again = true; } }
			while (best.faults[i].nth > 0) { Plan q = best; q.faults[i].nth /= 2; if (test(q)) { best = q; again = true; } else break; }
		}
		for (size_t i = 0; i < best.muts.size(); i++) {
			i64 Mut::*f[] = {&Mut::a, &Mut::b, &Mut::c};
			for (auto m : f) while (best.muts[i].*m > 0) { Plan q = best; q.muts[i].*m /= 2; if (test(q)) { best = q; again = true; } else break; }
		}
	}
	return best;
}

int main(int argc, char **argv) {
	// No lazy binding: the dynamic linker would spill vector registers (holding keys) onto the simulated stacks.
	if (!getenv("LD_BIND_NOW")) { setenv("LD_BIND_NOW", "1", 1); execv("/proc/self/exe", argv); }
	if (argc < 2) { fprintf(stderr, "usage: sim list | gen P SEED IDX | exec PLAN [-v] | run P SEED FROM STRIDE MAXRUNS SECONDS OUT | shrink PLAN OUT SECONDS | det P SEED FROM N\n"); return 2; }
	str cmd = argv[1];
	signal(SIGPIPE, SIG_IGN);
	if (cmd == "list") { for (auto &p : all_props()) printf("%s\t%s\n", p.id, p.rule); return 0; }
	if (cmd == "gen") { const Prop *p = find(argv[2]); Plan pl = make_plan(p, strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10)); fputs(pl.text().c_str(), stdout); return 0; }
	if (cmd == "exec") {
		Plan pl; if (!Plan::parse(readfile(argv[2]), pl)) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 2; }
		const Prop *p = find(pl.prop); if (!p) return 2;
		watchdog();
		bool v = argc > 3 && !strcmp(argv[3], "-v");
		if (v) {
			pl.k["_log"] = 1;
			Result r; exec_plan(p, pl, r);
			for (auto &e : r.log) printf("  p%d %-14s %-10s %lld %lld\n", e.p, e.kind, e.tgt.c_str(), (long long)e.a, (long long)e.b);
			printf("RESULT %s class=%s hash=%016llx\n%s\nSAMPLE %s\n", r.bad ? "bad" : "ok", r.cls.c_str(), (unsigned long long)r.hash, r.detail.c_str(), r.sample.c_str());
			return r.bad;
		}
		Out o = exec_forked(p, pl, false);
		printf("RESULT %s class=%s hash=%016llx\n%s\n", o.bad ? "bad" : "ok", o.cls.c_str(), (unsigned long long)o.hash, o.detail.c_str());
		return o.bad ? 1 : 0;
	}
	if (cmd == "shrink") {
		Plan pl; if (!Plan::parse(readfile(argv[2]), pl)) return 2;
		const Prop *p = find(pl.prop);
		Out o = exec_forked(p, pl);
		if (!o.bad) { fprintf(stderr, "plan does not fail\n"); return 3; }
		int tries = 0;
		Plan b = shrink(p, pl, o.cls, atof(argv[4]), tries);
		Out f1 = exec_forked(p, b), f2 = exec_forked(p, b);
		if (!f1.bad || f1.cls != o.cls || f2.cls != f1.cls || f1.hash != f2.hash) { b = pl; f1 = exec_forked(p, b); }
		str head = "# violation of " + pl.prop + ": " + f1.cls + "\n";
		size_t i = 0; while (i < f1.detail.size()) { size_t e = f1.detail.find('\n', i); if (e == str::npos) e = f1.detail.size(); head += "# " + f1.detail.substr(i, e - i) + "\n"; i = e + 1; }
		head += fmt("# minimised in %d executions; event hash %016llx\n", tries, (unsigned long long)f1.hash);
		writefile(argv[3], head + b.text());
		printf("SHRUNK class=%s hash=%016llx tries=%d\n", f1.cls.c_str(), (unsigned long long)f1.hash, tries);
		return 0;
	}
	if (cmd == "det") {
		const Prop *p = find(argv[2]); u64 base = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10);
		watchdog();
		for (u64 i = from; i < from + n; i++) { Plan pl = make_plan(p, base, i); Result r; exec_plan(p, pl, r); printf("%llu %016llx %d %s\n", (unsigned long long)i, (unsigned long long)r.hash, r.bad, r.cls.c_str()); }
		return 0;
	}
	if (cmd == "run") {
		const Prop *p = find(argv[2]); if (!p) { fprintf(stderr, "no such property\n"); return 2; }
		u64 base = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), maxruns = strtoull(argv[6], 0, 10);
		double secs = atof(argv[7]); str out = argv[8];
		size_t maxbad = argc > 9 ? strtoull(argv[9], 0, 10) : 3;
		Shared *sh = g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		double t0 = now_s();
		u64 k = 0; int part = 0; size_t nbad = 0;
		str viol;
		while (k < maxruns && now_s() - t0 < secs && nbad < maxbad) {
			fflush(stdout);
			pid_t c = fork();
			if (c == 0) {
				watchdog();
				u64 runs = 0, nontriv = 0, steps = 0, switches = 0, faulted = 0; double simns = 0; size_t bad = 0;
				std::map<str, u64> fired, probes; std::unordered_set<u64> sigs, scheds; std::vector<str> samples; str vs; std::set<str> kn;
				while (k < maxruns && now_s() - t0 < secs && nbad + bad < maxbad) {
					sh->idx = k;
					Plan pl = make_plan(p, base, from + k * stride);
					note_plan(pl); Result r; exec_plan(p, pl, r);
					runs++; steps += r.steps; simns += (double)r.sim_ns; switches += r.nswitch;
					for (auto &x : r.fired) fired[x.first] += x.second;
					if (!r.fired.empty()) faulted++;
					for (auto &x : r.probes) probes[x.first] += x.second;
					if (r.nontrivial) { nontriv++; if (sigs.size() < 2000000) sigs.insert(r.sig); }
					if (r.sched_hash && scheds.size() < 1000000) scheds.insert(r.sched_hash);
					if (samples.size() < 2 && !r.sample.empty() && r.nontrivial) samples.push_back(r.sample);
					if (r.bad && r.isknown) { probes["finding:" + r.cls]++; if (!kn.insert(r.cls).second) { k++; continue; } bad--; }
					if (r.bad) { str f = out + fmt(".bad%d-%llu.plan", part, (unsigned long long)k); writefile(f, pl.text()); vs += (vs.empty() ? "" : ",") + str("{\"plan\":") + jstr(f) + ",\"class\":" + jstr(r.cls) + ",\"detail\":" + jstr(r.detail) + "}"; bad++; }
					k++;
				}
				str j = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nontriv) + ",\"faulted\":" + std::to_string(faulted) + ",\"steps\":" + std::to_string(steps) + ",\"switches\":" + std::to_string(switches) + fmt(",\"sim_s\":%.6f", simns / 1e9) + ",\"edges\":" + std::to_string(g_covn);
				auto mp = [&](const char *n, std::map<str, u64> &m) { j += str(",\"") + n + "\":{"; bool f = true; for (auto &x : m) { if (!f) j += ","; f = false; j += jstr(x.first) + ":" + std::to_string(x.second); } j += "}"; };
				mp("fired", fired); mp("probes", probes);
				j += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + jstr(samples[i]); j += "],\"viol\":[" + vs + "]}";
				writefile(out + fmt(".%d.json", part), j);
				str sb; for (u64 s : sigs) sb.append((char *)&s, 8);
				writefile(out + fmt(".%d.sigs", part), sb);
				sb.clear(); for (u64 s : scheds) sb.append((char *)&s, 8);
				writefile(out + fmt(".%d.scheds", part), sb);
				if (g_covn) writefile(out + fmt(".%d.cov", part), str((char *)g_cov, sizeof g_cov));
				_exit(0);
			}
			int st; waitpid(c, &st, 0);
			part++;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
			// died while executing run sh->idx
			u64 i = sh->idx;
			str f = out + fmt(".dead%d-%llu.plan", part, (unsigned long long)i);
			sh->plan[sizeof sh->plan - 1] = 0;
			writefile(f, sh->plan);
			viol += (viol.empty() ? "" : ",") + str("{\"plan\":") + jstr(f) + ",\"class\":" + jstr(death_class(st)) + ",\"detail\":\"died\"}";
			nbad++;
			k = i + 1;
		}
		writefile(out + ".dead.json", "{\"viol\":[" + viol + "]}");
		return 0;
	}
	return 2;
}
