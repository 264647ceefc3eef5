// The simulated operating system: every libc entry the code under test uses.
// Build renames the code's undefined reference X to sim_X for each sim_X here.
#include <immintrin.h>
#include <cpuid.h>
#include "sim.h"
#include <cerrno>
#include <stdio_ext.h>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/sysinfo.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <poll.h>
#include <unordered_set>

#include <pthread.h>
void note_fault(Proc *p, const char *kind, const str &tgt, const Fault *f);
void sim_give_up(const str &why);
bool in_simstate(const void *a);

extern "C" {
FILE *sim_stdin, *sim_stdout, *sim_stderr;
char **sim_environ;
}
#define P curp()
static const str NONE = "-";

static bool inj(Proc *p, Fault *f, const char *kind, const str &tgt) {
	if (!f || f->act != A_ERR) return false;
	note_fault(p, kind, tgt, f);
	errno = (int)f->arg;
	return true;
}

// ---------------------------------------------------------------- memory
static std::unordered_set<void *> g_freed;
static void *heap_get(Proc *p, size_t al, size_t n, bool zero) {
	Fault *f = W->hit(p, "alloc", NONE);
	if (inj(p, f, "alloc", NONE)) { W->ev(p, "alloc", NONE, (i64)n, -1); return nullptr; }
	if (n > p->heap_max_req) p->heap_max_req = n;
	if (n > W->vm_cap || p->heap_cur + p->map_cur + n > W->ram_avail) {
		W->fired["alloc:exhausted"]++; errno = ENOMEM; W->ev(p, "alloc", NONE, (i64)n, -1); return nullptr;
	}
	void *r = nullptr;
	if (al) { if (posix_memalign(&r, al < sizeof(void *) ? sizeof(void *) : al, n ? n : 1)) abort(); }
	else r = malloc(n ? n : 1);
	if (!r) { perror("harness malloc"); _exit(91); }
	memset(r, zero ? 0 : 0xA5, n);
	p->heap[(char *)r] = {n, (size_t)p->allocs++};
	g_freed.erase(r);
	p->heap_cur += n; if (p->heap_cur > p->heap_peak) p->heap_peak = p->heap_cur;
	W->ev(p, "alloc", NONE, (i64)n, 0);
	return r;
}
extern "C" {
void *sim_malloc(size_t n) { Proc *p = P; if (!p) return malloc(n); return heap_get(p, 0, n, false); }
void *sim_calloc(size_t a, size_t b) {
	Proc *p = P; if (!p) return calloc(a, b);
	size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
	return heap_get(p, 0, n, true);
}
void sim_free(void *q) {
	if (!q) return;
	Proc *p = P; if (!p) { free(q); return; }
	auto it = p->heap.find((char *)q);
	if (it == p->heap.end()) {
		if (g_freed.count(q)) sim_die(E_CRASHED, 0, "double free");
		free(q); return;
	}
	size_t n = it->second.n;
	if (!p->secrets.empty() && p->leak.empty()) {
		int i = scan_secret((char *)q, n, p->secrets);
		if (i >= 0) p->leak = fmt("heap block of %zu bytes released: secret #%d", n, i);
	}
	W->ev(p, "free", NONE, (i64)n);
	p->heap_cur -= n; p->heap.erase(it);
	memset(q, 0xDD, n);
	if (g_freed.size() > 4096) g_freed.clear();
	g_freed.insert(q);
	free(q);
}
void *sim_realloc(void *q, size_t n) {
	Proc *p = P; if (!p) return realloc(q, n);
	if (!q) return sim_malloc(n);
	auto it = p->heap.find((char *)q);
	if (it == p->heap.end()) return realloc(q, n);
	size_t o = it->second.n;
	void *r = heap_get(p, 0, n, false); if (!r) return nullptr;
	memcpy(r, q, o < n ? o : n); sim_free(q); return r;
}
void *sim_reallocarray(void *q, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(q, n); }
int sim_posix_memalign(void **o, size_t al, size_t n) {
	int e = errno; void *r = heap_get(P, al, n, false); int x = errno; errno = e;
	if (!r) return x; *o = r; return 0;
}
void *sim_aligned_alloc(size_t al, size_t n) { return heap_get(P, al, n, false); }
void *sim_memalign(size_t al, size_t n) { return heap_get(P, al, n, false); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
void *sim_mmap(void *, size_t n, int prot, int flags, int fd, off_t) {
	Proc *p = P;
	Fault *f = W->hit(p, "mmap", NONE);
	if (n > p->map_max_req) p->map_max_req = n;
	if (inj(p, f, "mmap", NONE)) return MAP_FAILED;
	if (fd != -1 && !(flags & MAP_ANONYMOUS)) { errno = ENODEV; return MAP_FAILED; }
	if (n == 0) { errno = EINVAL; return MAP_FAILED; }
	if (n > W->vm_cap || p->heap_cur + p->map_cur + n > W->ram_avail) { W->fired["mmap:exhausted"]++; errno = ENOMEM; W->ev(p, "mmap", NONE, (i64)n, -1); return MAP_FAILED; }
	char *r = (char *)mmap(nullptr, n, prot, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (r == MAP_FAILED) { perror("harness mmap"); _exit(91); }
	p->maps[r] = n; p->map_cur += n; if (p->map_cur > p->map_peak) p->map_peak = p->map_cur;
	W->ev(p, "mmap", NONE, (i64)n);
	return r;
}
void *sim_mmap64(void *a, size_t n, int prot, int flags, int fd, off_t o) { return sim_mmap(a, n, prot, flags, fd, o); }
int sim_munmap(void *q, size_t n) {
	Proc *p = P;
	Fault *f = W->hit(p, "munmap", NONE);
	if (inj(p, f, "munmap", NONE)) return -1;
	auto it = p->maps.find((char *)q);
	W->ev(p, "munmap", NONE, (i64)n);
	if (it != p->maps.end() && !p->secrets.empty() && p->leak.empty()) { int i = scan_secret((char *)q, it->second, p->secrets); if (i >= 0) p->leak = fmt("mapping of %zu bytes released: secret #%d", n, i); }
	if (it == p->maps.end()) { errno = EINVAL; return -1; }
	size_t pg = 4095;
	if (((it->second + pg) & ~pg) != ((n + pg) & ~pg)) { // partial unmap: keep the rest as live
		size_t rest = it->second > n ? it->second - n : 0;
		if (!rest) sim_die(E_CRASHED, 0, "munmap beyond mapping");
		munmap(q, n); p->maps[(char *)q + ((n + pg) & ~pg)] = rest; p->maps.erase((char *)q); p->map_cur -= n; return 0;
	}
	p->map_cur -= it->second; p->maps.erase(it);
	return munmap(q, n);
}
int sim_mprotect(void *, size_t, int) { return 0; }
int sim_madvise(void *, size_t, int) { return 0; }
int sim_mlock(const void *, size_t) { return 0; }
int sim_munlock(const void *, size_t) { return 0; }
int sim_mlockall(int) { return 0; }
}

// ---------------------------------------------------------------- descriptors
static size_t chunk(Inode *i, size_t n) {
	if (n <= 1 || i->chunk_mode == 0) return n;
	u64 r = mix64(W->chunk_seed, 5, W->chunk_ctr++);
	size_t m = (size_t)(i->chunk_max < 1 ? 1 : i->chunk_max);
	switch (i->chunk_mode) {
	case 1: m = 1 + r % m; break;
	case 2: break;
	case 3: m = (r % 7 == 0) ? 1 + (r >> 8) % m : n; break;
	case 4: { static const size_t t[] = {1, 31, 32, 33, 95, 96, 97, 127, 128, 129, 4095, 4096, 65535, 65536};
		m = r % 3 == 0 ? n - 1 : t[(r >> 8) % 14]; if (m > n) m = n; break; }
	}
	return m < n ? (m ? m : 1) : n;
}
static int fd_new(Proc *p, std::shared_ptr<OpenFile> of) {
	for (size_t i = 0; i < p->fds.size(); i++) if (!p->fds[i]) { p->fds[i] = of; return (int)i; }
	p->fds.push_back(of); return (int)p->fds.size() - 1;
}
static OpenFile *fd_of(Proc *p, int fd) { return fd >= 0 && fd < (int)p->fds.size() ? p->fds[fd].get() : nullptr; }

static int k_open(Proc *p, const char *path, int flags) {
	World *w = W;
	auto it = w->fs.find(path);
	Inode *ino = it == w->fs.end() ? nullptr : it->second;
	str tgt = ino ? ino->name : str(path); if (!ino && !w->strip.empty() && tgt.compare(0, w->strip.size(), w->strip) == 0) tgt.erase(0, w->strip.size());
	Fault *f = w->hit(p, "open", tgt);
	if (inj(p, f, "open", tgt)) { if (ino) ino->ofail = true; w->ev(p, "open", tgt, flags, -1); return -1; }
	sim_yield();
	it = w->fs.find(path); ino = it == w->fs.end() ? nullptr : it->second;
	int acc = flags & O_ACCMODE;
	if (ino && ino->open_errno) { errno = ino->open_errno; w->ev(p, "open", tgt, flags, -1); return -1; }
	if (!ino) {
		if (!(flags & O_CREAT) || !*path) { errno = ENOENT; w->ev(p, "open", tgt, flags, -1); return -1; }
		ino = w->anon(tgt, I_REG); w->fs[path] = ino; ino->cap = w->new_cap; ino->full_errno = w->new_full; ino->keep_wlog = w->wlog_new;
	} else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (acc != O_RDONLY) {
		ino->opens_w++;
		if ((flags & O_TRUNC) && ino->type == I_REG) {
			ino->truncated = true;
			if (ino->keep_wlog) ino->wlog.push_back({0, 0, 1, ""});
			ino->data.clear();
		}
	} else ino->opens_r++;
	if (ino->type == I_PIPE) { if (acc != O_RDONLY) ino->writers++; else ino->readers++; }
	auto of = std::make_shared<OpenFile>(); of->ino = ino; of->flags = flags;
	if (w->keep_opens) { of->rec = std::make_shared<str>(); w->opens.push_back({path, ino, flags, of->rec}); }
	int fd = fd_new(p, of);
	w->ev(p, "open", tgt, flags, fd);
	return fd;
}
static ssize_t k_read(Proc *p, int fd, void *buf, size_t n) {
	World *w = W;
	OpenFile *of = fd_of(p, fd);
	if (!of) { w->hit(p, "read", NONE); errno = EBADF; return -1; }
	Inode *ino = of->ino;
	p->intr = p->restarted = false;
	Fault *f = w->hit(p, "read", ino->name);
	bool intr = p->intr, again = p->restarted; p->intr = p->restarted = false;
	if (inj(p, f, "read", ino->name)) { ino->rfail = true; w->ev(p, "read", ino->name, (i64)n, -1); return -1; }
	if (intr && (ino->type == I_TTY || ino->type == I_PIPE)) { w->ev(p, "read", ino->name, (i64)n, -4); ino->rfail = true; errno = EINTR; return -1; }
	sim_yield();
	if ((of->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	if (f && f->act == A_EOF) { note_fault(p, "read", ino->name, f); ino->saw_eof = true; w->ev(p, "read", ino->name, (i64)n, 0); return 0; }
	size_t want = n;
	if (f && f->act == A_SHORT) { note_fault(p, "read", ino->name, f); if ((size_t)f->arg < n && f->arg > 0) n = (size_t)f->arg; }
	ino->nreads++;
	size_t r = 0;
	switch (ino->type) {
	case I_REG: {
		size_t av = of->off < ino->data.size() ? ino->data.size() - of->off : 0;
		r = n < av ? n : av;
		if (r) { r = chunk(ino, r); memcpy(buf, ino->data.data() + of->off, r); of->off += r; }
		break;
	}
	case I_PIPE: {
		while (ino->data.size() == ino->rpos && ino->writers > 0 && n > 0) {
			w->ev(p, "block-read", ino->name, (i64)n);
			sim_block([ino]() { return ino->data.size() > ino->rpos || ino->writers == 0; });
		}
		size_t av = ino->data.size() - ino->rpos;
		r = n < av ? n : av;
		if (r) { r = chunk(ino, r); memcpy(buf, ino->data.data() + ino->rpos, r); ino->rpos += r; ino->pout += r; if (ino->record) ino->rec.append((const char *)buf, r); }
		if (ino->rpos > 65536 || ino->rpos == ino->data.size()) { ino->data.erase(0, ino->rpos); ino->rpos = 0; }
		break;
	}
	case I_TTY: {
		if (again && !intr) { w->ev(p, "wait", ino->name, (i64)n); sim_block([]() { return false; }); } // a signal came while the user was thinking, the wait goes on, and nothing more is typed
		if (ino->scr_i < ino->script.size()) {
			const str &l = ino->script[ino->scr_i];
			if (ino->scr_off == 0) {
				OpenFile *eo = fd_of(p, 2); // was this line asked for?
				if (eo && !eo->ino->wfail) { if (eo->ino->bytes_in == ino->asked_at) ino->unasked++; ino->asked_at = eo->ino->bytes_in; }
				if (ino->tio.c_lflag & ECHO) ino->typed_echo++; else ino->typed_noecho++; w->now += 700000000ll; }
			size_t av = l.size() - ino->scr_off;
			r = n < av ? n : av;
			if (r) r = chunk(ino, r);
			memcpy(buf, l.data() + ino->scr_off, r); ino->scr_off += r;
			if (ino->scr_off >= l.size()) { ino->scr_i++; ino->scr_off = 0; }
		}
		break;
	}
	case I_NULL: r = 0; break;
	case I_URANDOM: {
		r = n;
		if (ino->chunk_mode) r = chunk(ino, n);
		for (size_t i = 0; i < r; i++) {
			u64 pos = w->urpos + i;
			((u8 *)buf)[i] = (u8)(mix64(w->urseed, 3, pos / 8) >> (8 * (pos % 8))) ^ (w->urflip >= 0 && (u64)w->urflip / 8 == pos ? (u8)(1 << (w->urflip & 7)) : 0);
		}
		w->urpos += r;
		if (w->keep_ur) w->ur_log.append((char *)buf, r);
		break;
	}
	case I_GEN: {
		u64 av = ino->glen - ino->gpos;
		r = n < av ? n : (size_t)av;
		if (r) { ino->gen(ino->gpos, (char *)buf, r); ino->gpos += r; }
		break;
	}
	default: errno = EINVAL; return -1;
	}
	if (r == 0 && want > 0) ino->saw_eof = true;
	of->off += (ino->type == I_REG) ? 0 : r;
	ino->bytes_out += r;
	if (of->rec) of->rec->append((const char *)buf, r);
	if (ino->record && ino->type != I_PIPE) ino->rec.append((const char *)buf, r);
	w->ev(p, "read", ino->name, (i64)want, (i64)r);
	w->now += (i64)r / 8;
	return (ssize_t)r;
}
static void scan_forbid(Proc *p, int fd, const char *buf, size_t n) {
	World *w = W;
	if (w->forbid.empty() && w->forbid_diag.empty()) return;
	str key = fmt("%d.%d", p->id, fd);
	str &t = w->tails[key];
	size_t mx = 0; for (auto &s : w->forbid) if (s.size() > mx) mx = s.size();
	for (auto &s : w->forbid_diag) if (s.size() > mx) mx = s.size();
	str b = t + str(buf, n);
	int i = scan_secret(b.data(), b.size(), w->forbid);
	if (i >= 0 && w->forbid_hit.empty()) w->forbid_hit = fmt("secret #%d written to %s", i, p->fds[fd]->ino->name.c_str());
	if (p->fds[fd]->ino != w->forbid_out && w->forbid_hit.empty() && (i = scan_secret(b.data(), b.size(), w->forbid_diag)) >= 0) w->forbid_hit = fmt("data #%d written to %s", i, p->fds[fd]->ino->name.c_str());
	t = b.size() > mx ? b.substr(b.size() - mx) : b;
}
static ssize_t k_write(Proc *p, int fd, const void *buf, size_t n) {
	World *w = W;
	OpenFile *of = fd_of(p, fd);
	if (!of) { w->hit(p, "write", NONE); errno = EBADF; return -1; }
	Inode *ino = of->ino;
	p->intr = false;
	Fault *f = w->hit(p, "write", ino->name);
	bool intr = p->intr; p->intr = false;
	if (!p->argv.empty() && p->argv.size() > 1) scan_forbid(p, fd, (const char *)buf, n);
	if (inj(p, f, "write", ino->name)) { ino->wfail = true; w->ev(p, "write", ino->name, (i64)n, -1); return -1; }
	if (intr && (ino->type == I_PIPE || ino->type == I_TTY)) { ino->wfail = true; errno = EINTR; w->ev(p, "write", ino->name, (i64)n, -4); return -1; }
	sim_yield();
	if ((of->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	size_t want = n;
	if (f && f->act == A_SHORT) { note_fault(p, "write", ino->name, f); if ((size_t)f->arg < n && f->arg > 0) n = (size_t)f->arg; }
	size_t r = n;
	switch (ino->type) {
	case I_REG: {
		if (n) r = chunk(ino, n);
		u64 off = (of->flags & O_APPEND) ? ino->data.size() : of->off;
		if (off + r > ino->cap) {
			if (off >= ino->cap) { ino->wfail = true; w->nfired++; w->fired[fmt("disk-full:%s", ino->name.c_str())]++; errno = ino->full_errno; w->ev(p, "write", ino->name, (i64)want, -1); return -1; }
			r = (size_t)(ino->cap - off);
		}
		if (ino->data.size() < off + r) ino->data.resize(off + r, 0);
		memcpy(&ino->data[off], buf, r);
		if (ino->keep_wlog) ino->wlog.push_back({off, r, 0, str((const char *)buf, r)});
		of->off = off + r;
		break;
	}
	case I_PIPE: {
		size_t done = 0;
		while (done < n) {
			if (ino->readers == 0) {
				if (done) break;
				w->fired["sigpipe"]++; w->nfired++;
				ino->wfail = true;
				p->sig_sent[SIGPIPE]++; deliver(p, SIGPIPE);
				errno = EPIPE; w->ev(p, "write", ino->name, (i64)want, -1); return -1;
			}
			size_t room = ino->pcap - (ino->data.size() - ino->rpos);
			if (room == 0) {
				w->ev(p, "block-write", ino->name, (i64)n);
				sim_block([ino]() { return ino->readers == 0 || ino->data.size() - ino->rpos < ino->pcap; });
				continue;
			}
			size_t m = n - done < room ? n - done : room;
			ino->data.append((const char *)buf + done, m);
			done += m; ino->pin += m;
		}
		r = done;
		break;
	}
	case I_SINK: if (n) r = chunk(ino, n); ino->sink((const char *)buf, r); break;
	case I_TTY: ino->ttyout.append((const char *)buf, n); break;
	case I_NULL: break;
	default: errno = EINVAL; return -1;
	}
	ino->nwrites++; ino->bytes_in += r;
	w->ev(p, "write", ino->name, (i64)want, (i64)r);
	w->now += (i64)r / 8;
	return (ssize_t)r;
}
static int k_close(Proc *p, int fd) {
	World *w = W;
	OpenFile *of = fd_of(p, fd);
	if (!of) { w->hit(p, "close", NONE); errno = EBADF; return -1; }
	Inode *ino = of->ino;
	Fault *f = w->hit(p, "close", ino->name);
	sim_yield();
	bool bad = inj(p, f, "close", ino->name);
	if (bad && f->arg == EINTR && ino->name == "urandom") { // a system on which EINTR leaves it open
		w->ev(p, "close", ino->name, fd, -4); errno = EINTR; return -1;
	}
	if (p->fds[fd].use_count() == 1 && ino->type == I_PIPE) { if ((of->flags & O_ACCMODE) != O_RDONLY) ino->writers--; else ino->readers--; }
	p->fds[fd] = nullptr;
	w->ev(p, "close", ino->name, fd, bad ? -1 : 0);
	if (bad) { ino->cfail = true; errno = (int)f->arg; return -1; }
	return 0;
}

// ---------------------------------------------------------------- stdio
static ssize_t ck_read(void *c, char *buf, size_t n) {
	SFile *s = (SFile *)c;
	if (s->dead || !W || !W->cur) { errno = EIO; return -1; }
	return k_read(s->p, s->fd, buf, n);
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
	SFile *s = (SFile *)c;
	if (s->dead || !W || !W->cur) return (ssize_t)n;
	size_t done = 0; // as _IO_new_file_write does
	while (done < n) {
		ssize_t r = k_write(s->p, s->fd, buf + done, n - done);
		if (r < 0) break;
		done += (size_t)r;
	}
	return (ssize_t)done;
}
static int ck_close(void *c) {
	SFile *s = (SFile *)c;
	if (s->dead || !W || !W->cur) return 0;
	int r = k_close(s->p, s->fd);
	s->fd = -1;
	return r;
}
static int ck_seek(void *c, off64_t *pos, int wh) {
	SFile *s = (SFile *)c;
	if (s->dead || !W || !W->cur) { errno = EIO; return -1; }
	OpenFile *of = fd_of(s->p, s->fd);
	if (!of) { errno = EBADF; return -1; }
	if (of->ino->type != I_REG) { errno = ESPIPE; return -1; }
	i64 n = wh == SEEK_SET ? *pos : wh == SEEK_CUR ? (i64)of->off + *pos : (i64)of->ino->data.size() + *pos;
	if (n < 0) { errno = EINVAL; return -1; }
	of->off = (u64)n; *pos = n; return 0;
}
static std::map<FILE *, char *> g_bufs;
static FILE *mk_stream2(Proc *p, int fd, bool wr, const str &tgt, bool unbuf, bool linebuf, bool both);
FILE *mk_stream(Proc *p, int fd, bool wr, const str &tgt, bool unbuf, bool linebuf) { return mk_stream2(p, fd, wr, tgt, unbuf, linebuf, false); }
static FILE *mk_stream2(Proc *p, int fd, bool wr, const str &tgt, bool unbuf, bool linebuf, bool both) {
	SFile *s = new SFile; s->p = p; s->fd = fd; s->wr = wr; s->tgt = tgt; s->id = (int)p->files.size();
	cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
	s->f = fopencookie(s, both ? "r+" : wr ? "w" : "r", io);
	if (!s->f) { perror("fopencookie"); _exit(91); }
	size_t bs = W->stdio_buf > 0 ? (size_t)W->stdio_buf : 4096;
	if (unbuf) setvbuf(s->f, nullptr, _IONBF, 0);
	else { char *b = (char *)malloc(bs); memset(b, 0, bs); g_bufs[s->f] = b; setvbuf(s->f, b, linebuf ? _IOLBF : _IOFBF, bs); }
	p->files.push_back(s);
	return s->f;
}
static void free_buf(FILE *f) { auto i = g_bufs.find(f); if (i != g_bufs.end()) { free(i->second); g_bufs.erase(i); } }
void close_dead_streams(Proc *p) {
	for (auto s : p->files) { s->dead = true; if (s->f) { FILE *f = s->f; s->f = nullptr; fclose(f); free_buf(f); } }
}
static SFile *sf_of(Proc *p, FILE *f) { for (auto s : p->files) if (s->f == f) return s; return nullptr; }
void proc_exit(int code) {
	Proc *p = P;
	if (p->exiting) sim_die(E_CRASHED, 0, "exit called from an exit handler");
	p->exiting = true;
	while (!p->atexits.empty()) { auto f = p->atexits.back(); p->atexits.pop_back(); f(); }
	for (size_t i = p->files.size(); i-- > 0;) { SFile *s = p->files[i]; if (s->f && s->wr) fflush(s->f); }
	sim_die(E_EXIT, code & 255, "");
}
static int parse_mode(const char *m, bool &wr) {
	int fl; bool plus = strchr(m, '+') != nullptr;
	if (m[0] == 'r') { fl = plus ? O_RDWR : O_RDONLY; wr = plus; }
	else if (m[0] == 'w') { fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; wr = true; }
	else if (m[0] == 'a') { fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; wr = true; }
	else return -1;
	if (strchr(m, 'x')) fl |= O_EXCL;
	return fl;
}
extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
	bool wr; int fl = parse_mode(mode, wr);
	if (fl < 0) { errno = EINVAL; return nullptr; }
	Proc *p = P;
	int fd = k_open(p, path, fl);
	if (fd < 0) return nullptr;
	return mk_stream2(p, fd, wr, p->fds[fd]->ino->name, false, false, strchr(mode, '+') != nullptr);
}
FILE *sim_freopen(const char *path, const char *mode, FILE *f) {
	Proc *p = P; SFile *s = sf_of(p, f);
	if (!s) sim_die(E_CRASHED, 0, "freopen of a stream that is not open");
	bool wr; int fl = parse_mode(mode, wr);
	if (fl < 0 || !path) { errno = EINVAL; return nullptr; }
	fflush(f); k_close(p, s->fd); s->fd = -1; __fpurge(f); clearerr(f);
	int fd = k_open(p, path, fl);
	if (fd < 0) return nullptr;
	s->fd = fd; s->wr = wr; s->tgt = p->fds[fd]->ino->name;
	return f;
}
FILE *sim_tmpfile(void) {
	Proc *p = P; Inode *i = W->anon("tmpfile", I_REG); i->opens_w++;
	auto of = std::make_shared<OpenFile>(); of->ino = i; of->flags = O_RDWR;
	return mk_stream2(p, fd_new(p, of), true, "tmpfile", false, false, true);
}
int sim_mkstemp(char *t) {
	size_t n = strlen(t); if (n < 6 || strcmp(t + n - 6, "XXXXXX")) { errno = EINVAL; return -1; }
	for (int k = 0;; k++) { memcpy(t + n - 6, fmt("%06d", k).c_str(), 6); if (!W->fs.count(t)) return k_open(P, t, O_RDWR | O_CREAT | O_EXCL); }
}
FILE *sim_fopen64(const char *path, const char *mode) { return sim_fopen(path, mode); }
FILE *sim_fdopen(int fd, const char *mode) {
	bool wr; int fl = parse_mode(mode, wr); Proc *p = P;
	if (fl < 0 || !fd_of(p, fd)) { errno = fl < 0 ? EINVAL : EBADF; return nullptr; }
	return mk_stream(p, fd, wr, p->fds[fd]->ino->name, false, false);
}
int sim_fclose(FILE *f) {
	Proc *p = P; SFile *s = sf_of(p, f);
	if (!s) sim_die(E_CRASHED, 0, "fclose of a stream that is not open");
	int r = fclose(f); int e = errno;
	s->f = nullptr; s->dead = true; free_buf(f); errno = e;
	return r;
}
int sim_fflush(FILE *f) {
	if (f) return fflush(f);
	int r = 0; Proc *p = P;
	for (auto s : p->files) if (s->f && s->wr) r |= fflush(s->f);
	return r;
}
int sim_fileno(FILE *f) { SFile *s = sf_of(P, f); if (!s) { errno = EBADF; return -1; } return s->fd; }
int sim_setvbuf(FILE *f, char *b, int m, size_t n) { if (!P || !sf_of(P, f)) return setvbuf(f, b, m, n); return b || m != _IOFBF ? setvbuf(f, m == _IONBF ? nullptr : b, m, n) : 0; }
void sim_setbuf(FILE *f, char *b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(sim_stdout, f, ap); va_end(ap); return r; }
int sim_vprintf(const char *f, va_list ap) { return vfprintf(sim_stdout, f, ap); }
int sim_puts(const char *s) { return fprintf(sim_stdout, "%s\n", s); }
int sim_putchar(int c) { return fputc(c, sim_stdout); }
int sim_getchar(void) { return fgetc(sim_stdin); }
void sim_perror(const char *s) { int e = errno; fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); }
int sim_open(const char *path, int fl, ...) { return k_open(P, path, fl); }
int sim_open64(const char *path, int fl, ...) { return k_open(P, path, fl); }
int sim_openat(int, const char *path, int fl, ...) { return k_open(P, path, fl); }
int sim_creat(const char *path, mode_t) { return k_open(P, path, O_WRONLY | O_CREAT | O_TRUNC); }
ssize_t sim_read(int fd, void *b, size_t n) { return k_read(P, fd, b, n); }
ssize_t sim_write(int fd, const void *b, size_t n) { return k_write(P, fd, b, n); }
int sim_close(int fd) { return k_close(P, fd); }
ssize_t sim_writev(int fd, const struct iovec *v, int c) { str s; for (int i = 0; i < c; i++) s.append((char *)v[i].iov_base, v[i].iov_len); return k_write(P, fd, s.data(), s.size()); }
off_t sim_lseek(int fd, off_t o, int wh) {
	OpenFile *of = fd_of(P, fd); if (!of) { errno = EBADF; return -1; }
	if (of->ino->type != I_REG) { errno = ESPIPE; return -1; }
	i64 n = wh == SEEK_SET ? o : wh == SEEK_CUR ? (i64)of->off + o : (i64)of->ino->data.size() + o;
	if (n < 0) { errno = EINVAL; return -1; }
	of->off = (u64)n; return n;
}
int sim_fsync(int fd) { Proc *p = P; OpenFile *of = fd_of(p, fd); str t = of ? of->ino->name : NONE; Fault *f = W->hit(p, "fsync", t); if (inj(p, f, "fsync", t)) { if (of) of->ino->wfail = true; return -1; } if (of && of->ino->keep_wlog) of->ino->wlog.push_back({0, 0, 2, ""}); if (of && of->ino->type == I_PIPE) { errno = EINVAL; return -1; } return of ? 0 : -1; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t n) { OpenFile *of = fd_of(P, fd); if (!of || of->ino->type != I_REG) { errno = EINVAL; return -1; } of->ino->data.resize((size_t)n, 0); of->ino->truncated = true; return 0; }
int sim_unlink(const char *path) { Proc *p = P; Fault *f = W->hit(p, "unlink", path); if (inj(p, f, "unlink", path)) return -1; if (!W->fs.erase(path)) { errno = ENOENT; return -1; } W->unlinked.push_back(path); W->ev(p, "unlink", path, 0); return 0; }
int sim_truncate(const char *path, off_t n) { auto i = W->fs.find(path); if (i == W->fs.end()) { errno = ENOENT; return -1; } if (i->second->type != I_REG) { errno = EINVAL; return -1; } i->second->opens_w++; i->second->data.resize((size_t)n, 0); return 0; }
int sim_remove(const char *path) { return sim_unlink(path); }
int sim_rename(const char *a, const char *b) { Proc *p = P; Fault *f = W->hit(p, "rename", a); if (inj(p, f, "rename", a)) return -1; auto i = W->fs.find(a); if (i == W->fs.end()) { errno = ENOENT; return -1; } Inode *n = i->second; W->fs.erase(i); W->fs[b] = n; W->unlinked.push_back(a); W->ev(p, "rename", a, 0); return 0; }
int sim_access(const char *path, int) { if (!W->fs.count(path)) { errno = ENOENT; return -1; } return 0; }
static int do_stat(Inode *i, struct stat *st) {
	memset(st, 0, sizeof *st);
	st->st_mode = (i->type == I_REG ? S_IFREG : i->type == I_PIPE ? S_IFIFO : S_IFCHR) | 0644; st->st_size = i->type == I_REG ? (off_t)i->data.size() : 0; st->st_blksize = 4096; st->st_nlink = 1; st->st_ino = 1000;
	for (size_t k = 0; k < W->inodes.size(); k++) if (W->inodes[k] == i) st->st_ino = 1000 + k;
	return 0;
}
int sim_stat(const char *path, struct stat *st) { auto i = W->fs.find(path); if (i == W->fs.end()) { errno = ENOENT; return -1; } return do_stat(i->second, st); }
int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
int sim_fstat(int fd, struct stat *st) { OpenFile *of = fd_of(P, fd); if (!of) { errno = EBADF; return -1; } return do_stat(of->ino, st); }
int sim_dup(int fd) { Proc *p = P; if (!fd_of(p, fd)) { errno = EBADF; return -1; } auto of = p->fds[fd]; return fd_new(p, of); }
int sim_fcntl(int, int, ...) { return 0; }
int sim_isatty(int fd) {
	Proc *p = P; OpenFile *of = fd_of(p, fd);
	W->hit(p, "isatty", of ? of->ino->name : NONE);
	if (of && of->ino->type == I_TTY) return 1;
	errno = of ? ENOTTY : EBADF; return 0;
}
int sim_tcgetattr(int fd, struct termios *t) {
	Proc *p = P; OpenFile *of = fd_of(p, fd); str tg = of ? of->ino->name : NONE;
	Fault *f = W->hit(p, "tcgetattr", tg);
	if (inj(p, f, "tcgetattr", tg)) return -1;
	if (!of || of->ino->type != I_TTY) { errno = ENOTTY; return -1; }
	*t = of->ino->tio; W->ev(p, "tcgetattr", tg, (i64)t->c_lflag); return 0;
}
int sim_tcsetattr(int fd, int act, const struct termios *t) {
	Proc *p = P; OpenFile *of = fd_of(p, fd); str tg = of ? of->ino->name : NONE;
	Fault *f = W->hit(p, "tcsetattr", tg);
	if (inj(p, f, "tcsetattr", tg)) return -1;
	if (!of || of->ino->type != I_TTY) { errno = ENOTTY; return -1; }
	of->ino->tio = *t;
	if (act == TCSAFLUSH) of->ino->flushes++;
	W->ev(p, "tcsetattr", tg, (i64)t->c_lflag, act); return 0;
}

// ---------------------------------------------------------------- signals
int sim_sigaction(int sig, const struct sigaction *a, struct sigaction *o) {
	Proc *p = P;
	Fault *f = W->hit(p, "sigaction", NONE);
	if (inj(p, f, "sigaction", NONE)) return -1;
	if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { errno = EINVAL; return -1; }
	if (o) *o = p->sa[sig];
	if (a) p->sa[sig] = *a;
	W->ev(p, "sigaction", NONE, sig, !a ? -1 : a->sa_handler == SIG_DFL ? 0 : a->sa_handler == SIG_IGN ? 1 : 2);
	return 0;
}
typedef void (*sh_t)(int);
sh_t sim_signal(int sig, sh_t h) { struct sigaction a, o; memset(&a, 0, sizeof a); a.sa_handler = h; a.sa_flags = SA_RESTART; if (sim_sigaction(sig, &a, &o)) return SIG_ERR; return o.sa_handler; }
int sim_raise(int sig) { Proc *p = P; W->hit(p, "raise", NONE); W->ev(p, "raise", NONE, sig); deliver(p, sig); return 0; }
int sim_kill(pid_t pid, int sig) { Proc *p = P; W->hit(p, "raise", NONE); if (pid != 1000 + p->id && sig) p->group_sig = true; if (pid == 1000 + p->id || pid == 0 || pid == -1 || pid < -1) deliver(p, sig); return 0; }
int sim_killpg(pid_t g, int sig) { return sim_kill(g ? -g : 0, sig); }
int sim_flock(int, int) { return 0; }
int sim_lockf(int, int, off_t) { return 0; }
pid_t sim_getpid(void) { return 1000 + P->id; }
int sim_sigprocmask(int how, const sigset_t *s, sigset_t *o) {
	Proc *p = P; W->hit(p, "sigprocmask", NONE);
	u64 m = 0; if (o) { sigemptyset(o); for (int i = 1; i < 64; i++) if (p->sigmask >> i & 1) sigaddset(o, i); }
	if (!s) return 0;
	for (int i = 1; i < 64; i++) if (sigismember(s, i)) m |= 1ull << i;
	p->sigmask = how == SIG_BLOCK ? p->sigmask | m : how == SIG_UNBLOCK ? p->sigmask & ~m : m;
	for (int i = 1; i < 64; i++) if ((p->pending >> i & 1) && !(p->sigmask >> i & 1)) { p->pending &= ~(1ull << i); deliver(p, i); }
	return 0;
}
int sim_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return sim_sigprocmask(how, s, o); }

// ---------------------------------------------------------------- threads' locks
static std::set<void *> &locks() { static std::set<void *> s; return s; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { void *k = m; sim_yield(); while (locks().count(k)) sim_block([k]() { return !locks().count(k); }); locks().insert(k); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { sim_yield(); return locks().insert(m).second ? 0 : EBUSY; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { locks().erase(m); sim_yield(); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { void *k = o; sim_yield(); while (locks().count(k)) sim_block([k]() { return !locks().count(k); }); if (*(int *)o != 2) { locks().insert(k); f(); *(int *)o = 2; locks().erase(k); } return 0; }

// ---------------------------------------------------------------- time
static i64 qt(i64 t) { World *w = W; return w->tick > 1 ? t / w->tick * w->tick : t; }
int sim_clock_gettime(clockid_t c, struct timespec *t) {
	Proc *p = P; World *w = W;
	const char *k = c == CLOCK_MONOTONIC ? "clock_mono" : c == CLOCK_PROCESS_CPUTIME_ID ? "clock_cpu" : "clock_real";
	Fault *f = w->hit(p, k, NONE);
	if (inj(p, f, k, NONE)) return -1;
	int e = c == CLOCK_MONOTONIC ? w->clk_mono_err : c == CLOCK_PROCESS_CPUTIME_ID ? w->clk_cpu_err : c == CLOCK_REALTIME ? w->clk_real_err : 0;
	if (e) { w->fired[fmt("clock-unavailable:%s", k)]++; errno = e; return -1; }
	// the three clocks have unrelated origins; only the wall clock can be set
	i64 n = qt(w->now) + (c == CLOCK_REALTIME ? 1700000000000000000ll + w->rt_off : c == CLOCK_PROCESS_CPUTIME_ID ? -999990000000ll : 0);
	t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
	w->ev(p, k, NONE, n);
	sim_yield();
	return 0;
}
int sim_clock_getres(clockid_t c, struct timespec *t) {
	Proc *p = P; World *w = W;
	Fault *f = w->hit(p, "clock_getres", NONE);
	if (inj(p, f, "clock_getres", NONE)) return -1;
	int e = c == CLOCK_MONOTONIC ? w->clk_mono_err : c == CLOCK_PROCESS_CPUTIME_ID ? w->clk_cpu_err : c == CLOCK_REALTIME ? w->clk_real_err : 0;
	if (e) { errno = e; return -1; }
	i64 r = w->res_report >= 0 ? w->res_report : w->tick;
	t->tv_sec = r / 1000000000; t->tv_nsec = r % 1000000000;
	w->ev(p, "clock_getres", NONE, r);
	return 0;
}
int sim_gettimeofday(struct timeval *t, void *) { struct timespec s; if (sim_clock_gettime(CLOCK_REALTIME, &s)) return -1; t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t sim_time(time_t *o) { struct timespec s; if (sim_clock_gettime(CLOCK_REALTIME, &s)) return -1; if (o) *o = s.tv_sec; return s.tv_sec; }
clock_t sim_clock(void) { struct timespec s; if (sim_clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s)) return -1; return s.tv_sec * 1000000 + s.tv_nsec / 1000; }
int sim_nanosleep(const struct timespec *a, struct timespec *) { W->hit(P, "sleep", NONE); W->now += a->tv_sec * 1000000000ll + a->tv_nsec; return 0; }
unsigned sim_sleep(unsigned s) { W->hit(P, "sleep", NONE); W->now += s * 1000000000ll; return 0; }
int sim_usleep(unsigned u) { W->hit(P, "sleep", NONE); W->now += u * 1000ll; return 0; }

// ---------------------------------------------------------------- resources
int sim_getrlimit(__rlimit_resource_t r, struct rlimit *l) {
	Proc *p = P; Fault *f = W->hit(p, "getrlimit", NONE);
	if (inj(p, f, "getrlimit", NONE)) return -1;
	u64 v = r == RLIMIT_AS ? W->rl_as : r == RLIMIT_RSS ? W->rl_rss : r == RLIMIT_DATA ? W->rl_data : RLIM_INFINITY;
	l->rlim_cur = v; l->rlim_max = RLIM_INFINITY;
	W->ev(p, "getrlimit", NONE, r, (i64)v);
	return 0;
}
int sim_getrlimit64(__rlimit_resource_t r, struct rlimit *l) { return sim_getrlimit(r, l); }
int sim_setrlimit(__rlimit_resource_t, const struct rlimit *) { return 0; }
int sim_sysinfo(struct sysinfo *s) {
	Proc *p = P; Fault *f = W->hit(p, "sysinfo", NONE);
	if (inj(p, f, "sysinfo", NONE)) return -1;
	memset(s, 0, sizeof *s); s->totalram = W->totalram / W->mem_unit; s->mem_unit = W->mem_unit; s->freeram = s->totalram / 3;
	W->ev(p, "sysinfo", NONE, (i64)W->totalram);
	return 0;
}
long sim_sysconf(int n) {
	Proc *p = P; Fault *f = W->hit(p, "sysconf", NONE);
	if (inj(p, f, "sysconf", NONE)) return -1;
	W->ev(p, "sysconf", NONE, n);
	if (n == _SC_PAGESIZE) return W->pagesize;
	if (n == _SC_PHYS_PAGES || n == _SC_AVPHYS_PAGES) { if (W->sysconf_mode == 1) return -1; if (W->sysconf_mode == 2) { errno = EINVAL; return -1; } return W->physpages; }
	return sysconf(n);
}
int sim_getpagesize(void) { return (int)W->pagesize; }

// ---------------------------------------------------------------- randomness
ssize_t sim_getrandom(void *b, size_t n, unsigned) {
	Proc *p = P; Fault *f = W->hit(p, "read", "urandom");
	if (inj(p, f, "read", "urandom")) return -1;
	if (f && f->act == A_SHORT && (size_t)f->arg < n) { note_fault(p, "read", "urandom", f); n = (size_t)f->arg; }
	for (size_t i = 0; i < n; i++) { u64 pos = W->urpos + i; ((u8 *)b)[i] = (u8)(mix64(W->urseed, 3, pos / 8) >> (8 * (pos % 8))) ^ (W->urflip >= 0 && (u64)W->urflip / 8 == pos ? (u8)(1 << (W->urflip & 7)) : 0); }
	W->urpos += n; if (W->keep_ur) W->ur_log.append((char *)b, n);
	return (ssize_t)n;
}
int sim_getentropy(void *b, size_t n) { return sim_getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

// ---------------------------------------------------------------- calls the program does not use today
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
	if (!l || !n) { errno = EINVAL; return -1; }
	size_t k = 0; int c;
	do {
		if ((c = fgetc(f)) == EOF) break;
		if (!*l || k + 2 > *n) { size_t m = !*l || *n < 120 ? 120 : *n * 2; char *q = (char *)sim_realloc(*l, m); if (!q) { errno = ENOMEM; return -1; } *l = q; *n = m; }
		(*l)[k++] = (char)c;
	} while (c != d);
	if (c == EOF && (k == 0 || ferror(f))) return -1;
	(*l)[k] = 0; return (ssize_t)k;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
int sim_vasprintf(char **r, const char *f, va_list ap) {
	va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, f, a2); va_end(a2);
	if (n < 0 || !(*r = (char *)sim_malloc((size_t)n + 1))) return -1;
	return vsnprintf(*r, (size_t)n + 1, f, ap);
}
int sim_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(r, f, ap); va_end(ap); return n; }
int sim_vdprintf(int fd, const char *f, va_list ap) { char b[8192]; int n = vsnprintf(b, sizeof b, f, ap); if (n < 0) return -1; if (n > (int)sizeof b - 1) n = sizeof b - 1; for (int i = 0; i < n;) { ssize_t k = k_write(P, fd, b + i, (size_t)(n - i)); if (k <= 0) return -1; i += (int)k; } return n; }
int sim_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vdprintf(fd, f, ap); va_end(ap); return n; }
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { OpenFile *of = fd_of(P, fd); if (of && of->ino->type != I_REG) { errno = ESPIPE; return -1; } u64 k = of ? of->off : 0; if (of) of->off = (u64)o; ssize_t r = k_read(P, fd, b, n); if (of) of->off = k; return r; }
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { OpenFile *of = fd_of(P, fd); if (of && of->ino->type != I_REG) { errno = ESPIPE; return -1; } u64 k = of ? of->off : 0; if (of) of->off = (u64)o; ssize_t r = k_write(P, fd, b, n); if (of) of->off = k; return r; }
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_pwrite(fd, b, n, o); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = k_read(P, fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int sim_dup2(int a, int b) { Proc *p = P; if (!fd_of(p, a) || b < 0 || b > 255) { errno = EBADF; return -1; } if (a == b) return b; if (fd_of(p, b)) k_close(p, b); if ((int)p->fds.size() <= b) p->fds.resize((size_t)b + 1); p->fds[(size_t)b] = p->fds[(size_t)a]; return b; }
int sim_dup3(int a, int b, int) { if (a == b) { errno = EINVAL; return -1; } return sim_dup2(a, b); }
int sim_poll(struct pollfd *f, nfds_t n, int) { sim_yield(); for (nfds_t i = 0; i < n; i++) f[i].revents = f[i].fd < 0 ? 0 : fd_of(P, f[i].fd) ? (short)(f[i].events & (POLLIN | POLLOUT)) : (short)POLLNVAL; return (int)n; }
int sim_tcflush(int fd, int) { OpenFile *of = fd_of(P, fd); if (!of || of->ino->type != I_TTY) { errno = ENOTTY; return -1; } of->ino->flushes++; return 0; }
int sim_tcdrain(int fd) { OpenFile *of = fd_of(P, fd); if (!of || of->ino->type != I_TTY) { errno = ENOTTY; return -1; } return 0; }
char *sim_ttyname(int fd) { OpenFile *of = fd_of(P, fd); if (!of || of->ino->type != I_TTY) { errno = ENOTTY; return nullptr; } return (char *)"/dev/tty"; }
char *sim_ctermid(char *s) { if (s) strcpy(s, "/dev/tty"); return s ? s : (char *)"/dev/tty"; }
pid_t sim_getppid(void) { return 1; }
uid_t sim_getuid(void) { return 1000; }
uid_t sim_geteuid(void) { return 1000; }
gid_t sim_getgid(void) { return 1000; }
gid_t sim_getegid(void) { return 1000; }
mode_t sim_umask(mode_t) { return 022; }
static int meta_path(const char *path, const char *what) { auto i = W->fs.find(path); if (i == W->fs.end()) { errno = ENOENT; return -1; } i->second->meta = what; W->ev(P, what, path, 0); return 0; }
static int meta_fd(int fd, const char *what) { OpenFile *of = fd_of(P, fd); if (!of) { errno = EBADF; return -1; } of->ino->meta = what; W->ev(P, what, of->ino->name, 0); return 0; }
int sim_fchmod(int fd, mode_t) { return meta_fd(fd, "mode"); }
int sim_chmod(const char *path, mode_t) { return meta_path(path, "mode"); }
int sim_fchmodat(int, const char *path, mode_t, int) { return meta_path(path, "mode"); }
int sim_fchown(int fd, uid_t, gid_t) { return meta_fd(fd, "owner"); }
int sim_chown(const char *path, uid_t, gid_t) { return meta_path(path, "owner"); }
int sim_lchown(const char *path, uid_t, gid_t) { return meta_path(path, "owner"); }
int sim_utime(const char *path, const void *) { return meta_path(path, "times"); }
int sim_utimes(const char *path, const void *) { return meta_path(path, "times"); }
int sim_utimensat(int, const char *path, const struct timespec *, int) { return meta_path(path, "times"); }
int sim_futimens(int fd, const struct timespec *) { return meta_fd(fd, "times"); }
int sim_futimes(int fd, const void *) { return meta_fd(fd, "times"); }
int sim_setxattr(const char *path, const char *, const void *, size_t, int) { return meta_path(path, "attributes"); }
int sim_fsetxattr(int fd, const char *, const void *, size_t, int) { return meta_fd(fd, "attributes"); }
static int prealloc(int fd, off_t o, off_t n) {
	OpenFile *of = fd_of(P, fd); if (!of || (of->flags & O_ACCMODE) == O_RDONLY) return EBADF;
	if (of->ino->type != I_REG) return of->ino->type == I_PIPE ? ESPIPE : ENODEV;
	if (o < 0 || n <= 0) return EINVAL;
	if ((u64)(o + n) > of->ino->cap) return of->ino->full_errno;
	if (of->ino->data.size() < (u64)(o + n)) of->ino->data.resize((size_t)(o + n), 0);
	return 0;
}
int sim_posix_fallocate(int fd, off_t o, off_t n) { return prealloc(fd, o, n); }
int sim_fallocate(int fd, int mode, off_t o, off_t n) { if (mode & 1) return 0; int e = prealloc(fd, o, n); if (e) { errno = e; return -1; } return 0; }
static int mk_path(const char *path) { if (W->fs.count(path)) { errno = EEXIST; return -1; } W->fs[path] = W->anon(path, I_REG); W->ev(P, "mknod", path, 0); return 0; }
int sim_mkdir(const char *path, mode_t) { return mk_path(path); }
int sim_mkfifo(const char *path, mode_t) { return mk_path(path); }
int sim_mknod(const char *path, mode_t, dev_t) { return mk_path(path); }
int sim_rmdir(const char *path) { errno = W->fs.count(path) ? ENOTDIR : ENOENT; return -1; }
int sim_chdir(const char *) { errno = EPERM; return -1; }
int sim_posix_fadvise(int fd, off_t, off_t, int) { return fd_of(P, fd) ? 0 : EBADF; }
int sim_link(const char *a, const char *b) { auto i = W->fs.find(a); if (i == W->fs.end()) { errno = ENOENT; return -1; } if (W->fs.count(b)) { errno = EEXIST; return -1; } W->fs[b] = i->second; return 0; }
int sim_symlink(const char *, const char *) { errno = EPERM; return -1; }
int sim_sched_yield(void) { sim_yield(); return 0; }
unsigned sim_alarm(unsigned) { return 0; }
int sim_setenv(const char *n, const char *v, int o) { Proc *p = P; if (o || !p->env.count(n)) p->env[n] = v; return 0; }
int sim_unsetenv(const char *n) { P->env.erase(n); return 0; }
static u64 prand(Proc *p) { return p->prng = mix64(p->prng, 0x5bd1e995, 7); }   // as little random as rand(): the same in every process
void sim_srand(unsigned s) { P->prng = s; }
int sim_rand(void) { return (int)(prand(P) & 0x7fffffff); }
void sim_srandom(unsigned s) { P->prng = s; }
long sim_random(void) { return (long)(prand(P) & 0x7fffffff); }
void sim_srand48(long s) { P->prng = (u64)s; }
double sim_drand48(void) { return (double)(prand(P) >> 11) / 9007199254740992.0; }
long sim_lrand48(void) { return (long)(prand(P) & 0x7fffffff); }
int sim_rand_r(unsigned *s) { return (int)((*s = *s * 1103515245u + 12345u) & 0x7fffffff); }
void sim_arc4random_buf(void *b, size_t n) { u8 *q = (u8 *)b; while (n) { ssize_t r = sim_getrandom(q, n, 0); if (r <= 0) sim_die(E_ABORT, 0, "arc4random"); q += r; n -= (size_t)r; } }
uint32_t sim_arc4random(void) { uint32_t v; sim_arc4random_buf(&v, 4); return v; }
uint32_t sim_arc4random_uniform(uint32_t m) { return m < 2 ? 0 : sim_arc4random() % m; }
static void vsay(bool sys, const char *f, va_list ap) { int e = errno; fprintf(sim_stderr, "scrypt: "); if (f) vfprintf(sim_stderr, f, ap); if (sys) fprintf(sim_stderr, "%s%s", f ? ": " : "", strerror(e)); fprintf(sim_stderr, "\n"); }
void sim_warn(const char *f, ...) { va_list ap; va_start(ap, f); vsay(true, f, ap); va_end(ap); }
void sim_warnx(const char *f, ...) { va_list ap; va_start(ap, f); vsay(false, f, ap); va_end(ap); }
[[noreturn]] void sim_err(int c, const char *f, ...) { va_list ap; va_start(ap, f); vsay(true, f, ap); va_end(ap); proc_exit(c); abort(); }
[[noreturn]] void sim_errx(int c, const char *f, ...) { va_list ap; va_start(ap, f); vsay(false, f, ap); va_end(ap); proc_exit(c); abort(); }

// ---------------------------------------------------------------- process
char *sim_getenv(const char *n) { Proc *p = P; W->hit(p, "getenv", NONE); auto i = p->env.find(n); return i == p->env.end() ? nullptr : (char *)i->second.c_str(); }
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
[[noreturn]] void sim_exit(int c) { proc_exit(c); abort(); }
[[noreturn]] void sim__exit(int c) { sim_die(E_EXIT, c & 255, ""); }
[[noreturn]] void sim__Exit(int c) { sim_die(E_EXIT, c & 255, ""); }
[[noreturn]] void sim_abort(void) { sim_die(E_ABORT, 6, "abort()"); }
[[noreturn]] void sim___assert_fail(const char *e, const char *, unsigned, const char *fn) { sim_die(E_ASSERT, 6, str(e) + " in " + (fn ? fn : "?")); }
[[noreturn]] void sim___stack_chk_fail(void) { sim_die(E_CRASHED, 6, "stack smashing detected"); }
int sim_atexit(void (*f)(void)) { Proc *p = P; W->hit(p, "atexit", NONE); p->atexits.push_back(f); return 0; }
void sim_syslog(int, const char *, ...) {}
void sim_vsyslog(int, const char *, va_list) {}
void sim_openlog(const char *, int, int) {}
void sim_closelog(void) {}
pid_t sim_fork(void) { errno = ENOSYS; return -1; }
int sim_system(const char *) { errno = ENOSYS; return -1; }
FILE *sim_popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
}

// ---------------------------------------------------------------- crypto seams
static void add_forbid_dk(World *w, const str &dk) {
	for (int i = 0; i < 64; i += 16) { str k = dk.substr((size_t)i, 16); w->forbid.push_back(k); str h = hex(k); w->forbid.push_back(h); for (auto &c : h) c = (char)toupper(c); w->forbid.push_back(h); }
}
extern "C" {
int crypto_scrypt(const u8 *, size_t, const u8 *, size_t, u64, u32, u32, u8 *, size_t);
int sim_crypto_scrypt(const u8 *pw, size_t pl, const u8 *salt, size_t sl, u64 N, u32 r, u32 p, u8 *buf, size_t bl) {
	World *w = W; Proc *pr = P;
	double cores = 4.0 * (double)N * r * p;
	bool bench = bl == 0;
	w->hit(pr, "kdf", NONE);
	if (!bench) { pr->derivs++; if (N > pr->max_N) pr->max_N = N; w->ev(pr, "kdf", NONE, (i64)N, (i64)((u64)r << 32 | p)); }
	int rc;
	bool big = 128.0 * (double)N * r > 32e6 || cores > w->kdf_big || 128.0 * r * p > 32e6;
	if (w->kdf_mode == 2 && bench) rc = 0;
	else if (w->kdf_mode && (big || w->kdf_mode == 2)) {
		str d = ref::stub_dk(str((const char *)pw, pl), str((const char *)salt, sl), N, r, p, bl);
		memcpy(buf, d.data(), bl); rc = 0;
	} else rc = crypto_scrypt(pw, pl, salt, sl, N, r, p, buf, bl);
	double ns = cores / w->cores_per_s * 1e9;
	w->now += ns > 4e18 ? (i64)4e18 : ns < 1 ? 1 : (i64)ns;
	if (w->now < 0) w->now = 1ll << 62;
	if (rc == 0 && bl == 64) {
		str dk((char *)buf, 64); pr->dks.push_back(dk);
		if (w->forbid_dk) add_forbid_dk(w, dk);
		if (w->on_dk) w->on_dk(pr, str((const char *)pw, pl), dk);
	}
	w->ev(pr, "kdf-done", NONE, rc, bench ? 0 : (i64)bl);
	return rc;
}

// The simulated processor.  Bits that the code has no business with are noise.
static u64 g_asked;
static bool host_has(int bit) {
	switch (bit) {
	case 0: return __builtin_cpu_supports("aes");
	case 1: { unsigned a, b, c, d; return __get_cpuid(1, &a, &b, &c, &d) && (c >> 30 & 1); }
	case 2: { unsigned a, b, c, d; return __get_cpuid_count(7, 0, &a, &b, &c, &d) && (b >> 29 & 1); }
	case 3: return __builtin_cpu_supports("sse2");
	default: return __builtin_cpu_supports("ssse3");
	}
}
static bool cpu_has(int bit) { static int h[5] = {-1, -1, -1, -1, -1}; if (h[bit] < 0) h[bit] = host_has(bit); return h[bit] && (!P || !W || (W->cpu_mask >> bit & 1)); }
static u32 cpu_noise(unsigned leaf, unsigned sub, int reg) { i64 n = P && W ? W->plan->get("cpu_noise") : 0; return n == 0 ? ~0u : n == 1 ? 0 : (u32)mix64((u64)n, leaf * 77 + sub, (u64)reg); }
static unsigned cpu_max() {
	unsigned m = P && W ? (unsigned)W->plan->get("cpu_max", 0x16) : 0x16; unsigned need = cpu_has(2) ? 7 : 1;
	if (!cpu_has(0) && !cpu_has(1) && !cpu_has(2) && !cpu_has(3) && !cpu_has(4)) need = 0;
	return m < need ? need : m;
}
void sim_seam_cpuid(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
	g_asked++;
	unsigned mx = cpu_max();
	if (leaf < 0x80000000u && leaf > mx) leaf = mx; // as Intel's do
	*a = cpu_noise(leaf, sub, 0); *b = cpu_noise(leaf, sub, 1); *c = cpu_noise(leaf, sub, 2); *d = cpu_noise(leaf, sub, 3);
	auto put = [](unsigned *r, int n, bool v) { *r = v ? *r | 1u << n : *r & ~(1u << n); };
	if (leaf == 0) { *a = mx; *b = 0x756e6547; *d = 0x49656e69; *c = 0x6c65746e; }
	if (leaf == 1) { put(c, 25, cpu_has(0)); put(c, 30, cpu_has(1)); put(d, 26, cpu_has(3)); put(c, 9, cpu_has(4)); }
	if (leaf == 7 && sub == 0) { *a = 0; put(b, 29, cpu_has(2)); }
	if (leaf == 0x80000000u) *a = 0x80000008u;
}
unsigned sim_seam_get_cpuid_max(unsigned ext, unsigned *sig) { g_asked++; unsigned a, b, c, d; sim_seam_cpuid(ext & 0x80000000u, 0, &a, &b, &c, &d); if (sig) *sig = b; return a; }
int sim_seam_get_cpuid_count(unsigned leaf, unsigned sub, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
	unsigned m = sim_seam_get_cpuid_max(leaf & 0x80000000u, nullptr);
	if (m == 0 && leaf) return 0;
	if (m < leaf) return 0;
	sim_seam_cpuid(leaf, sub, a, b, c, d); return 1;
}
int sim_seam_get_cpuid(unsigned leaf, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { return sim_seam_get_cpuid_count(leaf, 0, a, b, c, d); }
int sim_seam_cpu_supports(const char *n) {
	g_asked++;
	static const struct { const char *n; int b; } t[] = {{"aes", 0}, {"rdrnd", 1}, {"sha", 2}, {"sse2", 3}, {"ssse3", 4}};
	for (auto &x : t) if (!strcmp(n, x.n)) return cpu_has(x.b);
	return 0;
}
#define DETECT(name, bit) \
	int cpusupport_x86_##name##_detect_1(void) __attribute__((weak)); \
	int sim_cpusupport_x86_##name##_detect_1(void) { \
		u64 asked = g_asked; \
		if (P) W->hit(P, "cpuid", NONE); \
		int v = cpusupport_x86_##name##_detect_1 ? cpusupport_x86_##name##_detect_1() : 0; \
		return g_asked != asked ? v : v && cpu_has(bit); } // asked in a way that is not simulated
DETECT(aesni, 0)
DETECT(rdrand, 1)
DETECT(shani, 2)
DETECT(sse2, 3)
DETECT(ssse3, 4)

// Broken hardware: an accelerated routine computes wrong values from the start.
static int bpos() { return (int)W->plan->get("broken_pos"); }
static bool broken(int bit) { return W && (W->broken_mask >> bit & 1); }
static void note_broken(const char *n) { W->fired[str("broken:") + n]++; }
// A processor without the feature does not execute the instruction.
static void needs(std::initializer_list<int> bits, const char *what) { if (P && W) for (int b : bits) if (!(W->cpu_mask >> b & 1)) sim_die(E_CRASHED, SIGILL, str("illegal instruction in ") + what); }
void SHA256_Transform_shani(u32 *, const u8 *) __attribute__((weak));
void sim_SHA256_Transform_shani(u32 *st, const u8 *b) { needs({2, 4}, "SHA256_Transform_shani"); SHA256_Transform_shani(st, b); if (broken(2)) { st[bpos() & 7] ^= 1u << (bpos() >> 3 & 31); note_broken("shani"); } }
void SHA256_Transform_sse2(u32 *, const u8 *, u32 *, u32 *) __attribute__((weak));
void sim_SHA256_Transform_sse2(u32 *st, const u8 *b, u32 *w, u32 *s) { needs({3}, "SHA256_Transform_sse2"); SHA256_Transform_sse2(st, b, w, s); if (broken(3)) { st[bpos() & 7] ^= 1u << (bpos() >> 3 & 31); note_broken("sse2-sha"); } }
void crypto_scrypt_smix_sse2(u8 *, size_t, u64, void *, void *) __attribute__((weak));
void sim_crypto_scrypt_smix_sse2(u8 *B, size_t r, u64 N, void *V, void *XY) { needs({3}, "crypto_scrypt_smix_sse2"); crypto_scrypt_smix_sse2(B, r, N, V, XY); if (broken(3)) { B[(size_t)bpos() % (128 * r)] ^= 4; note_broken("sse2-smix"); } }
void *crypto_aes_key_expand_aesni(const u8 *, size_t) __attribute__((weak));
static std::map<const void *, size_t> g_klen;
void *sim_crypto_aes_key_expand_aesni(const u8 *k, size_t n) { needs({0}, "crypto_aes_key_expand_aesni"); void *r = crypto_aes_key_expand_aesni(k, n); if (r) g_klen[r] = n; return r; }
// broken_len 0: every key length; 16 or 32: only that one
static bool aes_bad(const void *k) { i64 l = W->plan->get("broken_len"); return l == 0 || (g_klen.count(k) && (i64)g_klen[k] == l); }
void crypto_aes_encrypt_block_aesni(const u8 *, u8 *, const void *) __attribute__((weak));
void sim_crypto_aes_encrypt_block_aesni(const u8 *in, u8 *out, const void *k) { needs({0}, "crypto_aes_encrypt_block_aesni"); crypto_aes_encrypt_block_aesni(in, out, k); if (broken(0) && aes_bad(k)) { out[bpos() & 15] ^= 0x20; note_broken("aesni"); } }
void crypto_aesctr_aesni_stream(void *, const u8 *, u8 *, size_t) __attribute__((weak));
void sim_crypto_aesctr_aesni_stream(void *s, const u8 *in, u8 *out, size_t n) { needs({0}, "crypto_aesctr_aesni_stream"); crypto_aesctr_aesni_stream(s, in, out, n); if (broken(0) && n) { out[(size_t)bpos() % n] ^= 0x10; note_broken("aesni-ctr"); } }
int generate_seed_rdrand(unsigned int *, size_t) __attribute__((weak));
struct Rd { bool in = false; i64 fail_at = -1, times = 0; i64 steps = 0; };
static Rd g_rd;
int sim_seam_rdrand(void *v, int n) {
	World *w = W; Proc *p = P;
	if (!p) { memset(v, 0x5a, (size_t)n); return 1; }
	needs({1}, "rdrand");
	if (++w->steps > w->max_steps) sim_give_up("no progress: the random number instruction is repeated for ever");
	i64 i = g_rd.steps++;
	if (g_rd.in && g_rd.fail_at >= 0 && i >= g_rd.fail_at && (g_rd.times < 0 || i < g_rd.fail_at + g_rd.times)) { memset(v, 0, (size_t)n); return 0; }
	u64 x = mix64(w->rdseed, 9, w->rdpos++); memcpy(v, &x, (size_t)n);
	return 1;
}
int sim_generate_seed_rdrand(unsigned int *b, size_t n) { needs({1}, "generate_seed_rdrand");
	Proc *p = P; World *w = W;
	Fault *f = w->hit(p, "rdrand", NONE);
	bool fail = (f && f->act == A_ERR) || w->rdrand_mode;
	if (fail) { if (f) note_fault(p, "rdrand", NONE, f); else w->fired["rdrand:fails"]++; }
	// the instruction fails from some step on: persistently, or once
	g_rd = {true, fail ? (i64)(mix64(w->rdseed, 10, w->rdpos) % (n ? n : 1)) : -1, f && f->act == A_ERR && f->count >= 0 ? 1 : -1, 0};
	for (size_t i = 0; i < n; i++) b[i] = 0x5a5aa5a5u;
	int r = generate_seed_rdrand(b, n);
	if (r == 0 && g_rd.steps > 0 && w->rd_bad.empty()) {
		for (size_t i = 0; i < n; i++) if (b[i] == 0x5a5aa5a5u) w->rd_bad = fmt("word %zu of the CPU's randomness is reported as delivered but was never filled in", i);
		if (g_rd.fail_at >= 0 && g_rd.times < 0 && g_rd.steps > g_rd.fail_at) w->rd_bad = "the CPU's generator is reported as successful although the instruction failed";
	}
	bool used = g_rd.steps > 0; g_rd = Rd();
	if (!used) { // drawn in a way that is not simulated
		if (fail) return 1;
		for (size_t i = 0; i < n; i++) b[i] = (u32)mix64(w->rdseed, 9, w->rdpos++);
		r = 0;
	}
	if (r == 0) w->rd_log.push_back(str((char *)b, 4 * n));
	return r;
}
typedef struct aes_key_st AES_KEY;
static const void *fast_for; static __m128i fast_rk[15];
static void fast_key(const u8 *k, int bits, const void *o, int rc) {
	if (fast_for == o) fast_for = nullptr;
	if (!P || !W || rc || bits != 256 || !W->plan->get("long_run") || !__builtin_cpu_supports("aes")) return;
	str s = ref::aes_schedule(str((const char *)k, 32)); memcpy(fast_rk, s.data(), 240); fast_for = o;
}
__attribute__((target("aes,sse2"))) static void fast_block(const u8 *in, u8 *out) {
	__m128i x = _mm_xor_si128(_mm_loadu_si128((const __m128i *)in), fast_rk[0]);
	for (int i = 1; i < 14; i++) x = _mm_aesenc_si128(x, fast_rk[i]);
	_mm_storeu_si128((__m128i *)out, _mm_aesenclast_si128(x, fast_rk[14]));
}
int AES_set_encrypt_key(const unsigned char *, int, AES_KEY *);
int sim_AES_set_encrypt_key(const unsigned char *k, int bits, AES_KEY *o) {
	Proc *p = P; if (p) { Fault *f = W->hit(p, "aes_setkey", NONE); if (f && f->act == A_ERR) { note_fault(p, "aes_setkey", NONE, f); return -1; } }
	int rc = AES_set_encrypt_key(k, bits, o);
	fast_key(k, bits, o, rc);
	return rc;
}
// libcrypto's portable AES is slow; very long streams use the machine's instructions in its place
void AES_encrypt(const unsigned char *, unsigned char *, const AES_KEY *);
void sim_AES_encrypt(const unsigned char *in, unsigned char *out, const AES_KEY *k) { if (k == fast_for && k) fast_block(in, out); else AES_encrypt(in, out, k); }
}
