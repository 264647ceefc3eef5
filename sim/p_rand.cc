// C08: randomness.
#include "cli.h"
#include "api.h"
#include <cerrno>

// kind 0: a long-lived caller of crypto_entropy_read; kind 1: the command; kind 2: repeated encryptions in one process
static void add_ur_fault(Rng &g, Plan &pl, i64 maxops) {
	Fault f; f.target = "urandom";
	f.nth = g.chance(50) ? (i64)g.below(3) : (i64)g.below((u64)maxops);
	switch (g.below(6)) {
	case 0: f.kind = "open"; f.arg = g.pick(std::vector<i64>{ENOENT, EMFILE, ENFILE, EACCES, EINTR}); break;
	case 1: case 2: f.kind = "read"; f.arg = g.pick(std::vector<i64>{EIO, EINTR, EAGAIN, EFAULT}); f.nth = f.nth * 2 / 3; break;
	case 3: f.kind = "read"; f.act = A_EOF; break;
	case 4: f.kind = "read"; f.act = A_SHORT; f.arg = g.range(1, 47); f.count = g.range(1, 60); break;
	default: f.kind = "close"; f.arg = g.pick(std::vector<i64>{EIO, EINTR}); if (f.arg == EINTR && f.count < 0) f.count = 2; break;
	}
	if (f.act != A_SHORT && f.kind != "close") f.count = g.chance(20) ? -1 : g.chance(30) ? g.range(2, 4) : 1;
	if (pl.get("sub") == 0 && f.count < 0) f.count = 3;
	pl.faults.push_back(f);
}
static void gen08(Rng &g, Plan &pl) {
	int sub = g.chance(65) ? 0 : g.chance(75) ? 1 : 2;
	pl.set("sub", sub); if (g.chance(30)) pl.set("stale", g.range(1, 1 << 20));
	pl.set("urseed", g.range(1, 1 << 20), 1);
	pl.set("rdrand_fail", g.chance(20));
	if (g.chance(50)) gen_cpu(g, pl);
	if (g.chance(40)) { pl.set("chunk", g.range(1, 4)); pl.set("chunk_seed", g.range(1, 1 << 20)); pl.set("chunk_max", g.range(1, 40), 4096); }
	if (sub == 0) {
		int n = g.chance(60) ? (int)g.range(250, 800) : (int)g.range(1, 40);
		pl.set("nreq", n); pl.set("reqseed", g.range(1, 1 << 20));
		pl.set("sizes", g.range(0, 3));
		int nf = g.chance(35) ? 0 : (int)g.range(1, 4);
		for (int i = 0; i < nf; i++) add_ur_fault(g, pl, 8);
		if (g.chance(15)) { Fault f; f.kind = "rdrand"; f.target = "-"; f.nth = g.range(0, 3); f.arg = EIO; f.count = g.chance(50) ? -1 : 1; pl.faults.push_back(f); }
		if (pl.get("idx") == 5 && !g_asan) { pl.set("huge", (256 << 16) + 100000); pl.set("nreq", 3); }
		if (g.chance(10)) { Fault f; f.kind = "alloc"; f.target = "-"; f.nth = g.range(0, 3); f.arg = ENOMEM; pl.faults.push_back(f); }
	} else {
		pl.set("isize", g.range(0, 200)); pl.set("data_seed", g.range(1, 1000));
		pl.set("flip", (i64)g.below(48 * 8));
		pl.set("nenc", sub == 2 ? g.range(2, 6) : 1);
		if (g.chance(50)) add_ur_fault(g, pl, 2);
	}
}
static void exec08(const Plan &pl, Result &r) {
	r.sample = describe(pl);
	if (pl.get("sub") == 0) {
		World w(pl); w.keep_log = pl.get("_log"); w.keep_ur = true;
		struct Req { size_t n; int rc; str out; size_t ur0, ur1, rd0, rd1; int opens; bool fault; };
		std::vector<Req> q;
		int nreq = (int)pl.get("nreq", 1); Rng g((u64)pl.get("reqseed", 1)); int sz = (int)pl.get("sizes");
		for (int i = 0; i < nreq; i++) {
			size_t n;
			switch (sz) { case 0: n = 32; break; case 1: n = g.below(100); break; case 2: n = (size_t)g.pick(std::vector<i64>{0, 1, 31, 32, 33, 64, 100, 255}); break; default: n = g.chance(97) ? g.below(64) : (size_t)g.pick(std::vector<i64>{65535, 65536, 65537, 70000, 131072, 140000}); }
			q.push_back({n, 0, "", 0, 0, 0, 0, 0, false});
		}
		if (pl.get("huge")) q.push_back({(size_t)pl.get("huge"), 0, "", 0, 0, 0, 0, 0, false});
		w.max_steps = 5000000;
		int opens = 0;
		w.on_call = [&](Proc *, const char *k) { if (!strcmp(k, "open")) opens++; };
		Proc *p = w.spawn_fn("user", [&]() {
			for (auto &x : q) {
				x.out.assign(x.n + 16, '\xa5'); x.ur0 = w.ur_log.size(); x.rd0 = w.rd_log.size(); int nf = w.nfired; int o0 = opens;
				if (pl.get("stale")) errno = stale_errno(pl.get("stale"), x.ur0 + x.n);
				x.rc = api_entropy_read((u8 *)&x.out[0], x.n);
				x.ur1 = w.ur_log.size(); x.rd1 = w.rd_log.size(); x.fault = w.nfired != nf; x.opens = opens - o0;
			}
			return 0;
		});
		w.run(); finish_result(w, r);
		if (!clean_end(w, r)) return;
		if (!p->ok()) { r.fail("death", p->status()); return; }
		if (!w.rd_bad.empty()) { r.fail("hardware", w.rd_bad); return; }
		ref::Drbg d; size_t reseeds = 0, failures = 0; bool after = false;
		for (size_t i = 0; i < q.size(); i++) {
			auto &x = q[i]; size_t ur = x.ur0, rd = x.rd0;
			str tailb = x.out.substr(x.n); if (tailb != str(16, '\xa5')) { r.fail("overrun", fmt("request %zu wrote beyond its buffer", i)); return; }
			str o = x.out.substr(0, x.n), want;
			int ops = 0; bool failed = false;
			// a seed operation completes if its bytes were delivered and, in a failed request, it was not the last one attempted
			auto seed = [&](size_t n, bool inst) {
				ops++;
				if (x.rc != 0 && ops >= x.opens) { failed = true; return; }
				if (ur + n > x.ur1) { r.fail("underseeded", fmt("request %zu was served although only %zu of the %zu bytes of randomness it needed had been delivered", i, x.ur1 - ur, n)); failed = true; return; }
				str s = w.ur_log.substr(ur, n); ur += n;
				if (inst) d.instantiate(s); else d.reseed(s), reseeds++;
				if (rd < x.rd1) d.update(w.rd_log[rd++]);
			};
			if (!d.inst) { seed(48, true); if (r.bad) return; }
			size_t left = x.n;
			while (!failed && left) {
				if (d.ctr > 256) { seed(32, false); if (r.bad) return; if (failed) break; }
				size_t k = left > 65536 ? 65536 : left;
				want += d.gen(k); left -= k;
			}
			if (x.rc == 0) {
				if (want != o) { size_t j = 0; while (j < o.size() && want[j] == o[j]) j++; r.fail("stream", fmt("request %zu (%zu bytes): output differs from HMAC_DRBG at byte %zu (after %zu reseeds, %zu failures)", i, x.n, j, reseeds, failures)); return; }
				if (ur != x.ur1 && !x.fault) { r.fail("seeding", fmt("request %zu consumed %zu bytes of randomness instead of %zu", i, x.ur1 - x.ur0, ur - x.ur0)); return; }
				if (failures) after = true;
			} else {
				failures++;
				if (!x.fault) { r.fail("spurious", fmt("request %zu failed although nothing went wrong", i)); return; }
				if (!failed) { r.fail("spurious", fmt("request %zu failed although it needed no new randomness", i)); return; }
				// nothing after what was legitimately generated may have been delivered... as random data
				if (o.compare(0, want.size(), want)) { r.fail("stream", fmt("failed request %zu delivered other bytes than HMAC_DRBG", i)); return; }
				if (o.substr(want.size()) != str(x.n - want.size(), '\xa5')) { r.fail("leftover", fmt("failed request %zu delivered bytes beyond the point where randomness was missing", i)); return; }
			}
		}
		if (reseeds) r.probes["reseeded"]++;
		if (failures) r.probes["refused-requests"] += failures;
		if (after) r.probes["served-after-failure"]++;
		r.nontrivial = true;
		return;
	}
	// encryptions: the result depends on all of the randomness, or there is none
	std::vector<str> salts[2];
	bool ok[2]; u64 got[2]; int rdn = 0;
	for (int k = 0; k < 2; k++) {
		World w(pl); w.keep_log = pl.get("_log"); w.keep_ur = true;
		if (k) w.urflip = pl.get("flip") % 384;
		str pt = plan_data(pl);
		if (pl.get("sub") == 1) {
			Spec s; s.mode = M_ENC; s.indata = pt; s.logN = 10; s.r = 1; s.p = 1; s.force = true;
			Job j = start_job(w, s); w.run(); settle(w, j); finish_result(w, r);
			if (!clean_end(w, r)) return;
			ok[k] = j.proc->ok(); str o = j.output(w); str q; ref::Hdr h;
			if (ok[k]) { if (!ref::decrypt(s.pass, o, q, &h) || q != pt) { r.fail("wrong-result", "exit status 0 without a valid encrypted file"); return; } salts[k].push_back(h.salt); }
			else {
				if (!o.empty()) { r.fail("touched", "output was produced without randomness"); return; }
				if (!w.nfired) { r.fail("spurious", "failed without a fault: " + j.errs()); return; }
			}
		} else {
			int n = (int)pl.get("nenc", 2); std::vector<int> rc; std::vector<str> out((size_t)n, str(pt.size() + 128, '\0'));
			Proc *p = w.spawn_fn("user", [&]() { for (int i = 0; i < n; i++) rc.push_back(api_enc_buf((const u8 *)pt.data(), pt.size(), (u8 *)&out[(size_t)i][0], (const u8 *)"pw", 2, 0, 0.5, 5, 10, 1, 1, 0, 1)); return 0; });
			w.run(); finish_result(w, r);
			if (!clean_end(w, r)) return;
			if (!p->ok()) { r.fail("death", p->status()); return; }
			ok[k] = true;
			bool anyok = false;
			for (int i = 0; i < n; i++) {
				str q; ref::Hdr h;
				bool v = ref::decrypt("pw", out[(size_t)i], q, &h);
				if (rc[(size_t)i] == 0) { if (!v) { r.fail("wrong-result", "SCRYPT_OK without a valid result"); return; } salts[k].push_back(h.salt); anyok = true; }
				else { if (v) { r.fail("delivered", "a failed encryption delivered a valid result"); return; } if (rc[(size_t)i] != api_rc("SCRYPT_ESALT")) { r.fail("code", fmt("return code %d for missing randomness", rc[(size_t)i])); return; } if (!w.nfired) { r.fail("spurious", fmt("failed with %d without a fault", rc[(size_t)i])); return; } }
			}
			ok[k] = anyok;
		}
		got[k] = w.ur_log.size(); rdn += (int)w.rd_log.size();
		if (ok[k] && got[k] < 48) { r.fail("underseeded", fmt("success with %llu bytes of operating-system randomness", (unsigned long long)got[k])); return; }
	}
	r.nontrivial = true;
	if (ok[0] && ok[1]) {
		std::set<str> all; size_t n = 0;
		for (int k = 0; k < 2; k++) for (auto &s : salts[k]) { n++; all.insert(s); if (s.find_first_not_of(s[0]) == str::npos) r.fail("constant", "constant salt"); }
		// a flipped bit only reaches the result if it lies in the bytes that seeded the generator
		if (all.size() != n && r.bad == false) {
			bool faulty = !pl.faults.empty();
			if (!faulty) r.fail("same-salt", fmt("two encryptions with different system randomness (bit %lld of 384 differs) used the same salt", (long long)pl.get("flip")));
			else { std::set<str> a(salts[0].begin(), salts[0].end()); if (a.size() != salts[0].size()) r.fail("same-salt", "two encryptions of one process used the same salt"); }
		}
		// the salts are different everywhere, not only somewhere: 48 equal bits at one place do not happen by chance
		for (int k = 0; k < 2 && !r.bad; k++) for (size_t i = 0; i < salts[k].size() && !r.bad; i++) {
			const str &a = salts[k][i];
			for (size_t x = 0; x + 6 <= a.size(); x++) for (size_t y = x + 1; y + 6 <= a.size(); y++) if (!a.compare(x, 6, a, y, 6)) { r.fail("patterned", fmt("a salt repeats its bytes %zu.. at %zu..", x, y)); return; }
			for (int k2 = k; k2 < 2; k2++) {
				if (k2 != k && !pl.faults.empty()) continue;
				for (size_t j = k2 == k ? i + 1 : 0; j < salts[k2].size(); j++) for (size_t x = 0; x + 6 <= a.size(); x++) if (!a.compare(x, 6, salts[k2][j], x, 6)) { r.fail("partly-same-salt", fmt("two encryptions have the same salt bytes %zu to %zu", x, x + 5)); return; }
			}
		}
		r.probes["salt-pairs"]++;
	} else r.probes["refused"]++;
}
static Reg r08({"C08", gen08, exec08, "one case = a history of up to 800 requests to the random source, or a pair of encryptions whose system randomness differs in one bit, with short reads, errors, end of file and failing open/close of the device and absent or failing RDRAND; distinct by event-log hash"});
