// What the program asks of the system about time, and of its threads: delays, clocks,
// the periodic callback, locks, whether a key was pressed.
#include "h.h"
#include <atomic>
#include <fcntl.h>
#include <pthread.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <cerrno>
#include <ctime>
extern "C" {
#include "diag.h"
#include "diag_os.h"
#include "diag_err.h"
}
using namespace vt;

static long ticks_seen; static ns_t tick_at;
static void on_tr(char c, uint64_t) { if (c == 'P') { ticks_seen++; tick_at = now(); } }

struct World {
	bool gt[16], ns[16];
	long long off[16];
	bool jumps;
	unsigned cut_pct;
};
static World W;
static Rng *R;
static void world(Rng &r) {
	R = &r;
	memset(&W, 0, sizeof W);
	for (int c : {CLOCK_MONOTONIC_RAW, CLOCK_MONOTONIC, CLOCK_BOOTTIME}) { W.gt[c] = r.chance(70); W.ns[c] = r.chance(70); W.off[c] = r.below(4) ? r.below(1000000) * (long long)MS : r.below(60LL * 365 * 86400) * (long long)SEC; }
	W.ns[CLOCK_MONOTONIC_RAW] = false;
	W.gt[CLOCK_REALTIME] = W.ns[CLOCK_REALTIME] = true;
	W.off[CLOCK_REALTIME] = 1700000000LL * SEC;
	// the time of day may be set at any moment; that's only right to do if something else can be used instead
	W.jumps = (W.gt[CLOCK_MONOTONIC_RAW] || W.gt[CLOCK_MONOTONIC] || W.gt[CLOCK_BOOTTIME]) && (W.ns[CLOCK_MONOTONIC] || W.ns[CLOCK_BOOTTIME]);
	W.cut_pct = r.pick({0, 0, 30, 80, 97});
	clocks = Clocks();
	clocks.gettime_err = [](int c) { return c >= 0 && c < 16 && W.gt[c] ? 0 : EINVAL; };
	clocks.sleep_err = [](int c) { return c >= 0 && c < 16 && W.ns[c] ? 0 : ENOTSUP; };
	clocks.offset = [](int c) -> long long {
		if (c == CLOCK_REALTIME && W.jumps && R->chance(30)) { W.off[c] += R->range(-7200, 7200) * (long long)SEC; rep::cover("time-of-day-jumps"); }
		return c >= 0 && c < 16 ? W.off[c] : 0; };
	clocks.cut = [](ns_t d) -> ns_t {
		if (!d || !R->chance(W.cut_pct)) return ~0ULL;
		return R->chance(20) ? 0 : R->below(d); };
}

// ---------------------------------------------------------------- delays, clocks, periodic work
static void time_(Rng &r, long idx) {
	world(r);
	tracer = on_tr; async_timers = r.chance(50);
	if (W.jumps) rep::cover("worlds-with-jumping-time-of-day");
	int ut = used_timers();
	CHECK(ut == 0, "os:timer-left", "%d timers exist before start", ut);
	int rv; std::string out;
	// starting fails without leaving anything, and can be tried again
	if (r.chance(25)) {
		bool cr = r.chance(50);
		(cr ? clocks.create_err : clocks.settime_err) = r.pick({EAGAIN, EINVAL, ENOMEM});
		out = capture([&]() { rv = diag_os_init(); });
		CHECK(rv != 0, "os:init-hides-failure", "%s failed and starting returned 0", cr ? "timer_create" : "timer_settime");
		CHECK(used_timers() == 0, "os:timer-left", "%d timers left by a failed start", used_timers());
		clocks.create_err = clocks.settime_err = 0;
		rep::cover("failed-starts");
	}
	ns_t t0 = now();
	out = capture([&]() { rv = diag_os_init(); });
	CHECK(rv == 0, "os:init", "returned %d: %s", rv, out.c_str());
	t0 = now();
	CHECK(used_timers() == 1 && armed_timers() == 1, "os:periodic", "%d timers, %d running after start", used_timers(), armed_timers());
	std::string sig = fmt("%d%d%d %d%d j%d c%u", W.gt[4], W.gt[1], W.gt[7], W.ns[1], W.ns[7], W.jumps, W.cut_pct);
	ticks_seen = 0;
	int n = r.range(3, 12);
	unsigned long long h0 = 0; unsigned long m0 = 0; ns_t b0 = 0;
	for (int i = 0; i < n; i++) {
		// clocks: forwards only, and by what passed
		unsigned long long h; unsigned long m; ns_t a = now();
		if (r.chance(50)) { m = diag_os_getms(); h = diag_os_gethrt(); } else { h = diag_os_gethrt(); m = diag_os_getms(); }
		ns_t b = now();
		if (i) {
			long long us = diag_os_hrtus(h - h0), lo = (long long)(a > b0 ? a - b0 : 0) / 1000 - 2, hi = (long long)(b - b0) / 1000 + 3;
			CHECK(h >= h0 && us >= lo && us <= hi + 3, "os:clock", "%lld..%lld us passed and the stopwatch shows %lld", lo, hi, us);
			long long ms = (long long)(m - m0);
			CHECK(m >= m0 && ms >= lo / 1000 - 1 && ms <= hi / 1000 + 1, "os:clock", "%lld..%lld ms passed and the clock shows %lld", lo / 1000, hi / 1000, ms);
			rep::cover("clock-readings");
		}
		h0 = h; m0 = m; b0 = a;
		switch (r.below(4)) {
		case 0: case 1: { // delays
			unsigned ms = r.pick({0u, 1u, 2u, 5u, 25u, 50u, 55u, 200u, 300u, 999u, 1000u, 1001u, 2500u, 60000u, 1000000u, (unsigned)r.below(3000)});
			bool late = r.chance(20); ns_t l = late ? r.below(4000) * US : 0;
			clocks.late = [&](ns_t) { ns_t x = l; l = 0; return x; };
			ns_t ll = l; unsigned long nc = clocks.ncuts;
			ns_t s = now();
			out = capture([&]() { diag_os_millisleep(ms); });
			ns_t d = now() - s, want = (ns_t)ms * MS + (ms ? ll : 0), slack = 20 * US + (clocks.ncuts - nc) * 2 * US;
			CHECK(d >= want && d <= want + slack, "os:sleep", "a delay of %u ms interrupted %lu times lasted %llu us (should %llu)", ms, clocks.ncuts - nc, (unsigned long long)d / 1000, (unsigned long long)want / 1000);
			bool warn = out.find("off by") != std::string::npos;
			if (ms && (ll + slack < 1500 * US || ll > 1510 * US)) { CHECK(warn == (ll > 1510 * US), "os:sleep-report", "delay of %u ms %llu us late: \"%s\"", ms, (unsigned long long)ll / 1000, out.c_str()); if (warn) rep::cover("late-reported"); }
			clocks.late = nullptr;
			rep::cover("delays"); rep::cover("interruptions", clocks.ncuts - nc);
			sig += fmt(" d%u/%lu", ms, clocks.ncuts - nc); break; }
		case 2: { // starting again is nothing new
			out = capture([&]() { rv = diag_os_init(); });
			CHECK(rv == 0 && used_timers() == 1, "os:init-again", "returned %d, %d timers", rv, used_timers());
			rep::cover("starts-again"); break; }
		case 3: { // periodic work: every 300 ms
			long k0 = ticks_seen; ns_t s = now(), d = r.below(5000) * MS;
			idle(d);
			long k = ticks_seen - k0, want = (long)((now() - t0) / (300 * MS) - (s - t0) / (300 * MS));
			CHECK(k >= want - 1 && k <= want + 1, "os:periodic", "in %llu ms the periodic work was done %ld times, not %ld", (unsigned long long)d / MS, k, want);
			rep::cover("periodic-calls", k); break; }
		}
	}
	long k0 = ticks_seen;
	capture([&]() { rv = diag_os_close(); });
	CHECK(rv == 0 && used_timers() == 0, "os:close", "returned %d, %d timers left", rv, used_timers());
	idle(2000 * MS);
	CHECK(ticks_seen == k0, "os:close", "periodic work done after the end");
	rep::cover("starts"); rep::distinct(sig);
	if (idx < 2) rep::sample(sig);
	tracer = nullptr; async_timers = false; clocks = Clocks();
}

// ---------------------------------------------------------------- calibration tells the truth
static void calib(Rng &r, long idx) {
	int p[2]; if (pipe(p)) { rep::violation("harness:pipe", "pipe"); return; }
	ns_t grain = r.pick({1ULL, 1ULL, 1000ULL, 100000ULL, 1000000ULL, 1190000ULL, 1200000ULL, 4000000ULL, 10000000ULL});
	int lateat = r.chance(60) ? r.pick({50, 24, 2, 41, 22, 8}) : 0; ns_t late = r.below(30) * 100 * US, hours = r.below(100000);
	unsigned cut = r.pick({0, 50});
	pid_t c = fork();
	if (!c) {
		close(p[0]);
		world(r); W.jumps = false; W.cut_pct = cut;
		for (auto &x : W.gt) x = true; for (auto &x : W.ns) x = true;
		vt::reset_clock(hours * 3600 * SEC + 12345);
		clocks.grain = grain;
		clocks.late = [&](ns_t) { return lateat ? late : 0; };
		int rv = -1;
		std::string o = capture([&]() { rv = diag_os_init(); diag_os_calibrate(); });
		o += fmt("\nrv=%d\n", rv);
		for (size_t k = 0; k < o.size();) { ssize_t w = write(p[1], o.data() + k, o.size() - k); if (w <= 0) break; k += w; }
		_exit(0);
	}
	close(p[1]);
	std::string o; char b[4096]; ssize_t k;
	while ((k = read(p[0], b, sizeof b)) > 0) o.append(b, k);
	close(p[0]);
	int st = 0; waitpid(c, &st, 0);
	if (st) { rep::violation(WIFEXITED(st) && WEXITSTATUS(st) == 97 ? "hang:calibration" : "crash:calibration", fmt("status %x; clock counting in %llu ns: %s", st, (unsigned long long)grain, o.c_str())); return; }
	std::string ctx = fmt("clock counting in %llu ns, delays %llu us late: ", (unsigned long long)grain, lateat ? (unsigned long long)late / 1000 : 0);
	unsigned long long mx = 0, av = 0; const char *q = strstr(o.c_str(), "gethrt() resolution");
	CHECK(q && sscanf(q, "gethrt() resolution <= %lluus, avg ~%lluus", &mx, &av) == 2, "os:calibrate", "%sno resolution in %s", ctx.c_str(), o.c_str());
	CHECK(mx + 1 >= grain / 1000 && mx <= grain / 1000 + 2 && av <= mx, "os:calibrate", "%sresolution shown as %llu, average %llu us", ctx.c_str(), mx, av);
	bool warn = o.find("no clock >=") != std::string::npos;
	CHECK(warn == (mx >= 1200), "os:calibrate", "%sresolution %llu us %s warned of", ctx.c_str(), mx, warn ? "was" : "was not");
	CHECK(o.find("will wrap in") == std::string::npos, "os:calibrate", "%stime said to wrap at %llu hours", ctx.c_str(), (unsigned long long)hours);
	// delays: judged where the clock is fine enough to tell
	if (grain <= 1000) {
		long long L = lateat ? late / 1000 : 0;
		int lines = 0;
		for (const char *s = o.c_str(); (s = strstr(s, "diag_os_millisleep(")); s++) {
			int ms; long long pct, us;
			if (sscanf(s, "diag_os_millisleep(%d) off by %lld%% (+%lldus)", &ms, &pct, &us) != 3) continue;
			lines++;
			CHECK(us >= L - 2 && us <= L + 60, "os:calibrate", "%sdelay of %d ms said to be %lld us late", ctx.c_str(), ms, us);
		}
		if (L > 910 || L < 840) CHECK((lines > 0) == (L > 910), "os:calibrate", "%s%d delays reported", ctx.c_str(), lines);
		rep::cover(lines ? "calibrations-with-late-delays" : "calibrations-clean");
	}
	CHECK(o.find("rv=0") != std::string::npos, "os:init", "%s%s", ctx.c_str(), o.substr(o.size() - 20).c_str());
	rep::cover("calibrations"); if (warn) rep::cover("coarse-clocks-warned-of");
	rep::distinct(fmt("cal %llu %d %llu %u", (unsigned long long)grain, lateat, (unsigned long long)late, cut));
	if (idx < 2) rep::sample(o.substr(0, 400));
}

// ---------------------------------------------------------------- locks and keys
static void locks(Rng &r, long idx) {
	diag_mtx m;
	if (r.chance(50)) { m = PTHREAD_MUTEX_INITIALIZER; diag_os_initstaticmtx(&m); } else { memset(&m, 0x5a, sizeof m); diag_os_initmtx(&m); }
	int depth = r.range(1, 5), got = 0;
	// held as often as taken, by one thread
	for (int i = 0; i < depth; i++) { if (r.chance(50)) { bool t = diag_os_trylock(&m); CHECK(t, "os:lock", "a lock could not be taken again by its holder"); if (!t) { diag_os_delmtx(&m); return; } } else diag_os_lock(&m); got++; }
	for (int i = 0; i < depth; i++) {
		bool t = true;
		std::thread([&]() { t = diag_os_trylock(&m); if (t) diag_os_unlock(&m); }).join();
		CHECK(!t, "os:lock", "a lock taken %d times and released %d times was given to another thread", depth, i);
		diag_os_unlock(&m);
		rep::cover("locks-refused");
	}
	bool t = false;
	std::thread([&]() { t = diag_os_trylock(&m); if (t) diag_os_unlock(&m); }).join();
	CHECK(t, "os:lock", "a released lock could not be taken by another thread");
	// one at a time
	int nt = r.range(2, 5), per = r.range(5, 200); volatile long cnt = 0; std::atomic<int> inside{0}; bool two = false; std::atomic<long> taken{0};
	std::vector<std::thread> th; uint64_t sd = r.next();
	for (int k = 0; k < nt; k++) th.emplace_back([&, k]() {
		Rng q(sd + k);
		for (int i = 0; i < per; i++) {
			if (q.chance(30)) { if (!diag_os_trylock(&m)) continue; } else diag_os_lock(&m);
			if (q.chance(20)) { diag_os_lock(&m); diag_os_unlock(&m); }
			if (inside++) two = true;
			long c = cnt; if (q.chance(10)) std::this_thread::yield(); cnt = c + 1;
			inside--; taken++;
			diag_os_unlock(&m);
		} });
	for (auto &x : th) x.join();
	CHECK(!two && cnt == taken, "os:lock", "%d threads: %ld turns, %ld counted%s", nt, (long)taken, (long)cnt, two ? ", two at once" : "");
	rep::cover("turns", taken);
	diag_os_delmtx(&m);
	// flags shared between threads
	// a key: only looking, never taking
	int p[2]; if (pipe(p)) return;
	int keep = dup(0); dup2(p[0], 0); close(p[0]);
	for (int i = 0; i < 3; i++) CHECK(diag_os_ipending() == 0, "os:key", "a key was reported that nobody pressed");
	std::string s; for (int i = r.range(1, 5); i; i--) s += (char)r.range('a', 'z');
	s += '\n';
	if (write(p[1], s.data(), s.size()) < 0) {}
	for (int i = r.range(1, 4); i; i--) CHECK(diag_os_ipending() == 1, "os:key", "a key pressed was not reported");
	char b[32]; ssize_t n = read(0, b, sizeof b);
	CHECK(n == (ssize_t)s.size() && !memcmp(b, s.data(), n), "os:key", "input was taken by looking for it");
	CHECK(diag_os_ipending() == 0, "os:key", "a key was reported after it was read");
	close(p[1]); dup2(keep, 0); close(keep);
	rep::cover("keys-seen");
	// what the system's errors are called
	int e = r.range(1, 120);
	std::string a = strerror(e);
	CHECK(a == diag_os_geterr(e), "os:error-text", "error %d is called \"%s\"", e, diag_os_geterr(e));
	errno = e; CHECK(a == diag_os_geterr(0), "os:error-text", "the last error (%d) is called \"%s\"", e, diag_os_geterr(0));
	unsigned lines = r.range(1, 60);
	std::string o = capture([&]() { diag_os_cursor_up(lines); diag_os_clrtoeol(); });
	CHECK(o == fmt("\033[%uF\033[K", lines), "os:cursor", "up %u lines and clear: %s", lines, hex((const uint8_t *)o.data(), o.size()).c_str());
	rep::distinct(fmt("l%d t%d p%d e%d", depth, nt, per, e));
}

std::vector<Mode> modes() { return {{"time", time_, nullptr}, {"calib", calib, nullptr, true}, {"locks", locks, nullptr, true}}; }
