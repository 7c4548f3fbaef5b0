// The built-in interface tests: what they do to the serial port's lines, and what they say about it.
#include "app.h"
#include "rlstub.h"
#include <memory>
#include <sys/ioctl.h>
using namespace vt;

struct Line : Tty {
	Line() : Tty("/dev/ttyX0") {}
	bool echoing = true;
	std::function<int(long)> bad;      // k-th byte: <0 lost, else XORed
	std::vector<int> fate;             // of every byte
	void on_tx(ns_t t, uint8_t b) override {
		int f = echoing ? (bad ? bad(fate.size()) : 0) : -1;
		fate.push_back(f);
		if (f >= 0) push(t, b ^ f);
	}
};
static const int DTR_ = TIOCM_DTR, RTS_ = TIOCM_RTS;
static double f(const std::string &s) { return strtod(s.c_str(), nullptr); }

static void tests(Rng &r, long idx) {
	reset_clock(SEC * r.range(1, 100000));
	app::init();
	Line p;
	app::cmd("set interface dumbt"); app::cmd("set port /dev/ttyX0");
	int flags = r.chance(30) ? 0x48 : r.below(128);
	if (flags != 0x48 || r.chance(50)) app::cmd(fmt("set dumbopts %d", flags));
	bool clr_dtr = flags & 2, set_rts = flags & 4;
	int rest = (clr_dtr ? 0 : DTR_) | (set_rts ? RTS_ : 0);
	int ntests = r.chance(60) ? 1 : 2;
	for (int q = 0; q < ntests; q++) {
		int n = r.chance(4) ? r.pick({0, 15, 99}) : r.range(1, 14);
		p.log.clear(); p.fate.clear(); p.rx.clear(); p.txall.clear();
		p.present = !r.chance(4);
		bool fault = p.present && r.chance(15);
		int fk = -1; std::string fwhat = "none"; long fired = -1;   // where in the log it struck
		p.ioctl_fault = nullptr; p.wr_limit = nullptr;
		if (fault) {
			fk = r.below(n == 3 || n == 4 ? 11 : n == 1 ? 5 : 40);
			auto cnt = std::make_shared<long>(0);
			if (n == 1 || n == 5) { fwhat = "break"; p.ioctl_fault = [=, &p, &fired](unsigned long c) { if (c != TIOCSBRK) return 0; if ((*cnt)++ == fk) { fired = p.log.size(); return EIO; } return 0; }; }
			else if (n == 3 || n == 4) { fwhat = "lines"; p.ioctl_fault = [=, &p, &fired](unsigned long c) { if (c != TIOCMSET && c != TIOCMBIS && c != TIOCMBIC) return 0; if ((*cnt)++ == fk) { fired = p.log.size(); return EIO; } return 0; }; }
			else if (n == 2 || n == 10 || n == 7 || n == 14) { fwhat = "write"; p.wr_limit = [=, &p, &fired](size_t k) -> int { if ((*cnt)++ == fk) { fired = p.log.size(); return -EIO; } return k; }; }
			else fault = false;
		}
		p.echoing = !r.chance(10);
		int badpct = r.pick({0, 0, 1, 10});
		long badblock = r.below(14);        // a whole message of test 8 ill, others fine
		long lost = r.chance(15) ? (long)r.below(110) : -1;
		p.bad = [&, badpct, lost, badblock, n](long k) -> int {
			if (k == lost) return -1;
			if (n == 8) { return badpct && k == badblock * 10 + (badblock * 7) % 10 ? 0x10 : 0; }
			if (n == 7 || n == 14) return r.chance(badpct) ? 1 << r.below(8) : 0;
			return 0; };
		if (p.present && r.chance(40)) for (int i = r.range(1, 30); i; i--) p.Tty::push(now(), r.byte());   // heard before
		ns_t t0 = now();
		std::string out = app::cmd(fmt("debug l0test %d", n));
		std::string ctx = fmt("test %d flags %#x echo=%d bad=%d%% lost=%ld fault=%s@%d%s present=%d\n%s", n, flags, p.echoing, badpct, lost, fwhat.c_str(), fk, fired >= 0 ? "" : "(not reached)", p.present, "");
		(void)t0; (void)idx;
		std::vector<Tty::Ev> B, T, M;
		bool opened = false;
		for (auto &e : p.log) { if (e.kind == 'O') opened = true; if (e.kind == 'B' || e.kind == 'b') B.push_back(e); if (e.kind == 'T') T.push_back(e); if (e.kind == 'M') M.push_back(e); }
		CHECK(p.nopen == 0 && !p.brk, "dt:port-left", "%s%d opens left, break %d", ctx.c_str(), p.nopen, p.brk);
		if (n < 1 || n > 14) { CHECK(!opened && B.empty() && T.empty() && M.empty(), "dt:invalid-test-runs", "%s", ctx.c_str()); rep::cover("invalid-tests"); continue; }
		if (!p.present) { CHECK(T.empty() && B.empty(), "dt:absent", "%s", ctx.c_str()); rep::cover("ports-missing"); continue; }
		CHECK(opened, "dt:not-run", "%s%s", ctx.c_str(), out.c_str());
		rep::cover("tests-run"); rep::cover(fmt("test-%d", n));
		rep::distinct(fmt("%d %x %d %d %d %d", n, flags, p.echoing, badpct, fault, fk));
		// the lines at rest: set before anything else, and throughout tests that don't pulse them
		bool lines_fault0 = fwhat == "lines" && fired >= 0 && fk == 0;
		if (lines_fault0) { CHECK(T.empty() && B.empty(), "dt:runs-without-lines", "%s", ctx.c_str()); rep::cover("faults-at-start"); continue; }
		CHECK(!M.empty() && (int)(M[0].v & (DTR_ | RTS_)) == rest, "dt:lines-at-start", "%sset to %x, asked for %x", ctx.c_str(), M.empty() ? 0 : M[0].v, rest);
		// the port's own lines are put back when it closes: only those before the close are the test's
		size_t nm = 0; { ns_t first = ~0ULL; for (auto &e : p.log) { if (e.kind == 'T' || e.kind == 'B') { first = e.t; break; } } (void)first; }
		std::vector<Tty::Ev> pulses;
		{ ns_t last = 0; for (auto &e : p.log) if (e.kind == 'X') last = e.t; (void)last; for (auto &e : M) if (e.t <= last) pulses.push_back(e); (void)nm; }
		for (auto &e : T) {
			unsigned want = n == 10 ? 15000 : n == 14 ? 360 : 10400;
			bool zb = (n == 6 || n == 13) && e.v == 0;
			if (zb) want = 360;
			CHECK(e.u.speed == want && e.u.databits == 8 && e.u.stopbits == 1 && e.u.parity == 'N', "dt:speed", "%sbyte %02X sent at %u %d%c%d, not %u", ctx.c_str(), e.v, e.u.speed, e.u.databits, e.u.parity, e.u.stopbits, want);
		}
		if (n != 3 && n != 4) for (auto &e : pulses) if (&e != &pulses.back()) CHECK((int)(e.v & (DTR_ | RTS_)) == rest, "dt:lines-change", "%sto %x during the test", ctx.c_str(), e.v);
		auto near = [](ns_t d, ns_t lo, ns_t slop) { return d + 100 * US >= lo && d <= lo + slop; };
		bool stopped = fired >= 0;
		switch (n) {
		case 1: case 5: {
			ns_t hi = (n == 1 ? 1000 : 50) * MS, lo = (n == 1 ? 500 : 25) * MS;
			size_t want = n == 1 ? 5 : 41;
			if (stopped) want = fk;
			CHECK(B.size() == 2 * want && T.empty(), "dt:pulses", "%s%zu changes of the line for %zu pulses", ctx.c_str(), B.size(), want);
			for (size_t i = 0; i < B.size(); i++) {
				CHECK(B[i].kind == (i % 2 ? 'b' : 'B'), "dt:pulses", "%sorder", ctx.c_str());
				if (i) CHECK(near(B[i].t - B[i - 1].t, i % 2 ? lo : hi, 3 * MS), "dt:pulse-length", "%schange %zu after %llu us", ctx.c_str(), i, (unsigned long long)(B[i].t - B[i - 1].t) / 1000);
				else CHECK(B[0].t - M[0].t >= hi, "dt:pulse-length", "%sfirst", ctx.c_str());
			}
			rep::cover("pulses-checked", want);
			break; }
		case 2: case 10: {
			size_t want = stopped ? fk : 301;
			CHECK(T.size() == want && B.empty(), "dt:bytes", "%s%zu bytes of %zu", ctx.c_str(), T.size(), want);
			for (size_t i = 0; i < T.size(); i++) {
				CHECK(T[i].v == 0x55, "dt:bytes", "%sbyte %zu is %02X", ctx.c_str(), i, T[i].v);
				if (i) { ns_t d = T[i].t - T[i - 1].t; CHECK(d >= 5 * MS && d <= 9 * MS, "dt:byte-gap", "%sbyte %zu after %llu us", ctx.c_str(), i, (unsigned long long)d / 1000); }
			}
			rep::cover("bytes-checked", want);
			break; }
		case 3: case 4: {
			int which = n == 3 ? RTS_ : DTR_, other = n == 3 ? DTR_ : RTS_;
			CHECK(T.empty() && B.empty(), "dt:lines-only", "%s", ctx.c_str());
			// M[0] rest, then on / off five times, then rest
			size_t npulse = stopped ? fk - 1 : 10;
			CHECK(pulses.size() >= npulse + 2, "dt:pulses", "%s%zu line changes", ctx.c_str(), pulses.size());
			for (size_t i = 1; i <= npulse; i++) {
				int v = pulses[i].v;
				CHECK((v & other) == (rest & other), "dt:other-line", "%schange %zu: %x, at rest %x", ctx.c_str(), i, v, rest);
				CHECK(!!(v & which) == (i % 2 == 1), "dt:pulses", "%schange %zu: %x", ctx.c_str(), i, v);
				if (i > 1) CHECK(near(pulses[i].t - pulses[i - 1].t, (i % 2 ? 500 : 1000) * MS, 3 * MS), "dt:pulse-length", "%schange %zu after %llu us", ctx.c_str(), i, (unsigned long long)(pulses[i].t - pulses[i - 1].t) / 1000);
			}
			CHECK((int)(pulses[npulse + 1].v & (DTR_ | RTS_)) == rest, "dt:lines-at-end", "%sleft at %x, at rest %x", ctx.c_str(), pulses[npulse + 1].v, rest);
			if (!stopped) CHECK(near(pulses[11].t - pulses[10].t, 500 * MS, 3 * MS), "dt:pulse-length", "%slast", ctx.c_str());
			rep::cover("pulses-checked", npulse / 2);
			break; }
		case 6: case 13: {
			bool noecho = !p.echoing;
			size_t per = n == 6 ? 1 : 2, full = 51 * per;
			// a break whose echo is missing ends the test
			size_t want = noecho ? 1 : full;
			if (!noecho && lost >= 0 && lost < (long)full && (n == 6 || lost % 2 == 0)) want = lost + 1;
			CHECK(T.size() == want && B.empty(), "dt:bytes", "%s%zu bytes of %zu", ctx.c_str(), T.size(), want);
			for (size_t i = 0; i < T.size(); i++) {
				int v = n == 13 && i % 2 ? 0xAA : 0;
				CHECK((int)T[i].v == v, "dt:bytes", "%sbyte %zu is %02X", ctx.c_str(), i, T[i].v);
				if (n == 6 && i) CHECK(near(T[i].t - T[i - 1].t, 50 * MS, 3 * MS), "dt:pulse-length", "%sbreak %zu after %llu us", ctx.c_str(), i, (unsigned long long)(T[i].t - T[i - 1].t) / 1000);
				if (n == 13 && i % 2) CHECK(near(T[i].t - T[i - 1].t + 1 * MS, 50 * MS, 4 * MS), "dt:pulse-length", "%sbyte %llu us after its break", ctx.c_str(), (unsigned long long)(T[i].t - T[i - 1].t) / 1000);
			}
			rep::cover("breaks-checked", want / per);
			break; }
		case 7: case 14: {
			size_t want = 100;
			if (stopped) want = fk;
			else if (!p.echoing) want = 1;
			else if (lost >= 0 && lost < 100) want = lost + 1;
			if (stopped && p.echoing && lost >= 0 && lost < fk) want = lost + 1;
			if (stopped && !p.echoing) want = fk ? 1 : 0;
			CHECK(T.size() == want && B.empty(), "dt:bytes", "%s%zu bytes of %zu", ctx.c_str(), T.size(), want);
			long good = 0, bad = 0;
			for (size_t i = 0; i < T.size(); i++) {
				CHECK(T[i].v == i, "dt:bytes", "%sbyte %zu is %02X", ctx.c_str(), i, T[i].v);
				if (i) CHECK(T[i].t >= T[i - 1].t + (n == 14 ? 27770 : 961) * US, "dt:before-echo", "%sbyte %zu", ctx.c_str(), i);
				if (p.fate[i] == 0) good++; else if (p.fate[i] > 0) bad++;
			}
			long sp, g, b; size_t k = out.find("Average speed");
			CHECK(k != std::string::npos && sscanf(out.c_str() + k, "Average speed : %ld us/byte. %ld good; %ld bad echos", &sp, &g, &b) == 3, "dt:result", "%s%s", ctx.c_str(), out.c_str());
			CHECK(g == good && b == bad, "dt:echo-count", "%ssaid %ld good and %ld bad; %ld and %ld were", ctx.c_str(), g, b, good, bad);
			if (want == 100 && good + bad == 100) { double e = n == 14 ? 27778 : 961; CHECK(sp >= e * 0.97 - 5 && sp <= e * 1.05 + 100, "dt:average", "%ssaid %ld us per byte", ctx.c_str(), sp); rep::cover("averages-checked"); }
			rep::cover("echoes-counted", good + bad); if (bad) rep::cover("bad-echo-tests");
			break; }
		case 8: {
			size_t want = 110; long bad = 0; bool full = p.echoing;
			if (!p.echoing) want = 10;
			else if (lost >= 0 && lost < 110) { want = (lost / 10 + 1) * 10; full = false; }
			CHECK(T.size() % 10 == 0 && T.size() >= 10 && (full ? T.size() >= 100 : T.size() <= 110), "dt:bytes", "%s%zu bytes", ctx.c_str(), T.size());
			if (!full && want <= 100) CHECK(T.size() == want, "dt:bytes", "%s%zu bytes of %zu", ctx.c_str(), T.size(), want);
			for (size_t i = 0; i < T.size(); i++) {
				CHECK(T[i].v == i % 10, "dt:bytes", "%sbyte %zu is %02X", ctx.c_str(), i, T[i].v);
				if (i % 10) CHECK(near(T[i].t - T[i - 1].t, 961 * US, 1 * MS), "dt:block", "%sbyte %zu", ctx.c_str(), i);
				if (p.fate[i] > 0) bad++;
			}
			long sp, b; size_t k = out.find("Average speed");
			if (full && (lost < 0 || lost >= (long)T.size())) {
				CHECK(k != std::string::npos && sscanf(out.c_str() + k, "Average speed : %ld us/byte. %ld bad echos", &sp, &b) == 2, "dt:result", "%sall %zu bytes were echoed (%ld wrong): %s", ctx.c_str(), T.size(), bad, out.c_str());
				CHECK(b == bad, "dt:echo-count", "%ssaid %ld bad; %ld were", ctx.c_str(), b, bad);
				CHECK(sp >= 930 && sp <= 1010, "dt:average", "%ssaid %ld us per byte for bytes of 961 us", ctx.c_str(), sp);
				rep::cover("averages-checked"); rep::cover("echoes-counted", T.size()); if (bad) rep::cover("bad-echo-tests");
			} else if (!full) { CHECK(k == std::string::npos, "dt:result-of-nothing", "%s%s", ctx.c_str(), out.c_str()); rep::cover("incomplete-tests"); }
			break; }
		case 9: {
			CHECK(T.empty() && B.empty(), "dt:silent", "%s", ctx.c_str());
			size_t k = 0; int lines = 0;
			for (unsigned want = 10; want <= 190; want += 20) {
				unsigned to; int avg;
				k = out.find("Timeout=", k);
				CHECK(k != std::string::npos && sscanf(out.c_str() + k, "Timeout=%u: avg=%dms", &to, &avg) == 2, "dt:result", "%s%s", ctx.c_str(), out.c_str());
				CHECK(to == want && avg >= (int)want - 1 && avg <= (int)want + 3, "dt:average", "%stimeout %u: %u averaged %d", ctx.c_str(), want, to, avg);
				k += 8; lines++;
			}
			rep::cover("averages-checked", lines);
			break; }
		case 11: {
			if (!p.echoing || lost >= 0) { rep::cover("incomplete-tests"); break; }
			size_t k = 0; CHECK(T.size() == 36, "dt:bytes", "%s%zu bytes", ctx.c_str(), T.size());
			for (unsigned i = 0; i < 9; i++) {
				unsigned to, want = 10 + 20 * i; int avg;
				for (int j = 0; j < 4; j++) CHECK(T[4 * i + j].v == want, "dt:bytes", "%sbyte %02X", ctx.c_str(), T[4 * i + j].v);
				k = out.find("Timeout=", k);
				CHECK(k != std::string::npos && sscanf(out.c_str() + k, "Timeout=%u: avg=%dms", &to, &avg) == 2, "dt:result", "%s%s", ctx.c_str(), out.c_str());
				CHECK(to == want && avg >= (int)want - 1 && avg <= (int)want + 3, "dt:average", "%stimeout %u: %u averaged %d", ctx.c_str(), want, to, avg);
				k += 8;
			}
			rep::cover("averages-checked", 9);
			break; }
		case 12: {
			size_t k = 0, at = 0;
			std::vector<unsigned> L = {1, 5, 10, 15, 20, 25, 30, 35, 40, 45, 50};
			for (unsigned l : L) {
				unsigned len; double us[4]; int a, b2;
				k = out.find("len=", k);
				CHECK(k != std::string::npos && sscanf(out.c_str() + k, "len=%u:\t%lfus\t%lfus\t%lfus\t%lfus => avg=%dms / %dms", &len, us, us + 1, us + 2, us + 3, &a, &b2) == 7, "dt:result", "%s%s", ctx.c_str(), out.c_str());
				CHECK(len == l, "dt:result", "%slength %u, not %u", ctx.c_str(), len, l);
				CHECK(std::abs(a - (us[0] + us[1] + us[2] + us[3]) / 4000) <= 1.01, "dt:average", "%s%s", ctx.c_str(), out.c_str() + k);
				for (int j = 0; j < 4; j++) {
					CHECK(at + l <= T.size(), "dt:bytes", "%s%zu bytes", ctx.c_str(), T.size());
					for (unsigned i = 1; i < l; i++) CHECK(near(T[at + i].t - T[at + i - 1].t, 961 * US, 1 * MS), "dt:block", "%slength %u byte %u", ctx.c_str(), l, i);
					if (badpct == 0) for (unsigned i = 0; i < l; i++) CHECK(T[at + i].v == 0, "dt:bytes", "%s%02X", ctx.c_str(), T[at + i].v);
					at += l;
				}
				k += 4;
			}
			CHECK(at == T.size(), "dt:bytes", "%s%zu bytes, %zu asked for", ctx.c_str(), T.size(), at);
			rep::cover("durations-checked", 44);
			break; }
		}
		rep::sample(ctx);
		(void)f;
	}
	app::cmd("set interface carsim");
	if (r.chance(20)) {
		p.log.clear();
		std::string o = app::cmd(fmt("debug l0test %d", (int)r.range(1, 14)));
		CHECK(p.log.empty(), "dt:wrong-interface", "%s", o.c_str());
		rep::cover("wrong-interfaces");
	}
}
std::vector<Mode> modes() { return {{"tests", tests}}; }
