// Generic serial K-line interface: wake-up waveforms and whole sessions, seen
// from the K and L lines.
#include "l2util.h"
extern "C" {
#include "diag_cfg.h"
}
using namespace vt;
enum { USE_L = 1, CLR_DTR = 2, SET_RTS = 4, MAN_BREAK = 8, INV_L = 16, FASTB = 32, BLKDUP = 64 };
struct Edge { ns_t t; bool level; };           // K line as driven by the tester: true = high
struct KLine : Tty {
	std::vector<Edge> k;           // break edges
	std::vector<Edge> l;           // L line (RTS)
	bool useL = false, invL = false;
	struct B { ns_t t; uint8_t b; unsigned speed; };
	std::vector<B> bytes;          // tester bytes (end time)
	std::function<void(KLine &, ns_t, uint8_t, unsigned)> onbyte;
	std::function<void(KLine &, ns_t)> onwait;
	KLine() : Tty("/dev/ttyVT0") { echo = true; }
	void on_break(ns_t t, bool on) override { k.push_back({t, !on}); if (on) push(t + byte_ns(), 0); }
	void on_mcr(ns_t t, int m) override { bool lo = !!(m & 4) != invL; l.push_back({t, !lo}); }
	void on_tx(ns_t t, uint8_t b) override { unsigned s = uart().speed; bytes.push_back({t, b, s}); if (onbyte) onbyte(*this, t, b, s); }
	void on_wait(ns_t u) override { if (onwait) onwait(*this, u); }
	static bool at(const std::vector<Edge> &v, ns_t t) { bool x = true; for (auto &e : v) if (e.t <= t) x = e.level; return x; }
};
// what an ECU sampling mid-bit from the first falling edge after t0 sees; -1: no frame
static int sample5(const std::vector<Edge> &v, ns_t t0, ns_t &start) {
	start = 0;
	bool prev = KLine::at(v, t0);
	for (auto &e : v) { if (e.t > t0 && prev && !e.level) { start = e.t; break; } if (e.t > t0) prev = e.level; }
	if (!start) return -1;
	if (KLine::at(v, start + 100 * MS)) return -1;
	int a = 0;
	for (int i = 0; i < 8; i++) if (KLine::at(v, start + 300 * MS + i * 200 * MS)) a |= 1 << i;
	if (!KLine::at(v, start + 1900 * MS)) return -2;
	return a;
}
static struct diag_l0_device *mk(int opts) {
	struct diag_l0_device *d = diag_l0_new("DUMB");
	if (!d) return nullptr;
	struct cfgi *c = diag_l0_getcfg(d);
	for (; c; c = c->next) {
		if (c->shortname && !strcmp(c->shortname, "dumbopts")) diag_cfg_setint(c, opts);
		else if (c->shortname && !strcmp(c->shortname, "port")) diag_cfg_setstr(c, "/dev/ttyVT0");
	}
	return d;
}
static int rnd_opts(Rng &r) {
	int o = 0;
	if (r.chance(50)) o |= MAN_BREAK;
	if (r.chance(30)) o |= FASTB;
	if (r.chance(50)) o |= BLKDUP;
	if (r.chance(25)) o |= CLR_DTR;
	if (r.chance(40)) { o |= USE_L; if (r.chance(40)) o |= INV_L | SET_RTS; }
	else if (r.chance(30)) o |= SET_RTS;
	return o;
}
static void wave(Rng &r, long idx) {
	KLine kl; int o = rnd_opts(r);
	kl.useL = o & USE_L; kl.invL = o & INV_L;
	budget(400 * SEC, 2000000);
	long live = mem().live;
	struct diag_l0_device *d = mk(o);
	int proto = r.pick({DIAG_L1_ISO9141, DIAG_L1_ISO14230});
	std::string ctx = fmt("opts=%X proto=%d", o, proto);
	if (!d || diag_l1_open(d, proto)) { rep::violation("dumb:open", ctx); return; }
	CHECK(!!(kl.mcr & 2) == !(o & CLR_DTR) && !!(kl.mcr & 4) == !!(o & SET_RTS), "dumb:idle-lines", "%s mcr=%x", ctx.c_str(), kl.mcr);
	uint32_t fl = diag_l1_getflags(d), want = DIAG_L1_SLOW | DIAG_L1_HALFDUPLEX;
	if (proto == DIAG_L1_ISO14230) want |= DIAG_L1_FAST | DIAG_L1_PREFFAST;
	if (o & BLKDUP) want |= DIAG_L1_BLOCKDUPLEX;
	CHECK(fl == want, "dumb:flags", "%s flags %x expected %x", ctx.c_str(), fl, want);
	struct diag_serial_settings set = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	CHECK(diag_l1_ioctl(d, DIAG_IOCTL_SETSPEED, &set) == 0 && kl.uart().speed == 10400, "dumb:setspeed", "%s", ctx.c_str());
	for (int k = 0; k < 2; k++) {
		advance(r.range(1, 400) * MS);
		kl.k.clear(); kl.l.clear(); kl.bytes.clear(); kl.rx.clear();
		struct diag_l1_initbus_args in; memset(&in, 0, sizeof in);
		bool fast = r.chance(40);
		in.type = fast ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD;
		in.addr = r.chance(70) ? (uint8_t)(idx * 2 + k) : r.pick({0x00, 0xff, 0x33, 0x80, 0x01, 0x7f, 0xfe});
		if (r.chance(4)) {
			in.type = r.pick({DIAG_L1_INITBUS_2SLOW, 99});
			int rv = diag_l1_ioctl(d, DIAG_IOCTL_INITBUS, &in);
			CHECK(rv < 0 && kl.k.empty() && kl.bytes.empty(), "dumb:unsupported-init", "%s rv=%d", ctx.c_str(), rv);
			rep::cover("unsupported-refused"); continue;
		}
		// stale junk on the line must not confuse anything
		if (r.chance(40)) for (int j = r.range(1, 5); j; j--) kl.push(now() - 1, r.byte());
		bool sync = !r.chance(15), sent = false; ns_t w1 = r.range(60, 290) * MS;
		ns_t t0 = now();
		kl.onbyte = nullptr;
		int seen = -9; ns_t st = 0;
		kl.onwait = [&](KLine &x, ns_t) {
			if (fast || sent) return;
			if (o & MAN_BREAK) { int a = sample5(x.k, t0, st); if (a < 0 || now() < st + 1950 * MS) return; seen = a; sent = true; if (sync) x.push(std::max(st + 2000 * MS + w1 - 10 * MS, now()), (uint8_t)0x55); }
			else if (!x.bytes.empty() && x.bytes[0].speed == 5) { st = x.bytes[0].t - 2000 * MS; seen = x.bytes[0].b; sent = true; if (sync) x.push(std::max(x.bytes[0].t + w1, now()), (uint8_t)0x55); }
		};
		int rv = diag_l1_ioctl(d, DIAG_IOCTL_INITBUS, &in);
		ns_t t1 = now();
		kl.onwait = nullptr;
		std::string c2 = ctx + fmt(" %s addr=%02X sync=%d rv=%d", fast ? "fast" : "slow", in.addr, sync, rv);
		bool okidle = !!(kl.mcr & 2) == !(o & CLR_DTR) && !!(kl.mcr & 4) == !!(o & SET_RTS) && !kl.brk;
		CHECK(okidle, "dumb:lines-left-wrong", "%s mcr=%x", c2.c_str(), kl.mcr);
		if (!rv) { UartCfg u = kl.uart(); CHECK(u.speed == 10400 && u.databits == 8 && u.parity == 'N' && u.stopbits == 1, "dumb:port-settings-lost", "%s now %u %d%c%d", c2.c_str(), u.speed, u.databits, u.parity, u.stopbits); }
		if (fast) {
			CHECK(rv == 0, "dumb:fastinit-failed", "%s", c2.c_str());
			ns_t f0, lo;
			if (o & FASTB) {
				CHECK(kl.bytes.size() == 1 && kl.bytes[0].speed == 360 && kl.bytes[0].b == 0, "dumb:fast-pattern", "%s", c2.c_str());
				if (kl.bytes.empty()) continue;
				f0 = kl.bytes[0].t - 10 * SEC / 360; lo = 9 * SEC / 360;
			} else {
				CHECK(kl.k.size() == 2, "dumb:fast-pattern", "%s %zu edges", c2.c_str(), kl.k.size());
				if (kl.k.size() != 2) continue;
				f0 = kl.k[0].t; lo = kl.k[1].t - f0;
			}
			CHECK(lo >= 24 * MS && lo <= 26 * MS, "dumb:TiniL", "%s low for %llu us", c2.c_str(), (unsigned long long)lo / 1000);
			CHECK(t1 - f0 >= 49 * MS && t1 - f0 <= 51 * MS, "dumb:TWuP", "%s ready %llu us after the falling edge", c2.c_str(), (unsigned long long)(t1 - f0) / 1000);
			if ((o & USE_L) && !(o & FASTB)) {
				ns_t a = 0, b = 0;
				for (auto &e : kl.l) { if (!e.level && !a) a = e.t; if (e.level && a && !b) b = e.t; }
				CHECK(a && b && b - a >= 24 * MS && b - a <= 28 * MS && a <= f0 && b + 1 * MS >= f0 + lo, "dumb:fast-L-line", "%s L low %lld..%lld us", c2.c_str(), (long long)(a - f0) / 1000, (long long)(b - f0) / 1000);
				rep::cover("fast-L");
			} else CHECK(kl.l.empty(), "dumb:L-line-touched", "%s", c2.c_str());
			rep::cover((o & FASTB) ? "fastinits-alternate" : "fastinits");
		} else {
			CHECK(seen == in.addr, "dumb:address-on-K", "%s an ECU on the K line sees %d", c2.c_str(), seen);
			if (o & MAN_BREAK) {
				CHECK(kl.bytes.empty(), "dumb:unexpected-bytes", "%s", c2.c_str());
				// every edge within 2.5% of where it belongs
				for (auto &e : kl.k) { if (e.t < st) continue; double bit = (double)(e.t - st) / (200.0 * MS); double n = bit < 0.5 ? 0 : (double)(long)(bit + 0.5); if (bit < n * 0.975 - 0.001 || bit > n * 1.025 + 0.001) rep::violation("dumb:bit-timing", c2 + fmt(" edge at %.3f bits", bit)); }
			} else CHECK(kl.bytes.size() == 1 && kl.bytes[0].speed == 5, "dumb:address-byte", "%s", c2.c_str());
			if (o & USE_L) {
				ns_t ls; int la = sample5(kl.l, t0, ls);
				CHECK(la == in.addr, "dumb:address-on-L", "%s an ECU on the L line sees %d", c2.c_str(), la);
				if (la == in.addr) {
					ns_t dd = ls > st ? ls - st : st - ls;
					CHECK(dd <= 50 * MS, (o & MAN_BREAK) ? "dumb:L-not-simultaneous" : "dumb:L-after-5bps-byte", "%s L line starts %lld ms after the K line", c2.c_str(), (long long)(ls - st) / 1000000);
				}
				rep::cover("slow-L");
			} else CHECK(kl.l.empty(), "dumb:L-line-touched", "%s", c2.c_str());
			bool late = (o & USE_L) && !(o & MAN_BREAK);
			if (!late) {
				CHECK((rv == 0) == sync, sync ? "dumb:sync-missed" : "dumb:sync-invented", "%s W1=%llu ms", c2.c_str(), (unsigned long long)w1 / MS);
				if (sync && !rv) CHECK(t1 <= st + 2000 * MS + w1 + 5 * MS, "dumb:returned-late", "%s", c2.c_str());
				CHECK(kl.rx.empty(), "dumb:sync-left", "%s", c2.c_str());
			}
			rep::cover((o & MAN_BREAK) ? "slowinits-bitbang" : "slowinits-5bps");
			if (!sync) rep::cover("silent-ecus");
		}
		rep::distinct(fmt("%x %d %d %02X %d", o, proto, fast, in.addr, sync)); rep::sample(c2);
	}
	diag_l1_close(d);
	diag_l0_del(d);
	CHECK(kl.nopen == 0 && mem().live == live, "dumb:leak", "%s open %d blocks %ld", ctx.c_str(), kl.nopen, mem().live - live);
}

// A K-line ECU good enough to hold a whole session.
struct Ecu {
	KLine &k; bool is14230, fastok; uint8_t addr; uint8_t kb1, kb2;
	int st = 0;                // 0 asleep 1 waiting ~kb2 2 talking
	Bytes buf; ns_t last = 0;
	Bytes answer;              // payload answered to any request
	Bytes lastreq; int nreq = 0, nkeep = 0; ns_t lastact = 0, maxidle = 0;
	ns_t t0 = 0; bool bad = false; std::string why;
	Rng r;
	Ecu(KLine &k_, uint64_t s) : k(k_), r(s) {
		k.onbyte = [this](KLine &, ns_t t, uint8_t b, unsigned sp) { rx(t, b, sp); };
		k.onwait = [this](KLine &, ns_t) { poll(); };
	}
	void poll() {
		if (st == 0) {
			ns_t s; int a = sample5(k.k, t0, s);
			if (a == addr && now() >= s + 1950 * MS) wake(std::max(s + 2000 * MS + r.range(60, 250) * MS - 10 * MS, now()));
		}
	}
	void wake(ns_t t) {
		k.push(t, (uint8_t)0x55);
		ns_t t1 = t + r.range(6, 18) * MS; k.push(t1, kb1);
		ns_t t2 = t1 + r.range(2, 18) * MS; k.push(t2, kb2);
		st = 1; last = t2;
	}
	void reply(ns_t t, const Bytes &p, uint8_t to) {
		Bytes f;
		if (is14230) f = {(uint8_t)(0x80 | p.size()), to, addr}; else f = {0x48, 0x6B, addr};
		f.insert(f.end(), p.begin(), p.end());
		f.push_back(sum8(f, f.size()));
		ns_t a = t + r.range(26, 45) * MS;
		for (uint8_t x : f) { k.push(a, x); a += k.byte_ns() + r.range(0, 3) * MS; }
		lastact = a;
	}
	void rx(ns_t t, uint8_t b, unsigned sp) {
		if (sp == 5) { if (st == 0 && b == addr) wake(t + r.range(60, 250) * MS); return; }
		if (sp != 10400) return;
		if (st == 0) {
			// fast init: needs a proper wake-up pattern just before
			if (!is14230 || !fastok) return;
			ns_t fall = 0, rise = 0;
			for (auto &e : k.k) { if (!e.level) fall = e.t; else rise = e.t; }
			for (auto &e : k.bytes) if (e.speed == 360 && e.b == 0) { fall = e.t - 10 * SEC / 360; rise = fall + 9 * SEC / 360; }
			ns_t bs = t - k.byte_ns();
			if (buf.empty()) {
				if (!fall || bs < fall + 48 * MS || bs > fall + 53 * MS || rise - fall < 24 * MS || rise - fall > 26 * MS) { why = fmt("first byte %lld us after falling edge, low %lld us", (long long)(bs - fall) / 1000, (long long)(rise - fall) / 1000); return; }
			}
			buf.push_back(b);
			Bytes sc = {0x81, addr, 0xF1, 0x81}; sc.push_back(sum8(sc, 4));
			if (buf == sc) { buf.clear(); st = 2; reply(t, {0xC1, kb1, kb2}, 0xF1); t0 = now(); }
			else if (buf.size() > 5) buf.clear();
			return;
		}
		if (st == 1) {
			ns_t d = t - k.byte_ns() - last;
			if (b == (uint8_t)~kb2) { if (d < 25 * MS || d > 55 * MS) { why = fmt("~kb2 %llu ms after kb2", (unsigned long long)d / MS); st = 0; t0 = t; return; } k.push(t + r.range(25, 48) * MS, (uint8_t)~addr); st = 2; buf.clear(); lastact = t + 50 * MS; }
			else { why = "wrong ~kb2"; st = 0; t0 = t; }
			return;
		}
		// session
		ns_t bs = t - k.byte_ns();
		if (buf.empty()) { if (bs < lastact + 20 * MS) why = fmt("request only %lld ms after last activity", (long long)(bs - lastact) / 1000000), bad = true; if (bs - lastact > maxidle) maxidle = bs - lastact; if (bs > lastact + 5 * SEC + 100 * MS) { why = fmt("idle for %llu ms: session timed out (P3max 5 s)", (unsigned long long)(bs - lastact) / MS); bad = true; } }
		else if (bs < last + 4 * MS) { why = "inter-byte gap under 5 ms"; bad = true; }
		last = t;
		buf.push_back(b);
		lastact = t;
		size_t need;
		if (is14230) { if (buf.size() < 4) return; size_t n = buf[0] & 0x3f; need = (n ? n + 3 : buf[3] + 4) + 1; }
		else { need = exp9141; }
		if (buf.size() < need) return;
		Bytes q; q.swap(buf);
		if (q.back() != sum8(q, q.size() - 1)) { why = "bad checksum from tester"; bad = true; return; }
		size_t h = 3; if (is14230 && !(q[0] & 0x3f)) h = 4;
		Bytes p(q.begin() + h, q.end() - 1);
		if (p != expect) {
			nkeep++;
			if (is14230) reply(t, p.size() && p[0] == 0x3E ? Bytes{0x7E} : p.size() && p[0] == 0x82 ? Bytes{0xC2} : Bytes{0x7F, p.empty() ? (uint8_t)0 : p[0], 0x11}, q[2]);
			else reply(t, {0x41, 0, 0, 0, 0, 0}, 0xF1);
			return;
		}
		lastreq = p; nreq++;
		reply(t, answer, q[2]);
	}
	size_t exp9141 = 0; Bytes expect;
};
static void session(Rng &r, long idx) {
	KLine kl; int o = rnd_opts(r);
	if ((o & USE_L) && !(o & MAN_BREAK)) o &= ~(USE_L | INV_L);
	kl.useL = o & USE_L; kl.invL = o & INV_L;
	budget(2000 * SEC, 20000000);
	long live = mem().live; int tm = armed_timers();
	bool p14230 = r.chance(60); bool fast = p14230 && r.chance(50);
	Ecu e(kl, r.next());
	e.is14230 = p14230; e.addr = r.chance(30) ? 0x33 : r.pick({0x10, 0x01, 0x7a, 0xef, 0x80});
	e.fastok = fast;
	if (p14230) { e.kb1 = r.pick({0xEF, 0x6F, 0xE9, 0x6B}); e.kb2 = 0x8F; } else e.kb1 = e.kb2 = r.pick({0x08, 0x94});
	struct diag_l0_device *d = mk(o);
	int l1 = p14230 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141;
	std::string ctx = fmt("opts=%X %s %s ECU %02X kb %02X %02X", o, p14230 ? "14230" : "9141", fast ? "fast" : "slow", e.addr, e.kb1, e.kb2);
	if (!d || diag_l2_open(d, l1)) { rep::violation("dumb:open", ctx); return; }
	e.t0 = now();
	struct diag_l2_conn *c = diag_l2_StartCommunications(d, p14230 ? DIAG_L2_PROT_ISO14230 : DIAG_L2_PROT_ISO9141, fast ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT, 10400, e.addr, 0xF1);
	if (!c) { rep::violation("dumb:session-refused", ctx + " ECU state " + fmt("%d ", e.st) + e.why); diag_l2_close(d); diag_l0_del(d); return; }
	rep::cover(fmt("sessions-%s-%s", p14230 ? "14230" : "9141", fast ? "fast" : (o & MAN_BREAK) ? "bitbang" : "5bps"));
	for (int k = 0; k < 4; k++) {
		Bytes q = r.bytes(r.range(1, p14230 ? 20 : 7));
		q[0] = 0x21;
		e.expect = q; e.exp9141 = q.size() + 4;
		e.answer = r.bytes(r.range(2, p14230 ? 30 : 7)); e.answer[0] = 0x61;
		int n0 = e.nreq;
		TMsg m(q, e.addr, 0xF1);
		int err = 0;
		struct diag_msg *a = diag_l2_request(c, &m.m, &err);
		auto g = chain(a); if (a) diag_freemsg(a);
		std::string c2 = ctx + fmt(" request [%s] answer [%s]: err=%d got %s", hex(q).c_str(), hex(e.answer).c_str(), err, show(g).c_str());
		CHECK(e.nreq == n0 + 1, "dumb:request-count", "%s seen %d times %s", c2.c_str(), e.nreq - n0, e.why.c_str());
		CHECK(g.size() == 1 && g[0].d == e.answer && g[0].src == e.addr && !(g[0].fmt & DIAG_FMT_BADCS), "dumb:wrong-answer", "%s", c2.c_str());
		rep::cover("exchanges"); rep::distinct(c2); rep::sample(c2);
		if (p14230 && r.chance(40)) { int k0 = e.nkeep; e.exp9141 = 0; ns_t w = r.range(6, 20) * SEC; idle(w); CHECK(e.nkeep > k0, "dumb:no-keepalive", "%s idle %llu s", ctx.c_str(), (unsigned long long)(w / SEC)); rep::cover("idle-periods"); rep::cover("keepalives-seen", e.nkeep - k0); }
	}
	CHECK(!e.bad, "dumb:ecu-complaint", "%s: %s", ctx.c_str(), e.why.c_str());
	diag_l2_StopCommunications(c);
	diag_l2_close(d);
	diag_l0_del(d);
	CHECK(kl.nopen == 0 && mem().live == live && armed_timers() == tm, "dumb:leak", "%s open %d blocks %ld", ctx.c_str(), kl.nopen, mem().live - live);
}
std::vector<Mode> modes() { return {{"wave", wave, stack_init}, {"session", session, stack_init}}; }
