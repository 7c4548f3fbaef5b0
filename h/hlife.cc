// Life of links and connections: several adapters at once, opened, connected,
// used, left idle, disconnected and closed in every order, with any step made
// to fail (adapter, bus, memory).
#include "l2util.h"
#include <memory>
#include <errno.h>
#include <unistd.h>
extern "C" {
#include "diag_cfg.h"
#include "diag_l3.h"
int diag_end(void);
extern int diag_l2_debug, diag_l1_debug, diag_l0_debug;
}
using namespace vt;
enum K { RAW, S9141, MON9141, F14230, MON14230, J1850, D2, MB1, VAG, NK };
static const char *kn[] = {"RAW", "ISO9141", "ISO9141-monitor", "ISO14230", "ISO14230-monitor", "J1850", "D2", "MB1", "VAG"};
static void ck(Bytes &b) { b.push_back(sum8(b, b.size())); }
struct Dev {
	FakeL0 f; K k; int l1, l2; unsigned type, br; uint8_t tgt, src;
	int no;
	// model
	bool linked = false; struct diag_l2_conn *c = nullptr; struct diag_l3_conn *l3 = nullptr; std::string l3n;
	// faults
	int send_in = -1, recv_in = -1, ioctl_in = -1; bool open_bad = false, persist = false; int ferr = DIAG_ERR_GENERAL;
	bool fired = false;
	bool mute = false, selfka;
	int answers = 0;
	static int mask(K k) { return k == RAW ? DIAG_L1_RAW : k == J1850 ? DIAG_L1_J1850_VPW : k == F14230 || k == MON14230 ? DIAG_L1_ISO14230 : DIAG_L1_ISO9141; }
	static uint32_t fl(K k) {
		switch (k) {
		case J1850: return DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM;
		case D2: return DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT;
		case VAG: return DIAG_L1_DOESL2FRAME | DIAG_L1_DOESSLOWINIT | DIAG_L1_DOESP4WAIT;
		default: return DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST;
		}
	}
	int fault(int &n) {
		if (n < 0) return 0;
		if (n > 0) { n--; return 0; }
		if (!persist) n = -1;
		fired = true;
		return ferr;
	}
	Dev(int no_, K k_, Rng &r) : f(mask(k_) | (r.chance(50) ? DIAG_L1_RAW : 0), fl(k_)), k(k_), l1(mask(k_)), no(no_) {
		static const int p[] = {DIAG_L2_PROT_RAW, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_D2, DIAG_L2_PROT_MB1, DIAG_L2_PROT_VAG};
		l2 = p[k]; selfka = r.chance(20); if (selfka) f.flags |= DIAG_L1_DOESKEEPALIVE;
		type = k == MON9141 || k == MON14230 ? DIAG_L2_TYPE_MONINIT : k == F14230 ? DIAG_L2_TYPE_FASTINIT : k == J1850 ? DIAG_L2_TYPE_FUNCADDR : DIAG_L2_TYPE_SLOWINIT;
		tgt = k == S9141 || k == MON9141 ? 0x33 : k == J1850 ? 0x6a : r.byte(); src = k == D2 ? 0x13 : 0xf1;
		br = k == MB1 ? 9600 : 10400;
		if (k == MB1 && tgt == 0) tgt = 1;
		f.open_fault = [this](FakeL0 &) { if (open_bad) { fired = true; return ferr; } return 0; };
		f.send_fault = [this](FakeL0 &x) { if (now() - x.pend_t > 60 * MS) x.pend.clear(); return fault(send_in); }; // an ECU forgets a fragment
		f.recv_fault = [this](FakeL0 &) { return fault(recv_in); };
		f.ioctl_hook = [this](FakeL0 &, unsigned, void *) { return fault(ioctl_in); };
		f.initbus = [this](FakeL0 &x, struct diag_l1_initbus_args *a) {
			x.clear();
			advance(500 * MS);
			if (mute) return k == D2 ? (int)DIAG_ERR_TIMEOUT : 0;
			if (k == S9141) { x.push(now() + 10 * MS, Bytes{8}); x.push(now() + 16 * MS, Bytes{8}); }
			if (k == D2) { a->kb1 = 0xd3; a->kb2 = 0xb0; }
			if (k == MB1) { x.push(now() + 20 * MS, Bytes{0xc2}); x.push(now() + 30 * MS, Bytes{0xcd}); }
			if (k == VAG) { x.frame(now() + 10 * MS, Bytes{1}); x.frame(now() + 18 * MS, Bytes{0x8a}); x.frame(now() + 60 * MS, Bytes{4, 1, 0xf6, 0x41, 3}); }
			return 0;
		};
		f.ecu = [this](FakeL0 &x, const Bytes &b) { if (!mute) ecu(x, b); };
	}
	void ecu(FakeL0 &x, const Bytes &b) {
		ns_t t = now() + 30 * MS;
		switch (k) {
		case RAW: { Bytes o = b; for (auto &y : o) y ^= 0x40; x.push(t, o); answers++; break; }
		case S9141:
			if (b.size() == 1) { x.push(t, Bytes{(uint8_t)~tgt}); return; }
			if (b.size() > 5) { Bytes o = {0x48, 0x6b, 0x10, (uint8_t)(b[3] | 0x40)}; o.insert(o.end(), b.begin() + 4, b.end() - 1); ck(o); x.push(t, o); answers++; }
			break;
		case F14230: {
			if (b.size() < 5) return;
			size_t h = 3;
			Bytes o = {0x80, src, tgt};
			uint8_t sid = b[h];
			if (sid == 0x81) { o.insert(o.end(), {0xc1, 0xef, 0x8f}); }
			else { o.push_back(sid | 0x40); o.insert(o.end(), b.begin() + h + 1, b.end() - 1); }
			o[0] += o.size() - 3; ck(o); x.push(t, o); answers++;
			break; }
		case J1850: { if (b.size() < 4) return; Bytes o = {0x48, 0x6b, 0x10, (uint8_t)(b[3] | 0x40)}; o.insert(o.end(), b.begin() + 4, b.end()); x.frame(t, o); answers++; break; }
		case D2: {
			if (b.size() < 4) return;
			Bytes o = {0, src, tgt};
			if (b[3] == 0xa0) o.push_back(0xe0);
			else if (b[3] == 0xa1) o.push_back(0xe1);
			else { o.push_back(b[3] | 0x40); o.insert(o.end(), b.begin() + 4, b.end()); }
			o[0] = 0x80 + o.size() - 2; ck(o); x.frame(t, o); answers++;
			break; }
		case MB1: {
			if (b.size() < 5) return;
			Bytes o = {tgt, (uint8_t)b[1], (uint8_t)b[2]}; o.insert(o.end(), b.begin() + 3, b.end() - 2);
			unsigned s = 0; for (uint8_t y : o) s += y; o.push_back(s); o.push_back(s >> 8); x.push(t, o); answers++;
			break; }
		case VAG:
			if (b.size() < 4) return;
			if (b[2] == 6) return;
			x.frame(t, Bytes{3, (uint8_t)(b[1] + 1), 9, 3}); answers++;
			break;
		default: break;
		}
	}
	bool talks() const { return k != MON9141 && k != MON14230; }
	Bytes request(Rng &r) const {
		switch (k) {
		case S9141: case J1850: return {1, (uint8_t)r.range(1, 0x7f)};
		case F14230: return {0x21, r.byte()};
		case D2: return {0xa5, r.byte(), 1};
		case MB1: return {0x03, r.byte(), r.byte()};
		default: return {0x22, r.byte(), r.byte()};
		}
	}
	struct Act { unsigned long s, r, i; int o, c; bool operator==(const Act &x) const { return s == x.s && r == x.r && i == x.i && o == x.o && c == x.c; } };
	Act act() const { return {f.nsend, f.nrecv, f.nioctl, f.opens, f.closes}; }
	bool faulty() const { return open_bad || send_in >= 0 || recv_in >= 0 || ioctl_in >= 0; }
	void heal() { open_bad = mute = persist = fired = false; send_in = recv_in = ioctl_in = -1; }
};
static std::string g_ctx;
static std::vector<std::unique_ptr<Dev>> D;
#define CK(c, key, f, ...) CHECK(c, key, "%s: " f, g_ctx.c_str(), ##__VA_ARGS__)
static void others_quiet(int me, const std::vector<Dev::Act> &a, const char *what) {
	for (size_t i = 0; i < D.size(); i++) if ((int)i != me) CK(D[i]->act() == a[i], "life:other-adapter-touched", "%s on adapter %d touched adapter %zu", what, me, i);
}
static std::vector<Dev::Act> acts() { std::vector<Dev::Act> v; for (auto &d : D) v.push_back(d->act()); return v; }
// a request over this connection, answered by its ECU
static void talk(Dev &d, Rng &r, const char *when) {
	if (!d.c || !d.talks()) return;
	d.f.q.clear(); d.f.pend.clear();
	idle(200 * MS);
	Bytes q = d.request(r);
	TMsg m(q, d.tgt, d.src);
	m.m.type = 0x07;
	if (d.k == VAG) { m.m.len = 0; }
	if (d.k == RAW) m.m.len = q.size();
	auto a = acts();
	int e = 0, n0 = d.answers;
	struct diag_msg *x = diag_l2_request(d.c, &m.m, &e);
	others_quiet(d.no, a, "a request");
	CK(x != nullptr && d.answers > n0, "life:healthy-connection-dead", "request [%s] on %s (adapter %d) %s got nothing, error %d", hex(q).c_str(), kn[d.k], d.no, when, e);
	if (x) {
		Bytes got(x->data, x->data + x->len), w = q;
		switch (d.k) {
		case RAW: for (auto &y : w) y ^= 0x40; break;
		case VAG: w.clear(); break;
		case MB1: break;
		default: w[0] |= 0x40;
		}
		if (d.k == D2) CK(got.size() && got[0] == w[0], "life:wrong-answer", "[%s] for [%s] on %s", hex(got).c_str(), hex(q).c_str(), kn[d.k]);
		else CK(got == w, "life:wrong-answer", "[%s] for [%s] on %s", hex(got).c_str(), hex(q).c_str(), kn[d.k]);
		diag_freemsg(x);
	}
	rep::cover("requests");
}
static bool arm(Dev &d, Rng &r, int pct) {
	d.heal();
	if (!r.chance(pct)) return false;
	d.ferr = r.pick({DIAG_ERR_GENERAL, DIAG_ERR_BADIFADAPTER, DIAG_ERR_BUSERROR, DIAG_ERR_TIMEOUT});
	d.persist = r.chance(50);
	switch (r.below(5)) {
	case 0: d.send_in = r.below(6); break;
	case 1: d.recv_in = r.below(8); break;
	case 2: d.ioctl_in = r.below(4); break;
	case 3: d.mute = true; break;
	default: fail_alloc_in = r.below(6); break;
	}
	return true;
}
static bool disarm(Dev &d) { bool was = fail_alloc_in < 0; fail_alloc_in = -1; bool f = d.fired || d.mute; d.heal(); (void)was; return f; }
static std::string fdesc(Dev &d) { return fmt("send_in %d recv_in %d ioctl_in %d mute %d alloc_in %ld err %d persist %d", d.send_in, d.recv_in, d.ioctl_in, d.mute, fail_alloc_in, d.ferr, d.persist); }
static void l2close(Dev &d, Rng &) {
	auto a = acts();
	int rv = diag_l2_close(&d.f.dev);
	others_quiet(d.no, a, "closing");
	if (d.c) { CK(rv < 0 && d.act() == a[d.no], "life:closed-under-connection", "adapter %d closed (rv %d) with a connection on it", d.no, rv); rep::cover("close-refused"); return; }
	CK(rv == 0 && d.f.closes == a[d.no].c + (d.linked ? 1 : 0) && d.f.isopen == 0, "life:close", "adapter %d: rv %d, closed %d times, was %s", d.no, rv, d.f.closes - a[d.no].c, d.linked ? "open" : "not open");
	d.linked = false;
	rep::cover("closes");
}
static void l3stop(Dev &d) {
	if (!d.l3) return;
	auto a = acts(); long live = mem().live;
	int rv = diag_l3_stop(d.l3); d.l3 = nullptr;
	CK(rv == 0 && acts() == a && mem().live < live, "life:l3-stop", "rv %d", rv);
	rep::cover("l3-stops");
}
static void stop(Dev &d, Rng &r) {
	if (!d.c) return;
	l3stop(d);
	bool bad = arm(d, r, 25);
	std::string fd = fdesc(d);
	auto a = acts();
	long live = mem().live;
	int rv = diag_l2_StopCommunications(d.c); d.c = nullptr;
	disarm(d);
	others_quiet(d.no, a, "disconnecting");
	CK(rv == 0 && d.f.opens == a[d.no].o && d.f.closes == a[d.no].c && mem().live < live, "life:stop", "rv %d (%s)", rv, bad ? fd.c_str() : "healthy");
	rep::cover("stops");
}
static void start(Dev &d, Rng &r) {
	auto a = acts();
	long live = mem().live;
	int p = d.l2;
	bool wrongp = r.chance(5);
	if (wrongp) p = r.pick({77, -1, 1000, DIAG_L2_PROT_CAN});
	bool had = d.c != nullptr, bad = false;
	if (had && !wrongp && r.chance(50)) p = r.pick({DIAG_L2_PROT_RAW, DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_VAG, DIAG_L2_PROT_D2});
	if (d.linked && !had && !wrongp) bad = arm(d, r, 40); else if (r.chance(5) && d.linked && !had) { fail_alloc_in = 0; bad = true; }
	std::string fd = fdesc(d);
	ns_t t0 = now();
	std::string out = capture([&]() {
		struct diag_l2_conn *c = diag_l2_StartCommunications(&d.f.dev, p, d.type, d.br, d.tgt, d.src);
		bool fired = fail_alloc_in < 0;
		(void)fired;
		disarm(d);
		others_quiet(d.no, a, "connecting");
		if (!d.linked || had || wrongp) {
			CK(!c && d.act() == a[d.no], "life:connected-wrongly", "%s: connection %p, adapter %s", kn[d.k], (void *)c, d.act() == a[d.no] ? "left alone" : "touched");
			CK(mem().live == live, "life:leak-refused", "%ld blocks", mem().live - live);
			rep::cover("starts-refused");
			if (c && !had) d.c = c;
			return;
		}
		if (!bad) CK(c, "life:refused", "%s start refused on a healthy adapter", kn[d.k]);
		if (!c) {
			CK(mem().live == live, "life:leak-failed-start", "%s: %ld blocks left (%s)", kn[d.k], mem().live - live, fd.c_str());
			CK(d.f.opens == a[d.no].o && d.f.closes == a[d.no].c, "life:link-touched", "%s: failed start opened or closed the adapter (%s)", kn[d.k], fd.c_str());
			rep::cover("starts-failed");
			return;
		}
		d.c = c;
		rep::cover(fmt("started-%s", kn[d.k]));
	});
	CK(now() - t0 < 120 * SEC, "life:start-takes-forever", "%s (%s)", kn[d.k], fd.c_str());
	d.f.clear();
	if (d.c && !had) talk(d, r, "just started");
}
static void lopen(Dev &d, Rng &r) {
	auto a = acts();
	long live = mem().live;
	int proto = d.l1;
	bool wrong = r.chance(10);
	if (wrong) proto = r.pick({(int)DIAG_L1_CAN, (int)DIAG_L1_J1850_PWM, (int)DIAG_L1_RES1, 0});
	bool allocbad = false;
	d.heal();
	if (r.chance(15)) { d.open_bad = true; d.ferr = r.pick({DIAG_ERR_GENERAL, DIAG_ERR_BADIFADAPTER}); }
	else if (r.chance(12)) { fail_alloc_in = 0; allocbad = true; }
	bool ob = d.open_bad;
	int rv; capture([&]() { rv = diag_l2_open(&d.f.dev, proto); });
	fail_alloc_in = -1; d.heal();
	others_quiet(d.no, a, "opening");
	if (d.linked) {
		CK(d.f.opens == a[d.no].o && d.f.closes == a[d.no].c && (rv == 0) == (proto == d.l1), "life:reopen", "open while open: rv %d, protocol %s, adapter opened %d closed %d times", rv, wrong ? "different" : "same", d.f.opens - a[d.no].o, d.f.closes - a[d.no].c);
		CK(mem().live == live, "life:reopen-leak", "%ld blocks", mem().live - live);
		rep::cover("reopens");
		return;
	}
	bool want = !wrong && !ob && !allocbad;
	CK((rv == 0) == want && rv <= 0, "life:open", "rv %d; wrong protocol %d, adapter failure %d, out of memory %d", rv, wrong, ob, allocbad);
	if (rv == 0) { d.linked = true; CK(d.f.isopen == 1 && d.f.opens == a[d.no].o + 1, "life:open-count", "opened %d times", d.f.opens - a[d.no].o); rep::cover("opens"); }
	else {
		CK(d.f.isopen == 0, "life:left-open", "adapter left open by a failed open (rv %d)", rv);
		CK(mem().live == live, "life:leak-failed-open", "%ld blocks", mem().live - live);
		if (wrong) CK(d.f.opens == a[d.no].o, "life:open-unsupported", "adapter opened for a protocol it doesn't have");
		rep::cover("opens-failed");
	}
}
static void l3start(Dev &d, Rng &r) {
	if (!d.c || d.l3) return;
	bool vagonly = d.k == VAG;
	std::string n = r.chance(15) ? r.pick({"NOSUCH", "", "SAEJ19799", "ISO1423"}) : vagonly ? "VAG" : d.k == S9141 || d.k == F14230 || d.k == J1850 ? r.pick({"SAEJ1979", "ISO14230", "saej1979", "VAG"}) : r.pick({"ISO14230", "VAG"});
	bool known = n == "ISO14230" || n == "VAG" || !strcasecmp(n.c_str(), "SAEJ1979");
	bool vag = n == "VAG";
	idle(100 * MS);
	auto a = acts(); long live = mem().live;
	bool bad = r.chance(25);
	if (bad) fail_alloc_in = r.below(strcasecmp(n.c_str(), "SAEJ1979") ? 1 : 4);
	long fi = fail_alloc_in;
	struct diag_l3_conn *c = nullptr;
	capture([&]() { c = diag_l3_start(n.c_str(), d.c); });
	fail_alloc_in = -1;
	others_quiet(d.no, a, "an L3 start");
	bool can = known && (!vag || d.k == VAG);
	if (!known) CK(!c && d.act() == a[d.no], "life:l3-unknown", "'%s' started", n.c_str());
	if (can && !bad) CK(c, "life:l3-refused", "%s on %s", n.c_str(), kn[d.k]);
	if (known && !can) CK(!c, "life:l3-wrong-keybytes", "VAG started on %s", kn[d.k]);
	if (!c) rep::cover("l3-failed");
	else { d.l3 = c; d.l3n = n; rep::cover("l3-starts"); }
}
static void idleperiod(Rng &r) {
	auto a = acts();
	bool healthy = true;
	for (auto &d : D) { d->f.tx.clear(); healthy &= !d->mute && d->send_in < 0 && d->recv_in < 0 && d->ioctl_in < 0; }
	ns_t t0 = now();
	ns_t dt = (ns_t)r.range(100, 20000) * MS;
	std::string o = capture([&]() { idle(dt); });
	for (auto &d : D) {
		bool ka = d->c && (d->k == F14230 || d->k == D2 || d->k == VAG || d->k == MB1);
		bool l3ka = d->l3 && !strcasecmp(d->l3n.c_str(), "SAEJ1979");
		if (!d->c) CK(d->act() == a[d->no], "life:traffic-without-connection", "adapter %d (%s) used while idle without a connection", d->no, kn[d->k]);
		else if (!d->talks()) CK(d->f.nsend == a[d->no].s, "life:monitor-sends", "adapter %d (%s) sent [%s]", d->no, kn[d->k], hex(d->f.sent()).c_str());
		else if ((!ka && !l3ka) || d->selfka) CK(d->f.nsend == a[d->no].s, "life:unwanted-keepalive", "adapter %d (%s) sent [%s]", d->no, kn[d->k], hex(d->f.sent()).c_str());
		else if (dt > 6 * SEC) CK(d->f.nsend > a[d->no].s, "life:no-keepalive", "adapter %d (%s%s) idle for %llu ms without anything sent", d->no, kn[d->k], l3ka ? " with SAEJ1979" : "", (unsigned long long)(dt / MS));
		if (d->c && d->f.nsend > a[d->no].s) rep::cover(fmt("keepalive-%s", kn[d->k]));
		if (d->c && d->selfka && (ka || l3ka)) rep::cover("adapter-keeps-alive");
		if (healthy && d->c && d->talks() && (ka || l3ka) && !d->selfka) {
			// never silent for longer than an ECU waits, and no more traffic than that takes
			ns_t last = t0, maxgap = 0; int n = 0;
			for (auto &e : d->f.tx) {
				ns_t g = e.t - last;
				if (g > maxgap) maxgap = g;
				if (g > 150 * MS) { if (n && d->k != VAG) CK(g >= 1500 * MS, "life:keepalive-needless", "adapter %d (%s) sends again after only %llu ms", d->no, kn[d->k], (unsigned long long)(g / MS)); n++; }
				last = e.t;
			}
			if (now() - last > maxgap) maxgap = now() - last;
			CK(maxgap <= 5000 * MS, "life:keepalive-late", "adapter %d (%s%s) silent for %llu ms", d->no, kn[d->k], l3ka ? " with SAEJ1979" : "", (unsigned long long)(maxgap / MS));
			if (n > 1) rep::cover("keepalive-gaps", n - 1);
		}
	}
	rep::cover("idle-periods");
}
static void ioctls(Dev &d, Rng &r) {
	if (!d.c) return;
	auto a = acts();
	int t = -1, l2f = -1; uint32_t f = 0; struct diag_l2_data dd; memset(&dd, 0xee, sizeof dd);
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_GET_L1_TYPE, &t) == 0 && t == d.f.drv.l1proto_mask, "life:ioctl-type", "%X", t);
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_GET_L1_FLAGS, &f) == 0 && f == d.f.flags, "life:ioctl-flags", "%X", f);
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_GET_L2_FLAGS, &l2f) == 0 && l2f == d.c->l2proto->diag_l2_flags, "life:ioctl-l2flags", "%X", l2f);
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_GET_L2_DATA, &dd) == 0, "life:ioctl-data", "failed");
	if (d.k == S9141) CK(dd.kb1 == 8 && dd.kb2 == 8, "life:ioctl-keybytes", "%02X %02X", dd.kb1, dd.kb2);
	if (d.k == F14230) CK(dd.kb1 == 0xef && dd.kb2 == 0x8f, "life:ioctl-keybytes", "%02X %02X", dd.kb1, dd.kb2);
	if (d.k == VAG) CK(dd.kb1 == 1 && dd.kb2 == 0x8a, "life:ioctl-keybytes", "%02X %02X", dd.kb1, dd.kb2);
	CK(acts() == a, "life:ioctl-query-touched-adapter", "%s", kn[d.k]);
	uint32_t keep = d.f.flags, lk = d.c->diag_link->l1flags;
	// what an adapter doesn't need isn't forwarded to it
	uint32_t x = (d.selfka ? DIAG_L1_DOESKEEPALIVE : 0) | (r.chance(50) ? DIAG_L1_NOTTY : 0) | (r.chance(50) ? DIAG_L1_AUTOSPEED : 0) | (r.chance(50) ? DIAG_L1_DOESKEEPALIVE : 0);
	d.f.flags |= x; d.c->diag_link->l1flags |= x;
	struct diag_serial_settings s = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	unsigned long n0 = d.f.nioctl;
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_SETSPEED, &s) == 0 && d.f.nioctl - n0 == !(x & (DIAG_L1_NOTTY | DIAG_L1_AUTOSPEED)), "life:ioctl-speed", "flags %X", x);
	n0 = d.f.nioctl;
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_IFLUSH, nullptr) == 0 && d.f.nioctl - n0 == !(x & DIAG_L1_NOTTY), "life:ioctl-flush", "flags %X", x);
	n0 = d.f.nioctl;
	TMsg w(Bytes{1, 2});
	CK(diag_l2_ioctl(d.c, DIAG_IOCTL_SETWM, &w.m) == 0 && d.f.nioctl - n0 == !!(x & DIAG_L1_DOESKEEPALIVE), "life:ioctl-wm", "flags %X", x);
	n0 = d.f.nioctl;
	CK(diag_l2_ioctl(d.c, 0x7777, nullptr) < 0 && d.f.nioctl == n0 + 1, "life:ioctl-unknown", "accepted");
	d.f.flags = keep; d.c->diag_link->l1flags = lk;
	others_quiet(d.no, a, "an ioctl");
	rep::cover("ioctls");
}
static void badtalk(Dev &d, Rng &r) {
	if (!d.c || !d.talks() || d.k == VAG) return;
	idle(200 * MS);
	Bytes q = d.request(r);
	bool what = r.chance(50);
	TMsg m(q, d.tgt, d.src);
	bool bad = arm(d, r, 80);
	std::string fd = fdesc(d);
	auto a = acts();
	long live = mem().live;
	int e = 12345, rv = 0;
	struct diag_msg *x = nullptr;
	RecvSink sk;
	ns_t t0 = now();
	capture([&]() {
		if (what) x = diag_l2_request(d.c, &m.m, &e);
		else { rv = diag_l2_send(d.c, &m.m); if (rv == 0) rv = diag_l2_recv(d.c, 200, sink_cb, &sk); }
		disarm(d);
	});
	others_quiet(d.no, a, "a failing request");
	CK(now() - t0 < 120 * SEC, "life:request-takes-forever", "%s (%s)", kn[d.k], fd.c_str());
	if (what) CK(x || (e < 0), "life:no-error-code", "%s: no answer, error code %d (%s)", kn[d.k], e, fd.c_str());
	else CK(rv <= 0, "life:return-code", "%s: %d (%s)", kn[d.k], rv, fd.c_str());
	if (x) diag_freemsg(x);
	(void)bad; (void)live;
	rep::cover("troubled-requests");
	// the trouble over, things work again
	d.f.clear();
	idle(600 * MS);
	d.f.clear();
	capture([&]() { diag_l2_ioctl(d.c, DIAG_IOCTL_IFLUSH, nullptr); });
	talk(d, r, "after trouble");
}
static void run(Rng &r, long) {
	long live0 = mem().live; int tm0 = armed_timers();
	g_ctx.clear();
	D.clear();
	int nd = r.range(1, 3);
	for (int i = 0; i < nd; i++) D.emplace_back(new Dev(i, (K)r.below(NK), r));
	for (auto &d : D) g_ctx += std::string(kn[d->k]) + " ";
	budget(20000 * SEC, 20000000);
	int n = r.range(10, 40);
	std::string ops;
	long base = mem().live;
	for (int i = 0; i < n; i++) {
		Dev &d = *r.pick(D);
		int o = r.below(20);
		if (!d.linked && r.chance(60)) o = 0;
		else if (d.linked && !d.c && r.chance(60)) o = 2;
		ops += fmt("%d%c", d.no, "ooSSScCsttTTTxXiiIa1"[o]);
		g_ctx = g_ctx.substr(0, g_ctx.find('|')) + "| " + ops;
		switch (o) {
		case 0: case 1: lopen(d, r); break;
		case 2: case 3: case 4: start(d, r); break;
		case 5: capture([&]() { l2close(d, r); }); break;
		case 6: case 7: capture([&]() { stop(d, r); }); if (r.chance(50)) idleperiod(r); break;
		case 8: case 9: case 10: talk(d, r, "in use"); break;
		case 11: case 12: case 13: badtalk(d, r); break;
		case 14: case 15: idleperiod(r); break;
		case 16: ioctls(d, r); break;
		case 17: case 18: l3start(d, r); break;
		case 19: l3stop(d); break;
		}
	}
	for (auto &d : D) { capture([&]() { stop(*d, r); l2close(*d, r); }); }
	auto a = acts();
	idle(10 * SEC);
	CK(acts() == a, "life:used-after-close", "adapter used after everything was closed");
	for (auto &d : D) CK(d->f.isopen == 0 && d->f.opens == d->f.closes, "life:unbalanced", "adapter %d: opened %d, closed %d times", d->no, d->f.opens, d->f.closes);
	CK(mem().live == base, "life:leak", "%ld blocks left", mem().live - base);
	CK(armed_timers() == tm0, "life:timers", "%d timers", armed_timers());
	D.clear();
	rep::distinct(g_ctx);
	rep::sample(g_ctx);
	(void)live0;
}
// starting and ending the whole library, any number of times
static void initend(Rng &r, long) {
	g_ctx = "library start/end";
	D.clear();
	long live0 = mem().live;
	for (int i = 0, n = r.range(1, 4); i < n; i++) {
		CK(armed_timers() == 1, "life:init-timer", "%d timers running", armed_timers());
		if (r.chance(30)) { CK(diag_init() == 0 && armed_timers() == 1, "life:init-twice", "%d timers", armed_timers()); }
		D.emplace_back(new Dev(0, (K)r.pick({S9141, F14230, J1850, D2, MB1, RAW}), r));
		g_ctx = std::string("library start/end ") + kn[D[0]->k];
		budget(1000 * SEC, 3000000);
		Dev &d = *D[0];
		if (r.chance(80)) {
			CK(diag_l2_open(&d.f.dev, d.l1) == 0, "life:init-open", "failed"); d.linked = true;
			capture([&]() { d.c = diag_l2_StartCommunications(&d.f.dev, d.l2, d.type, d.br, d.tgt, d.src); });
			CK(d.c, "life:init-start", "%s refused", kn[d.k]);
			talk(d, r, "after a restart");
			capture([&]() { idle(9 * SEC); });
			if (!d.selfka && (d.k == F14230 || d.k == D2 || d.k == MB1)) { size_t n0 = d.f.tx.size(); idle(5 * SEC); CK(d.f.tx.size() > n0, "life:no-keepalive-after-restart", "%s", kn[d.k]); }
			talk(d, r, "after idling");
			capture([&]() { if (d.c) diag_l2_StopCommunications(d.c); d.c = nullptr; diag_l2_close(&d.f.dev); });
		}
		int rv; capture([&]() { rv = diag_end(); });
		CK(rv == 0, "life:end", "rv %d", rv);
		CK(armed_timers() == 0, "life:end-timer", "%d timers left", armed_timers());
		if (r.chance(30)) { capture([&]() { rv = diag_end(); }); CK(rv == 0 && armed_timers() == 0, "life:end-twice", "rv %d", rv); }
		idle(3 * SEC);
		CK(diag_init() == 0, "life:init", "failed");
		D.clear();
		rep::cover("library-restarts");
	}
	CK(mem().live == live0, "life:initend-leak", "%ld blocks", mem().live - live0);
	rep::distinct(g_ctx);
}
// every kind of adapter, created, configured, opened and closed, with memory,
// the serial port or the adapter failing at any step
struct Mad : Tty {
	Rng r; int mode; std::string line;
	Mad(uint64_t s, int m) : Tty("/dev/ttyVT0"), r(s), mode(m) {}
	void on_tx(ns_t t, uint8_t b) override {
		if (mode == 1) push(t + r.range(0, 5) * MS, r.byte());
		else if (mode == 2) push(t + r.range(0, 2) * MS, b);
		else if (mode == 3) {
			if (b != 0x0d) { line += (char)b; return; }
			std::string a = line.find("ATZ") != line.npos || line.find("ATI") != line.npos ? "\r\rELM327 v1.4\r\r>" : "OK\r\r>";
			ns_t u = t + 5 * MS;
			for (char c : a) { push(u, c); u += byte_ns(); }
			line.clear();
		}
		else if (mode == 4) push(t + 3 * MS, 0xff);
	}
};
static std::string simfile() {
	static std::string n;
	if (n.empty()) {
		n = std::string(getenv("SCRATCH") ? getenv("SCRATCH") : "/tmp") + fmt("/life-%d.db", (int)getpid());
		FILE *f = fopen(n.c_str(), "w"); fputs("RQ 0x68 0x6A 0xF1 0x01 0x00\nRP 0x48 0x6B 0x10 0x41 0x00 0xBF cks1\n", f); fclose(f);
	}
	return n;
}
static void adapters(Rng &r, long) {
	std::vector<const struct diag_l0 *> L;
	for (int i = 0; l0dev_list[i]; i++) L.push_back(l0dev_list[i]);
	const struct diag_l0 *l = r.pick(L);
	int mode = r.below(5);
	budget(4000 * SEC, 40000000);
	Mad t(r.next(), mode);
	int nfd0 = t.nopen;
	long live0 = mem().live;
	g_ctx = l->shortname;
	std::string trail;
	for (int round = 0, nr = r.range(1, 3); round < nr; round++) {
		long fa = r.chance(40) ? (long)r.below(12) : -1;
		fail_alloc_in = fa;
		struct diag_l0_device *d = nullptr;
		capture([&]() { d = diag_l0_new(l->shortname); });
		bool fired = fa >= 0 && fail_alloc_in < 0;
		fail_alloc_in = -1;
		if (!d) {
			CK(fired, "adapter:not-created", "no device");
			CK(mem().live == live0, "adapter:leak-failed-new", "%ld blocks after allocation %ld failed", mem().live - live0, fa);
			rep::cover("new-failed");
			continue;
		}
		for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next) {
			if (!c->shortname) continue;
			if (!strcmp(c->shortname, "port")) CK(diag_cfg_setstr(c, "/dev/ttyVT0") == 0, "adapter:port", "refused");
			else if (!strcmp(c->shortname, "simfile")) { if (r.chance(80)) diag_cfg_setstr(c, simfile().c_str()); }
			else if (c->type == CFGT_BOOL && r.chance(40)) diag_cfg_setbool(c, r.chance(50));
		}
		for (int k = 0, nk = r.range(1, 4); k < nk; k++) {
			std::vector<int> ps;
			for (int p = 1; p < 0x100; p <<= 1) if (l->l1proto_mask & p) ps.push_back(p);
			int p = r.pick(ps);
			t.present = !r.chance(10);
			long fo = r.chance(30) ? (long)r.below(4) : -1;
			int ioc = r.chance(20) ? r.range(0, 8) : -1, cnt = 0;
			int ion = r.pick({EIO, EINVAL, ENOTTY});
			if (ioc >= 0) t.ioctl_fault = [&](unsigned long) { return cnt++ >= ioc ? ion : 0; };
			int wl = r.chance(15) ? (int)r.below(6) : -1, wc = 0;
			if (wl >= 0) t.wr_limit = [&](size_t n) { return wc++ >= wl ? -EIO : (int)n; };
			int rl = r.chance(15) ? (int)r.below(6) : -1, rc = 0;
			if (rl >= 0) t.rd_fault = [&]() { return rc++ >= rl ? EIO : 0; };
			std::string what = fmt("L1 %X port %d alloc %ld ioctl %d write %d read %d adapter kind %d", p, t.present, fo, ioc, wl, rl, mode);
			long live = mem().live;
			int rv = 0;
			ns_t t0 = now();
			fail_alloc_in = fo;
			capture([&]() { rv = diag_l1_open(d, p); });
			bool af = fo >= 0 && fail_alloc_in < 0;
			fail_alloc_in = -1;
			t.ioctl_fault = nullptr; t.wr_limit = nullptr; t.rd_fault = nullptr;
			(void)af; (void)t0;
			CK(rv <= 0, "adapter:return-code", "%d (%s)", rv, what.c_str());
			CK((rv == 0) == (bool)d->opened, "adapter:opened-flag", "open returned %d, opened flag %d (%s)", rv, d->opened, what.c_str());
			if (rv) {
				CK(t.nopen == nfd0, "adapter:port-left-open", "after a failed open (%s)", what.c_str());
				CK(mem().live == live, "adapter:leak-failed-open", "%ld blocks (%s)", mem().live - live, what.c_str());
				rep::cover("adapter-open-failed"); rep::cover(std::string("failed-") + l->shortname);
			} else {
				rep::cover(std::string("opened-") + l->shortname);
				if (r.chance(60)) capture([&]() {
					uint8_t buf[300]; Bytes b = r.bytes(r.range(1, 10));
					if (r.chance(30)) { int x = r.below(4), y = 0; t.rd_fault = [x, y]() mutable { return y++ >= x ? EIO : 0; }; }
					diag_l1_send(d, b.data(), b.size(), 0);
					diag_l1_recv(d, buf, sizeof buf, 50);
				});
				t.rd_fault = nullptr;
				std::string o = capture([&]() { diag_l1_close(d); });
				CK(!d->opened && t.nopen == nfd0, "adapter:not-closed", "opened flag %d, port open %d (%s)", d->opened, t.nopen - nfd0, what.c_str());
				CK(mem().live == live, "adapter:leak-close", "%ld blocks (%s)", mem().live - live, what.c_str());
			}
			trail += fmt("%d", rv == 0);
		}
		diag_l0_del(d);
		CK(mem().live == live0, "adapter:leak-del", "%ld blocks", mem().live - live0);
		rep::cover("adapters-deleted");
	}
	capture([&]() { CK(diag_l0_new("NOSUCH") == nullptr, "adapter:unknown", "created"); });
	rep::distinct(fmt("%s %d %s", l->shortname, mode, trail.c_str()));
}
static void setup() { stack_init(); }
std::vector<Mode> modes() { return {{"run", run, setup}, {"initend", initend, setup}, {"adapters", adapters, setup}}; }
