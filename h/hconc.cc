// Conversations of the user's thread against keep-alives of the background
// timer threads: real threads under the thread sanitizer, accelerated clock.
#include "h.h"
#include "rt.h"
#include <pthread.h>
#include <atomic>
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "diag_tty.h"
#include "diag_iso14230.h"
int diag_end(void);
}
static uint8_t sum8(const Bytes &b) { uint8_t s = 0; for (uint8_t x : b) s += x; return s; }
enum Kind { KWP, OBD9141, OBDRAW, D2K };
static const char *kname[] = {"iso14230", "j1979-over-9141", "j1979-over-raw", "d2"};
static thread_local bool g_user = false;
// what the monitors saw (relaxed: the monitors must not order the threads)
static std::atomic<unsigned> v_overlap, v_cut, v_afterclose;
static std::atomic<unsigned long> n_user, n_keep, n_calls, n_switch;
static uint64_t jitter_state;
struct Adapter {
	struct diag_l0 drv; struct diag_l0_device dev; Kind k; uint32_t flags;
	std::atomic<int> inside{0};          // which side is in the adapter: 1 user, 2 background
	std::atomic<int> owner{0};           // whose exchange is under way
	std::atomic<bool> open{false};
	int last = 0;
	// the rest is deliberately not locked: only one thread may ever be here
	struct It { uint64_t gap; Bytes b; bool final; };
	std::deque<It> q;
	Bytes part; unsigned long seq = 0;
	std::function<void(Adapter &, const Bytes &, bool)> ecu;
	uint64_t pre = 0, post = 0;          // injected delays (us)
	int side() { return g_user ? 1 : 2; }
	void enter() {
		n_calls.fetch_add(1, std::memory_order_relaxed);
		int me = side(), e = 0;
		if (!inside.compare_exchange_strong(e, me, std::memory_order_relaxed)) v_overlap.fetch_add(1, std::memory_order_relaxed);
		int o = owner.load(std::memory_order_relaxed);
		if (o && o != me) v_cut.fetch_add(1, std::memory_order_relaxed);
		if (!open.load(std::memory_order_relaxed)) v_afterclose.fetch_add(1, std::memory_order_relaxed);
		if (last != me) n_switch.fetch_add(1, std::memory_order_relaxed);
		last = me;
		if (pre) rt::sleep_us(pre);
	}
	void leave() { inside.store(0, std::memory_order_relaxed); if (post) rt::sleep_us(post); }
};
static Adapter *of(struct diag_l0_device *d) { return (Adapter *)d->l0_int; }
static int a_open(struct diag_l0_device *d, int) { of(d)->open.store(true, std::memory_order_relaxed); return 0; }
static void a_close(struct diag_l0_device *d) { of(d)->open.store(false, std::memory_order_relaxed); }
static uint32_t a_flags(struct diag_l0_device *d) { return of(d)->flags; }
static int a_recv(struct diag_l0_device *d, void *data, size_t len, unsigned int tmo) {
	Adapter *a = of(d); a->enter();
	// what arrives when is decided by the schedule alone, not by how fast this machine is
	uint64_t w = (uint64_t)tmo * 1000; int rv = DIAG_ERR_TIMEOUT;
	if (!a->q.empty() && a->q.front().gap <= w) {
		auto &it = a->q.front();
		if (it.gap) rt::sleep_us(it.gap);
		it.gap = 0;
		size_t k = std::min(len, it.b.size()); memcpy(data, it.b.data(), k); it.b.erase(it.b.begin(), it.b.begin() + k); rv = k;
		if (it.b.empty()) { if (it.final) a->owner.store(0, std::memory_order_relaxed); a->q.pop_front(); }
	} else {
		if (!a->q.empty()) a->q.front().gap -= w;
		if (w) rt::sleep_us(w);
		a->owner.store(0, std::memory_order_relaxed);
	}
	a->leave();
	return rv;
}
static int a_send(struct diag_l0_device *d, const void *p, size_t n) {
	Adapter *a = of(d); a->enter();
	Bytes b((const uint8_t *)p, (const uint8_t *)p + n);
	a->seq++;
	if (a->ecu) a->ecu(*a, b, g_user);
	a->leave();
	return 0;
}
static int a_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	Adapter *a = of(d);
	switch (cmd) {
	case DIAG_IOCTL_INITBUS: {
		auto *in = (struct diag_l1_initbus_args *)data; (void)in;
		a->enter();
		if (a->k == OBD9141) { a->q.push_back({0, {8, 8}, false}); }
		if (a->k == D2K) { in->kb1 = 0xd3; in->kb2 = 0xb0; }
		a->leave();
		return 0;
	}
	case DIAG_IOCTL_IFLUSH: a->enter(); a->q.clear(); a->leave(); return 0;
	default: return 0;
	}
}
static int a_init(void) { return 0; }
static int a_new(struct diag_l0_device *) { return 0; }
static void a_del(struct diag_l0_device *) {}
static struct cfgi *a_cfg(struct diag_l0_device *) { return nullptr; }
static Bytes f14230(const Bytes &p, uint8_t to, uint8_t from, uint8_t extra = 0) { Bytes o = {(uint8_t)(0x80 + p.size() + extra), to, from}; o.insert(o.end(), p.begin(), p.end()); o.push_back(sum8(o)); return o; }
struct Rec { std::vector<Bytes> m; };
extern "C" void conc_cb(void *h, struct diag_msg *m) { for (; m; m = m->next) ((Rec *)h)->m.push_back(Bytes(m->data, m->data + m->len)); }
static void run(Rng &r, long) {
	g_user = true;
	Kind k = (Kind)r.below(4);
	Adapter A; A.k = k;
	memset(&A.drv, 0, sizeof A.drv); memset(&A.dev, 0, sizeof A.dev);
	A.flags = k == KWP ? DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST : k == OBD9141 ? DIAG_L1_SLOW : k == D2K ? DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT : 0;
	A.flags |= DIAG_L1_DOESP4WAIT;
	bool smart = k == KWP && r.chance(40); if (smart) A.flags |= DIAG_L1_DOESL2FRAME;
	// keep-alives are answered as slowly as the bus (and an adapter which collects messages) allows
	uint64_t kdelay = r.chance(50) ? 10000 : k == KWP ? (smart ? 150000 : 40000) : k == D2K ? 900000 : 40000;
	A.drv.longname = "concurrency"; A.drv.shortname = "CONC"; A.drv.l1proto_mask = 0xff;
	A.drv.init = a_init; A.drv._new = a_new; A.drv._getcfg = a_cfg; A.drv._del = a_del; A.drv._open = a_open; A.drv._close = a_close; A.drv._getflags = a_flags; A.drv._recv = a_recv; A.drv._send = a_send; A.drv._ioctl = a_ioctl;
	A.dev.dl0 = &A.drv; A.dev.l0_int = &A;
	A.post = r.pick({0, 0, 2000, 20000}); A.pre = r.pick({0, 0, 5000});
	int pend = 0; uint64_t delay = 0;        // what the ECU does with the next user request
	uint8_t tok = 0; static std::atomic<bool> mute; mute.store(false, std::memory_order_relaxed);
	A.ecu = [&](Adapter &a, const Bytes &b, bool user) {
		uint64_t d = user ? delay : kdelay;
		auto say = [&](const Bytes &x, bool fin = true) { a.owner.store(a.side(), std::memory_order_relaxed); a.q.push_back({d, x, fin}); };
		switch (k) {
		case KWP: {
			if (b.size() < 5) return;
			Bytes p(b.begin() + 3, b.end() - 1);
			if (p[0] == 0x81) return say(f14230({0xc1, 0xef, 0x8f}, 0xf1, 0x11));
			if (p[0] == 0x82) return say(f14230({0xc2}, 0xf1, 0x11));
			if (p[0] == 0x3e || (p[0] == 1 && p.size() == 2)) { if (!user) n_keep.fetch_add(1, std::memory_order_relaxed); return say(f14230(p[0] == 1 ? Bytes{0x41, 0, 1, 2, 3, 4} : Bytes{0x7e}, 0xf1, 0x11)); }
			n_user.fetch_add(1, std::memory_order_relaxed);
			for (int i = 0; i < (user ? pend : 0); i++) { say(f14230({0x7f, p[0], 0x78}, 0xf1, 0x11), false); d = 45000; }
			p[0] += 0x40;
			return say(f14230(p, 0xf1, 0x11));
		}
		case OBD9141: case OBDRAW: {
			Bytes p = b;
			if (k == OBD9141) {
				if (b.size() == 1) return say({0xcc});
				if (b.size() < 5) return;
				p.assign(b.begin() + 3, b.end() - 1);
			}
			Bytes o;
			if (p == Bytes{1, 0}) { o = {0x41, 0, 1, 2, 3, 4}; (user ? n_user : n_keep).fetch_add(1, std::memory_order_relaxed); if (!user && mute.load(std::memory_order_relaxed)) o = {0x7f, 1, 0x10}; }
			else { o = {0x46, p.back(), 1, 2, 3, 4, p.back()}; n_user.fetch_add(1, std::memory_order_relaxed); }
			if (k == OBD9141) { o.insert(o.begin(), {0x48, 0x6b, 0x11}); o.push_back(sum8(o)); }
			return say(o);
		}
		case D2K: {
			if (b.size() < 4) return;
			Bytes p(b.begin() + 3, b.end());
			if (p[0] == 0xa1) { if (!user) n_keep.fetch_add(1, std::memory_order_relaxed); return say(f14230({0xe1}, 0x13, 0x7a, 1)); }
			if (p[0] == 0xa0) return say(f14230({0xe0}, 0x13, 0x7a, 1));
			n_user.fetch_add(1, std::memory_order_relaxed);
			for (int i = 0; i < (user ? pend : 0); i++) { say(f14230({0x7e, p[0], 0x23}, 0x13, 0x7a, 1), false); d = 950000; }
			p[0] |= 0x40;
			return say(f14230(p, 0x13, 0x7a, 1));
		}
		}
	};
	unsigned ov0 = v_overlap, cut0 = v_cut, ac0 = v_afterclose;
	capture([&]() { if (diag_init()) rep::violation("conc:init", "diag_init failed"); });
	int l1 = k == KWP ? DIAG_L1_ISO14230 : k == OBDRAW ? DIAG_L1_RAW : DIAG_L1_ISO9141;
	int l2 = k == KWP ? DIAG_L2_PROT_ISO14230 : k == OBD9141 ? DIAG_L2_PROT_ISO9141 : k == OBDRAW ? DIAG_L2_PROT_RAW : DIAG_L2_PROT_D2;
	unsigned type = k == KWP ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT;
	uint8_t tgt = k == D2K ? 0x7a : k == KWP ? 0x11 : 0x33, src = k == D2K ? 0x13 : 0xf1;
	std::string log;
	bool l3 = k == OBD9141 || k == OBDRAW;
	std::string bad; bool stalled = false;
	capture([&]() {
		for (int sess = r.range(1, 2); sess; sess--) {
			struct diag_l3_conn *c3 = nullptr; struct diag_l2_conn *c = nullptr;
			if (diag_l2_open(&A.dev, l1)) { bad = "open failed"; break; }
			c = diag_l2_StartCommunications(&A.dev, l2, type, 10400, tgt, src);
			if (!c) { bad = "session refused"; diag_l2_close(&A.dev); break; }
			if (l3) { delay = 20000; c3 = diag_l3_start("SAEJ1979", c); if (!c3) bad = "L3 refused"; }
			for (int n = r.range(2, 6); n && bad.empty(); n--) {
				int what = r.below(10);
				if (what == 0 && r.chance(30)) {
					// left alone until the timer has run often enough, and is not running now
					mute.store(r.chance(40) && (k == OBDRAW || k == OBD9141), std::memory_order_relaxed);
					unsigned long f0 = rt::fired, k0 = n_keep; uint64_t t0 = rt::now_us();
					while (rt::fired - f0 < 20 || rt::now_us() - t0 < 7000000) rt::sleep_us(100000);
					rt::quiesce();
					log += mute.load(std::memory_order_relaxed) ? "long-idle-refused " : "long-idle ";
					if (n_keep == k0) bad = "no keep-alive although left alone for 7 s";
					if (int e = diag_geterr()) bad = fmt("error %d of a background keep-alive taken for the user's", e);
					mute.store(false, std::memory_order_relaxed); rep::cover("long-idles");
					continue;
				}
				if (what < 5) { uint64_t us = (what < 3 ? r.range(2700, 3900) : r.range(0, 6000)) * 1000; log += fmt("idle %llu ", (unsigned long long)us / 1000); rt::sleep_us(us); rep::cover("idle-periods"); if (what < 3) continue; }
				delay = r.pick({5000, 15000, 30000}); pend = (k == KWP || k == D2K) && r.chance(30) ? (k == KWP ? r.range(1, 90) : r.range(1, 6)) : 0;
				tok++;
				Bytes q = l3 ? Bytes{6, tok} : k == KWP ? Bytes{0x21, tok} : Bytes{0xa5, tok};
				struct diag_msg m; memset(&m, 0, sizeof m); m.data = q.data(); m.len = q.size(); m.dest = tgt; m.src = src;
				Rec rec; int err = 0, rv;
				log += fmt("req%s ", pend ? "-pending" : "");
				if (l3 && r.chance(50)) {
					uint64_t t0 = rt::now_us();
					rv = diag_l3_send(c3, &m);
					if (!rv) rv = diag_l3_recv(c3, 300, conc_cb, &rec);
					err = rv;
					// this thread was kept from running for so long that a keep-alive was due in between
					if (rt::now_us() - t0 > 3000000) { stalled = true; rep::cover("stalled-by-this-machine"); bad = "x"; break; }
				} else {
					struct diag_msg *x = l3 ? diag_l3_request(c3, &m, &err) : diag_l2_request(c, &m, &err);
					if (x) { conc_cb(&rec, x); diag_freemsg(x); }
				}
				Bytes want = l3 ? Bytes{0x46, tok, 1, 2, 3, 4, tok} : k == KWP ? Bytes{0x61, tok} : Bytes{0xe5, tok};
				if (rec.m.size() != 1 || rec.m[0] != want) { bad = fmt("request %s answered with ", hex(q).c_str()); for (auto &x : rec.m) bad += hex(x) + " | "; bad += fmt("(error %d)", err); break; }
				rep::cover(pend ? "exchanges-pending" : "exchanges");
				if (pend * (k == KWP ? 45 : 950) > 3400) rep::cover("long-exchanges");
				if (r.chance(20)) { diag_l2_debug = r.pick({0, 0}); }
			}
			delay = 20000; pend = 0;
			if (c3) diag_l3_stop(c3);
			diag_l2_StopCommunications(c);
			diag_l2_close(&A.dev);
			A.q.clear();
			rep::cover(std::string("sessions-") + kname[k]);
		}
		if (diag_end()) bad = "diag_end failed";
	});
	rt::quiesce();
	std::string ctx = std::string(kname[k]) + ": " + log;
	if (!stalled) CHECK(bad.empty(), "conc:exchange", "%s%s", ctx.c_str(), bad.c_str());
	CHECK(v_overlap == ov0, "conc:two-threads-on-the-bus", "%s: %u adapter calls overlapped", ctx.c_str(), v_overlap - ov0);
	if (!stalled) CHECK(v_cut == cut0, "conc:exchange-interrupted", "%s: %u adapter calls fell into the other side's exchange", ctx.c_str(), v_cut - cut0);
	CHECK(v_afterclose == ac0, "conc:used-after-close", "%s: %u adapter calls on a closed device", ctx.c_str(), v_afterclose - ac0);
	static unsigned long pk, pf, pc, ps;
	rep::cover("background-keepalives", n_keep - pk); rep::cover("timer-callbacks", rt::fired - pf); rep::cover("adapter-calls", n_calls - pc); rep::cover("turn-changes", n_switch - ps);
	pk = n_keep; pf = rt::fired; pc = n_calls; ps = n_switch;
	rep::distinct(ctx);
	rep::sample(ctx);
}
static void setup() { g_user = true; }
std::vector<Mode> modes() { return {{"run", run, setup}}; }
