// Volvo D2 link layer monitors.
#include "l2util.h"
using namespace vt;
static uint8_t oddpar(uint8_t c) { int n = 0; for (int i = 0; i < 7; i++) n += (c >> i) & 1; return (c & 0x7f) | ((n & 1) ? 0 : 0x80); }
static const uint32_t REQFL = DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT;
static Bytes frame(const Bytes &p, uint8_t to, uint8_t from) {
	Bytes o = {(uint8_t)(0x80 + p.size() + 1), to, from};
	o.insert(o.end(), p.begin(), p.end());
	o.push_back(sum8(o, o.size()));
	return o;
}
static int g_inits;
static bool bringup(FakeL0 &f, Session &s, uint8_t tgt, uint8_t src, uint8_t k1, uint8_t k2, unsigned type, unsigned br, int initrv = 0) {
	g_inits = 0;
	f.initbus = [=](FakeL0 &, struct diag_l1_initbus_args *a) {
		g_inits++;
		CHECK(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == oddpar(tgt), "initd2:wrong-address", "init type %d address %02X for ECU %02X", a->type, a->addr, tgt);
		CHECK(a->testerid == src, "initd2:wrong-tester", "tester id %02X instead of %02X", a->testerid, src);
		a->kb1 = k1; a->kb2 = k2;
		advance(2500 * MS);
		return initrv;
	};
	int rv = s.open(DIAG_L1_ISO9141);
	if (rv) { rep::violation("initd2:open", fmt("rv %d", rv)); return false; }
	return s.start(DIAG_L2_PROT_D2, type, br, tgt, src);
}
static void init(Rng &r, long idx) {
	uint32_t fl = REQFL;
	int w = r.below(6);
	bool keep = r.chance(50);
	if (keep) fl |= DIAG_L1_DOESKEEPALIVE;
	if (w == 1) fl &= ~(r.chance(50) ? DIAG_L1_DOESFULLINIT : DIAG_L1_DOESL2CKSUM);
	FakeL0 f(DIAG_L1_ISO9141, fl);
	uint8_t tgt = w == 0 ? (uint8_t)idx : r.byte(), src = r.chance(60) ? 0x13 : r.byte(), k1 = 0xd3, k2 = 0xb0;
	unsigned type = DIAG_L2_TYPE_SLOWINIT, br = r.pick({0u, 10400u, 9600u});
	int irv = 0;
	bool want = true;
	switch (w) {
	case 0: break;
	case 1: want = false; break;
	case 2: type = r.pick({DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_MONINIT, DIAG_L2_TYPE_CARBINIT}); want = false; break;
	case 3: k1 = r.chance(50) ? 0xd3 : r.byte(); k2 = r.chance(50) ? 0xb0 : r.byte(); want = (k1 == 0xd3 && k2 == 0xb0) || (!k1 && !k2); break;
	case 4: k1 = k2 = 0; break;
	case 5: irv = DIAG_ERR_TIMEOUT; want = false; break;
	}
	long live0 = mem().live;
	{
		Session s(f);
		budget(100 * SEC, 1000000);
		bool ok = bringup(f, s, tgt, src, k1, k2, type, br, irv);
		std::string ctx = fmt("case %d flags %X type %X target %02X tester %02X key bytes %02X %02X init rv %d", w, fl, type, tgt, src, k1, k2, irv);
		CHECK(ok == want, want ? "initd2:refused-valid" : "initd2:accepted-invalid", "%s", ctx.c_str());
		if (w == 1 || w == 2) CHECK(g_inits == 0 && f.tx.empty(), "initd2:bus-touched", "%s", ctx.c_str());
		else {
			CHECK(g_inits == 1 && f.speeds.size() == 1 && f.speeds[0].speed == (br ? br : 10400), "initd2:port-setup", "%s", ctx.c_str());
			if (!keep) CHECK(f.wm.empty(), "initd2:wakeup-message", "%s", ctx.c_str()); else CHECK(f.wm.size() == 1 && f.wm[0].second == Bytes({0x82, tgt, src, 0xa1}), "initd2:wakeup-message", "%s wm %s", ctx.c_str(), f.wm.empty() ? "" : hex(f.wm[0].second).c_str());
		}
		if (ok) {
			struct diag_l2_data d;
			diag_l2_ioctl(s.c, DIAG_IOCTL_GET_L2_DATA, &d);
			CHECK(d.kb1 == 0xd3 && d.kb2 == 0xb0, "initd2:keybytes", "%s reported %02X %02X", ctx.c_str(), d.kb1, d.kb2);
			// a session is ended with StopDiagnosticSession; without an answer the ECU is left to time out
			bool answer = r.chance(50);
			f.ecu = [&](FakeL0 &x, const Bytes &) { if (answer) x.frame(now() + 20 * MS, frame(Bytes{0xe0}, src, tgt)); };
			f.tx.clear();
			ns_t t0 = now();
			s.stop();
			Bytes w = {0x82, tgt, src, 0xa0};
			CHECK(f.sent() == w, "initd2:stop-message", "%s sent [%s]", ctx.c_str(), hex(f.sent()).c_str());
			CHECK(answer || now() - t0 >= 5 * SEC, "initd2:stop-wait", "%s waited %llu ms", ctx.c_str(), (unsigned long long)((now() - t0) / MS));
			rep::cover("stops");
			f.ecu = nullptr;
		}
		rep::cover(ok ? "accepted" : "refused");
		rep::distinct(ctx);
		rep::sample(ctx + (ok ? " -> connected" : " -> refused"));
	}
	CHECK(f.isopen == 0, "initd2:device-left-open", "case %d", w);
	CHECK(mem().live == live0, "initd2:leak", "case %d leaked %ld blocks", w, mem().live - live0);
}
static void traffic(Rng &r, long idx) {
	FakeL0 f(DIAG_L1_ISO9141, REQFL);
	Session s(f);
	budget(3000 * SEC, 3000000);
	uint8_t tgt = r.byte(), src = r.byte();
	if (!bringup(f, s, tgt, src, 0xd3, 0xb0, DIAG_L2_TYPE_SLOWINIT, 0)) { rep::violation("d2:init-refused", ""); return; }
	for (int k = 0; k < 6; k++) {
		f.clear(); f.tx.clear(); f.ecu = nullptr;
		size_t n = r.chance(85) ? 1 + (idx * 6 + k) % 62 : r.pick({0, 63, 64, 127, 128, 255, 300});
		Bytes p = r.bytes(n);
		uint8_t md = r.chance(50) ? 0 : r.byte(), ms = r.chance(50) ? 0 : r.byte();
		TMsg m(p, md, ms);
		Bytes want = {(uint8_t)(0x80 + n + 1), md ? md : tgt, ms ? ms : src};
		want.insert(want.end(), p.begin(), p.end());
		bool valid = n >= 1 && n <= 62;
		int op = r.below(3);
		std::string ctx = fmt("op %d len %zu", op, n);
		if (op == 0) {
			ns_t t0 = now();
			int rv = diag_l2_send(s.c, &m.m);
			if (valid) {
				CHECK(rv == 0 && f.tx.size() == 1 && f.tx[0].b == want, "d2:wrong-frame", "%s rv %d sent [%s] expected [%s]", ctx.c_str(), rv, hex(f.sent()).c_str(), hex(want).c_str());
				CHECK(f.tx.empty() || f.tx[0].t - t0 >= 55 * MS, "d2:p3min", "%s", ctx.c_str());
				rep::cover("frames-checked");
			} else {
				CHECK(rv < 0 && f.tx.empty(), "d2:accepted-unsendable", "%s rv %d", ctx.c_str(), rv);
				rep::cover("refusals-checked");
			}
		} else if (op == 1) {
			// bare receive
			int kind = r.below(4);
			Bytes q = r.bytes(r.range(1, 62));
			uint8_t a = r.byte(), b = r.byte();
			Bytes fr = frame(q, a, b);
			unsigned to = r.range(50, 300);
			if (kind == 1) fr.resize(r.range(1, 4));
			if (kind == 3) f.error(now() + 10 * MS, DIAG_ERR_GENERAL);
			else if (kind != 2) f.frame(now() + (ns_t)r.range(1, to) * MS, fr);
			RecvSink sk;
			int rv = diag_l2_recv(s.c, to, sink_cb, &sk);
			if (kind == 0) CHECK(rv == 0 && sk.got.size() == 1 && sk.got[0].size() == 1 && sk.got[0][0].d == q && sk.got[0][0].src == b && sk.got[0][0].dest == a, "d2:rx-wrong", "[%s] rv %d gave %s", hex(fr).c_str(), rv, sk.got.empty() ? "" : show(sk.got[0]).c_str());
			else CHECK(rv < 0 && sk.got.empty(), "d2:rx-malformed-delivered", "kind %d rv %d", kind, rv);
			rep::cover(fmt("receive-%d", kind));
			ctx += fmt(" kind %d [%s]", kind, hex(fr).c_str());
		} else {
			int pend = r.chance(40) ? r.range(1, 20) : 0, kind = r.below(4); // 0,1 answer 2 silence 3 short
			Bytes ans = r.bytes(r.range(1, 62));
			int shape = r.below(5);   // near misses of "in progress" must be returned as answers
			if (n && shape == 1) ans = {0x7e, p[0], (uint8_t)(0x23 + 1 + r.below(255))};
			if (n && shape == 2) ans = {0x7e, (uint8_t)(p[0] + 1), 0x23};
			if (n && shape == 3) ans = {0x7e, p[0], 0x23, 0x00};
			if (n && shape == 4) ans = {0x7f, p[0], 0x23};
			f.ecu = [&](FakeL0 &x, const Bytes &) {
				ns_t t = now() + 5 * MS;
				for (int i = 0; i < pend; i++) { x.frame(t, frame(Bytes{0x7e, p[0], 0x23}, ms ? ms : src, tgt)); t += r.range(1, 1000) * MS; }
				if (kind < 2) x.frame(t, frame(ans, ms ? ms : src, tgt));
				else if (kind == 3) x.frame(t, Bytes{0x82, 1});
			};
			int err = 12345;
			struct diag_msg *q = diag_l2_request(s.c, &m.m, &err);
			auto g = chain(q);
			if (q) diag_freemsg(q);
			ctx += fmt(" pend %d kind %d answer [%s] err %d", pend, kind, hex(ans).c_str(), err);
			if (!valid) CHECK(!q && err < 0 && f.tx.empty(), "d2:accepted-unsendable", "%s", ctx.c_str());
			else {
				CHECK(f.tx.size() == 1 && f.tx[0].b == want, "d2:request-frames", "%s sent %zu times [%s]", ctx.c_str(), f.tx.size(), hex(f.sent()).c_str());
				if (kind < 2) CHECK(q && err == 0 && g.size() == 1 && g[0].d == ans && g[0].src == tgt, "d2:request-answer", "%s got %s", ctx.c_str(), show(g).c_str());
				else CHECK(!q && err < 0, "d2:answer-from-nothing", "%s got %s", ctx.c_str(), show(g).c_str());
				rep::cover(kind < 2 ? "requests-answered" : "requests-failed");
				if (pend) rep::cover("requests-pending");
			}
		}
		CHECK(m.m.len == n && (!n || !memcmp(m.m.data, p.data(), n)), "d2:caller-msg-modified", "%s", ctx.c_str());
		rep::distinct(ctx + hex(p).substr(0, 20));
		rep::sample(ctx);
	}
	f.ecu = [&](FakeL0 &x, const Bytes &) { x.frame(now() + 20 * MS, frame(Bytes{0xe0}, src, tgt)); };
}
std::vector<Mode> modes() { return {{"init", init, stack_init}, {"traffic", traffic, stack_init}}; }
