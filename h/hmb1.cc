// Mercedes-Benz protocol 1 link layer monitors.
#include "l2util.h"
using namespace vt;
static Bytes frame(const Bytes &p, uint8_t dest) {   // p[0] = command
	Bytes o = {dest, p[0], (uint8_t)(p.size() + 4)};
	o.insert(o.end(), p.begin() + 1, p.end());
	unsigned s = 0;
	for (uint8_t b : o) s += b;
	o.push_back(s & 0xff); o.push_back((s >> 8) & 0xff);
	return o;
}
static int g_inits;
struct Init { uint8_t k1 = 0xc2, k2 = 0xcd; int nkb = 2; int rv = 0; bool id = true; };
static bool bringup(FakeL0 &f, Session &s, Rng &r, uint8_t tgt, const Init &i, unsigned br) {
	g_inits = 0;
	Bytes id = frame(r.bytes(r.range(1, 40)), 0);
	f.initbus = [=](FakeL0 &x, struct diag_l1_initbus_args *a) {
		g_inits++;
		CHECK(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == tgt, "initmb1:wrong-address", "init type %d address %02X for ECU %02X", a->type, a->addr, tgt);
		advance(2500 * MS);
		if (i.nkb > 0) x.push(now() + 20 * MS, Bytes{i.k1});
		if (i.nkb > 1) x.push(now() + 40 * MS, Bytes{i.k2});
		if (i.id) { if (x.framed) x.frame(now() + 100 * MS, id); else x.push(now() + 100 * MS, id); }
		return i.rv;
	};
	int rv = s.open(DIAG_L1_ISO9141);
	if (rv) { rep::violation("initmb1:open", fmt("rv %d", rv)); return false; }
	return s.start(DIAG_L2_PROT_MB1, DIAG_L2_TYPE_SLOWINIT, br, tgt, r.byte());
}
static void init(Rng &r, long) {
	uint32_t fl = DIAG_L1_SLOW | (r.chance(50) ? DIAG_L1_HALFDUPLEX : 0);
	FakeL0 f(DIAG_L1_ISO9141, fl);
	uint8_t tgt = r.byte();
	Init i;
	unsigned br = r.pick({0u, 9600u, 10400u, 4800u});
	bool want = true;
	int w = r.below(5);
	switch (w) {
	case 1: i.k1 = r.chance(50) ? 0xc2 : r.byte(); i.k2 = r.chance(50) ? 0xcd : r.byte(); want = i.k1 == 0xc2 && i.k2 == 0xcd; break;
	case 2: i.nkb = r.range(0, 1); i.id = false; want = false; break;
	case 3: i.rv = DIAG_ERR_TIMEOUT; want = false; break;
	case 4: i.id = false; break;
	}
	long live0 = mem().live;
	{
		Session s(f);
		budget(100 * SEC, 1000000);
		bool ok = bringup(f, s, r, tgt, i, br);
		std::string ctx = fmt("case %d flags %X target %02X key bytes %02X %02X (%d) bitrate %u init rv %d", w, fl, tgt, i.k1, i.k2, i.nkb, br, i.rv);
		CHECK(ok == want, want ? "initmb1:refused-valid" : "initmb1:accepted-invalid", "%s", ctx.c_str());
		CHECK(g_inits == 1 && f.tx.empty() && f.speeds.size() == 1 && f.speeds[0].speed == (br ? br : 9600), "initmb1:port-setup", "%s", ctx.c_str());
		if (ok) {
			struct diag_l2_data d;
			diag_l2_ioctl(s.c, DIAG_IOCTL_GET_L2_DATA, &d);
			CHECK(d.kb1 == 0xc2 && d.kb2 == 0xcd, "initmb1:keybytes", "%s reported %02X %02X", ctx.c_str(), d.kb1, d.kb2);
		}
		rep::cover(ok ? "accepted" : "refused");
		rep::distinct(ctx);
		rep::sample(ctx + (ok ? " -> connected" : " -> refused"));
	}
	CHECK(f.isopen == 0, "initmb1:device-left-open", "case %d", w);
	CHECK(mem().live == live0, "initmb1:leak", "case %d leaked %ld blocks", w, mem().live - live0);
}
static void traffic(Rng &r, long idx) {
	bool smart = r.chance(30);
	uint32_t fl = smart ? DIAG_L1_DOESP4WAIT : (r.chance(50) ? DIAG_L1_HALFDUPLEX : 0) | DIAG_L1_SLOW;
	FakeL0 f(DIAG_L1_ISO9141, fl);
	Session s(f);
	budget(3000 * SEC, 3000000);
	uint8_t tgt = r.byte();
	if (!bringup(f, s, r, tgt, Init(), 0)) { rep::violation("mb1:init-refused", ""); return; }
	for (int k = 0; k < 6; k++) {
		f.clear(); f.tx.clear(); f.ecu = nullptr;
		size_t n = r.chance(90) ? 1 + (idx * 6 + k) % 251 : r.pick({0, 252, 253, 255, 256, 257, 600, 1100});
		bool valid = n >= 1 && n <= 251;
		Bytes p = r.bytes(n);
		TMsg m(p, r.byte(), r.byte());
		Bytes want = valid ? frame(p, tgt) : Bytes{};
		int op = r.below(3);
		ns_t t0 = now();
		std::string ctx = fmt("op %d flags %X target %02X len %zu", op, fl, tgt, n);
		// the ECU's side of this exchange
		enum Kind { GOOD, BADCK, TRUNC, BADLEN, SILENT };
		Kind kind = (Kind)(r.chance(50) ? 0 : r.range(1, 4));
		Bytes ans = r.bytes(r.range(1, 251)), fr = frame(ans, r.byte());
		if (kind == BADCK) { size_t i = r.chance(50) ? fr.size() - 1 - r.below(2) : r.chance(50) ? r.below(2) : fr.size() > 5 ? 3 + r.below(fr.size() - 5) : 0; fr[i] ^= 1 << r.below(8); }
		if (kind == TRUNC) fr.resize(r.range(1, fr.size() - 1));
		if (kind == BADLEN) { fr[2] = r.below(5); }
		auto play = [&](ns_t t) { if (kind != SILENT) f.push(t, fr, r.chance(70) ? 960 * US : (ns_t)r.range(1, 20) * MS); };
		auto checkans = [&](bool delivered, int err, const std::vector<Msg> &g) {
			ctx += fmt(" kind %d answer [%s] err %d", (int)kind, hex(fr).c_str(), err);
			if (kind == GOOD) CHECK(delivered && g.size() == 1 && g[0].d == ans, "mb1:wrong-answer", "%s got %s", ctx.c_str(), show(g).c_str());
			else CHECK(!delivered && err < 0, "mb1:malformed-delivered", "%s got %s", ctx.c_str(), show(g).c_str());
			rep::cover(fmt("answers-kind-%d", (int)kind));
		};
		if (op == 0) {
			int rv = diag_l2_send(s.c, &m.m);
			ctx += fmt(" rv %d", rv);
			CHECK(valid ? rv == 0 : rv < 0, valid ? "mb1:refused-valid" : "mb1:accepted-unsendable", "%s", ctx.c_str());
		} else if (op == 1) {
			n = 0; valid = false; want.clear(); m.m.len = 0; p.clear();
			play(now() + r.range(1, 90) * MS);
			RecvSink sk;
			int rv = diag_l2_recv(s.c, 100, sink_cb, &sk);
			checkans(rv == 0, rv, sk.got.empty() ? std::vector<Msg>() : sk.got[0]);
		} else {
			f.ecu = [&](FakeL0 &, const Bytes &) { play(now() + r.range(1, 900) * MS); };
			int err = 0;
			struct diag_msg *q = diag_l2_request(s.c, &m.m, &err);
			auto g = chain(q);
			if (valid) checkans(q != nullptr, err, g);
			else CHECK(!q && err < 0, "mb1:accepted-unsendable", "%s err %d", ctx.c_str(), err);
			if (q) diag_freemsg(q);
		}
		if (op != 1) {
			CHECK(f.sent() == want, "mb1:wrong-frame", "%s sent [%s] expected [%s]", ctx.c_str(), hex(f.sent()).c_str(), hex(want).c_str());
			if (!f.tx.empty()) CHECK(f.tx[0].t - t0 >= 55 * MS, "mb1:p3min", "%s", ctx.c_str());
			if (!smart) for (size_t i = 1; i < f.tx.size(); i++) {
				CHECK(f.tx[i].b.size() == 1 && f.tx[i].t - f.tx[i - 1].t >= 5 * MS, "mb1:byte-spacing", "%s", ctx.c_str());
				rep::cover("spaced-bytes");
			}
			rep::cover(valid ? "frames-checked" : "refusals-checked");
		}
		CHECK(m.m.len == n && (n == 0 || !memcmp(m.m.data, p.data(), n)), "mb1:caller-msg-modified", "%s", ctx.c_str());
		rep::distinct(ctx);
		rep::sample(ctx);
		f.clear(); f.ecu = nullptr; idle(200 * MS); f.clear();
	}
}
// The keep-alive goes out before the ECU's one second limit, whenever the user is idle
std::vector<Mode> modes() { return {{"init", init, stack_init}, {"traffic", traffic, stack_init}}; }
