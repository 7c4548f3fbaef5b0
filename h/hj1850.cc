// SAE J1850 and RAW link layer monitors.
#include "l2util.h"
using namespace vt;
static uint8_t refcrc(const Bytes &b) {   // CRC-8, poly 0x1D, init 0xFF, inverted
	uint8_t c = 0xff;
	for (uint8_t x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c & 0x80) ? (c << 1) ^ 0x1d : c << 1; }
	return ~c;
}
static uint32_t rnd_flags(Rng &r) {
	uint32_t fl = DIAG_L1_DOESL2FRAME;
	if (r.chance(50)) fl |= DIAG_L1_DOESL2CKSUM;
	if (r.chance(50)) fl |= DIAG_L1_STRIPSL2CKSUM;
	if (r.chance(30)) fl |= DIAG_L1_NOTTY;
	return fl;
}
static void tx(Rng &r, long idx) {
	uint32_t fl = rnd_flags(r);
	if (r.chance(20)) fl |= DIAG_L1_DATAONLY;
	bool pwm = r.chance(50);
	int proto = pwm ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW;
	FakeL0 f(proto, fl);
	Session s(f);
	budget(600 * SEC, 2000000);
	uint8_t tgt = r.byte(), src = r.byte();
	int rv = s.open(proto);
	if (rv || !s.start(DIAG_L2_PROT_SAEJ1850, 0, 0, tgt, src)) { rep::violation("tx1850:refused", fmt("%x", fl)); return; }
	for (int k = 0; k < 4; k++) {
		size_t n = r.chance(70) ? 1 + (idx + k) % 12 : r.chance(50) ? r.range(13, 1018) : r.chance(60) ? r.pick({250, 252, 253, 254, 255, 256, 257, 1017, 1018, 1019}) : r.range(1024, 1500);
		Bytes p = r.bytes(n);
		TMsg m(p, r.byte(), r.byte());
		f.tx.clear(); f.clear();
		rv = diag_l2_send(s.c, &m.m);
		Bytes got = f.sent(), want;
		std::string ctx = fmt("l0flags=%X %s tgt=%02X src=%02X len=%zu rv=%d sent [%s]", fl, pwm ? "PWM" : "VPW", tgt, src, n, rv, hex(got).substr(0, 120).c_str());
		if (n <= 1019) {
			if (fl & DIAG_L1_DATAONLY) want = p;
			else {
				want = {(uint8_t)(pwm ? 0x61 : 0x68), tgt, src};
				want.insert(want.end(), p.begin(), p.end());
				if (!(fl & DIAG_L1_DOESL2CKSUM)) want.push_back(refcrc(want));
			}
			CHECK(rv == 0, "tx1850:refused-valid", "%s", ctx.c_str());
			CHECK(rv || got == want, "tx1850:wrong-frame", "%s expected [%s]", ctx.c_str(), hex(want).substr(0, 3000).c_str());
			CHECK(rv || f.tx.size() == 1, "tx1850:split-frame", "%s in %zu writes", ctx.c_str(), f.tx.size());
			rep::cover("frames-checked");
			if (n > 255) rep::cover("long-frames");
			rep::distinct(fmt("%x %d %zu %d", fl, pwm, n, (int)p[0]));
			rep::sample(ctx);
		} else {
			CHECK(rv < 0 && got.empty(), "tx1850:accepted-unsendable", "%s", ctx.c_str());
			rep::cover("refusals-checked");
		}
	}
}
static void rx(Rng &r, long) {
	uint32_t fl = rnd_flags(r);
	if (r.chance(20)) fl |= DIAG_L1_NOHDRS | DIAG_L1_STRIPSL2CKSUM;
	bool pwm = r.chance(50);
	int proto = pwm ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW;
	long live0 = mem().live;
	FakeL0 f(proto, fl);
	{
	Session s(f);
	budget(3000 * SEC, 5000000);
	uint8_t tgt = r.byte(), src = r.byte();
	if (s.open(proto) || !s.start(DIAG_L2_PROT_SAEJ1850, 0, 0, tgt, src)) { rep::violation("rx1850:refused", fmt("%x", fl)); return; }
	bool strips = fl & DIAG_L1_STRIPSL2CKSUM, nohdr = fl & DIAG_L1_NOHDRS;
	for (int round = 0; round < 5; round++) {
		f.clear(); f.tx.clear();
		bool viareq = r.chance(50);
		int nm = r.chance(10) ? 0 : r.range(1, 6);
		int err_at = r.chance(15) ? (int)r.below(nm + 1) : -1;
		bool tail_short = r.chance(15) && !nohdr;
		struct Exp { Bytes p; uint8_t s, d; bool bad; };
		std::vector<Exp> ex; std::vector<Bytes> wire; std::string desc;
		for (int i = 0; i < nm; i++) {
			size_t n = r.chance(80) ? r.range(1, 12) : r.range(13, 400);
			Bytes p = r.bytes(n), fr = {(uint8_t)(r.chance(70) ? 0x48 : r.byte()), r.byte(), r.byte()};
			Exp e{p, nohdr ? (uint8_t)0 : fr[2], nohdr ? (uint8_t)0 : fr[1], false};
			fr.insert(fr.end(), p.begin(), p.end());
			fr.push_back(refcrc(fr));
			if (!strips && r.chance(20)) {
				if (r.chance(60)) fr[r.below(fr.size())] ^= 1 << r.below(8); else fr.back() ^= 1 + r.below(255);
				e.bad = true; e.p.assign(fr.begin() + 3, fr.end() - 1); e.s = fr[2]; e.d = fr[1];
			}
			if (strips) fr.pop_back();
			if (nohdr) fr = p;
			wire.push_back(fr); ex.push_back(e); desc += fmt("[%s]%s ", hex(fr).substr(0, 90).c_str(), e.bad ? "(bad)" : "");
		}
		if (tail_short) { Bytes t = r.bytes(r.range(1, strips ? 3 : 4)); wire.push_back(t); desc += "[" + hex(t) + "](short) "; }
		unsigned tout = r.range(60, 400);
		unsigned win = (viareq ? 250 : tout) + 150;
		auto play = [&](ns_t t0) {
			ns_t t = t0 + r.range(1, 20) * MS;
			for (size_t i = 0; i < wire.size(); i++) {
				if ((int)i == err_at) { f.error(t, DIAG_ERR_GENERAL); }
				f.frame(t, wire[i]);
				t += r.range(0, (win - 40) / 8) * MS;
			}
			if (err_at >= (int)wire.size()) f.error(t, DIAG_ERR_GENERAL);
		};
		std::vector<Msg> g; int rv;
		ns_t t0 = now();
		if (viareq) {
			f.ecu = [&](FakeL0 &, const Bytes &) { play(now()); };
			TMsg m(r.bytes(r.range(1, 9)));
			int e = 0;
			struct diag_msg *q = diag_l2_request(s.c, &m.m, &e);
			rv = q ? 0 : e;
			g = chain(q); if (q) diag_freemsg(q);
			f.ecu = nullptr;
		} else {
			play(now());
			RecvSink sk;
			rv = diag_l2_recv(s.c, tout, sink_cb, &sk);
			if (!sk.got.empty()) g = sk.got[0];
		}
		std::string ctx = fmt("%s l0flags=%X %s err_at=%d rv=%d", viareq ? "request" : "recv", fl, desc.c_str(), err_at, rv);
		if (err_at >= 0) {
			CHECK(rv < 0 && g.empty(), "rx1850:delivered-after-error", "%s got %s", ctx.c_str(), show(g).c_str());
			rep::cover("line-errors");
		} else if (nm == 0) {
			CHECK(rv == DIAG_ERR_TIMEOUT && g.empty(), "rx1850:silence", "%s got %s", ctx.c_str(), show(g).c_str());
			rep::cover("silences");
		} else {
			bool same = rv == 0 && g.size() == ex.size();
			for (size_t i = 0; same && i < g.size(); i++) {
				same = g[i].d == ex[i].p && g[i].src == ex[i].s && g[i].dest == ex[i].d;
				CHECK(!!(g[i].fmt & DIAG_FMT_BADCS) == ex[i].bad, ex[i].bad ? "rx1850:bad-crc-unflagged" : "rx1850:good-flagged-bad", "%s message %zu %s", ctx.c_str(), i, show(g).c_str());
				if (ex[i].bad) rep::cover("bad-crcs");
			}
			CHECK(same, "rx1850:wrong-messages", "%s delivered %s", ctx.c_str(), show(g).c_str());
			rep::cover("messages-delivered", ex.size());
			rep::distinct(fmt("%x %d ", fl, nm) + desc.substr(0, 80));
			rep::sample(ctx);
		}
		CHECK((now() - t0) / MS <= win + 30, "rx1850:window", "%s took %llu ms, window %u", ctx.c_str(), (unsigned long long)((now() - t0) / MS), win);
	}
	}
	CHECK(mem().live == live0, "rx1850:leak", "flags %X leaked %ld blocks", fl, mem().live - live0);
	CHECK(f.isopen == 0, "rx1850:device-left-open", "flags %X", fl);
}
static void noframe(Rng &r, long) {
	FakeL0 f(DIAG_L1_J1850_VPW, 0);
	Session s(f);
	budget(600 * SEC, 2000000);
	if (s.open(DIAG_L1_J1850_VPW) || !s.start(DIAG_L2_PROT_SAEJ1850, 0, 0, 1, 2)) { rep::violation("rx1850:refused", "non framing"); return; }
	f.push(now(), r.bytes(8));
	RecvSink sk; int rv = diag_l2_recv(s.c, 100, sink_cb, &sk);
	CHECK(rv < 0 && sk.got.empty(), "rx1850:unframed", "rv=%d", rv);
	rep::cover("unframed-refused"); rep::distinct("unframed");
}

// RAW: bytes in, bytes out
static void raw(Rng &r, long) {
	bool smart = r.chance(50);
	uint32_t fl = smart ? DIAG_L1_DOESL2FRAME : r.chance(50) ? DIAG_L1_HALFDUPLEX : 0;
	long live0 = mem().live;
	FakeL0 f(DIAG_L1_RAW, fl);
	{
	Session s(f);
	budget(3000 * SEC, 5000000);
	if (s.open(DIAG_L1_RAW) || !s.start(DIAG_L2_PROT_RAW, 0, r.range(300, 115200), r.byte(), r.byte())) { rep::violation("raw:refused", "start"); return; }
	for (int k = 0; k < 5; k++) {
		f.clear(); f.tx.clear();
		Bytes p = r.bytes(r.chance(80) ? r.range(1, 20) : r.range(21, 600)), a = r.bytes(r.chance(70) ? r.range(1, 30) : r.range(200, 1024));
		bool silent = r.chance(10);
		TMsg m(p);
		std::vector<Msg> g; int rv, kind = r.below(3);
		auto play = [&](ns_t t) { if (silent) return; if (smart) f.frame(t, a); else f.push(t, a, 100 * US); };
		if (kind == 0) { rv = diag_l2_send(s.c, &m.m); g.clear(); }
		else if (kind == 1) {
			f.ecu = [&](FakeL0 &, const Bytes &) { play(now() + 5 * MS); };
			int e = 0; struct diag_msg *q = diag_l2_request(s.c, &m.m, &e);
			rv = q ? 0 : e; g = chain(q); if (q) diag_freemsg(q); f.ecu = nullptr;
		} else { play(now() + 5 * MS); RecvSink sk; rv = diag_l2_recv(s.c, 300, sink_cb, &sk); if (!sk.got.empty()) g = sk.got[0]; }
		std::string ctx = fmt("kind=%d l0flags=%X tx len %zu [%s] rx len %zu rv=%d", kind, fl, p.size(), hex(p).substr(0, 60).c_str(), a.size(), rv);
		if (kind != 2) CHECK(f.sent() == p, "raw:altered-tx", "%s sent [%s]", ctx.c_str(), hex(f.sent()).substr(0, 300).c_str());
		if (kind != 0) {
			if (silent) CHECK(rv == DIAG_ERR_TIMEOUT && g.empty(), "raw:silence", "%s", ctx.c_str());
			else CHECK(rv == 0 && g.size() == 1 && g[0].d == a, "raw:altered-rx", "%s delivered len %zu", ctx.c_str(), g.empty() ? 0 : g[0].d.size());
		} else CHECK(rv == 0, "raw:send", "%s", ctx.c_str());
		rep::cover(kind == 0 ? "sends" : kind == 1 ? "requests" : "receives");
		rep::distinct(fmt("%x %d %zu %zu", fl, kind, p.size(), a.size())); rep::sample(ctx);
	}
	}
	CHECK(mem().live == live0, "raw:leak", "leaked %ld blocks", mem().live - live0);
	CHECK(f.isopen == 0, "raw:device-left-open", "flags %X", fl);
}
std::vector<Mode> modes() { return {{"tx", tx, stack_init}, {"rx", rx, stack_init}, {"noframe", noframe, stack_init}, {"raw", raw, stack_init}}; }
