// ISO 9141-2 link layer monitors.
#include "l2util.h"
using namespace vt;

struct Init { uint8_t kb1, kb2; int inv; /* -1 none, else byte */ bool full; ns_t d2, d4; };
static int g_inits; static ns_t g_kbt;
static bool bringup(FakeL0 &f, Session &s, uint8_t tgt, uint8_t src, const Init &i, unsigned type = DIAG_L2_TYPE_SLOWINIT, unsigned bitrate = 10400) {
	g_inits = 0;
	f.initbus = [i, tgt](FakeL0 &x, struct diag_l1_initbus_args *a) {
		g_inits++;
		if (a->type != DIAG_L1_INITBUS_5BAUD) rep::violation("init9141:wrong-init", fmt("initbus type %d", a->type));
		if (a->addr != tgt) rep::violation("init9141:wrong-address", fmt("5 baud address %02X instead of %02X", a->addr, tgt));
		advance(2400 * MS);
		if (!i.full) { x.push(now() + i.d2, Bytes{i.kb1}); x.push(now() + i.d2 + i.d2, Bytes{i.kb2}); g_kbt = now() + i.d2 + i.d2; }
		return 0;
	};
	f.ecu = [i](FakeL0 &x, const Bytes &b) { if (i.inv >= 0 && b.size() == 1) x.push(now() + i.d4, Bytes{(uint8_t)i.inv}); };
	int rv = s.open(DIAG_L1_ISO9141);
	if (rv) { rep::violation("init9141:open", fmt("rv %d", rv)); return false; }
	bool ok = s.start(DIAG_L2_PROT_ISO9141, type, bitrate, tgt, src);
	f.ecu = nullptr;
	return ok;
}
static uint32_t rnd_flags(Rng &r, bool smart) {
	uint32_t fl = DIAG_L1_SLOW;
	if (smart) {
		fl |= DIAG_L1_DOESL2FRAME;
		if (r.chance(60)) fl |= DIAG_L1_DOESL2CKSUM;
		if (r.chance(60)) fl |= DIAG_L1_STRIPSL2CKSUM;
		if (r.chance(30)) fl |= DIAG_L1_DOESP4WAIT;
		if (r.chance(50)) fl |= DIAG_L1_DOESSLOWINIT;
	} else if (r.chance(50)) fl |= DIAG_L1_HALFDUPLEX;
	return fl;
}
static const uint8_t KBS[2] = {0x08, 0x94};
static Init good(Rng &r, uint32_t fl, uint8_t tgt) {
	uint8_t k = KBS[r.below(2)];
	bool inv = !(fl & DIAG_L1_DOESSLOWINIT);
	return {k, k, inv ? (int)(uint8_t)~tgt : -1, !!(fl & DIAG_L1_DOESFULLINIT), (ns_t)r.range(5, 19) * MS, (ns_t)r.range(25, 49) * MS};
}

// The wake-up handshake: which key byte / echo combinations are accepted.
static void init(Rng &r, long idx) {
	bool smart = r.chance(40);
	uint32_t fl = rnd_flags(r, smart);
	if (r.chance(10)) fl |= DIAG_L1_DOESFULLINIT;
	FakeL0 f(DIAG_L1_ISO9141, fl);
	uint8_t tgt = r.chance(60) ? 0x33 : r.byte(), src = r.chance(60) ? 0xF1 : r.byte();
	Init i = good(r, fl, tgt);
	unsigned type = DIAG_L2_TYPE_SLOWINIT;
	bool slow = fl & DIAG_L1_DOESSLOWINIT, full = fl & DIAG_L1_DOESFULLINIT, want = true;
	const char *what = "good";
	switch (r.below(6)) {
	case 0: case 1: break;
	case 2: // any pair of key bytes
		if (r.chance(50)) { i.kb1 = idx & 0xff; i.kb2 = r.chance(70) ? i.kb1 : (uint8_t)(idx >> 8); }
		else { i.kb1 = r.pick({0x08, 0x94, 0x8f, 0x00, 0xff}); i.kb2 = r.pick({0x08, 0x94, 0x8f, 0x00, 0xff}); }
		what = "keybytes"; want = full || (i.kb1 == i.kb2 && (i.kb1 == 0x08 || i.kb1 == 0x94)); break;
	case 3: if (!slow && !full) { i.inv = r.chance(30) ? -1 : (int)r.byte(); what = "inverted-address"; want = i.inv == (uint8_t)~tgt; } break;
	case 4: if (!full) { what = "late-keybyte"; i.d2 = r.range(60, 500) * MS; want = false; } break;
	case 5: what = "fastinit"; type = r.pick({DIAG_L2_TYPE_FASTINIT, DIAG_L2_TYPE_CARBINIT, DIAG_L2_TYPE_MONINIT}); want = type == DIAG_L2_TYPE_MONINIT; break;
	}
	long live0 = mem().live;
	{
		budget(600 * SEC, 2000000);
		Session s(f);
		unsigned br = r.chance(30) ? 0 : r.pick({10400u, 9600u, 4800u});
		bool ok = bringup(f, s, tgt, src, i, type, br);
		std::string ctx = fmt("%s: l0flags=%X target %02X keybytes %02X %02X reply %d type %x", what, fl, tgt, i.kb1, i.kb2, i.inv, type);
		CHECK(ok == want, want ? "init9141:refused-valid" : "init9141:accepted-invalid", "%s -> %s", ctx.c_str(), ok ? "connected" : "refused");
		if (!(fl & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY)))
			CHECK(f.speeds.size() >= 1 && f.speeds[0].speed == (br ? br : 10400) && f.speeds[0].databits == diag_databits_8 && f.speeds[0].parflag == diag_par_n && f.speeds[0].stopbits == diag_stopbits_1, "init9141:port-setup", "%s bitrate %u", ctx.c_str(), br);
		if (type == DIAG_L2_TYPE_SLOWINIT) {
			CHECK(g_inits == 1, "init9141:init-count", "%s: %d wake-ups", ctx.c_str(), g_inits);
			Bytes sent = f.sent();
			bool kbok = i.kb1 == i.kb2 && (i.kb1 == 0x08 || i.kb1 == 0x94) && strcmp(what, "late-keybyte");
			Bytes ws = (!slow && !full && kbok) ? Bytes{(uint8_t)~i.kb2} : Bytes{};
			CHECK(sent == ws, "init9141:handshake-bytes", "%s: tester sent [%s]", ctx.c_str(), hex(sent).c_str());
			if (sent.size() == 1 && sent == ws) { ns_t w4 = f.tx[0].t - g_kbt; CHECK(w4 >= 25 * MS && w4 <= 50 * MS, "init9141:W4", "%s inverted key byte sent %lld us after key byte 2", ctx.c_str(), (long long)w4 / 1000); rep::cover("W4-measured"); }
		} else {
			CHECK(g_inits == 0 && f.tx.empty(), "init9141:silent-monitor", "%s", ctx.c_str());
		}
		if (ok && type == DIAG_L2_TYPE_SLOWINIT) {
			struct diag_l2_data d;
			memset(&d, 0xa5, sizeof d);
			CHECK(diag_l2_ioctl(s.c, DIAG_IOCTL_GET_L2_DATA, &d) == 0, "init9141:l2data", "%s", ctx.c_str());
			if (!full) CHECK(d.kb1 == i.kb1 && d.kb2 == i.kb2, "init9141:keybytes-reported", "%s reported %02X %02X", ctx.c_str(), d.kb1, d.kb2);
		}
		rep::cover(std::string(ok ? "accepted-" : "refused-") + what);
		rep::distinct(ctx);
		rep::sample(ctx + (ok ? " -> connected" : " -> refused"));
	}
	CHECK(f.isopen == 0 && f.opens == f.closes, "init9141:device-left-open", "%s opens %d closes %d", what, f.opens, f.closes);
	CHECK(mem().live == live0, "init9141:leak", "%s leaked %ld blocks", what, mem().live - live0);
}

static void tx(Rng &r, long idx) {
	bool smart = r.chance(40);
	uint32_t fl = rnd_flags(r, smart);
	if (smart && r.chance(25)) fl |= DIAG_L1_DATAONLY;
	FakeL0 f(DIAG_L1_ISO9141, fl);
	Session s(f);
	budget(600 * SEC, 2000000);
	uint8_t tgt = r.byte(), src = r.byte();
	if (!bringup(f, s, tgt, src, good(r, fl, tgt))) { rep::violation("tx9141:init-refused", fmt("flags %x", fl)); return; }
	for (int k = 0; k < 4; k++) {
		size_t n = r.chance(80) ? 1 + (idx + k) % 7 : r.chance(80) ? r.range(8, 40) : r.range(41, 1100);
		Bytes p = r.bytes(n);
		uint8_t md = r.byte(), ms = r.byte();
		TMsg m(p, md, ms);
		f.clear(); f.tx.clear();
		ns_t t0 = now();
		int rv = diag_l2_send(s.c, &m.m);
		Bytes got = f.sent(), want;
		std::string ctx = fmt("l0flags=%X src=%02X len=%zu rv=%d sent [%s]", fl, src, n, rv, hex(got).c_str());
		if (n <= 7) {
			if (fl & DIAG_L1_DATAONLY) want = p;
			else {
				want = {0x68, 0x6A, src};
				want.insert(want.end(), p.begin(), p.end());
				if (!(fl & DIAG_L1_DOESL2CKSUM)) want.push_back(sum8(want, want.size()));
			}
			CHECK(rv == 0, "tx9141:refused-valid", "%s", ctx.c_str());
			CHECK(got == want, "tx9141:wrong-frame", "%s expected [%s]", ctx.c_str(), hex(want).c_str());
			if (!f.tx.empty()) CHECK(f.tx[0].t - t0 >= 55 * MS, "tx9141:p3min", "%s started after %llu us", ctx.c_str(), (unsigned long long)((f.tx[0].t - t0) / US));
			if (!(fl & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT)))
				for (size_t i = 1; i < f.tx.size(); i++) {
					ns_t gap = f.tx[i].t - f.tx[i - 1].t;
					CHECK(f.tx[i].b.size() == 1 && gap >= 5 * MS && gap <= 25 * MS, "tx9141:byte-spacing", "%s gap %llu us", ctx.c_str(), (unsigned long long)(gap / US));
					rep::cover("spaced-bytes");
				}
			rep::cover("frames-checked");
			rep::distinct(fmt("%x %zu %02x %d", fl, n, src, idx % 50 ? 0 : 1) + hex(p));
			rep::sample(ctx);
		} else {
			CHECK(rv < 0 && got.empty(), "tx9141:accepted-unsendable", "%s", ctx.c_str());
			rep::cover("refusals-checked");
		}
		CHECK(m.m.len == n && !memcmp(m.m.data, p.data(), n) && m.m.dest == md && m.m.src == ms, "tx9141:caller-msg-modified", "%s", ctx.c_str());
	}
}
static Bytes rxframe(const Bytes &p, uint8_t src) {
	Bytes o = {0x48, 0x6B, src};
	o.insert(o.end(), p.begin(), p.end());
	o.push_back(sum8(o, o.size()));
	return o;
}
static void rx(Rng &r, long) {
	bool smart = r.chance(50);
	uint32_t fl = rnd_flags(r, smart);
	if (smart && (fl & DIAG_L1_STRIPSL2CKSUM) && r.chance(25)) fl |= DIAG_L1_NOHDRS;
	FakeL0 f(DIAG_L1_ISO9141, fl);
	Session s(f);
	budget(3000 * SEC, 5000000);
	uint8_t tgt = r.byte();
	if (!bringup(f, s, tgt, 0xf1, good(r, fl, tgt))) { rep::violation("rx9141:init-refused", fmt("flags %x", fl)); return; }
	bool strips = fl & DIAG_L1_STRIPSL2CKSUM, nohdr = fl & DIAG_L1_NOHDRS;
	bool viareq = r.chance(40);
	for (int round = 0; round < 5; round++) {
		f.clear();
		enum Kind { GOOD, BADCK, SHORT, BADHDR };
		Kind kind = (Kind)(r.chance(55) ? 0 : r.range(1, 3));
		if (strips && kind == BADCK) kind = GOOD;
		if (nohdr) kind = GOOD;
		int nm = r.chance(50) ? 1 : r.range(2, 5), badi = r.below(nm);
		struct Exp { Bytes p; uint8_t s; bool bad; };
		std::vector<Exp> ex;
		std::vector<Bytes> wire;
		std::string desc;
		for (int i = 0; i < nm; i++) {
			size_t n = r.range(1, 7);
			Bytes p = r.bytes(n);
			uint8_t src = r.byte();
			Bytes fr = rxframe(p, src);
			bool bad = kind == BADCK && i == badi;
			if (bad) fr.back() ^= 1 + r.below(255);
			if (kind == BADHDR && i == badi) { if (r.chance(50)) fr[0] = (uint8_t)(0x48 + 1 + r.below(255)); else fr[1] = (uint8_t)(0x6B + 1 + r.below(255)); }
			if (kind == SHORT && i == nm - 1) fr.resize(r.range(1, strips ? 4 : 4));
			if (strips) fr.pop_back();
			if (fr.empty()) fr.push_back(0x48);
			if (nohdr) fr = p;
			wire.push_back(fr);
			ex.push_back({p, nohdr ? (uint8_t)0 : src, bad});
			desc += "[" + hex(fr) + "] ";
		}
		auto play = [&](ns_t t) {
			for (auto &fr : wire) {
				if (smart) { f.frame(t, fr); t += r.range(1, 130) * MS; }
				else {
					ns_t gap = r.chance(70) ? 960 * US : (ns_t)r.range(1, 9) * MS;
					f.push(t, fr, gap);
					// without framing help, a gap is what ends a message shorter than the longest
					t += gap * (fr.size() - 1) + (ns_t)(r.chance(50) && fr.size() == 11 ? r.range(1, 18) : r.range(26, 50)) * MS;
				}
			}
		};
		std::vector<Msg> g;
		int rv;
		if (viareq) {
			f.ecu = [&](FakeL0 &, const Bytes &) { play(now() + r.range(1, 45) * MS); };
			TMsg m(r.bytes(r.range(1, 7)));
			int err = 0;
			f.tx.clear();
			struct diag_msg *q = diag_l2_request(s.c, &m.m, &err);
			rv = q ? 0 : err;
			g = chain(q);
			if (q) diag_freemsg(q);
			f.ecu = nullptr;
		} else {
			play(now() + r.range(1, 40) * MS);
			RecvSink sk;
			rv = diag_l2_recv(s.c, r.range(60, 250), sink_cb, &sk);
			if (!sk.got.empty()) g = sk.got[0];
		}
		std::string ctx = fmt("%s l0flags=%X kind=%d frames %s rv=%d", viareq ? "request" : "recv", fl, (int)kind, desc.c_str(), rv);
		if (kind == GOOD || kind == BADCK) {
			bool same = g.size() == ex.size();
			for (size_t i = 0; same && i < g.size(); i++) {
				same = g[i].d == ex[i].p && g[i].src == ex[i].s;
				CHECK(!!(g[i].fmt & DIAG_FMT_BADCS) == ex[i].bad, ex[i].bad ? "rx9141:bad-cksum-unflagged" : "rx9141:good-flagged-bad", "%s message %zu %s", ctx.c_str(), i, show(g).c_str());
			}
			CHECK(rv == 0, "rx9141:not-delivered", "%s", ctx.c_str());
			CHECK(rv != 0 || same, "rx9141:wrong-messages", "%s delivered %s", ctx.c_str(), show(g).c_str());
			rep::cover("messages-delivered", ex.size());
			if (kind == BADCK) rep::cover("bad-checksums");
			rep::cover(fmt("bursts-of-%d", nm));
			rep::distinct(fmt("%x %d ", fl, nm) + desc.substr(0, 60));
			rep::sample(ctx);
		} else {
			CHECK(rv < 0 && g.empty(), "rx9141:malformed-delivered", "%s delivered %s", ctx.c_str(), show(g).c_str());
			rep::cover(kind == SHORT ? "short-rejected" : "bad-header-rejected");
		}
		// line error in the middle of a frame, then a clean exchange
		f.clear(); idle(300 * MS); f.clear();
		if (r.chance(30) && !smart) {
			Bytes part = rxframe(r.bytes(5), 0x10); part.resize(r.range(1, 8));
			f.push(now() + 5 * MS, part); f.error(now() + 5 * MS + part.size() * f.byte_ns + r.range(1, 15) * MS, DIAG_ERR_GENERAL);
			RecvSink sk; rv = diag_l2_recv(s.c, 90, sink_cb, &sk);
			CHECK(rv < 0 && sk.got.empty(), "rx9141:delivered-after-error", "partial [%s] rv=%d", hex(part).c_str(), rv);
			f.clear(); idle(300 * MS); rep::cover("line-errors");
		}
		Bytes mark = r.bytes(r.range(1, 7));
		Bytes fr = rxframe(mark, 0x22);
		if (strips) fr.pop_back();
		if (nohdr) fr = mark;
		RecvSink s2;
		if (smart) f.frame(now() + 10 * MS, fr); else f.push(now() + 10 * MS, fr);
		rv = diag_l2_recv(s.c, 100, sink_cb, &s2);
		CHECK(rv == 0 && s2.got.size() == 1 && s2.got[0].size() == 1 && s2.got[0][0].d == mark, "rx9141:stale-or-lost", "after %s; [%s] gave rv=%d %s", ctx.c_str(), hex(fr).c_str(), rv, s2.got.empty() ? "" : show(s2.got[0]).c_str());
		RecvSink s3;
		rv = diag_l2_recv(s.c, 100, sink_cb, &s3);
		CHECK(rv == DIAG_ERR_TIMEOUT && s3.got.empty(), "rx9141:silence", "rv=%d", rv);
	}
}
std::vector<Mode> modes() { return {{"init", init, stack_init}, {"tx", tx, stack_init}, {"rx", rx, stack_init}}; }
