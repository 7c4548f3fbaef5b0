// ISO 14230 (KWP2000) link layer: transmit, receive and request monitors.
#include "l2util.h"
using namespace vt;

struct KW { bool fmtlen, lenbyte, shorthdr, longhdr; };
static KW kw(uint8_t kb1) { return {(kb1 & 1) != 0, (kb1 & 2) != 0, (kb1 & 4) != 0, (kb1 & 8) != 0}; }
static uint8_t rnd_kb1(Rng &r) { uint8_t k = r.below(16); return k | 0x40 | (r.chance(50) ? 0x80 : 0) | (r.chance(20) ? 0x10 : 0); }

// What ISO 14230-2 says the request frame is, given what the ECU announced.
static bool ref_frame(const Bytes &p, uint8_t kb1, bool func, uint8_t dst, uint8_t src, bool addck, Bytes &out) {
	KW k = kw(kb1);
	out.clear();
	bool addr = k.longhdr || !k.shorthdr;
	if (p.empty() || p.size() > 255) return false;
	bool sep;
	if (k.lenbyte && !k.fmtlen) sep = true;
	else if (p.size() < 64) sep = false;
	else if (k.lenbyte) sep = true;
	else return false;
	uint8_t f = addr ? (func ? 0xC0 : 0x80) : 0;
	if (!sep) f |= p.size();
	out.push_back(f);
	if (addr) { out.push_back(dst); out.push_back(src); }
	if (sep) out.push_back(p.size());
	out.insert(out.end(), p.begin(), p.end());
	if (addck) out.push_back(sum8(out, out.size()));
	return true;
}

// Bring up a session whose ECU announces kb1.
static bool bringup(FakeL0 &f, Session &s, Rng &r, uint8_t kb1, uint8_t kb2, bool fast, unsigned fl, uint8_t tgt, uint8_t src) {
	f.initbus = [&, kb1, kb2, fast](FakeL0 &x, struct diag_l1_initbus_args *) {
		if (!fast) {
			if (x.framed) x.frame(now() + 20 * MS, Bytes{kb1, kb2});
			else x.push(now() + 20 * MS, Bytes{kb1, kb2});
		}
		return 0;
	};
	auto keep = f.ecu;
	f.ecu = [&, kb1, kb2, fast, tgt, src](FakeL0 &x, const Bytes &b) {
		if (fast) {
			Bytes m = {0x83, src, tgt, 0xC1, kb1, kb2};
			if (!(x.flags & DIAG_L1_STRIPSL2CKSUM)) m.push_back(sum8(m, m.size()));
			if (x.flags & DIAG_L1_NOHDRS) m.erase(m.begin(), m.begin() + 3);
			if (x.framed) x.frame(now() + 30 * MS, m); else x.push(now() + 30 * MS, m);
		} else if (b.size() == 1) {
			x.push(now() + 30 * MS, Bytes{(uint8_t)~tgt});
		}
	};
	bool ok = s.open(DIAG_L1_ISO14230) == 0 &&
	          s.start(DIAG_L2_PROT_ISO14230, (fast ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT) | fl, 10400, tgt, src);
	f.ecu = keep;
	f.tx.clear(); f.clear();
	(void)r;
	return ok;
}
static uint32_t rnd_flags(Rng &r, bool smart) {
	uint32_t fl = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST;
	if (smart) {
		fl |= DIAG_L1_DOESL2FRAME;
		if (r.chance(60)) fl |= DIAG_L1_DOESL2CKSUM;
		if (r.chance(60)) fl |= DIAG_L1_STRIPSL2CKSUM;
		if (r.chance(30)) fl |= DIAG_L1_DOESP4WAIT;
		if (r.chance(30)) fl |= DIAG_L1_NOTTY;
		if (r.chance(50)) fl |= DIAG_L1_DOESSLOWINIT;
	} else {
		if (r.chance(50)) fl |= DIAG_L1_HALFDUPLEX;
		else if (r.chance(20)) fl |= DIAG_L1_DOESP4WAIT;
	}
	return fl;
}

static void tx(Rng &r, long idx) {
	bool smart = r.chance(35);
	uint32_t fl = rnd_flags(r, smart);
	if (smart && r.chance(25)) fl |= DIAG_L1_DATAONLY;
	uint8_t kb1 = rnd_kb1(r), tgt = r.byte(), src = r.byte();
	bool func = r.chance(40), fast = smart && !(fl & DIAG_L1_DOESSLOWINIT) ? true : r.chance(50);
	FakeL0 f(DIAG_L1_ISO14230, fl);
	Session s(f);
	unsigned cf = func ? DIAG_L2_TYPE_FUNCADDR : 0;
	budget(600 * SEC, 2000000);
	if (!bringup(f, s, r, kb1, 0x8f, fast, cf, tgt, src)) { rep::violation("tx14230:init-refused", fmt("valid %s init refused, flags %x kb1 %02x", fast ? "fast" : "slow", fl, kb1)); return; }
	rep::cover("sessions");
	int nmsg = r.range(2, 5);
	for (int k = 0; k < nmsg; k++) {
		// lengths: every value 1..255 is covered across cases; also beyond
		size_t n = r.chance(12) ? r.range(256, 700) : (r.chance(30) ? r.pick({1, 2, 62, 63, 64, 65, 127, 128, 254, 255}) : 1 + (idx * 7 + k * 61 + r.below(3)) % 255);
		if (r.chance(2)) n = 0;
		if (r.chance(3)) n = r.range(1015, 1100);
		uint8_t md = r.chance(50) ? 0 : r.byte(), ms = r.chance(50) ? 0 : r.byte();
		Bytes p = r.bytes(n);
		TMsg m(p, md, ms);
		f.tx.clear();
		ns_t t0 = now();
		int rv = diag_l2_send(s.c, &m.m);
		Bytes want, got = f.sent();
		bool okref;
		if (fl & DIAG_L1_DATAONLY) { want = p; okref = n > 0 && n <= MAXRBUF; }
		else okref = ref_frame(p, kb1, func, md ? md : tgt, ms ? ms : src, !(fl & DIAG_L1_DOESL2CKSUM), want);
		std::string ctx = fmt("kb1=%02X func=%d l0flags=%X tgt=%02X src=%02X msg.dest=%02X msg.src=%02X len=%zu rv=%d", kb1, func, fl, tgt, src, md, ms, n, rv);
		if (okref) {
			CHECK(rv == 0, "tx14230:refused-valid", "%s", ctx.c_str());
			CHECK(got == want, "tx14230:wrong-frame", "%s sent [%s] expected [%s]", ctx.c_str(), hex(got).c_str(), hex(want).c_str());
			// spacing
			if (!(fl & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT))) {
				for (size_t i = 1; i < f.tx.size(); i++) {
					ns_t gap = f.tx[i].t - f.tx[i - 1].t;
					CHECK(gap >= 5 * MS && gap <= 25 * MS, "tx14230:byte-spacing", "%s gap %llu us before byte %zu", ctx.c_str(), (unsigned long long)(gap / US), i);
					CHECK(f.tx[i].b.size() == 1, "tx14230:byte-spacing", "%s burst of %zu bytes without inter-byte gap", ctx.c_str(), f.tx[i].b.size());
				}
				rep::cover("spaced-bytes", f.tx.size());
			}
			if (!(fl & DIAG_L1_DATAONLY) && !f.tx.empty())
				CHECK(f.tx[0].t - t0 >= 55 * MS, "tx14230:p3min", "%s request started %llu us after previous traffic", ctx.c_str(), (unsigned long long)((f.tx[0].t - t0) / US));
			rep::cover("frames-checked");
			rep::distinct(fmt("%d %d %zu %x %d %d", kb1 & 15, func, n, fl, md != 0, ms != 0));
			if (k == 0) rep::sample(ctx + " wire: " + hex(got));
		} else {
			CHECK(rv < 0, "tx14230:accepted-unsendable", "%s sent [%s]", ctx.c_str(), hex(got).c_str());
			CHECK(got.empty(), "tx14230:partial-send", "%s sent [%s] for an unsendable request", ctx.c_str(), hex(got).c_str());
			rep::cover("refusals-checked");
		}
		// the caller's message is not modified
		CHECK(m.m.len == n && (n == 0 || !memcmp(m.m.data, p.data(), n)) && m.m.dest == md && m.m.src == ms, "tx14230:caller-msg-modified", "%s", ctx.c_str());
		f.clear();
	}
}

// Build an ECU -> tester frame; hdr: 0 short,1 short+len,2 addr,3 addr+len
static Bytes ecu_frame(const Bytes &p, int hdr, bool func, uint8_t dst, uint8_t src) {
	Bytes o;
	uint8_t f = (hdr >= 2) ? (func ? 0xC0 : 0x80) : 0;
	if (!(hdr & 1)) f |= p.size();
	o.push_back(f);
	if (hdr >= 2) { o.push_back(dst); o.push_back(src); }
	if (hdr & 1) o.push_back(p.size());
	o.insert(o.end(), p.begin(), p.end());
	o.push_back(sum8(o, o.size()));
	return o;
}

static void rx(Rng &r, long) {
	bool smart = r.chance(40);
	uint32_t fl = rnd_flags(r, smart);
	uint8_t kb1 = rnd_kb1(r), tgt = r.byte(), src = r.byte();
	bool nohdr = smart && (fl & DIAG_L1_STRIPSL2CKSUM) && r.chance(25);
	FakeL0 f(DIAG_L1_ISO14230, fl);
	Session s(f);
	budget(3000 * SEC, 5000000);
	if (nohdr) { f.flags |= DIAG_L1_NOHDRS; fl = f.flags; }
	if (!bringup(f, s, r, kb1, 0x8f, smart && !(fl & DIAG_L1_DOESSLOWINIT) ? true : r.chance(50), 0, tgt, src)) { rep::violation("rx14230:init-refused", fmt("flags %x", fl)); return; }
	bool strips = fl & DIAG_L1_STRIPSL2CKSUM;
	for (int round = 0; round < 4; round++) {
		f.clear();
		int nm = r.chance(50) ? 1 : r.range(2, 5);
		enum Kind { GOOD, BADCK, TRUNC, BADFMT, ZEROLEN };
		Kind kind = (Kind)(r.chance(60) ? 0 : r.range(1, 4));
		if (nohdr) kind = GOOD;
		if (strips && kind == BADCK) kind = GOOD;
		int badi = r.below(nm);
		struct Exp { Bytes p; uint8_t s, d; bool func, bad; };
		std::vector<Exp> ex;
		ns_t t = now() + r.range(1, 40) * MS;
		std::string desc;
		size_t total = 0;
		bool merged_prev = false;
		for (int i = 0; i < nm; i++) {
			int hdr = r.below(4);
			size_t maxp = (hdr & 1) ? 255 : 63;
			size_t n = r.chance(60) ? r.range(1, 12) : r.range(1, maxp);
			if (n > maxp) n = maxp;
			if (!smart && total + n + 5 > 1000) n = 1;
			Bytes p = r.bytes(n);
			bool func = r.chance(40);
			uint8_t ms = r.byte(), md = r.byte();
			Bytes fr = ecu_frame(p, hdr, func, md, ms);
			bool bad = false;
			if (kind == BADCK && i == badi) { fr.back() ^= 1 + r.below(255); bad = true; }
			// single-byte truncation must be the last frame of a burst, or the split would re-frame
			if (kind == TRUNC && i == nm - 1) { size_t cut = r.range(1, fr.size() - 1); fr.resize(fr.size() - cut); }
			if (kind == BADFMT && i == badi) fr[0] = 0x40 | (fr[0] & 0x3f);
			if (kind == ZEROLEN && i == badi) fr = ecu_frame(Bytes(), hdr | 1, func, md, ms);
			if (strips) fr.pop_back();
			if (fr.empty()) fr.push_back(0x80);
			if (nohdr) fr = p;
			ex.push_back({p, (uint8_t)(hdr >= 2 && !nohdr ? ms : 0), (uint8_t)(hdr >= 2 && !nohdr ? md : 0), hdr >= 2 && func && !nohdr, bad});
			desc += fmt("[%s]%s ", hex(fr).c_str(), bad ? "(bad cksum)" : "");
			if (smart) { f.frame(t, fr); t += r.range(5, 120) * MS; }
			else {
				ns_t gap = r.chance(70) ? 960 * US : (ns_t)r.range(1, 17) * MS;
				f.push(t, fr, gap);
				t += gap * (fr.size() - 1);
				// next message: clearly separate, or glued to this one
				bool glue = r.chance(40);
				t += glue ? (ns_t)r.range(1, 16) * MS : (ns_t)r.range(27, 44) * MS;
				merged_prev = glue; (void)merged_prev;
				total += fr.size();
			}
		}
		RecvSink sink;
		unsigned tout = smart ? r.range(100, 300) : r.range(60, 300);
		int rv = diag_l2_recv(s.c, tout, sink_cb, &sink);
		std::string ctx = fmt("l0flags=%X kind=%d frames: %s rv=%d", fl, (int)kind, desc.c_str(), rv);
		if (kind == GOOD || kind == BADCK) {
			CHECK(rv == 0 && sink.got.size() == 1, "rx14230:not-delivered", "%s", ctx.c_str());
			if (sink.got.size() == 1) {
				auto &g = sink.got[0];
				bool same = g.size() == ex.size();
				for (size_t i = 0; same && i < g.size(); i++) {
					same = g[i].d == ex[i].p && g[i].src == ex[i].s && g[i].dest == ex[i].d;
					CHECK(!!(g[i].fmt & DIAG_FMT_BADCS) == ex[i].bad, ex[i].bad ? "rx14230:bad-cksum-unflagged" : "rx14230:good-flagged-bad", "%s message %zu: %s", ctx.c_str(), i, show(g).c_str());
					CHECK(!!(g[i].fmt & DIAG_FMT_ISO_FUNCADDR) == ex[i].func, "rx14230:addr-type", "%s message %zu: %s", ctx.c_str(), i, show(g).c_str());
				}
				CHECK(same, "rx14230:wrong-messages", "%s delivered %s", ctx.c_str(), show(g).c_str());
			}
			rep::cover("messages-delivered", ex.size());
			rep::cover(fmt("bursts-of-%d", nm));
			rep::distinct(fmt("%x %d %zu", fl, nm, ex[0].p.size()) + desc.substr(0, 60));
			rep::sample(ctx);
		} else {
			CHECK(rv < 0 && sink.got.empty(), "rx14230:malformed-delivered", "%s delivered %s", ctx.c_str(), sink.got.empty() ? "" : show(sink.got[0]).c_str());
			rep::cover(kind == TRUNC ? "truncated-rejected" : kind == ZEROLEN ? "zero-length-rejected" : "badformat-rejected");
		}
		// whatever happened above must leave nothing behind for the next exchange
		f.clear();
		idle(200 * MS);
		Bytes mark = r.bytes(r.range(1, 20));
		Bytes fr = ecu_frame(mark, 2, false, src, tgt);
		if (strips) fr.pop_back();
		if (nohdr) fr = mark;
		RecvSink s2;
		if (smart) f.frame(now() + 10 * MS, fr); else f.push(now() + 10 * MS, fr);
		rv = diag_l2_recv(s.c, 200, sink_cb, &s2);
		CHECK(rv == 0 && s2.got.size() == 1 && s2.got[0].size() == 1 && s2.got[0][0].d == mark, "rx14230:stale-or-lost", "after: %s; then [%s] gave rv=%d %s", ctx.c_str(), hex(fr).c_str(), rv, s2.got.empty() ? "" : show(s2.got[0]).c_str());
		// silence is a timeout, not a message
		RecvSink s3;
		rv = diag_l2_recv(s.c, 100, sink_cb, &s3);
		CHECK(rv == DIAG_ERR_TIMEOUT && s3.got.empty(), "rx14230:silence", "silent bus gave rv=%d", rv);
	}
}

// Request/response: ECU answers with a scripted list of responses
static void req(Rng &r, long) {
	bool smart = r.chance(40);
	uint32_t fl = rnd_flags(r, smart);
	uint8_t kb1 = rnd_kb1(r), tgt = r.byte() | 1, src = r.byte() | 1;
	FakeL0 f(DIAG_L1_ISO14230, fl);
	Session s(f);
	budget(3000 * SEC, 5000000);
	if (!bringup(f, s, r, kb1, 0x8f, smart && !(fl & DIAG_L1_DOESSLOWINIT) ? true : r.chance(50), 0, tgt, src)) { rep::violation("req14230:init-refused", fmt("flags %x", fl)); return; }
	bool strips = fl & DIAG_L1_STRIPSL2CKSUM;
	auto reply = [&](FakeL0 &x, ns_t t, const Bytes &p) {
		Bytes fr = ecu_frame(p, 2, false, src, tgt);
		if (strips) fr.pop_back();
		if (x.framed) x.frame(t, fr); else x.push(t, fr);
		return x.framed ? t : t + fr.size() * x.byte_ns;
	};
	for (int round = 0; round < 4; round++) {
		f.clear();
		uint8_t sid = r.pick({0x01, 0x10, 0x1A, 0x21, 0x23, 0x3B, 0x81});
		Bytes rq = {sid}; Bytes more = r.bytes(r.range(0, 6)); rq.insert(rq.end(), more.begin(), more.end());
		int scen = r.below(8);
		int nbusy = 0, npend = 0, nrc = 0, sends = 0;
		bool silent = false, garbage = false;
		Bytes pos = {(uint8_t)(sid | 0x40)}; more = r.bytes(r.range(0, 20)); pos.insert(pos.end(), more.begin(), more.end());
		std::vector<Bytes> extra;
		bool glued = r.chance(50);
		switch (scen) {
		case 0: case 1: break;
		case 2: nbusy = r.range(1, 3); break;
		case 3: nbusy = r.range(4, 6); break;
		case 4: npend = r.range(1, 5); break;
		case 5: do nrc = r.byte(); while (nrc == 0x21 || nrc == 0x78); break;
		case 6: silent = r.chance(50); garbage = !silent; break;
		case 7: nbusy = r.range(0, 3); npend = r.range(1, 3); break;
		}
		if (scen <= 1 && r.chance(40)) { extra.push_back(r.bytes(r.range(1, 8))); extra[0][0] |= 0x40; if (extra[0][0] == 0x7f) extra[0][0] = 0x41; }
		f.ecu = [&](FakeL0 &x, const Bytes &) {
			sends++;
			ns_t t = now() + r.range(26, 40) * MS;
			if (silent) return;
			if (garbage) { Bytes g = ecu_frame(pos, 2, false, src, tgt); g[0] = 0x40 | 3; if (x.framed) x.frame(t, g); else x.push(t, g); return; }
			if (sends <= nbusy) { reply(x, t, Bytes{0x7f, sid, 0x21}); return; }
			if (nrc) { reply(x, t, Bytes{0x7f, sid, (uint8_t)nrc}); return; }
			for (int i = 0; i < npend; i++) {
				t = reply(x, t, Bytes{0x7f, sid, 0x78});
				t += glued ? (ns_t)r.range(28, 40) * MS : (ns_t)r.range(28, 42) * MS;
			}
			t = reply(x, t, pos);
			for (auto &e : extra) { t += r.range(28, 40) * MS; t = reply(x, t, e); }
		};
		int err = 12345;
		TMsg m(rq);
		f.tx.clear();
		struct diag_msg *rsp = diag_l2_request(s.c, &m.m, &err);
		auto got = chain(rsp);
		if (rsp) diag_freemsg(rsp);
		f.ecu = nullptr;
		std::string ctx = fmt("req [%s] scen=%d busy=%d pending=%d nrc=%02X silent=%d garbage=%d l0flags=%X: errval=%d sends=%d got %s", hex(rq).c_str(), scen, nbusy, npend, nrc, silent, garbage, fl, err, sends, show(got).c_str());
		if (silent || garbage) {
			CHECK(got.empty() && err < 0, "req14230:answer-from-nothing", "%s", ctx.c_str());
			CHECK(sends == 1, "req14230:resend-count", "%s", ctx.c_str());
		} else if (nbusy > 3) {
			CHECK(got.empty() && err < 0, "req14230:busy-forever", "%s", ctx.c_str());
			CHECK(sends == 4, "req14230:busy-retries", "%s: at most 3 repeats expected", ctx.c_str());
		} else if (nrc) {
			CHECK(err == DIAG_ERR_ECUSAIDNO && got.size() == 1 && got[0].d == (Bytes{0x7f, sid, (uint8_t)nrc}), "req14230:refusal", "%s", ctx.c_str());
			CHECK(sends == 1, "req14230:resend-count", "%s", ctx.c_str());
		} else {
			bool ok = err == 0 && !got.empty() && got[0].d == pos && got[0].src == tgt;
			CHECK(ok, "req14230:wrong-answer", "%s expected [%s]", ctx.c_str(), hex(pos).c_str());
			size_t want = 1 + extra.size();
			bool chainok = got.size() == want;
			for (size_t i = 0; chainok && i < extra.size(); i++) chainok = got[i + 1].d == extra[i];
			CHECK(!ok || chainok, "req14230:wrong-chain", "%s", ctx.c_str());
			CHECK(sends == nbusy + 1, "req14230:resend-count", "%s", ctx.c_str());
		}
		// the retransmissions are identical to the request
		std::set<Bytes> uniq;
		if (fl & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT)) { for (auto &e : f.tx) uniq.insert(e.b); CHECK(uniq.size() == 1 && (int)f.tx.size() == (nbusy > 3 ? 4 : nbusy + 1) * 1, "req14230:retransmit-differs", "%s", ctx.c_str()); }
		rep::cover(fmt("scenario-%d", scen));
		rep::distinct(fmt("%d %d %d %d %d %x %zu", scen, nbusy, npend, nrc, (int)extra.size(), fl, pos.size()));
		rep::sample(ctx);
		idle(300 * MS);
		f.clear();
	}
}

// The wake-up handshake: which answers are accepted, and what goes on the bus.
static void init(Rng &r, long idx) {
	bool smart = r.chance(30), fast = r.chance(50);
	uint32_t fl = rnd_flags(r, smart);
	if (r.chance(10)) fl |= DIAG_L1_DOESFULLINIT;
	if (smart && fast && r.chance(15)) fl |= DIAG_L1_NOHDRS | DIAG_L1_STRIPSL2CKSUM;
	FakeL0 f(DIAG_L1_ISO14230, fl);
	bool full = fl & DIAG_L1_DOESFULLINIT, slow = fl & DIAG_L1_DOESSLOWINIT, nohdr = fl & DIAG_L1_NOHDRS, strip = fl & DIAG_L1_STRIPSL2CKSUM;
	uint8_t tgt = r.byte(), src = r.byte(), kb1 = rnd_kb1(r), kb2 = r.chance(80) ? 0x8f : r.byte(), ecuaddr = r.byte();
	bool func = r.chance(50);
	unsigned type = (fast ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT) | (func ? DIAG_L2_TYPE_FUNCADDR : 0);
	unsigned br = r.pick({0u, 10400u, 9600u});
	bool want = true;
	ns_t kbt = 0;
	int w = r.below(8), irv = 0, inits = 0;
	// the ECU's side
	bool resp = true; Bytes pl = {0xC1, kb1, kb2}; int breakck = 0, nkb = 2; int inv = (uint8_t)~tgt;
	switch (w) {
	case 0: case 1: break;
	case 2: if (fast) { pl = {0x7f, 0x81, r.byte()}; } else inv = r.byte(); if (!full) want = !fast && (slow || inv == (uint8_t)~tgt); break;
	case 3: resp = false; nkb = r.chance(50) ? 0 : 1; want = full; break;
	case 4: irv = r.pick({DIAG_ERR_TIMEOUT, DIAG_ERR_GENERAL, DIAG_ERR_WRONGKB}); want = false; break;
	case 5: if (fast) { if (!strip) { breakck = 1 + r.below(255); want = full; } } else { inv = -1; want = full || slow; } break;
	case 6: if (fast) { if (r.chance(50)) pl.resize(r.range(1, 2)); else { do pl[0] = r.byte(); while (pl[0] == 0xC1); } want = full; } break;
	case 7: type = DIAG_L2_TYPE_MONINIT; break;
	}
	if (w != 7 && r.chance(5)) { type = 0x40000000u | DIAG_L2_TYPE_CARBINIT; want = false; w = 9; }
	f.initbus = [&](FakeL0 &x, struct diag_l1_initbus_args *a) {
		inits++;
		if (fast) CHECK(a->type == DIAG_L1_INITBUS_FAST && a->addr == tgt && a->testerid == src && a->physaddr == !func, "init14230:wrong-init", "type %d addr %02X tester %02X phys %d (target %02X source %02X func %d)", a->type, a->addr, a->testerid, a->physaddr, tgt, src, func);
		else CHECK(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == tgt, "init14230:wrong-init", "type %d addr %02X (target %02X)", a->type, a->addr, tgt);
		if (irv) return irv;
		if (!fast && !full && nkb) { Bytes k = {kb1, kb2}; k.resize(w == 3 ? nkb : 2); kbt = now() + 20 * MS + (x.framed ? 0 : x.byte_ns); if (x.framed) x.frame(now() + 20 * MS, k); else x.push(now() + 20 * MS, k); }
		return 0;
	};
	f.ecu = [&](FakeL0 &x, const Bytes &b) {
		if (fast) {
			if (!resp) return;
			Bytes m = {(uint8_t)(0x80 + pl.size()), src, ecuaddr};
			m.insert(m.end(), pl.begin(), pl.end());
			if (!strip) m.push_back(sum8(m, m.size()) ^ breakck);
			if (nohdr) m.erase(m.begin(), m.begin() + 3);
			if (x.framed) x.frame(now() + 30 * MS, m); else x.push(now() + 30 * MS, m);
		} else if (b.size() == 1 && inv >= 0) { if (x.framed) x.frame(now() + 30 * MS, Bytes{(uint8_t)inv}); else x.push(now() + 30 * MS, Bytes{(uint8_t)inv}); }
	};
	long live0 = mem().live;
	{
		Session s(f);
		budget(100 * SEC, 2000000);
		int orv = s.open(DIAG_L1_ISO14230);
		CHECK(orv == 0, "init14230:open", "rv %d", orv);
		bool ok = s.start(DIAG_L2_PROT_ISO14230, type, br, tgt, src);
		std::string ctx = fmt("case %d flags %X type %X target %02X source %02X answer [%s] key bytes %02X %02X (%d) inverted address %d init rv %d", w, fl, type, tgt, src, fast && resp ? hex(pl).c_str() : "", kb1, kb2, nkb, inv, irv);
		CHECK(ok == want, want ? "init14230:refused-valid" : "init14230:accepted-invalid", "%s", ctx.c_str());
		Bytes sent = f.sent(), ws;
		if (w == 7 || w == 9) CHECK(inits == 0 && sent.empty(), "init14230:bus-touched", "%s sent [%s]", ctx.c_str(), hex(sent).c_str());
		else {
			CHECK(inits == 1, "init14230:init-count", "%s: %d wake-ups", ctx.c_str(), inits);
			if (!irv && !full) {
				if (fast) {
					ws = {(uint8_t)(func ? 0xC1 : 0x81), tgt, src, 0x81};
					if (fl & DIAG_L1_DATAONLY) ws = {0x81};
					else if (!(fl & DIAG_L1_DOESL2CKSUM)) ws.push_back(sum8(ws, ws.size()));
				} else if (!slow && !(w == 3)) ws = {(uint8_t)~kb2};
			}
			CHECK(sent == ws, "init14230:handshake-bytes", "%s sent [%s] expected [%s]", ctx.c_str(), hex(sent).c_str(), hex(ws).c_str());
			// W4: 25..50 ms between key byte 2 and its inversion
			if (!fast && sent.size() == 1 && sent == ws) { ns_t w4 = f.tx[0].t - kbt; CHECK(w4 >= 25 * MS && w4 <= 50 * MS, "init14230:W4", "%s inverted key byte sent %lld us after key byte 2", ctx.c_str(), (long long)w4 / 1000); rep::cover("W4-measured"); }
			if (!(fl & (DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY))) CHECK(f.speeds.size() == 1 && f.speeds[0].speed == (br ? br : 10400) && f.speeds[0].databits == diag_databits_8 && f.speeds[0].parflag == diag_par_n, "init14230:port-setup", "%s", ctx.c_str());
		}
		if (ok && !full && w != 7) {
			struct diag_l2_data d;
			memset(&d, 0xa5, sizeof d);
			diag_l2_ioctl(s.c, DIAG_IOCTL_GET_L2_DATA, &d);
			CHECK((d.kb1 & 0x7f) == (kb1 & 0x7f) && d.kb2 == kb2, "init14230:keybytes-reported", "%s reported %02X %02X", ctx.c_str(), d.kb1, d.kb2);
			if (fast && !nohdr) CHECK(d.physaddr == ecuaddr, "init14230:ecu-address", "%s reported %02X not %02X", ctx.c_str(), d.physaddr, ecuaddr);
		}
		rep::cover(fmt("%s-%s-%d", ok ? "accepted" : "refused", fast ? "fast" : "slow", w));
		rep::cover(ok ? "accepted" : "refused");
		rep::distinct(ctx); rep::sample(ctx + (ok ? " -> connected" : " -> refused"));
		(void)idx;
	}
	CHECK(f.isopen == 0 && f.opens == f.closes, "init14230:device-left-open", "opens %d closes %d", f.opens, f.closes);
	CHECK(mem().live == live0, "init14230:leak", "leaked %ld blocks", mem().live - live0);
}
std::vector<Mode> modes() { return {{"init", init, stack_init}, {"tx", tx, stack_init}, {"rx", rx, stack_init}, {"req", req, stack_init}}; }
