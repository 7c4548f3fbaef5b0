// VAG KWP1281 link layer monitors: a byte-level ECU model that checks every
// byte the tester puts on the line, and injects the faults the protocol is
// designed to survive.
#include "l2util.h"
using namespace vt;
enum Fault { NONE, NOCOMPL, BADETX, BADCTR, LOSTETX, DEAD, SHORTLEN, CUTFRAME, LOSTBYTE };
struct Step { uint8_t title; Bytes data; Fault f = NONE; int at = 0, times = 1; };
struct Ecu {
	FakeL0 &f; Rng &r;
	enum St { OFF, KB, TX, RX } st = OFF;
	uint8_t kb2 = 0x8a;
	bool framed = false;
	uint8_t ctr = 1;               // next block counter on the line
	Bytes cur; size_t pos = 0; ns_t byte_t = 0; Step step; int left = 0;
	bool noack_due = false; uint8_t noack_ctr = 0;
	std::vector<Step> script; size_t si = 0;   // what to send next
	Bytes rx; ns_t rx_t = 0;
	int rxfault_n = 0, rxfault_at = 0; bool rxfault_wrong = false;
	int naks = 0; std::vector<int> nakacks;      // No-Acknowledge-Retry answers still to give to the request / to an ACK
	uint8_t req_title = 0; Bytes req_data; bool want_req = false;
	int reqs = 0, acks = 0, noacks = 0, attempts = 0;
	ns_t d_block = 0; ns_t last_fault_t = 0; bool dead = false; bool tele_done = false;
	std::string ctx;
	Ecu(FakeL0 &f_, Rng &r_) : f(f_), r(r_) {}
	void sendblock(const Step &s, ns_t t) {
		step = s; left = s.f == NOCOMPL || s.f == LOSTBYTE ? s.times : 0;
		uint8_t c = ctr;
		if (s.f == BADCTR) c = (uint8_t)(ctr + 1 + r.below(255));
		cur = {(uint8_t)(s.data.size() + 3), c, s.title};
		cur.insert(cur.end(), s.data.begin(), s.data.end());
		cur.push_back(s.f == BADETX ? (uint8_t)(3 + 1 + r.below(255)) : 3);
		if (s.f == SHORTLEN) cur[0] = r.below(3);
		if (s.f == DEAD) { dead = true; return; }
		if (s.f == CUTFRAME) { cur.resize(r.range(1, cur.size() - 1)); dead = true; }
		if (framed) { f.frame(t, cur); ctr++; st = RX; rx.clear(); return; }
		st = TX; pos = 0; put(t);
	}
	void put(ns_t t) {
		if (pos + 1 == cur.size()) { // end byte: no complement follows
			if (step.f != LOSTETX) { f.push(t, Bytes{cur[pos]}); } rx_t = t;
			ctr++; st = RX; rx.clear();
			if (step.f == BADETX || step.f == BADCTR) { noack_due = true; noack_ctr = cur[1]; }
			return;
		}
		if (step.f == LOSTBYTE && left > 0 && (int)pos == step.at) { left--; pos = 0; t += (ns_t)r.range(100, 104) * MS; } // nobody sees it: the ECU starts again
		f.push(t, Bytes{cur[pos]}); byte_t = t;
	}
	void answer() { // next block of the telegram
		ns_t t = now() + (ns_t)(d_block ? d_block : r.range(1, 900)) * MS;
		if (si < script.size()) { sendblock(script[si], t); return; }
		if (tele_done) { Step s; s.title = 9; sendblock(s, t); return; }
		Step s; s.title = 9; tele_done = true; sendblock(s, t);
	}
	void nak(uint8_t c) { Step s; s.title = 0x0a; s.data = {c}; sendblock(s, now() + r.range(1, 500) * MS); }
	void block(const Bytes &b) {
		bool form = b.size() >= 4 && b[0] == b.size() - 1 && b.back() == 3;
		CHECK(form, "vag:malformed-block", "%s tester block [%s]", ctx.c_str(), hex(b).c_str());
		if (!form) { dead = true; return; }
		CHECK(b[1] == ctr, "vag:block-counter", "%s tester block [%s] expected counter %02X", ctx.c_str(), hex(b).c_str(), ctr);
		ctr = b[1] + 1;
		Bytes d(b.begin() + 3, b.end() - 1);
		if (noack_due) {
			CHECK(b[2] == 0x0a && d == Bytes{noack_ctr}, "vag:no-acknowledge-missing", "%s tester block [%s] after corrupt block %02X", ctx.c_str(), hex(b).c_str(), noack_ctr);
			noack_due = false; noacks++;
			Step s = step; s.f = NONE; sendblock(s, now() + r.range(1, 900) * MS);
			return;
		}
		if (want_req) {
			CHECK(b[2] == req_title && d == req_data, "vag:request-content", "%s tester block [%s]", ctx.c_str(), hex(b).c_str());
			reqs++;
			if (naks > 0) { naks--; nak(b[1]); return; }
			want_req = false; si = 0; answer(); si++;
			return;
		}
		CHECK(b[2] == 9 && d.empty(), "vag:ack-expected", "%s tester block [%s]", ctx.c_str(), hex(b).c_str());
		acks++;
		if (si < nakacks.size() && nakacks[si] > 0) { nakacks[si]--; nak(b[1]); return; }
		answer(); si++;
	}
	void on_byte(uint8_t x) {
		if (dead || st == OFF) { rep::cover("bytes-to-dead-ecu"); return; }
		ns_t done = now();
		if (st == KB) {
			CHECK(x == (uint8_t)~kb2, "vag:kb2-complement", "%s sent %02X for %02X", ctx.c_str(), x, kb2);
			CHECK(done - byte_t >= 25 * MS && done - byte_t <= 56 * MS, "vag:kb2-complement-time", "%s after %llu us", ctx.c_str(), (unsigned long long)((done - byte_t) / US));
			d_block = r.range(25, 45); answer(); si++; d_block = 0;
			return;
		}
		if (st == TX) {
			CHECK(x == (uint8_t)~cur[pos], "vag:wrong-complement", "%s tester answered byte %zu (%02X) of [%s] with %02X", ctx.c_str(), pos, cur[pos], hex(cur).c_str(), x);
			ns_t d = done - f.byte_ns - byte_t;
			CHECK(d >= 1 * MS && d <= 50 * MS, "vag:complement-time", "%s after %llu us", ctx.c_str(), (unsigned long long)(d / US));
			rep::cover("complements");
			if (step.f == NOCOMPL && left > 0 && (int)pos == step.at) { left--; pos = 0; put(byte_t + (ns_t)r.range(100, 109) * MS); return; }
			pos++;
			put(done + (r.chance(70) || (step.f == LOSTBYTE && left) ? 1 * MS : (ns_t)r.range(1, 50) * MS));
			return;
		}
		// receiving
		if (rx.empty()) {
			attempts++;
			if (last_fault_t) {
				CHECK(done - f.byte_ns - last_fault_t >= 108 * MS && done - last_fault_t <= 300 * MS, "vag:restart-time", "%s restarted %llu us after the byte that failed", ctx.c_str(), (unsigned long long)((done - last_fault_t) / US));
			} else if (rx_t) {
				CHECK(done - f.byte_ns >= rx_t + 1 * MS && done <= rx_t + 1100 * MS, "vag:block-gap", "%s block started %lld us after the previous one", ctx.c_str(), (long long)((done - f.byte_ns - rx_t) / US));
			}
			last_fault_t = 0;
		} else CHECK(done - f.byte_ns >= byte_t + 1 * MS && done <= byte_t + 54 * MS, "vag:byte-gap", "%s byte %zu came %lld us after the last complement", ctx.c_str(), rx.size(), (long long)((done - f.byte_ns - byte_t) / US));
		rx.push_back(x);
		if (rx.size() == (size_t)rx[0] + 1) {
			Bytes b; b.swap(rx);
			block(b);
			return;
		}
		if (rxfault_n > 0 && (int)rx.size() - 1 == rxfault_at) {
			rxfault_n--; last_fault_t = done;
			if (rxfault_wrong) f.push(done + 2 * MS, Bytes{(uint8_t)(~x ^ (1 + r.below(255)))});
			rx.clear();
			rep::cover(rxfault_wrong ? "wrong-complements-injected" : "missing-complements-injected");
			return;
		}
		ns_t t = done + (r.chance(70) ? 1 * MS : (ns_t)r.range(1, 50) * MS);
		byte_t = t;
		f.push(t, Bytes{(uint8_t)~x});
	}
};
static const int NAKMAX = 5;
static Step rndstep(Rng &r) {
	Step s;
	do s.title = r.byte(); while (s.title == 9 || s.title == 10);
	s.data = r.bytes(r.chance(80) ? r.range(0, 13) : r.range(14, 252));
	return s;
}
static void faulty(Rng &r, Step &s, bool framed) {
	if (framed) return;
	switch (r.below(6)) {
	case 0: s.f = NOCOMPL; s.at = r.below(s.data.size() + 3); s.times = r.range(1, 4); break;
	case 1: s.f = BADETX; break;
	case 2: s.f = BADCTR; break;
	case 3: s.f = LOSTETX; break;
	case 4: s.f = LOSTBYTE; s.at = r.range(1, s.data.size() + 2); s.times = r.range(1, 4); break;
	default: break;
	}
	if (s.f) rep::cover(fmt("ecu-fault-%d", (int)s.f));
}
static int g_inits;
struct Ctx { FakeL0 f; Ecu e; Session s; uint8_t tgt; Ctx(Rng &r, uint32_t fl) : f(DIAG_L1_ISO9141, fl), e(f, r), s(f) { tgt = r.byte(); e.framed = f.framed; } };
static bool bringup(Ctx &c, uint8_t k1, uint8_t k2, unsigned br, const std::vector<Step> &id, int nkb = 2, int irv = 0) {
	g_inits = 0;
	Ecu &e = c.e;
	e.script = id; e.si = 0; e.kb2 = k2;
	c.f.ecu_byte = [&](FakeL0 &, uint8_t x) { if (!e.framed) e.on_byte(x); };
	if (e.framed) c.f.ecu = [&](FakeL0 &, const Bytes &b) { if (!e.dead) e.block(b); };
	c.f.initbus = [&, k1, k2, nkb, irv](FakeL0 &x, struct diag_l1_initbus_args *a) {
		g_inits++;
		CHECK(a->type == DIAG_L1_INITBUS_5BAUD && a->addr == c.tgt, "initvag:wrong-address", "init type %d address %02X for ECU %02X", a->type, a->addr, c.tgt);
		advance(2500 * MS);
		if (irv) return irv;
		ns_t t = now() + 10 * MS;
		if (nkb > 0) x.frame(t, Bytes{k1});
		if (nkb > 1) x.frame(t + 8 * MS, Bytes{k2});
		e.byte_t = t + 8 * MS; e.st = Ecu::KB;
		if (x.flags & DIAG_L1_DOESSLOWINIT) { // the adapter sends the complement
			if (nkb > 1) { e.d_block = 60; e.st = Ecu::TX; e.answer(); e.si++; e.d_block = 0; }
		}
		return 0;
	};
	int rv = c.s.open(DIAG_L1_ISO9141);
	if (rv) { rep::violation("initvag:open", fmt("rv %d", rv)); return false; }
	return c.s.start(DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, br, c.tgt, 0xf1);
}
static uint32_t rflags(Rng &r) {
	if (r.chance(25)) return DIAG_L1_DOESL2FRAME | DIAG_L1_DOESSLOWINIT | DIAG_L1_DOESP4WAIT;
	return DIAG_L1_SLOW | (r.chance(50) ? DIAG_L1_HALFDUPLEX : 0) | (r.chance(20) ? DIAG_L1_DOESSLOWINIT : 0);
}
static bool same(const std::vector<Msg> &g, const std::vector<Step> &w) {
	bool ok = g.size() == w.size();
	for (size_t i = 0; ok && i < g.size(); i++) ok = g[i].d == w[i].data && g[i].type == w[i].title;
	return ok;
}
static std::string showst(const std::vector<Step> &w) { std::string s; for (auto &x : w) s += fmt("{%02X %s f%d}", x.title, hex(x.data).c_str(), (int)x.f); return s; }
static void init(Rng &r, long) {
	uint32_t fl = rflags(r);
	long live0 = mem().live;
	{
		Ctx c(r, fl);
		budget(600 * SEC, 3000000);
		std::vector<Step> id;
		for (int i = 0, n = r.range(1, 5); i < n; i++) { id.push_back(rndstep(r)); if (r.chance(15) && i) faulty(r, id.back(), c.e.framed); }
		int w = r.below(6), nkb = 2, irv = 0;
		bool want = true;
		if (w == 1) { nkb = r.range(0, 1); want = false; }
		if (w == 2) { irv = DIAG_ERR_TIMEOUT; want = false; }
		if (w == 3) { id[r.below(id.size())].f = DEAD; want = false; }
		if (w == 4) { id[r.below(id.size())].f = c.e.framed && r.chance(50) ? CUTFRAME : SHORTLEN; want = false; rep::cover(c.e.framed ? "framed-bad-blocks" : "bytewise-bad-blocks"); }
		unsigned br = r.pick({0u, 9600u, 10400u});
		std::string ctx = c.e.ctx = fmt("case %d flags %X target %02X blocks %s", w, fl, c.tgt, showst(id).c_str());
		bool ok = bringup(c, 0x01, 0x8a, br, id, nkb, irv);
		CHECK(ok == want, want ? "initvag:refused-valid" : "initvag:accepted-invalid", "%s", ctx.c_str());
		CHECK(g_inits == 1 && c.f.speeds.size() == 1 && c.f.speeds[0].speed == (br ? br : 10400), "initvag:port-setup", "%s", ctx.c_str());
		if (ok) {
			// the identification telegram is handed out once, without touching the bus
			size_t ntx = c.f.tx.size();
			RecvSink sk;
			int rv = diag_l2_recv(c.s.c, 100, sink_cb, &sk);
			for (auto &s : id) s.f = NONE;
			CHECK(rv == 0 && sk.got.size() == 1 && same(sk.got[0], id), "initvag:ident-telegram", "%s rv %d got %s", ctx.c_str(), rv, sk.got.empty() ? "" : show(sk.got[0]).c_str());
			CHECK(c.f.tx.size() == ntx, "initvag:ident-touched-bus", "%s", ctx.c_str());
			rep::cover("idents-delivered");
		}
		rep::cover(ok ? "accepted" : "refused");
		rep::distinct(ctx);
		rep::sample(ctx + (ok ? " -> connected" : " -> refused"));
	}
	CHECK(mem().live == live0, "initvag:leak", "leaked %ld blocks", mem().live - live0);
}
static void traffic(Rng &r, long) {
	long live0 = mem().live;
	{
	uint32_t fl = rflags(r);
	Ctx c(r, fl);
	Ecu &e = c.e;
	budget(3000 * SEC, 6000000);
	std::vector<Step> id = {rndstep(r)};
	e.ctx = "bringup";
	if (!bringup(c, 0x01, 0x8a, 0, id)) { rep::violation("vag:init-refused", fmt("flags %X", fl)); return; }
	bool dead = false;
	int rounds = r.chance(10) ? 150 : 6;  // long sessions take the block counter round
	for (int k = 0; k < rounds; k++) {
		Step req; do req = rndstep(r); while (0);
		if (rounds > 10) { req.data.resize(1); }
		if (r.chance(5)) req.data = r.bytes(r.range(253, 600));
		bool valid = req.data.size() <= 252;
		std::vector<Step> tele;
		int nb = r.chance(15) ? 0 : r.range(1, rounds > 10 ? 1 : 4);
		for (int i = 0; i < nb; i++) { tele.push_back(rndstep(r)); if (rounds > 10) tele.back().data.resize(1); if (r.chance(25)) faulty(r, tele.back(), e.framed); }
		bool acklast = true;
		e.naks = r.chance(15) ? r.range(1, 6) : 0;
		// No-Acknowledge-Retry answers to the acknowledge after block i
		e.nakacks.assign(nb + 1, 0);
		if (nb && r.chance(15)) for (int i = 1; i <= nb; i++) if (r.chance(60)) e.nakacks[i] = r.range(1, r.chance(15) ? 6 : 4);
		e.rxfault_n = 0;
		if (!e.framed && r.chance(15)) { e.rxfault_n = r.range(1, 6); e.rxfault_at = r.below(req.data.size() + 3); e.rxfault_wrong = r.chance(50); }
		bool die = r.chance(4);
		if (die && nb) { tele[r.below(nb)].f = e.framed ? r.pick({DEAD, CUTFRAME, SHORTLEN}) : DEAD; e.nakacks.clear(); } else die = false;
		if (e.framed) e.rxfault_n = 0;
		e.script = tele; e.si = 0; e.tele_done = false; e.want_req = true; e.req_title = req.title; e.req_data = req.data;
		e.reqs = e.acks = e.noacks = e.attempts = 0; e.last_fault_t = 0;
		int naks = e.naks, nakack = 0, rxf = e.rxfault_n;
		bool nakover = false;
		for (int x : e.nakacks) { nakack += x; nakover |= x >= NAKMAX; }
		if (nakack > NAKMAX && !nakover) rep::cover("scattered-naks");
		bool wrongc = e.rxfault_wrong;
		std::string ctx = e.ctx = fmt("round %d flags %X request %02X len %zu, telegram %s naks %d nakack %d rxfaults %d@%d", k, fl, req.title, req.data.size(), showst(tele).c_str(), naks, nakack, rxf, e.rxfault_at);
		TMsg m(req.data);
		m.m.type = req.title;
		c.f.tx.clear();
		bool viasend = r.chance(30) && naks == 0;
		int err = 0;
		std::vector<Msg> g;
		bool got = false;
		if (viasend) {
			err = diag_l2_send(c.s.c, &m.m);
			if (rxf > 3) CHECK(err < 0, "vag:unsent-reported-sent", "%s: the ECU never took it", ctx.c_str());
			if (err == 0) {
				RecvSink sk;
				err = diag_l2_recv(c.s.c, r.chance(50) ? 0 : 100, sink_cb, &sk);
				got = err == 0;
				if (!sk.got.empty()) g = sk.got[0];
			}
		} else {
			struct diag_msg *q = diag_l2_request(c.s.c, &m.m, &err);
			got = q != nullptr;
			g = chain(q);
			if (q) diag_freemsg(q);
		}
		ctx += fmt(" -> %s err %d", got ? "answer" : "none", err);
		CHECK(m.m.len == req.data.size() && (!m.m.len || !memcmp(m.m.data, req.data.data(), m.m.len)), "vag:caller-msg-modified", "%s", ctx.c_str());
		rep::distinct(ctx); rep::sample(ctx);
		if (dead) {
			CHECK(!got && err < 0 && c.f.tx.empty(), "vag:sent-on-dead-session", "%s sent [%s]", ctx.c_str(), hex(c.f.sent()).c_str());
			rep::cover("dead-session-requests");
			if (r.chance(50)) break;
			continue;
		}
		if (!valid) {
			CHECK(!got && err < 0 && c.f.tx.empty(), "vag:accepted-unsendable", "%s sent [%s]", ctx.c_str(), hex(c.f.sent()).c_str());
			rep::cover("refusals-checked");
			continue;
		}
		if (rxf > 3) { // three retries, then give up
			CHECK(!got && err < 0, "vag:answer-from-nothing", "%s", ctx.c_str());
			CHECK(e.attempts == 4, "vag:retry-count", "%s: %d attempts", ctx.c_str(), e.attempts);
			rep::cover(wrongc ? "gave-up-wrong-complement" : "gave-up-missing-complement");
			break;
		}
		CHECK(rxf == 0 || e.attempts >= 1 + rxf, "vag:retry-count", "%s: %d attempts", ctx.c_str(), e.attempts);
		if (naks >= NAKMAX) {
			CHECK(!got && err == DIAG_ERR_ECUSAIDNO, "vag:nak-give-up", "%s", ctx.c_str());
			CHECK(e.reqs == NAKMAX, "vag:nak-count", "%s: sent %d times", ctx.c_str(), e.reqs);
			rep::cover("nak-give-ups");
			e.naks = 0; continue;
		}
		CHECK(e.reqs == 1 + naks, "vag:nak-count", "%s: sent %d times", ctx.c_str(), e.reqs);
		if (naks) rep::cover("naks-survived");
		if (die) {
			CHECK(!got && err < 0 && g.empty(), "vag:answer-from-nothing", "%s got %s", ctx.c_str(), show(g).c_str());
			rep::cover("ecu-deaths"); dead = true; continue;
		}
		if (nakover) {
			CHECK(!got && err == DIAG_ERR_ECUSAIDNO, "vag:nak-give-up", "%s", ctx.c_str());
			rep::cover("nak-ack-give-ups");
			e.nakacks.clear(); continue;
		}
		std::vector<Step> want = tele;
		if (!nb) { Step a; a.title = 9; want = {a}; }
		CHECK(got && err >= 0, "vag:not-delivered", "%s", ctx.c_str());
		CHECK(!got || same(g, want), "vag:wrong-telegram", "%s got %s", ctx.c_str(), show(g).c_str());
		int nf = 0; for (auto &t : tele) nf += t.f == BADETX || t.f == BADCTR;
		CHECK(!got || (e.acks == nb + nakack && e.noacks == nf), "vag:ack-count", "%s: %d acks %d no-acks", ctx.c_str(), e.acks, e.noacks);
		rep::cover("telegrams-delivered");
		rep::cover(fmt("telegram-blocks-%d", nb));
		(void)acklast;
		e.nakacks.clear();
	}
	}
	CHECK(mem().live == live0, "vag:leak", "leaked %ld blocks", mem().live - live0);
}
std::vector<Mode> modes() { return {{"init", init, stack_init}, {"traffic", traffic, stack_init}}; }
