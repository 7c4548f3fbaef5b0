// B. Roadman BR-1 and Multiplex Engineering T16 interfaces, emulated at their
// serial port, with a vehicle behind them.
#include "l2util.h"
extern "C" {
#include "diag_cfg.h"
}
using namespace vt;
static uint8_t crc1850(const Bytes &b) {
	uint8_t c = 0xff;
	for (uint8_t x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c & 0x80) ? (c << 1) ^ 0x1d : c << 1; }
	return ~c;
}
static struct diag_l0_device *mk(const char *name) {
	struct diag_l0_device *d = diag_l0_new(name);
	if (!d) return nullptr;
	for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next)
		if (c->shortname && !strcmp(c->shortname, "port")) diag_cfg_setstr(c, "/dev/ttyVT0");
	return d;
}
struct Ans { ns_t after; Bytes f; };
// what both have in common: a bus with an ECU on it
struct Adapter : Tty {
	Rng r; unsigned baud = 19200; int bad = 0; std::string what;
	std::vector<Bytes> bus;                 // what the adapter transmitted on the vehicle bus
	std::vector<Ans> plan; bool ecu_on = true; uint8_t ecu_addr = 0x33, kb1 = 8, kb2 = 8; bool awake = false; int hs = 0; // 1: waiting for ~kb2
	int inits = 0; std::vector<uint8_t> initaddr;
	bool silent = false;
	Bytes log8;
	Adapter(uint64_t s) : Tty("/dev/ttyVT0"), r(s) {}
	void oops(const std::string &w) { if (!bad) what = w; bad++; }
	ns_t say(ns_t t, const Bytes &b, ns_t gap = 0) { for (uint8_t c : b) { push(t, c); t += byte_ns() + gap; } return t; }
	// raw traffic of a K-line ECU after a 5-baud init
	Bytes kbuf;
	void kbyte(ns_t t, uint8_t b, bool is14230) {
		if (!ecu_on) return;
		if (hs == 1) { if (b == (uint8_t)~kb2) { push(t + r.range(26, 48) * MS, (uint8_t)~ecu_addr); hs = 2; awake = true; } else oops(fmt("key byte 2 answered with %02X", b)); return; }
		kbuf.push_back(b);
		(void)is14230;
	}
	void kmsg(ns_t t) { Bytes f = kbuf; kbuf.clear(); if (f.empty()) return; bus.push_back(f); ns_t e = t; for (auto &a : plan) e = say(e + a.after, a.f, r.range(0, 3) * MS); }
};
// ---- BR-1
struct Br : Adapter {
	bool connected = false, twobyte; int proto = 0; Bytes in; size_t need = 0; int connectreply = 0xff;
	int conflicts = 0; uint8_t lastnr = 0; Bytes lastdata; int nretry = 0; bool expect_retry = false; bool iso14230 = false, refuse = false;
	std::vector<uint8_t> nrs; std::vector<bool> conf; int conflict_at = 1; ns_t slow = 0; bool j1850init = false; int errs = 0;
	Br(uint64_t s) : Adapter(s) { twobyte = r.chance(50); }
	void on_tx(ns_t t, uint8_t b) override {
		if (silent) return;
		if (uart().speed != 19200 || uart().databits != 8 || uart().parity != 'N') { oops("not at 19200 8N1"); return; }
		if (!connected) { if (b == 0x20) { if (connectreply >= 0) push(t + r.range(1, 60) * MS, (uint8_t)connectreply); connected = connectreply == 0xff; } else oops(fmt("%02X before connecting", b)); return; }
		in.push_back(b);
		uint8_t c = in[0];
		if (c == 0x20) { oops("connected twice"); in.clear(); return; }
		if (c & 0x80) { oops(fmt("control byte %02X", c)); in.clear(); return; }
		if (in.size() < (size_t)(c & 0x0f) + 1) return;
		if (!(c & 0x0f)) { oops("empty message"); in.clear(); return; }
		Bytes m(in.begin() + 1, in.end()); in.clear();
		if (c & 0x40) init(t, m); else if (c & 0x30) oops(fmt("control byte %02X", c)); else msg(t, m);
	}
	void init(ns_t t, const Bytes &m) {
		inits++;
		if (m[0] < 2) {
			if (m.size() != 1) oops("J1850 init length");
			if (refuse) { say(t + 20 * MS, {0x80}); return; }
			proto = m[0] == 0 ? 1 : 2; j1850init = true;
			Bytes a = {0x01, (uint8_t)r.byte()}; if (twobyte) a = {0x02, r.byte(), r.byte()};
			say(t + r.range(1, 60) * MS, a); return;
		}
		if (m[0] == 2) {
			if (m.size() != 2) { oops("5-baud init length"); return; }
			initaddr.push_back(m[1]); proto = 3; hs = 0; awake = false; kbuf.clear();
			if (!ecu_on || m[1] != ecu_addr || refuse) { say(t + r.range(2100, 5500) * MS, {0x80}); return; }
			hs = 1;
			if (kb1 == kb2 && !twobyte) say(t + r.range(2200, 2600) * MS, {0x01, kb1}); else say(t + r.range(2200, 2600) * MS, {0x02, kb1, kb2});
			return;
		}
		oops(fmt("init type %02X", m[0]));
	}
	void msg(ns_t t, Bytes m) {
		if (proto == 3) { if (hs == 1) { for (uint8_t x : m) kbyte(t, x, iso14230); if (m.size() != 1) oops("handshake length"); } else { for (uint8_t x : m) kbyte(t, x, iso14230); kmsg(t); } return; }
		if (!proto) { oops("data before init"); return; }
		uint8_t nr = m.back(); m.pop_back();
		if (expect_retry) { expect_retry = false; nretry++; if (m != lastdata || nr != lastnr) oops(fmt("after a bus conflict on frame %u of [%s], [%s] frame %u was sent", lastnr, hex(lastdata).c_str(), hex(m).c_str(), nr)); }
		lastdata = m; lastnr = nr; nrs.push_back(nr); conf.push_back(conflicts > 0 && nr >= conflict_at);
		if (nr == 1 || bus.empty() || bus.back() != m) bus.push_back(m);
		if (conf.back()) { conflicts--; expect_retry = true; say(t + r.range(2, 20) * MS, {0x40}); return; }
		if (!ecu_on || !nr || nr > plan.size()) { Bytes e = {0x80}; if (r.chance(30)) { e[0] |= 2; e.push_back(r.byte()); e.push_back(r.byte()); } errs++; say(t + r.range(5, 90) * MS, e); return; }
		Bytes a = {(uint8_t)plan[nr - 1].f.size()}; a.insert(a.end(), plan[nr - 1].f.begin(), plan[nr - 1].f.end());
		say(t + plan[nr - 1].after, a);
	}
};
static Bytes jframe(Rng &r, bool pwm, size_t n) { Bytes f = {(uint8_t)(pwm ? 0x41 : 0x48), 0x6b, (uint8_t)(r.chance(50) ? 0x10 : r.byte())}; for (size_t i = 0; i < n; i++) f.push_back(r.byte()); f.push_back(crc1850(f)); return f; }
static void expect(const std::vector<Msg> &got, const std::vector<Bytes> &want, bool all, const char *pfx, const std::string &ctx) {
	CHECK(got.size() <= want.size(), fmt("%s:delivered-too-much", pfx), "%s got %s", ctx.c_str(), show(got).c_str());
	for (size_t i = 0; i < got.size() && i < want.size(); i++) CHECK(got[i].d == want[i], fmt("%s:delivered-wrong", pfx), "%s got %s", ctx.c_str(), show(got).c_str());
	if (all) CHECK(got.size() == want.size(), fmt("%s:answer-lost", pfx), "%s got %s", ctx.c_str(), show(got).c_str());
}
static void br_(Rng &r, long) {
	Br e(r.next());
	int l1 = r.pick({DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO9141, DIAG_L1_ISO14230});
	bool jay = l1 == DIAG_L1_J1850_VPW || l1 == DIAG_L1_J1850_PWM, pwm = l1 == DIAG_L1_J1850_PWM;
	e.iso14230 = l1 == DIAG_L1_ISO14230;
	if (r.chance(6)) e.connectreply = r.chance(50) ? -1 : r.below(255);
	if (r.chance(5)) e.refuse = true;
	if (r.chance(3)) e.silent = true;
	if (r.chance(3)) e.present = false;
	uint8_t tgt = jay ? r.pick({0x6a, 0x10}) : r.chance(50) ? 0x33 : r.byte(), src = r.chance(60) ? 0xf1 : r.byte();
	e.ecu_addr = tgt; bool wrong = false;
	if (r.chance(10)) { e.ecu_addr ^= 1 << r.below(8); wrong = true; }
	if (r.chance(8)) e.ecu_on = false;
	if (l1 == DIAG_L1_ISO9141) { e.kb1 = e.kb2 = r.chance(50) ? 0x08 : 0x94; if (r.chance(8)) { e.kb2 ^= 1 << r.below(8); wrong = true; } }
	if (e.iso14230) { e.kb1 = 0xef; e.kb2 = 0x8f; }
	budget(400 * SEC, 4000000);
	long live = mem().live;
	struct diag_l0_device *d = mk("BR1");
	std::string ctx = fmt("BR-1%s proto %d target %02X tester %02X ecu %s%02X kb %02X %02X%s", e.twobyte ? " (2-byte)" : "", l1, tgt, src, e.ecu_on ? "" : "off ", e.ecu_addr, e.kb1, e.kb2, e.refuse ? " refusing" : "");
	for (int life = 0; life < 2; life++) {
		e.connected = false; e.proto = 0; e.in.clear(); e.bus.clear(); e.j1850init = false; e.awake = false; e.inits = 0;
		int rv = diag_l2_open(d, l1);
		bool want = e.connectreply == 0xff && !e.silent && e.present && !(jay && e.refuse);
		CHECK((rv == 0) == want, want ? "br:open-refused" : "br:open-accepted", "%s rv %d connect reply %d", ctx.c_str(), rv, e.connectreply);
		CHECK(!e.bad, "br:protocol", "%s: %s", ctx.c_str(), e.what.c_str());
		if (rv) { CHECK(e.nopen == 0, "br:port-left-open", "%s", ctx.c_str()); rep::cover("opens-refused"); break; }
		CHECK(!jay || e.proto == (pwm ? 2 : 1), "br:wrong-bus", "%s", ctx.c_str());
		rep::cover("opens");
		struct diag_l2_conn *c = diag_l2_StartCommunications(d, jay ? DIAG_L2_PROT_SAEJ1850 : e.iso14230 ? DIAG_L2_PROT_ISO14230 : DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, 10400, tgt, src);
		bool up = jay || (e.awake && !wrong);
		CHECK(!c || up, "br:connected-to-nothing", "%s", ctx.c_str());
		CHECK(c || !(jay || (e.ecu_on && !wrong && !e.refuse)), "br:start-refused", "%s: %s", ctx.c_str(), e.what.c_str());
		CHECK(wrong || !e.bad, "br:protocol", "%s: %s", ctx.c_str(), e.what.c_str());
		if (!jay) CHECK(e.inits == 1 && e.initaddr.back() == tgt, "br:init-address", "%s %d inits", ctx.c_str(), e.inits);
		if (c) {
			rep::cover(jay ? "j1850-connections" : e.iso14230 ? "14230-connections" : "9141-connections");
			for (int q = r.range(1, 4); q; q--) {
				advance(r.range(0, 2000) * MS);
				e.plan.clear(); e.bus.clear(); e.nrs.clear(); e.conf.clear(); e.nretry = 0;
				Bytes p = r.bytes(r.range(1, jay ? 10 : e.iso14230 ? 8 : 7)); if (p[0] == 0x7f || !p[0]) p[0] = 1;
				int n = jay ? r.pick({0, 1, 1, 2, 3}) : e.iso14230 ? r.pick({0, 1, 1}) : r.pick({0, 1, 1, 2, 3});
				std::vector<Bytes> want; ns_t tt = jay ? 0 : r.range(27, 45) * MS; std::string desc;
				ns_t total = 0;
				for (int i = 0; i < n; i++) {
					Bytes f;
					if (jay) { f = jframe(r, pwm, r.range(1, 8)); tt = r.range(5, 80) * MS; total += tt; }
					else { Bytes a = r.bytes(r.range(1, e.iso14230 ? 12 : 7)); if (e.iso14230) { a[0] = p[0] ^ 0x40; if (a[0] == 0x7f) a[0] = 0x41; f = {(uint8_t)(0x80 | a.size()), src, tgt}; } else f = {0x48, 0x6b, 0x10}; f.insert(f.end(), a.begin(), a.end()); f.push_back(sum8(f, f.size())); }
					want.push_back(Bytes(f.begin() + 3, f.end() - 1)); e.plan.push_back({tt, f}); desc += "[" + hex(f) + "] ";
					if (!jay) tt = r.range(27, 45) * MS;
				}
				int nc = 0;
				if (jay) nc = e.conflicts = r.chance(20) ? r.range(1, 5) : r.chance(3) ? 40 : 0, e.conflict_at = nc < 6 && n && r.chance(50) ? r.range(1, n) : 1;
				TMsg m(p, jay ? 0 : tgt, jay ? 0 : src); int err = 0;
				struct diag_msg *x = diag_l2_request(c, &m.m, &err);
				std::vector<Msg> got = chain(x); if (x) { err = 0; diag_freemsg(x); }
				Bytes w = jay ? Bytes{(uint8_t)(pwm ? 0x61 : 0x68), tgt, src} : e.iso14230 ? Bytes{(uint8_t)(0x80 | p.size()), tgt, src} : Bytes{0x68, 0x6a, src};
				w.insert(w.end(), p.begin(), p.end()); w.push_back(jay ? crc1850(w) : sum8(w, w.size()));
				std::string rc = ctx + fmt(" request [%s] answers %sconflicts %d at message %d -> %d bus", hex(p).c_str(), desc.c_str(), nc, e.conflict_at, err);
				for (auto &b : e.bus) rc += " [" + hex(b) + "]";
				for (auto b : e.nrs) rc += fmt(" %u", b);
				// iso14230 may use a length byte or a fmt byte as the key bytes ask for: both are covered by C01
				CHECK(!e.bus.empty() || w.size() > (jay ? 14u : 15u), "br:request-lost", "%s", rc.c_str());
				if (w.size() > (jay ? 14u : 15u)) CHECK(err < 0 && e.bus.empty(), "br:oversize", "%s", rc.c_str());
				else if (!e.iso14230) { for (auto &b : e.bus) CHECK(b == w, "br:wrong-frame-on-bus", "%s expected [%s]", rc.c_str(), hex(w).c_str()); }
				else for (auto &b : e.bus) { CHECK(b.size() >= p.size() + 4 && std::equal(p.begin(), p.end(), b.end() - 1 - p.size()) && sum8(b, b.size() - 1) == b.back() && b[1] == tgt && b[2] == src, "br:wrong-frame-on-bus", "%s expected [%s]", rc.c_str(), hex(w).c_str()); }
				CHECK(!e.bad, "br:protocol", "%s: %s", rc.c_str(), e.what.c_str());
				if (jay) {
					for (size_t i = 0, k = 1; i < e.nrs.size(); i++) { CHECK(e.nrs[i] == k, "br:frame-number", "%s", rc.c_str()); if (!e.conf[i]) k++; else if (k > 1) rep::cover("conflicts-later"); }
					bool none = want.empty() || !e.ecu_on || nc > 30 || w.size() > 14;
					if (none) { expect(got, {}, true, "br", rc); CHECK(err < 0, "br:no-error", "%s", rc.c_str()); rep::cover("unanswered"); }
					else { expect(got, want, total < 250 * MS && !nc, "br", rc); CHECK(!got.empty(), "br:answer-lost", "%s", rc.c_str()); rep::cover("answers", got.size()); }
					if (nc) { rep::cover("conflicts", e.nretry); CHECK(nc > 30 || !got.empty() || none, "br:gave-up", "%s", rc.c_str()); }
				} else {
					if (want.empty()) CHECK(err < 0 && got.empty(), "br:no-error", "%s", rc.c_str());
					else expect(got, want, true, "br", rc), rep::cover("answers", got.size());
					for (auto &g : got) CHECK(!(g.fmt & DIAG_FMT_BADCS), "br:checksum", "%s", rc.c_str());
				}
				rep::distinct(rc); rep::sample(rc);
				advance(700 * MS); e.conflicts = 0; e.expect_retry = false;
			}
			if (jay && e.ecu_on && r.chance(30)) {
				// the same read a few bytes at a time
				e.plan.clear(); e.bus.clear(); e.nrs.clear(); e.conf.clear(); e.nretry = 0;
				Bytes f = jframe(r, pwm, r.range(1, 8)), q = jframe(r, pwm, 2), all; e.plan.push_back({30 * MS, f});
				int rv = diag_l1_send(d, q.data(), q.size() - 1, 0);
				bool leave = life == 0 && r.chance(40);   // what is left must not come up in the next life
				while (rv >= 0 && all.size() < f.size() && !(leave && all.size())) { uint8_t b[16]; size_t k = r.range(1, 5); rv = diag_l1_recv(d, b, k, 300); if (rv > (int)k) { rep::violation("br:read-too-much", fmt("%d of %zu", rv, k)); break; } if (rv > 0) all.insert(all.end(), b, b + rv); }
				if (leave) { CHECK(all.size() <= f.size() && std::equal(all.begin(), all.end(), f.begin()), "br:read-in-pieces", "%s: frame [%s] began [%s], %d", ctx.c_str(), hex(f).c_str(), hex(all).c_str(), rv); rep::cover("reads-left-halfway"); }
				else CHECK(all == f, "br:read-in-pieces", "%s: frame [%s] read as [%s], %d", ctx.c_str(), hex(f).c_str(), hex(all).c_str(), rv);
				rep::cover("reads-in-pieces");
			}
			e.plan.clear();
			diag_l2_StopCommunications(c);
		} else rep::cover("starts-refused");
		diag_l2_close(d);
		CHECK(e.nopen == 0, "br:port-left-open", "%s", ctx.c_str());
		e.bad = 0;
	}
	diag_l0_del(d);
	CHECK(mem().live == live, "br:leak", "%s blocks %ld", ctx.c_str(), mem().live - live);
}
// ---- MET16
struct Met : Adapter {
	int l1; Bytes in; bool raw = false; uint8_t addr = 0x38; unsigned rawbaud = 10400; uint8_t count = 38; std::vector<uint8_t> cmds; int errcode = 0, badck = 0; bool fastup = false; int nack = 0;
	bool passive = false; uint8_t fast_k1 = 0xef, fast_k2 = 0x8f;
	Met(uint64_t s) : Adapter(s) {}
	void on_tx(ns_t t, uint8_t b) override {
		if (silent) return;
		if (raw) {
			if (uart().speed != rawbaud) { oops(fmt("at %u instead of %u baud", uart().speed, rawbaud)); return; }
			kbyte(t, b, false);
			if (hs == 2 && !kbuf.empty()) { size_t n = kbuf.size(); if (n >= 5 && sum8(kbuf, n - 1) == kbuf.back() && n == reqlen) kmsg(t); }
			return;
		}
		if (uart().speed != 19200 || uart().databits != 8 || uart().parity != 'N') { oops("not at 19200 8N1"); return; }
		if (!(mcr & 2) || (mcr & 4)) { oops("unpowered: DTR must be high, RTS low"); return; }
		in.push_back(b);
		if (in.size() == 15) { Bytes m; m.swap(in); frame(t, m); }
	}
	size_t reqlen = 0;
	ns_t reply(ns_t t, uint8_t type, Bytes d) { Bytes m = {r.byte(), type}; d.resize(11, 0); m.insert(m.end(), d.begin(), d.end()); uint8_t s = 0; for (size_t i = 1; i < 13; i++) s += m[i]; if (badck && r.chance(50)) { s ^= 1 << r.below(8); } m.push_back(s); return say(t, m); }
	ns_t error(ns_t t, uint8_t code) { return reply(t, 0x80, {0x42, code, 0xff}); }
	void frame(ns_t t, const Bytes &m) {
		if (m[0] != addr) { oops(fmt("addressed to device %02X", m[0])); return; }
		uint8_t s = 0; for (size_t i = 1; i < 13; i++) s += m[i];
		if (s != m[14] || (m[13] && m[2] < 11)) { oops("bad request checksum"); return; }
		cmds.push_back(m[1]);
		Bytes d;
		if (m[1] != 0x20 && m[1] != 0x86) { if (m[2] > 11) { oops("request length"); return; } d.assign(m.begin() + 3, m.begin() + 3 + m[2]); for (size_t i = 3 + m[2]; i < 14; i++) if (m[i]) oops("padding"); }
		int want = l1 == DIAG_L1_J1850_VPW ? 0x02 : l1 == DIAG_L1_J1850_PWM ? 0x80 : 0;
		switch (m[1]) {
		case 0x20:
			if (l1 != DIAG_L1_ISO9141) { oops("raw init"); return; }
			inits++; initaddr.push_back(m[2]);
			if (!ecu_on || m[2] != ecu_addr) { say(t + 2300 * MS, {0x40, 0x80}); return; }
			hs = 1; raw = true; awake = false; kbuf.clear();
			t += r.range(2060, 2300) * MS; push(t, count);
			say(t + r.range(5, 20) * MS, {kb1, kb2}, 6 * MS);
			return;
		case 0x85:
			inits++;
			if (d != Bytes{0x3e}) oops("slow init message");
			if (!ecu_on) { error(t + 120 * MS, 0x0c); return; }
			awake = true; reply(t + r.range(20, 120) * MS, 0x01, {0x81, 0xf1, 0x10, 0x7e, 0x00}); return;
		case 0x86: if (!awake) { error(t + 50 * MS, 0x0c); return; } reply(t + r.range(10, 120) * MS, 0x01, {kb1, kb2}); return;
		case 0x87: {
			inits++;
			if (l1 != DIAG_L1_ISO14230) { oops("fast init"); return; }
			bus.push_back(d);
			if (d.size() < 4 || d[3] != 0x81 || !ecu_on || d[1] != ecu_addr) { error(t + 120 * MS, 0x0c); return; }
			awake = true; Bytes a = {0x83, d[2], ecu_addr, 0xc1, fast_k1, fast_k2}; a.push_back(sum8(a, a.size()));
			reply(t + r.range(40, 120) * MS, 0x01, a); return; }
		case 0x88: if (l1 != DIAG_L1_ISO14230) oops("KWP request"); break;
		case 0x10: if (l1 != DIAG_L1_ISO9141) oops("ISO request"); break;
		default: if (m[1] != want) { oops(fmt("command %02X", m[1])); return; }
		}
		bus.push_back(d);
		if (errcode) { error(t + 60 * MS, errcode); return; }
		if (!ecu_on || plan.empty()) { error(t + 110 * MS, m[1] == 0x88 ? 0x0c : m[1] == 0x10 ? 0x05 : 0x07); return; }
		ns_t e = t;
		for (auto &a : plan) { ns_t x = std::max(t + a.after, e); e = reply(x, m[1] == 0x88 ? (r.chance(50) ? 0x01 : 0x81) : m[1] == 0x10 ? 0x81 : m[1] == 0x02 ? 0x82 : 0x84, a.f); }
	}
	// what the padded response can be told apart as
	static bool ambiguous(const Bytes &f, bool jay) {
		Bytes p = f; p.resize(11, 0);
		for (size_t len = 10; len > 0; len--) { Bytes h(p.begin(), p.begin() + len); if ((jay ? crc1850(h) : sum8(h, len)) == p[len]) return len + 1 != f.size(); if (p[len]) return true; }
		return true;
	}
};
static void met(Rng &r, long) {
	Met e(r.next());
	e.l1 = r.pick({DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_ISO9141, DIAG_L1_ISO14230});
	bool jay = e.l1 == DIAG_L1_J1850_VPW || e.l1 == DIAG_L1_J1850_PWM, pwm = e.l1 == DIAG_L1_J1850_PWM, k14 = e.l1 == DIAG_L1_ISO14230;
	bool fast = k14 && r.chance(50), func = fast && r.chance(40);
	uint8_t tgt = jay ? r.pick({0x6a, 0x10}) : r.chance(50) ? 0x33 : r.byte(), src = r.chance(60) ? 0xf1 : r.byte();
	e.ecu_addr = tgt; bool wrong = false;
	if (r.chance(10) && (fast || e.l1 == DIAG_L1_ISO9141)) { e.ecu_addr ^= 1 << r.below(8); wrong = true; }
	if (r.chance(8)) e.ecu_on = false;
	if (r.chance(3)) e.silent = true;
	e.kb1 = e.kb2 = 0x08; if (k14) { e.kb1 = 0xef; e.kb2 = 0x8f; } else if (r.chance(40)) e.kb1 = e.kb2 = 0x94;
	if (e.l1 == DIAG_L1_ISO9141 && r.chance(8)) { e.kb2 ^= 1 << r.below(8); wrong = true; }
	e.count = r.range(37, 40);
	if (r.chance(20)) { e.count = r.pick({41, 42, 43, 44}); e.rawbaud = 9600; }
	long live = mem().live;
	struct diag_l0_device *d = mk("MET16");
	int da = r.chance(70) ? 0x38 : r.byte();
	for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next) if (c->type == CFGT_U8) c->val.u8 = da;
	e.addr = da;
	budget(400 * SEC, 4000000);
	std::string ctx = fmt("T16 proto %d%s%s target %02X tester %02X ecu %s%02X kb %02X %02X", e.l1, fast ? " fast" : "", func ? " func" : "", tgt, src, e.ecu_on ? "" : "off ", e.ecu_addr, e.kb1, e.kb2);
	for (int life = 0; life < 2; life++) {
		e.in.clear(); e.raw = false; e.awake = false; e.hs = 0; e.inits = 0; e.cmds.clear(); e.plan.clear(); e.kbuf.clear(); e.bus.clear();
		int rv = diag_l2_open(d, e.l1);
		CHECK(rv == 0, "met:open-refused", "%s rv %d", ctx.c_str(), rv);
		if (rv) break;
		CHECK((e.mcr & 2) && !(e.mcr & 4), "met:unpowered", "%s", ctx.c_str());
		rep::cover("opens");
		unsigned fl = fast ? DIAG_L2_TYPE_FASTINIT | (func ? DIAG_L2_TYPE_FUNCADDR : 0) : DIAG_L2_TYPE_SLOWINIT;
		struct diag_l2_conn *c = diag_l2_StartCommunications(d, jay ? DIAG_L2_PROT_SAEJ1850 : k14 ? DIAG_L2_PROT_ISO14230 : DIAG_L2_PROT_ISO9141, fl, 10400, tgt, src);
		bool up = jay || (e.awake && !wrong);
		CHECK(!c || up, "met:connected-to-nothing", "%s", ctx.c_str());
		CHECK(c || !(!e.silent && (jay || (e.ecu_on && !wrong))), "met:start-refused", "%s: %s", ctx.c_str(), e.what.c_str());
		CHECK(wrong || !e.bad, "met:protocol", "%s: %s", ctx.c_str(), e.what.c_str());
		if (c && fast) { Bytes w = {(uint8_t)(func ? 0xc1 : 0x81), tgt, src, 0x81}; CHECK(e.bus.size() == 1 && e.bus[0] == w, "met:start-message", "%s [%s]", ctx.c_str(), e.bus.empty() ? "" : hex(e.bus[0]).c_str()); }
		if (e.l1 == DIAG_L1_ISO9141 && !e.silent) CHECK(e.inits == 1 && e.initaddr.back() == tgt, "met:init-address", "%s", ctx.c_str());
		if (c) {
			if (fast) { struct diag_l2_data dd; diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &dd); CHECK(dd.kb1 == e.fast_k1 && dd.kb2 == e.fast_k2, "met:keybytes", "%s %02X %02X", ctx.c_str(), dd.kb1, dd.kb2); }
			else if (k14) { struct diag_l2_data dd; diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &dd); CHECK((dd.kb1 & 0x7f) == (e.kb1 & 0x7f) && dd.kb2 == e.kb2, "met:keybytes", "%s %02X %02X", ctx.c_str(), dd.kb1, dd.kb2); }
			rep::cover(jay ? "j1850-connections" : k14 ? fast ? "14230-fast-connections" : "14230-connections" : "9141-connections");
			for (int q = r.range(1, 4); q && !e.silent; q--) {
				advance(r.range(0, 2000) * MS);
				e.plan.clear(); e.bus.clear(); e.errcode = 0; e.badck = 0;
				bool big = !e.raw && r.chance(12);
				Bytes p = r.bytes(big ? r.range(9, 20) : r.range(1, jay ? 8 : k14 ? 8 : 7)); if (p[0] == 0x7f || !p[0]) p[0] = 1;
				int n = jay ? r.pick({0, 1, 1, 2, 3}) : k14 ? r.pick({0, 1, 1}) : r.pick({0, 1, 1, 2, 3});
				std::vector<Bytes> want; ns_t tt = r.range(10, 45) * MS; std::string desc;
				for (int i = 0; i < n; i++) {
					Bytes f;
					do {
						if (jay) f = jframe(r, pwm, r.range(1, 7));
						else { Bytes a = r.bytes(r.range(1, 7)); if (k14) { a[0] = p[0] ^ 0x40; if (a[0] == 0x7f) a[0] = 0x41; f = {(uint8_t)(0x80 | a.size()), src, tgt}; } else f = {0x48, 0x6b, 0x10}; f.insert(f.end(), a.begin(), a.end()); f.push_back(sum8(f, f.size())); }
					} while (!e.raw && Met::ambiguous(f, jay));
					want.push_back(Bytes(f.begin() + 3, f.end() - 1)); e.plan.push_back({e.raw ? std::max<ns_t>(tt, 27 * MS) : tt, f}); desc += "[" + hex(f) + "] ";
					tt = e.raw ? r.range(27, 45) * MS : tt + r.range(0, 60) * MS;
				}
				if (!e.raw && r.chance(10)) e.errcode = r.pick({0x05, 0x07, 0x0c, 0x08, 0x09, 0x15, 0x02, 0x0b, 0x0d});
				TMsg m(p, k14 ? tgt : 0, k14 ? src : 0); int err = 0;
				if (func) m.m.fmt = DIAG_FMT_ISO_FUNCADDR;
				Bytes w = jay ? Bytes{(uint8_t)(pwm ? 0x61 : 0x68), tgt, src} : k14 ? Bytes{(uint8_t)((func ? 0xc0 : 0x80) | p.size()), tgt, src} : Bytes{0x68, 0x6a, src};
				w.insert(w.end(), p.begin(), p.end()); if (e.l1 == DIAG_L1_ISO9141) w.push_back(sum8(w, w.size()));
				e.reqlen = w.size();
				struct diag_msg *x = diag_l2_request(c, &m.m, &err);
				std::vector<Msg> got = chain(x); if (x) { err = 0; diag_freemsg(x); }
				std::string rc = ctx + fmt(" request [%s] answers %serror %02X -> %d bus", hex(p).c_str(), desc.c_str(), e.errcode, err);
				for (auto &b : e.bus) rc += " [" + hex(b) + "]";
				if (w.size() > 11 && !e.raw) { CHECK(err < 0 && e.bus.empty(), "met:oversize", "%s", rc.c_str()); rep::cover("oversize-refused"); continue; }
				bool hdrok = !e.bus.empty() && e.bus[0].size() >= p.size();
				if (k14 && !fast) CHECK(e.bus.size() == 1 && hdrok && std::equal(p.begin(), p.end(), e.bus[0].end() - p.size()), "met:wrong-frame-on-bus", "%s expected [%s]", rc.c_str(), hex(w).c_str());
				else CHECK(e.bus.size() == 1 && e.bus[0] == w, "met:wrong-frame-on-bus", "%s expected [%s]", rc.c_str(), hex(w).c_str());
				CHECK(!e.bad, "met:protocol", "%s: %s", rc.c_str(), e.what.c_str());
				if (e.errcode) {
					bool to = e.errcode == 0x05 || e.errcode == 0x07 || e.errcode == 0x0c;
					CHECK(got.empty() && err < 0 && (!to || err == DIAG_ERR_TIMEOUT), "met:error-reported", "%s", rc.c_str()); rep::cover("adapter-errors");
				} else if (want.empty() || !e.ecu_on) { CHECK(err < 0 && got.empty(), "met:no-error", "%s", rc.c_str()); rep::cover("unanswered"); }
				else { expect(got, want, true, "met", rc); rep::cover("answers", got.size()); for (auto &g : got) CHECK(!(g.fmt & DIAG_FMT_BADCS), "met:checksum", "%s", rc.c_str()); }
				rep::distinct(rc); rep::sample(rc);
				advance(700 * MS);
			}
			e.plan.clear(); e.errcode = 0;
			diag_l2_StopCommunications(c);
		} else rep::cover("starts-refused");
		diag_l2_close(d);
		CHECK(e.nopen == 0, "met:port-left-open", "%s", ctx.c_str());
		e.bad = 0;
	}
	diag_l0_del(d);
	CHECK(mem().live == live, "met:leak", "%s blocks %ld", ctx.c_str(), mem().live - live);
}
// anything at all coming back
struct Mad : Tty {
	Rng r; int style; unsigned n = 0; bool br;
	Mad(uint64_t s, bool b) : Tty("/dev/ttyVT0"), r(s), br(b) { style = r.below(4); }
	void on_tx(ns_t t, uint8_t b) override {
		n++;
		if (br && n == 1 && b == 0x20) { push(t + MS, (uint8_t)(r.chance(95) ? 0xff : r.byte())); return; }
		if (br && n == 3 && r.chance(90)) { if (r.chance(50)) { push(t + MS, (uint8_t)1); push(t + 2 * MS, r.byte()); } else for (uint8_t x : {2, 0, 3}) push(t + 2 * MS, x); return; }
		if (!br && n % 15) { if (r.chance(1)) push(t + r.range(0, 300) * MS, r.byte()); return; }
		if (br && r.chance(60)) return;
		ns_t a = t + r.range(0, 300) * MS; int k = style == 0 ? r.below(3) : style == 1 ? r.range(0, 20) : style == 2 ? 14 * r.range(1, 4) : r.range(0, 200);
		for (int i = 0; i < k; i++) { uint8_t x = r.byte(); if (!br && i % 14 == 1 && r.chance(80)) x = r.pick({0x01, 0x81, 0x82, 0x84, 0x80, 0x88}); if (r.chance(30)) x = r.pick({0x00, 0x80, 0x40, 0x0f, 0x01, 0x02, 0x08, 0xff}); push(a, x); a += r.chance(97) ? byte_ns() : r.range(0, 150) * MS; }
	}
};
static void mad(Rng &r, long) {
	bool br = r.chance(50);
	Mad e(r.next(), br);
	budget(3000 * SEC, 20000000);
	long live = mem().live;
	struct diag_l0_device *d = mk(br ? "BR1" : "MET16");
	int l1 = r.pick({DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM});
	int rv = diag_l2_open(d, l1);
	if (!rv) {
		rep::cover("opens");
		int l2 = r.chance(10) ? DIAG_L2_PROT_RAW : l1 == DIAG_L1_ISO9141 ? r.pick({DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_VAG, DIAG_L2_PROT_MB1}) : l1 == DIAG_L1_ISO14230 ? DIAG_L2_PROT_ISO14230 : DIAG_L2_PROT_SAEJ1850;
		unsigned fl = r.chance(20) ? DIAG_L2_TYPE_MONINIT : l1 == DIAG_L1_ISO14230 && r.chance(60) ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT;
		struct diag_l2_conn *c = diag_l2_StartCommunications(d, l2, fl, 10400, 0x33, 0xf1);
		if (c) {
			rep::cover("connections");
			for (int i = r.range(1, 5); i; i--) {
				TMsg m(r.bytes(r.range(1, 14)), 0x33, 0xf1);
				if (r.chance(50)) { int err = 0; struct diag_msg *x = diag_l2_request(c, &m.m, &err); if (x) { rep::cover("something-delivered"); diag_freemsg(x); } else { CHECK(err < 0, "adapt:no-error-code", "style %d br %d l1 %d l2 %d", e.style, br, l1, l2); rep::cover("errors-returned"); } }
				else { if (r.chance(70)) diag_l2_send(c, &m.m); RecvSink sk; diag_l2_recv(c, r.range(10, 500), sink_cb, &sk); rep::cover("receives"); }
			}
			diag_l2_StopCommunications(c);
		}
		diag_l2_close(d);
	}
	diag_l0_del(d);
	CHECK(e.nopen == 0 && mem().live == live, "adapt:leak", "hostile %s style %d rv %d open %d blocks %ld", br ? "BR-1" : "T16", e.style, rv, e.nopen, mem().live - live);
	rep::distinct(fmt("%d %lu %lu", br, e.txall.size(), e.nread));
}
std::vector<Mode> modes() { return {{"br1", br_, stack_init}, {"met16", met, stack_init}, {"mad", mad, stack_init}}; }
