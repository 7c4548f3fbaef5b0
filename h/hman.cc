// Manual diagnostics: what the user sets, connects to, sends and reads by hand.
#include "app.h"
#include "car.h"
#include "j1979.h"
#include <climits>
using namespace vt;
static void setup() { stack_init(); app::init(); app::stdin_reset(); }
static std::string num(Rng &r, int v) {
	switch (r.below(5)) {
	case 0: return fmt("0x%X", v);
	case 1: return fmt("0x%02x", v);
	case 2: return fmt("$%x", v);
	case 3: return fmt("0%o", v);
	default: return fmt("%d", v);
	}
}
static std::string cased(Rng &r, std::string s) { for (char &c : s) if (r.chance(30)) c = isupper(c) ? tolower(c) : toupper(c); return s; }
enum L2 { RAW, I9141, I14230, J1850 };
static const char *l2n[] = {"RAW", "ISO9141", "ISO14230", "SAEJ1850"};
static const int l1v[] = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_RAW};
static const char *l1n[] = {"ISO9141", "ISO14230", "J1850-VPW", "J1850-PWM", "RAW"};
struct Cfg { unsigned speed = 10400; uint8_t src = 0xf1, tgt = 0x33; bool func = true; int l1 = 0; L2 l2 = RAW; int init = 1; };
static const char *inits[] = {"5BAUD", "FAST", "CARB"};
static std::string sh(const Cfg &c) { return fmt("speed %u testerid %02X destaddr %02X %s %s %s %s", c.speed, c.src, c.tgt, c.func ? "func" : "phys", l1n[c.l1], l2n[c.l2], inits[c.init]); }
// The settings are applied by command; what the program answers is checked.
static void settings(Rng &r, Cfg &c, bool all) {
	for (int i = 0; i < 7; i++) {
		if (!all && !r.chance(25)) continue;
		switch (i) {
		case 0: { c.speed = r.chance(30) ? 10400 : r.chance(20) ? 0 : r.range(1, 200000); std::string o = app::cmd("set speed " + num(r, c.speed)); CHECK(o == fmt("Connect speed: %u\n", c.speed), "man:set-speed", "%s", o.c_str()); break; }
		case 1: { c.src = r.chance(40) ? 0xf1 : r.byte(); std::string o = app::cmd("set testerid " + num(r, c.src)); CHECK(o == fmt("testerid: using 0x%02X\n", c.src), "man:set-testerid", "%s", o.c_str()); break; }
		case 2: { c.tgt = r.chance(40) ? 0x33 : r.byte(); std::string o = app::cmd("set destaddr " + num(r, c.tgt)); CHECK(o == fmt("destaddr: using 0x%02X\n", c.tgt), "man:set-destaddr", "%s", o.c_str()); break; }
		case 3: c.func = r.below(2); app::cmd(fmt("set addrtype %s", c.func ? "func" : "phys")); break;
		case 4: c.l1 = r.below(5); app::cmd("set l1protocol " + cased(r, l1n[c.l1])); break;
		case 5: c.l2 = (L2)r.below(4); app::cmd("set l2protocol " + cased(r, l2n[c.l2])); break;
		case 6: c.init = r.below(3); app::cmd("set initmode " + cased(r, inits[c.init])); break;
		}
	}
}
static Bytes with_sum(Bytes b) { b.push_back(sum8(b, b.size())); return b; }
// One ECU on whatever bus; it answers its own kind of initialisation only.
struct Ecu {
	FakeL0 &f;
	enum K { NONE, S9141, S14230, F14230, FREE } k = NONE;
	uint8_t addr = 0x33, id = 0x10, kb1 = 8, kb2 = 8;
	Bytes inits;                              // addresses initialised (in order)
	std::vector<std::pair<int, uint8_t>> ini; // type, address
	Bytes start;                              // the StartCommunications request seen
	std::vector<Bytes> rx;                    // complete tester bursts after the initialisation
	std::vector<Bytes> reply; ns_t delay = 30 * MS, gap = 30 * MS;
	Bytes hello;   // sent on its own accord after the handshake
	bool kwp = false, inv = false, wantstart = false, stopped = false;
	uint8_t badinv = 0;
	unsigned long wrong = 0;
	explicit Ecu(FakeL0 &x) : f(x) {
		f.initbus = [this](FakeL0 &, struct diag_l1_initbus_args *a) {
			ini.push_back({(int)a->type, a->addr}); inv = wantstart = false;
			if (a->type == DIAG_L1_INITBUS_FAST) { wantstart = true; return 0; }
			advance(2000 * MS);
			if (a->addr != addr || (k != S9141 && k != S14230)) { advance(300 * MS); return (int)DIAG_ERR_TIMEOUT; }
			f.push(now() + 10 * MS, Bytes{kb1, kb2}, 10 * MS);
			inv = true;
			return 0;
		};
		f.ecu = [this](FakeL0 &, const Bytes &b) { got(b); };
	}
	void got(const Bytes &b) {
		if (inv && b.size() == 1) { inv = false; if (b[0] != (uint8_t)~kb2) wrong++; f.push(now() + 30 * MS, Bytes{(uint8_t)(~addr ^ badinv)}); if (!hello.empty()) f.push(now() + 70 * MS, hello); return; }
		if (wantstart) {
			wantstart = false; start = b;
			if (k == F14230 && b.size() == 5 && b[1] == addr && b[3] == 0x81 && sum8(b, 4) == b[4]) f.push(now() + 30 * MS, with_sum({0x83, b[2], id, 0xC1, kb1, kb2}));
			return;
		}
		rx.push_back(b);
		if (kwp) {
			if (b.size() == 5 && b[3] == 0x82) { stopped = true; f.push(now() + 30 * MS, with_sum({0x81, b[2], id, 0xC2})); return; }
		}
		ns_t t = now() + delay;
		for (auto &x : reply) { if (f.framed) { f.frame(t, x); t += gap; } else { f.push(t, x); t += f.byte_ns * x.size() + gap; } }
		reply.clear();
	}
};
// the program's own remarks about failed calls are not part of what it shows
static std::string run(const std::string &line) {
	std::string o = app::cmd(line), s;
	for (size_t i = 0; i < o.size();) {
		size_t e = o.find('\n', i); if (e == std::string::npos) e = o.size() - 1;
		std::string l = o.substr(i, e - i + 1); i = e + 1;
		size_t c = l.find(".c:"), d = l.find_first_not_of("0123456789", c == std::string::npos ? 0 : c + 3);
		if (c != std::string::npos && c && l.find(' ') > c && d != std::string::npos && d > c + 3 && l[d] == ':') continue;
		s += l;
	}
	return s;
}
struct Shown { uint8_t src, dest; Bytes d; };
static std::string shown(const std::vector<Shown> &v) {
	std::string s; int i = 0;
	for (auto &m : v) {
		s += fmt("msg %02d src=0x%02X dest=0x%02X\nmsg %02d data: ", i, m.src, m.dest, i);
		for (uint8_t x : m.d) s += fmt("0x%02X ", x);
		s += "\n"; i++;
	}
	return s;
}
// drop the tester's own diagnostic chatter about failed handshakes
static bool ends(const std::string &s, const std::string &e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }

struct World {
	FakeL0 f; Ecu e; Cfg c; Cfg at;  // at: settings when connected
	bool conn = false, l3 = false;
	bool strips = false, docks = false;
	World() : f(0xff, 0), e(f) {}
	void bus(Rng &r) {   // what the adapter says about the bus it was set to
		f.flags = 0; f.framed = f.echo = false; strips = docks = false;
		if (c.l1 == 2 || c.l1 == 3) {
			f.flags = DIAG_L1_DOESL2FRAME; f.framed = true;
			if (r.chance(50)) { f.flags |= DIAG_L1_DOESL2CKSUM; docks = true; }
			if (r.chance(50)) { f.flags |= DIAG_L1_STRIPSL2CKSUM; strips = true; }
		} else {
			f.flags = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFSLOW;
			if (r.chance(50)) { f.flags |= DIAG_L1_HALFDUPLEX; f.echo = true; }
		}
	}
	// frames on this connection
	Bytes want(const Bytes &p, bool ping = false) const {
		Bytes b;
		switch (at.l2) {
		case RAW: return p;
		case I9141: b = {0x68, 0x6a, at.src}; break;
		case I14230: {
			b = {(uint8_t)(at.func ? 0xc0 : 0x80), c.tgt && !ping ? c.tgt : at.tgt, ping || (l3 && !c.src) ? (uint8_t)0xf1 : c.src ? c.src : at.src};
			if (p.size() < 64) b[0] |= p.size(); else b.push_back(p.size());
			break; }
		case J1850: b = {(uint8_t)(at.l1 == 3 ? 0x61 : 0x68), at.tgt, at.src}; break;
		}
		b.insert(b.end(), p.begin(), p.end());
		if (docks) return b;
		if (at.l2 == J1850) b.push_back(car::crc1850(b)); else b.push_back(sum8(b, b.size()));
		return b;
	}
	Bytes frame(Rng &, const Shown &m) const {
		Bytes b;
		switch (at.l2) {
		case RAW: return m.d;
		case I9141: b = {0x48, 0x6b, m.src}; break;
		case I14230: b = {0x80, m.dest, m.src}; if (m.d.size() < 64) b[0] |= m.d.size(); else b.push_back(m.d.size()); break;
		case J1850: b = {0x48, m.dest, m.src}; break;
		}
		b.insert(b.end(), m.d.begin(), m.d.end());
		if (strips) return b;
		if (at.l2 == J1850) b.push_back(car::crc1850(b)); else b.push_back(sum8(b, b.size()));
		return b;
	}
	Shown answer(Rng &r) const {
		Shown m;
		m.src = e.id; m.dest = at.l2 == I9141 ? 0xf1 : at.l2 == I14230 ? 0xf1 : r.byte();
		size_t n = at.l2 == I9141 ? r.range(1, 7) : at.l2 == J1850 ? r.range(1, 7) : at.l2 == RAW ? (r.chance(80) ? r.range(1, 30) : r.range(31, 200)) : r.chance(80) ? r.range(1, 20) : r.range(21, 255);
		m.d = r.bytes(n);
		if (at.l2 == RAW) m.src = m.dest = 0;
		return m;
	}
};
static void connect(Rng &r, World &w, std::string &log) {
	Ecu &e = w.e; FakeL0 &f = w.f;
	Cfg &c = w.c;
	w.bus(r);
	// the car: mostly what the settings ask for
	bool j = c.l1 == 2 || c.l1 == 3;
	if (c.l2 == J1850 && !j) f.flags |= 0;
	e.addr = r.chance(85) ? c.tgt : r.byte(); e.id = r.chance(50) ? 0x10 : r.range(1, 254);
	e.badinv = 0;
	Ecu::K fit = c.l2 == I9141 ? Ecu::S9141 : c.l2 == I14230 ? (c.init == 0 ? Ecu::S14230 : Ecu::F14230) : Ecu::FREE;
	e.k = r.chance(80) ? fit : (Ecu::K)r.below(5);
	if (c.l2 == I14230 && e.k == Ecu::S9141) e.k = Ecu::NONE;   // header formats by key byte: see C02
	if (e.k == Ecu::S9141) e.kb1 = e.kb2 = r.pick({0x08, 0x94}); else { e.kb1 = 0xef; e.kb2 = 0x8f; }
	if ((e.k == Ecu::S9141 || e.k == Ecu::S14230) && r.chance(10)) e.badinv = 1 << r.below(8);
	f.drv.l1proto_mask = r.chance(90) ? 0xff : (0xff & ~l1v[c.l1]);
	bool openfail = r.chance(5);
	f.open_fault = [&](FakeL0 &) { return openfail ? (int)DIAG_ERR_BADIFADAPTER : 0; };
	e.kwp = c.l2 == I14230;
	e.ini.clear(); e.start.clear(); e.rx.clear(); e.reply.clear(); e.wrong = 0; e.stopped = false; f.clear(); f.tx.clear(); f.speeds.clear();
	f.last_proto = -1;
	// an adapter that stops doing what it is told (driver error codes, not necessarily recorded anywhere)
	int sick = r.chance(12) ? r.range(1, 2) : 0; int code = r.pick({DIAG_ERR_GENERAL, DIAG_ERR_TIMEOUT, DIAG_ERR_INCDATA, DIAG_ERR_BADIFADAPTER});
	if (c.l2 == J1850 || (c.l2 == RAW && sick == 2) || (sick == 2 && !(c.l2 == I14230 ? c.init < 2 : c.init == 0))) sick = 0;
	unsigned bad = sick == 1 ? DIAG_IOCTL_SETSPEED : DIAG_IOCTL_INITBUS;
	f.ioctl_hook = [=](FakeL0 &, unsigned cm, void *) { return sick && cm == bad ? code : 0; };
	bool can = (f.drv.l1proto_mask & l1v[c.l1]) && !openfail;
	// a J1850 bus carries no K-line initialisation; the models below speak it anyway
	bool ok = can && !sick;
	if (c.l2 == I9141) ok = ok && c.init == 0 && e.k == Ecu::S9141 && e.addr == c.tgt && !e.badinv;
	if (c.l2 == I14230) ok = ok && ((c.init == 0 && e.k == Ecu::S14230 && e.addr == c.tgt && !e.badinv) || (c.init == 1 && e.k == Ecu::F14230 && e.addr == c.tgt));
	if (c.l2 == I9141 && c.init == 0 && e.k == Ecu::S14230) ok = false;   // wrong key bytes
	std::string o = run("diag connect");
	std::string ctx = sh(c) + fmt(" [car: kind %d at %02X] ", e.k, e.addr) + o;
	log += "connect; ";
	f.ioctl_hook = nullptr;
	if (sick && can) rep::cover("adapter-failures");
	int opens = f.opens - f.closes;
	if (ok) {
		rep::cover(std::string("connected-") + l2n[c.l2]);
		CHECK(o == "Connection to ECU established!\n", "man:connect-refused", "%s", ctx.c_str());
		CHECK(global_state == STATE_CONNECTED && global_l2_conn && opens == 1, "man:connect-state", "%s: state %d opens %d", ctx.c_str(), (int)global_state, opens);
		w.conn = global_state == STATE_CONNECTED; w.at = c; w.l3 = false;
		CHECK(e.wrong == 0, "man:handshake", "%s", ctx.c_str());
	} else {
		rep::cover("connections-refused");
		CHECK(ends(o, "\nConnection to ECU failed\nPlease check :\n\tAdapter is connected to PC\n\tCable is connected to Vehicle\n\tVehicle is switched on\n") && !app::has(o, "established"), "man:connect-claimed", "%s", ctx.c_str());
		CHECK(global_state == STATE_IDLE && !global_l2_conn && opens == 0, "man:connect-state", "%s: state %d opens %d", ctx.c_str(), (int)global_state, opens);
		w.conn = false;
	}
	if (can && !sick) {
		CHECK(f.last_proto == l1v[c.l1], "man:l1-protocol", "%s: adapter opened for %d", ctx.c_str(), f.last_proto);
		if (c.l2 != J1850) {
			unsigned sp = c.speed ? c.speed : c.l2 == RAW ? 0 : 10400;
			CHECK(!f.speeds.empty() && f.speeds[0].speed == sp && f.speeds[0].databits == diag_databits_8 && f.speeds[0].stopbits == diag_stopbits_1 && f.speeds[0].parflag == diag_par_n, "man:speed", "%s: line set to %u", ctx.c_str(), f.speeds.empty() ? 0 : f.speeds[0].speed);
		}
		if (c.l2 == I9141) { if (c.init == 0) CHECK(e.ini.size() == 1 && e.ini[0] == std::make_pair((int)DIAG_L1_INITBUS_5BAUD, c.tgt), "man:init", "%s: %zu inits, first %d %02X", ctx.c_str(), e.ini.size(), e.ini.empty() ? -1 : e.ini[0].first, e.ini.empty() ? 0 : e.ini[0].second); else CHECK(e.ini.empty() && f.tx.empty(), "man:init", "%s: bus used", ctx.c_str()); }
		else if (c.l2 == I14230 && c.init < 2) {
			CHECK(e.ini.size() == 1 && e.ini[0].first == (c.init ? DIAG_L1_INITBUS_FAST : DIAG_L1_INITBUS_5BAUD), "man:init", "%s: %zu inits, first %d", ctx.c_str(), e.ini.size(), e.ini.empty() ? -1 : e.ini[0].first);
			if (c.init == 0) CHECK(e.ini.size() == 1 && e.ini[0].second == c.tgt, "man:init", "%s: 5 baud address %02X", ctx.c_str(), e.ini.empty() ? 0 : e.ini[0].second);
			else { Bytes s = with_sum({(uint8_t)(c.func ? 0xC1 : 0x81), c.tgt, c.src, 0x81}); CHECK(e.start == s, "man:startcomm", "%s: sent [%s]", ctx.c_str(), hex(e.start).c_str()); rep::cover("startcomm-frames"); }
		} else CHECK(e.ini.empty() && f.tx.empty(), "man:init", "%s: bus used", ctx.c_str());
	} else if (!can) CHECK(f.tx.empty() && e.ini.empty(), "man:init", "%s: bus used without an adapter", ctx.c_str());
}
static void manual(Rng &r, long) {
	reset_clock(1000 * SEC); budget(4000 * SEC, 8000000);
	long live0 = mem().live;
	std::string log;
	{
		World w; Ecu &e = w.e; FakeL0 &f = w.f;
		global_dl0d = &f.dev; global_state = STATE_IDLE; global_l2_conn = nullptr; global_l3_conn = nullptr;
		settings(r, w.c, true);
		int n = r.range(4, 14);
		for (int i = 0; i < n; i++) {
			int op = r.below(12);
			if (!w.conn && r.chance(60)) op = 0;
			f.tx.clear(); e.rx.clear();
			switch (op) {
			case 0: case 1:
				if (w.conn) {
					std::string o = run("diag connect"); log += "connect again; ";
					CHECK(o == "Already connected !\n" && global_l2_conn && f.tx.empty(), "man:connect-twice", "%s: %s", log.c_str(), o.c_str()); rep::cover("connect-twice");
				} else {
					// combinations the models do not cover: J1850 off its bus, K-line protocols on it
					if ((w.c.l2 == J1850) != (w.c.l1 == 2 || w.c.l1 == 3) && w.c.l2 != RAW) { w.c.l1 = w.c.l2 == J1850 ? r.range(2, 3) : r.pick({0, 1, 4}); run(fmt("set l1protocol %s", l1n[w.c.l1])); }
					connect(r, w, log);
				}
				break;
			case 2: { settings(r, w.c, false); log += "set...; "; break; }
			case 3: {
				bool was = w.conn, kw = w.at.l2 == I14230; std::string o = run("diag disconnect"); log += "disconnect; ";
				CHECK(o == "" && global_state == STATE_IDLE && !global_l2_conn && !global_l3_conn && f.opens == f.closes, "man:disconnect", "%s: %s (state %d, opens %d closes %d)", log.c_str(), o.c_str(), (int)global_state, f.opens, f.closes);
				if (was) { CHECK(e.stopped == kw, "man:stopcomm", "%s: StopCommunication %ssent", log.c_str(), e.stopped ? "" : "not "); rep::cover("disconnects"); }
				else CHECK(f.tx.empty(), "man:disconnect", "%s: bus used", log.c_str());
				w.conn = w.l3 = false; break; }
			case 4: {  // add / remove the L3
				if (w.conn && w.at.l2 == RAW) break;
				bool mute = r.chance(15), add = w.conn && !w.l3;
				f.clear(); e.reply.clear(); e.delay = 30 * MS;
				if (add && !mute) { Shown m = w.answer(r); m.d = {0x41, 0, r.byte(), r.byte(), r.byte(), r.byte()}; e.reply.push_back(w.frame(r, m)); }
				std::string o = run("diag addl3 " + cased(r, "SAEJ1979")); log += "addl3; ";
				if (add) CHECK(f.sent() == w.want({1, 0}, true), "man:addl3-ping", "%s: sent [%s]", log.c_str(), hex(f.sent()).c_str());
				if (add && mute) { CHECK(app::has(o, "Failed to add L3 protocol\n") && !global_l3_conn && global_state == STATE_CONNECTED, "man:addl3-mute", "%s: %s", log.c_str(), o.c_str()); rep::cover("l3-refused"); break; }
				if (!w.conn) CHECK(o == "Not connected to ECU\n" && !global_l3_conn, "man:addl3", "%s: %s", log.c_str(), o.c_str());
				else if (w.l3) CHECK(f.tx.empty() && o == "L3 protocol already connected\n" && global_l3_conn, "man:addl3", "%s: %s", log.c_str(), o.c_str());
				else { CHECK(o == "Done\n" && global_state == STATE_L3ADDED && global_l3_conn, "man:addl3", "%s: %s", log.c_str(), o.c_str()); w.l3 = global_l3_conn != nullptr; rep::cover("l3-added"); }
				break; }
			case 5: {
				if (r.chance(30)) { std::string o = run("diag addl3 NONSUCH"); if (w.conn && !w.l3) CHECK(app::has(o, "No such protocol") && !global_l3_conn && global_state == STATE_CONNECTED, "man:addl3-unknown", "%s: %s", log.c_str(), o.c_str()); break; }
				std::string o = run("diag reml3"); log += "reml3; ";
				if (w.l3) CHECK(o == "" && !global_l3_conn && global_state == STATE_CONNECTED && global_l2_conn, "man:reml3", "%s: %s", log.c_str(), o.c_str());
				else CHECK(o == "No active global L3 connection.\n" && global_state == (w.conn ? STATE_CONNECTED : STATE_IDLE), "man:reml3", "%s: %s", log.c_str(), o.c_str());
				w.l3 = false; break; }
			case 6: {  // read N
				int secs = r.below(6); bool noarg = r.chance(20);
				if (!w.conn) { std::string o = run("diag read 1"); CHECK(o == "Not connected to ECU\n" && f.tx.empty(), "man:read-idle", "%s", o.c_str()); break; }
				if (r.chance(15)) { std::string bad = r.pick({"-1", "2147484", "99999999999", "-2147483648"}); ns_t t = now(); std::string o = run("diag read " + bad); CHECK(app::has(o, "Invalid wait time") && app::g_rv == CMD_USAGE && now() - t < SEC, "man:read-badtime", "read %s: %s", bad.c_str(), o.c_str()); rep::cover("reads-refused"); break; }
				if (w.l3) break;   // the L3's own reassembly: see sendreq
				f.clear();
				std::vector<Shown> v{w.answer(r)};
				ns_t at = r.chance(15) ? 0 : (ns_t)(r.chance(70) ? r.range(1, 980) : r.range(1001, 6000)) * MS;
				bool in = at && !noarg && at < (ns_t)secs * SEC, near = at && !noarg && at + 400 * MS > (ns_t)secs * SEC && at < (ns_t)secs * SEC + 400 * MS;
				if (near || noarg || secs == 0) { at = 0; in = false; }
				if (at) { Bytes b = w.frame(r, v[0]); if (f.framed) f.frame(now() + at, b); else f.push(now() + at, b); }
				ns_t t0 = now();
				std::string o = run(noarg ? "diag rx" : fmt("diag read %d", secs)); log += fmt("read %d; ", secs);
				std::string wnt = in ? shown(v) : "";
				CHECK(o == wnt, in ? "man:read-missed" : "man:read-invented", "%s | %s: showed \"%s\" for \"%s\"", log.c_str(), sh(w.at).c_str(), o.c_str(), wnt.c_str());
				CHECK(f.tx.empty(), "man:read-sends", "%s", log.c_str());
				if (!in) CHECK(now() - t0 + MS / 2 >= (ns_t)(noarg ? 0 : secs) * SEC && now() - t0 <= (ns_t)(noarg ? 0 : secs) * SEC + 500 * MS, "man:read-time", "read %d took %llu ms", secs, (unsigned long long)((now() - t0) / MS));
				rep::cover(in ? "reads-shown" : "reads-silent"); f.clear(); break; }
			default: {  // sendreq
				if (!w.conn) { std::string o = run("diag sr 1 2"); CHECK(o == "Not connected to ECU\n" && f.tx.empty(), "man:send-idle", "%s", o.c_str()); break; }
				f.clear(); e.reply.clear(); e.inv = e.wantstart = false;     // no handshake of an earlier attempt is still open
				size_t n2 = r.chance(70) ? r.range(1, 7) : r.chance(80) ? r.range(8, 100) : r.range(101, 300);
				if (w.at.l2 == J1850 && r.chance(80)) n2 = r.range(1, 7);
				Bytes p = r.bytes(n2);
				if (w.l3) p = {1, r.byte()};
				if (w.at.l2 == I14230 && p[0] == 0x82) p[0] = 0x81;
				std::string cmd = r.chance(50) ? "diag sr" : "diag sendreq"; for (uint8_t x : p) cmd += " " + num(r, x);
				bool fits = p.size() <= (w.at.l2 == I9141 ? 7u : 255u), silent = r.chance(20), senderr = r.chance(5);
				std::vector<Shown> v;
				// the answer: one or several messages, in time
				if (!silent) {
					int k = w.at.l2 == RAW || r.chance(60) ? 1 : r.range(2, 3);
					for (int q = 0; q < k; q++) { Shown m = w.answer(r); if (w.l3) { m.d = {0x41, 0x0d, r.byte()}; } v.push_back(m); }
					for (auto &m : v) e.reply.push_back(w.frame(r, m));
					e.delay = r.range(26, 45) * MS; if (w.at.l2 != I14230 && w.at.l2 != I9141) e.delay = r.range(1, 90) * MS;
					e.gap = r.range(26, 45) * MS;
				}
				if (senderr) f.send_fault = [](FakeL0 &) { return (int)DIAG_ERR_GENERAL; };
				bool nob = !silent && !senderr && r.chance(5);   // one word is no byte: nothing may be sent
				if (nob) { cmd += std::string(" ") + r.pick({"x", "256", "-1", "0x100", "0xfg", "$", "09", "1.5", "65536", "4294967297"}); e.reply.clear(); }
				std::string o = run(cmd); log += fmt("sendreq [%zu bytes]; ", p.size());
				f.send_fault = nullptr;
				if (nob) { CHECK(f.tx.empty() && app::has(o, "is not a byte"), "man:sent-no-byte", "%s: \"%s\" sent [%s], said %s", log.c_str(), cmd.substr(0, 60).c_str(), hex(f.sent()).c_str(), o.c_str()); rep::cover("no-bytes-refused"); f.clear(); break; }
				std::string ctx = log + " | " + sh(w.at) + fmt(" now %s | flags %x | ", sh(w.c).c_str(), f.flags) + cmd.substr(0, 60) + " -> " + o;
				if (!fits || senderr) {
					CHECK(f.sent().empty() && app::has(o, "sendreq: failed error") && !app::has(o, "msg 00"), "man:send-unsendable", "%s (sent [%s])", ctx.c_str(), hex(f.sent()).c_str());
					rep::cover(senderr ? "send-errors" : "sends-refused"); f.clear(); e.reply.clear(); f.pend.clear(); break;
				}
				Bytes wnt = w.want(p);
				CHECK(f.sent() == wnt, "man:sent", "%s: sent [%s], should be [%s]", ctx.c_str(), hex(f.sent()).c_str(), hex(wnt).c_str());
				std::string ws = silent ? "No data received\n" : shown(v);
				CHECK(o == ws, silent ? "man:answer-invented" : "man:answer", "%s expected %s", ctx.c_str(), ws.c_str());
				rep::cover(silent ? "requests-unanswered" : std::string("requests-") + (w.l3 ? "l3-" : "") + l2n[w.at.l2]);
				rep::distinct(fmt("%d %zu %d %d %zu %d %d", w.at.l2, p.size(), w.at.l1, w.at.func, v.size(), silent, w.l3) + hex(wnt).substr(0, 8));
				rep::sample(ctx);
				break; }
			}
			if (w.conn) CHECK(global_state == (w.l3 ? STATE_L3ADDED : STATE_CONNECTED) && f.opens - f.closes == 1, "man:state", "%s: state %d", log.c_str(), (int)global_state);
		}
		capture([&]() { run("diag disconnect"); });
		CHECK(f.opens == f.closes && !global_l2_conn, "man:left-open", "%s", log.c_str());
		global_dl0d = nullptr;
	}
	CHECK(mem().live == live0, "man:leak", "%s: %ld blocks leaked", log.c_str(), mem().live - live0);
}
static void probe(Rng &r, long) {
	reset_clock(1000 * SEC); budget(4000 * SEC, 8000000);
	long live0 = mem().live;
	{
		FakeL0 f(0xff, DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFSLOW | (r.chance(50) ? DIAG_L1_HALFDUPLEX : 0)); Ecu e(f);
		Cfg c;
		global_dl0d = &f.dev; global_state = STATE_IDLE; global_l2_conn = nullptr; global_l3_conn = nullptr;
		settings(r, c, true);
		bool fast = r.chance(50), func = fast && r.chance(40);
		int a = r.chance(70) ? r.range(0, 255) : r.range(0, 300), b = r.chance(30) ? a : a + (r.chance(90) ? r.range(0, 12) : r.range(-5, 60));
		if (b < 0) b = 0;
		bool one = a == b && !func && r.chance(60);
		bool range = a <= 255 && b <= 255 && a <= b;
		e.addr = range && r.chance(75) ? r.range(a, b) : r.byte();
		e.k = r.chance(75) ? (fast ? Ecu::F14230 : Ecu::S9141) : (Ecu::K)r.below(5);
		if (e.k == Ecu::S9141) e.kb1 = e.kb2 = r.pick({0x08, 0x94}); else { e.kb1 = 0xef; e.kb2 = 0x8f; }
		e.id = r.range(1, 254);
		Shown hm; bool hello = !fast && r.chance(40);
		if (hello) { hm.src = e.id; hm.dest = 0xf1; hm.d = r.bytes(r.range(1, 7)); Bytes b = {0x48, 0x6b, e.id}; b.insert(b.end(), hm.d.begin(), hm.d.end()); e.hello = with_sum(b); }
		bool openfail = r.chance(4);
		f.open_fault = [&](FakeL0 &) { return openfail ? (int)DIAG_ERR_BADIFADAPTER : 0; };
		if (r.chance(3)) f.drv.l1proto_mask = 0xfe;
		e.kwp = fast;
		bool hit = range && e.addr >= a && e.addr <= b && e.k == (fast ? Ecu::F14230 : Ecu::S9141) && !openfail && (f.drv.l1proto_mask & 1);
		std::string cmd = std::string("diag ") + (fast ? "fastprobe " : "probe ") + num(r, a);
		if (!one) cmd += " " + num(r, b);
		if (func) cmd += " " + cased(r, "func"); else if (fast && !one && r.chance(20)) cmd += " phys";
		std::string o = run(cmd), ctx = cmd + fmt(" [car: kind %d at %02X] | ", e.k, e.addr) + sh(c) + ": " + o;
		if (!range) { CHECK((a > 255 || b > 255 ? o == "Values must be between 0 and 255\n" : o == "Start must not be greater than End address\n") && f.tx.empty() && e.ini.empty() && f.opens == 0, "probe:range", "%s", ctx.c_str()); rep::cover("ranges-refused"); }
		else if (openfail || !(f.drv.l1proto_mask & 1)) { CHECK(app::has(o, "Failed to open hardware interface") && app::has(o, (f.drv.l1proto_mask & 1) ? "adapter probably not connected" : "does not support requested L1 protocol") && e.ini.empty(), "probe:open", "%s", ctx.c_str()); rep::cover("opens-refused"); }
		else {
			int last = hit ? e.addr : b;
			bool seq = (int)e.ini.size() == last - a + 1;
			if (seq) for (int i = a; i <= last; i++) if (!fast && e.ini[i - a] != std::make_pair((int)DIAG_L1_INITBUS_5BAUD, (uint8_t)i)) seq = false;
			if (seq && fast) for (auto &x : e.ini) if (x.first != DIAG_L1_INITBUS_FAST) seq = false;
			CHECK(seq, "probe:addresses", "%s: %zu tries for %d", ctx.c_str(), e.ini.size(), last - a + 1);
			CHECK(f.last_proto == DIAG_L1_ISO9141 && !f.speeds.empty() && f.speeds[0].speed == (c.speed ? c.speed : 10400), "probe:line", "%s: opened for %d", ctx.c_str(), f.last_proto);
			if (fast) {
				std::vector<Bytes> st; Bytes all = f.sent();
				for (size_t i = 0; i + 5 <= all.size() && (int)st.size() <= last - a; i += 5) st.push_back(Bytes(all.begin() + i, all.begin() + i + 5));
				for (int i = a; i <= last && i - a < (int)st.size(); i++) { Bytes w = with_sum({(uint8_t)(func ? 0xc1 : 0x81), (uint8_t)i, c.src, 0x81}); CHECK(st[i - a] == w, "probe:startcomm", "%s: sent [%s] for address %02X", ctx.c_str(), hex(st[i - a]).c_str(), i); }
				CHECK((int)st.size() == last - a + 1, "probe:startcomm", "%s: %zu start messages", ctx.c_str(), st.size());
			}
			size_t at = 0; bool shownall = true;
			for (int i = a; i <= last; i++) { size_t p = o.find(fmt("\t0x%X ", i), at); if (p == std::string::npos) shownall = false; else at = p + 1; }
			CHECK(shownall, "probe:shown", "%s", ctx.c_str());
			if (hit) {
				std::string kb = fast ? fmt("Keybytes: 0x%X 0x%X\n", e.kb1, e.kb2) : fmt("received: 0x%X 0x%X\n", e.kb1, e.kb2);
				CHECK(app::has(o, fmt("\t0x%X  connected !!\n", e.addr) + kb), "probe:found", "%s", ctx.c_str());
				if (hello) { CHECK(app::has(o, shown({hm})), "probe:data-shown", "%s: should show %s", ctx.c_str(), shown({hm}).c_str()); rep::cover("data-after-connecting"); } else CHECK(!app::has(o, "msg 00"), "probe:data-invented", "%s", ctx.c_str());
				CHECK(global_state == STATE_CONNECTED && global_l2_conn && f.opens - f.closes == 1, "probe:state", "%s", ctx.c_str());
				rep::cover(fast ? "found-fast" : "found-slow");
				// and the connection works
				f.tx.clear(); f.clear(); e.reply.clear(); e.rx.clear();
				std::string o2 = run("diag probe 1 2");
				CHECK(o2 == "Cannot probe while there is an active global connection.\n" && f.tx.empty(), "probe:busy", "%s", o2.c_str());
				Shown m; m.src = e.id; m.dest = 0xf1; m.d = r.bytes(r.range(1, 7));
				Bytes fr = fast ? Bytes{(uint8_t)(0x80 | m.d.size()), m.dest, m.src} : Bytes{0x48, 0x6b, m.src}; fr.insert(fr.end(), m.d.begin(), m.d.end());
				e.reply = {with_sum(fr)};
				std::string o3 = run("diag sr 0x1 0x2");
				Bytes want = fast ? with_sum({(uint8_t)(func ? 0xc2 : 0x82), c.tgt ? c.tgt : e.addr, c.src, 1, 2}) : with_sum({0x68, 0x6a, c.src, 1, 2});
				CHECK(f.sent() == want && o3 == shown({m}), "probe:usable", "%s then sr: sent [%s]: %s", ctx.c_str(), hex(f.sent()).c_str(), o3.c_str());
			} else {
				CHECK(!app::has(o, "connected !!"), "probe:invented", "%s", ctx.c_str());
				CHECK(global_state == STATE_IDLE && !global_l2_conn && f.opens == f.closes, "probe:state", "%s", ctx.c_str());
				rep::cover("not-found");
			}
			rep::distinct(fmt("%d %d %d %d %d", fast, func, a, last - a, hit)); rep::sample(ctx);
		}
		run("diag disconnect");
		CHECK(f.opens == f.closes && global_state == STATE_IDLE, "probe:left-open", "%s", ctx.c_str());
		global_dl0d = nullptr;
	}
	CHECK(mem().live == live0, "probe:leak", "%ld blocks leaked", mem().live - live0);
}
// ---- watching the bus: what others say to each other, until a key is pressed
static void watch(Rng &r, long) {
	reset_clock(1000 * SEC); budget(4000 * SEC, 8000000);
	long live0 = mem().live;
	std::string log;
	{
		World w; Ecu &e = w.e; FakeL0 &f = w.f;
		global_dl0d = &f.dev; global_state = STATE_IDLE; global_l2_conn = nullptr; global_l3_conn = nullptr;
		settings(r, w.c, true);
		for (int round = r.range(1, 3); round--;) {
			int how = r.below(4);   // decoded, raw, not decoded, without OBD
			Cfg &c = w.c;
			c.l2 = r.pick({I9141, I14230, J1850}); c.l1 = c.l2 == I9141 ? 0 : c.l2 == I14230 ? 1 : r.range(2, 3);
			run(fmt("set l1protocol %s", l1n[c.l1])); run(fmt("set l2protocol %s", l2n[c.l2]));
			w.at = c; if (how == 1) w.at.l2 = RAW;
			w.bus(r); f.q.clear(); f.tx.clear(); e.rx.clear(); e.inits.clear(); e.ini.clear(); e.reply.clear(); e.k = Ecu::NONE; e.id = r.byte(); e.delay = 30 * MS;
			bool l3 = how == 0 || how == 2, mute = l3 && r.chance(10), badport = r.chance(5);
			if (l3 && !mute) { Shown m; m.src = e.id; m.dest = 0xf1; m.d = {0x41, 0, r.byte(), r.byte(), r.byte(), r.byte()}; e.reply.push_back(w.frame(r, m)); }
			if (l3 && w.at.l2 == I14230) { if (!w.c.src) { w.c.src = 0xf1; run("set testerid 0xf1"); } if (!w.c.tgt) { w.c.tgt = 0x33; run("set destaddr 0x33"); } w.at = w.c; }
			w.at.func = false;   // a monitor has no addressing mode of its own
			std::string cmdl = how == 1 ? "watch " + cased(r, "raw") : how == 2 ? "watch " + cased(r, "nodecode") : how == 3 ? "watch " + cased(r, "nol3") : "watch";
			std::string ctx = cmdl + " | " + sh(w.at);
			if (r.chance(5)) { std::string o = run("watch " + std::string(r.pick({"rw", "x", "rawer", "-h"}))); CHECK(app::g_rv == CMD_USAGE && app::has(o, "Didn't understand") && f.opens == f.closes && f.tx.empty(), "watch:usage", "%s", o.c_str()); rep::cover("refused-options"); }
			if (r.chance(5)) { global_dl0d = nullptr; std::string o = run(cmdl); global_dl0d = &f.dev; CHECK(app::g_rv == CMD_FAILED && app::has(o, "No global L0"), "watch:no-interface", "%s", o.c_str()); rep::cover("without-interface"); }
			// the traffic, scheduled from when watching starts
			struct Sent { Shown m; ns_t t; bool good; Bytes raw; };
			std::vector<Sent> v; int n = r.chance(10) ? 0 : r.range(1, 20);
			ns_t start = now(), t = start + (l3 ? 800 : 400) * MS, bt = f.byte_ns;
			bool longgap = false;
			std::vector<std::pair<ns_t, Bytes>> put;
			for (int i = 0; i < n; i++) {
				t += r.chance(8) ? (longgap = true, (ns_t)r.range(10, 31) * SEC) : (ns_t)r.range(200, 2500) * MS;
				Sent x; x.m = w.answer(r); x.m.src = r.byte(); x.t = t; x.good = true;
				if (how == 0 && r.chance(80)) { x.m.d = r.bytes(x.m.d.size()); x.m.d[0] = (r.chance(85) ? 0x40 : 0) + r.range(0, 10); }
				if (how == 1) x.m.src = 0;
				x.raw = w.frame(r, x.m);
				if (how != 1 && !w.strips && r.chance(10)) { x.raw.back() ^= 1 << r.below(8); x.good = false; }
				put.push_back({t, x.raw}); v.push_back(x);
				t += bt * x.raw.size();
			}
			ns_t key = t + (ns_t)r.range(100, 12000) * MS; if (r.chance(20)) key = start + (ns_t)r.range(0, 5000) * MS;
			// the fake link starts afresh when opened: fill it as soon as it is asked for anything
			for (auto &p : put) { if (f.framed) f.frame(p.first, p.second); else f.push(p.first, p.second); }
			if (badport) f.open_fault = [](FakeL0 &) { return (int)DIAG_ERR_BADIFADAPTER; };
			bool pressed = false; ns_t seen = 0;
			on_poll = [&]() { if (!pressed && now() >= key) { pressed = true; seen = now(); app::stdin_feed("\n"); } };
			app::stdin_reset();
			std::string o = run(cmdl);
			on_poll = nullptr; f.open_fault = nullptr;
			app::stdin_reset();
			CHECK(global_state == STATE_IDLE && !global_l2_conn && !global_l3_conn && f.opens == f.closes && armed_timers() <= 1, "watch:left-open", "%s: opens %d closes %d", ctx.c_str(), f.opens, f.closes);
			if (badport) { CHECK(app::has(o, "Failed to open hardware interface, adapter probably not connected") && app::g_rv == CMD_FAILED, "watch:badport", "%s: %s", ctx.c_str(), o.c_str()); rep::cover("adapter-missing"); f.q.clear(); continue; }
			CHECK(e.ini.empty(), "watch:wakes", "%s: %zu wake-ups", ctx.c_str(), e.ini.size());
			if (l3) CHECK(f.sent() == w.want({1, 0}, true), "watch:sends", "%s: sent [%s]", ctx.c_str(), hex(f.sent()).c_str());
			else CHECK(f.tx.empty(), "watch:sends", "%s: sent [%s]", ctx.c_str(), hex(f.sent()).c_str());
			if (mute) { CHECK(app::has(o, "Failed to enable SAEJ1979 mode\n") && app::g_rv == CMD_FAILED && !app::has(o, "msg 0"), "watch:no-answer", "%s: %s", ctx.c_str(), o.c_str()); rep::cover("without-answer"); f.q.clear(); continue; }
			std::string top = "Monitoring started. Press Enter to end.\n";
			CHECK(o.compare(0, top.size(), top) == 0 && app::g_rv == CMD_OK, "watch:start", "%s: \"%s\"", ctx.c_str(), o.substr(0, 80).c_str());
			CHECK(pressed && now() <= std::max(seen, key) + 10500 * MS + 5 * SEC * (how != 1), "watch:key", "%s: ended %llu ms after the key", ctx.c_str(), (unsigned long long)((now() - key) / MS));
			// what was shown
			ns_t end = now();
			auto ls = app::lines(o.substr(std::min(top.size(), o.size())));
			ls.erase(std::remove_if(ls.begin(), ls.end(), [](const std::string &l) { return l.compare(0, 22, "Bad checksum detected:") == 0; }), ls.end());
			unsigned lastno = 0;
			size_t k = 0, got = 0, badsum = 0; ns_t lastt = 0;
			Bytes all, heard;
			for (size_t i = 0; i < ls.size();) {
				unsigned s = 0, ms = 0, no = 0, no2 = 0, src = 0, dest = 0; int u = 0;
				bool ok = how == 1 ? sscanf(ls[i].c_str(), "msg %u src=0x%X dest=0x%X%n", &no, &src, &dest, &u) == 3 : sscanf(ls[i].c_str(), "%u.%3u: msg %u src=0x%X dest=0x%X%n", &s, &ms, &no, &src, &dest, &u) == 5;
				if (!ok || i + 1 >= ls.size() || sscanf(ls[i + 1].c_str(), "msg %u data: ", &no2) != 1 || no != no2) { CHECK(false, "watch:text", "%s: line \"%s\"", ctx.c_str(), ls[i].c_str()); break; }
				std::string body = ls[i + 1].substr(ls[i + 1].find("data: ") + 6); i += 2; got++;
				if (how == 1) { for (size_t p = 0; p + 4 <= body.size(); p += 5) all.push_back(strtol(body.c_str() + p, nullptr, 16)); continue; }
				bool marked = body.size() >= 10 && body.substr(body.size() - 10) == " [BAD CKS]"; if (marked) body.resize(body.size() - 10);
				auto text = [&](const Shown &m) { std::string x; if (how == 0) x = m_text(m.d).substr(0, 255); else for (uint8_t y : m.d) x += fmt("0x%02X ", y); return x; };
				// the next message sent that was not corrupted is the one shown; a corrupted one may be left out, or shown so marked
				while (k < v.size() && !v[k].good && !(marked && src == v[k].m.src && body == text(v[k].m))) { k++; badsum++; }
				if (k >= v.size()) { CHECK(false, "watch:invented", "%s: shown \"%s\" of %02X after everything sent", ctx.c_str(), body.c_str(), src); break; }
				Sent &x = v[k++];
				CHECK(body == text(x.m) && src == x.m.src && dest == x.m.dest, "watch:message", "%s: message %zu shown as \"%s\" %02X>%02X, was [%s] \"%s\" %02X>%02X", ctx.c_str(), k, body.c_str(), src, dest, hex(x.m.d).c_str(), text(x.m).c_str(), x.m.src, x.m.dest);
				CHECK(marked == !x.good, "watch:checksum-mark", "%s: message %zu [%s] is %s", ctx.c_str(), k, hex(x.raw).c_str(), x.good ? "good" : "bad");
				ns_t at = (ns_t)s * SEC + (ns_t)ms * MS;
				CHECK(at + MS > x.t && at >= lastt && at <= x.t + bt * x.raw.size() + 250 * MS && at <= end, "watch:time", "%s: message %zu of %llu ms has time %llu", ctx.c_str(), k, (unsigned long long)(x.t / MS), (unsigned long long)(at / MS));
				CHECK(no == 0 || no == lastno + 1, "watch:number", "%s: message %zu is number %u after %u", ctx.c_str(), k, no, lastno); lastno = no;
				lastt = at; rep::cover(marked ? "shown-corrupted" : "shown"); rep::distinct(hex(x.m.d));
			}
			if (how == 1) {
				for (auto &x : v) if (x.t + bt * x.raw.size() + 100 * MS < std::max(seen, key)) heard.insert(heard.end(), x.raw.begin(), x.raw.end());
				Bytes sent; for (auto &x : v) sent.insert(sent.end(), x.raw.begin(), x.raw.end());
				bool pre = all.size() <= sent.size() && std::equal(all.begin(), all.end(), sent.begin());
				CHECK(pre && all.size() >= heard.size(), "watch:raw", "%s: shown [%s], on the bus until the key [%s]", ctx.c_str(), hex(all).c_str(), hex(heard).c_str());
				if (!all.empty()) rep::cover("raw-shown");
			} else {
				for (; k < v.size(); k++) CHECK(!v[k].good || v[k].t + bt * v[k].raw.size() + 200 * MS > std::max(seen, key), "watch:missed", "%s: message %zu [%s] of %llu ms not shown (key at %llu)", ctx.c_str(), k, hex(v[k].raw).c_str(), (unsigned long long)(v[k].t / MS), (unsigned long long)(key / MS));
			}
			rep::cover("watched"); if (longgap) rep::cover("silent-periods");
			f.q.clear();
		}
		global_dl0d = nullptr;
	}
	CHECK(mem().live == live0, "watch:leak", "%ld blocks", mem().live - live0);
}
std::vector<Mode> modes() { return {{"manual", manual, setup}, {"probe", probe, setup}, {"watch", watch, setup}}; }
