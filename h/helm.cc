// ELM323/ELM327 adapters: what reaches the vehicle bus, and what is delivered,
// when the stack drives an emulated adapter over its serial port.
#include "l2util.h"
extern "C" {
#include "diag_cfg.h"
}
using namespace vt;
static uint8_t crc1850(const Bytes &b) {
	uint8_t c = 0xff;
	for (uint8_t x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c & 0x80) ? (c << 1) ^ 0x1d : c << 1; }
	return ~c;
}
static uint8_t oddpar(uint8_t c) { int n = 0; for (int i = 0; i < 7; i++) n += (c >> i) & 1; return (c & 0x7f) | ((n & 1) ? 0 : 0x80); }
struct Line { ns_t after; Bytes f; };           // a frame put on the bus by the ECU, that long after the request
enum Trouble { T_NONE, T_NODATA, T_TEXT, T_TAILERR, T_GARBAGE, T_DEAD };
struct Elm : Tty {
	Rng r;
	// what it is
	bool is323 = false, official = true, has_init = true, has_kw = true, has_al = true, alive = true;
	std::string banner; unsigned baud = 38400;
	std::set<std::string> refuse;
	// its state
	bool echo_ = true, lf = true, hdr = false, memo = true, al = false, sr = false;
	int proto = 0; Bytes sh, wm; uint8_t iia = 0x33; bool kwcheck = true, up = false;
	std::string in; ns_t busy = 0; int interrupted = 0;
	std::vector<std::string> cmds; std::vector<Bytes> frames; bool stale = false; int badcmd = 0, lowspeed = 0;
	int ninit = 0; ns_t waitmore = 40 * MS;
	uint8_t srv = 0;
	// the vehicle
	bool ecu_on = true; int ecu_init = 5; uint8_t ecu_addr = 0x33, kb1 = 8, kb2 = 8; bool kw_std = true;
	std::function<std::vector<Line>(const Bytes &)> ecu;
	Trouble trouble = T_NONE; std::string text;
	Elm(uint64_t s) : Tty("/dev/ttyVT0"), r(s) {}
	void reset() { echo_ = true; lf = true; hdr = false; memo = true; al = false; sr = false; sh.clear(); wm.clear(); iia = 0x33; kwcheck = true; up = false; proto = is323 ? 0 : 99; }
	ns_t say(ns_t t, const std::string &s) { for (char c : s) { push(t, (uint8_t)c); t += byte_ns(); } return t; }
	std::string nl() { return lf ? "\r\n" : "\r"; }
	void on_tx(ns_t t, uint8_t b) override {
		if (!alive) return;
		if (uart().speed != baud || uart().databits != 8 || uart().parity != 'N') {
			lowspeed++;
			if (r.chance(30)) in += (char)(0x80 | b);
			if (r.chance(10)) push(t, (uint8_t)(0x80 | r.byte()));
			return;
		}
		if (t < busy) { // a character while busy interrupts
			interrupted++;
			while (!rx.empty() && rx.back().first > t) rx.pop_back();
			busy = say(t, nl() + "STOPPED" + nl() + nl() + ">"); in.clear(); return;
		}
		if (b == 0) return;
		if (b != '\r') { if (b != ' ' && b != '\n') in += (char)toupper(b); if (b == '\n') badcmd++; return; }
		std::string c = in; in.clear();
		ns_t a = t + r.range(1, 8) * MS;
		if (echo_) a = say(a, c + "\r");
		for (char x : c) if ((uint8_t)x >= 0x80) { stale = false; busy = say(a, "?" + nl() + nl() + ">"); return; }
		if (stale) { stale = false; done(a, "?"); return; }
		cmds.push_back(c);
		if (c.substr(0, 2) == "AT") at(a, c); else data(a, c);
	}
	void done(ns_t a, const std::string &s) { busy = say(a, s + nl() + nl() + ">"); }
	static bool hexs(const std::string &s, Bytes &o) { o.clear(); if (s.size() % 2) return false; for (size_t i = 0; i < s.size(); i += 2) { if (!isxdigit((uint8_t)s[i]) || !isxdigit((uint8_t)s[i + 1])) return false; o.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), 0, 16)); } return true; }
	void at(ns_t a, const std::string &c) {
		std::string k = c.substr(2); Bytes b;
		for (auto &x : refuse) if (k.substr(0, x.size()) == x) { done(a, "?"); return; }
		if (k == "Z") { reset(); std::string l = lf ? "\r\n" : "\r"; busy = say(a + r.range(100, 900) * MS, l + l + banner + l + l + ">"); return; }
		if (k == "I") { done(a, banner); return; }
		if (k == "E0" || k == "E1") { echo_ = k[1] == '1'; done(a, "OK"); return; }
		if (k == "L0" || k == "L1") { lf = k[1] == '1'; done(a, "OK"); return; }
		if (k == "H0" || k == "H1") { hdr = k[1] == '1'; done(a, "OK"); return; }
		if (k == "M0" || k == "M1") { if (is323) { done(a, "?"); return; } memo = k[1] == '1'; done(a, "OK"); return; }
		if (k.substr(0, 2) == "TP" && k.size() == 3 && k[2] >= '0' && k[2] <= '9') { if (is323) { done(a, "?"); return; } if (proto != k[2] - '0') { up = false; sh.clear(); } proto = k[2] - '0'; done(a, "OK"); return; }
		if (k.substr(0, 2) == "SH" && hexs(k.substr(2), b) && b.size() == 3) { sh = b; done(a, "OK"); return; }
		if (k.substr(0, 2) == "SR" && hexs(k.substr(2), b) && b.size() == 1) { sr = true; srv = b[0]; done(a, "OK"); return; }
		if (k.substr(0, 2) == "WM" && hexs(k.substr(2), b) && b.size() >= 1 && b.size() <= 6) { if (is323) { done(a, "?"); return; } wm = b; done(a, "OK"); return; }
		if (k.substr(0, 3) == "IIA" && hexs(k.substr(3), b) && b.size() == 1) { if (is323) { done(a, "?"); return; } iia = b[0]; done(a, "OK"); return; }
		if (k == "KW0" || k == "KW1") { if (is323 || !official) { done(a, "?"); return; } kwcheck = k[2] == '1'; done(a, "OK"); return; }
		if (k == "AL") { if (!has_al) { done(a, "?"); return; } al = true; done(a, "OK"); return; }
		if (k == "PC") { up = false; done(a, "OK"); return; }
		if (k == "KW") { if (!has_kw) { done(a, "?"); return; } done(a, up ? fmt("1:%02X 2:%02X", kb1, kb2) : "1:-- 2:--"); return; }
		if (k == "FI" || k == "SI") {
			if (!has_init || (!is323 && ((k == "FI") != (proto == 5) || (k == "SI" && proto != 3 && proto != 4)))) { done(a, "?"); return; }
			done_init(a, k == "FI", "");
			return;
		}
		badcmd++; done(a, "?");
	}
	// bus initialisation; returns the time at which its result has been printed
	ns_t init(ns_t a, bool fast) {
		ninit++;
		a = say(a, fast ? "BUS INIT: " : "BUS INIT: ...");
		a += fast ? r.range(80, 200) * MS : r.range(2100, 2450) * MS;
		bool ok;
		uint8_t to = fast ? (sh.size() == 3 ? sh[1] : 0x33) : iia;
		if (fast) ok = ecu_on && ecu_init == 5 && to == ecu_addr;
		else ok = ecu_on && ecu_init != 5 && to == ecu_addr && (kw_std || !kwcheck);
		if (!is323 && ok && proto != ecu_init) ok = false;
		up = ok;
		return say(a, (ok ? "OK" : "ERROR") + nl());
	}
	void done_init(ns_t a, bool fast, const std::string &) { a = init(a, fast); busy = say(a, nl() + ">"); }
	void data(ns_t a, const std::string &c) {
		Bytes d;
		if (!hexs(c, d) || d.empty()) { badcmd++; done(a, "?"); return; }
		if (d.size() > (al ? 8u : 7u)) { done(a, "?"); return; }
		bool j = proto == 1 || proto == 2, fast = proto == 5 || (is323 && ecu_init == 5);
		if (!is323 && proto > 5) { done(a, "UNABLE TO CONNECT"); return; }
		if (!j && !up) { a = init(a, fast); if (!up) { busy = say(a, nl() + ">"); return; } }
		int kind = is323 ? ecu_init : proto;
		Bytes h = sh, f;
		if (h.empty()) { if (kind == 1) h = {0x61, 0x6a, 0xf1}; else if (kind >= 4) h = {0xc0, 0x33, 0xf1}; else h = {0x68, 0x6a, 0xf1}; }
		if (kind >= 4) h[0] = (h[0] & 0xc0) | d.size();
		f = h; f.insert(f.end(), d.begin(), d.end());
		f.push_back(kind <= 2 ? crc1850(f) : sum8(f, f.size()));
		frames.push_back(f);
		std::vector<Line> an;
		if (ecu_on && ecu && (kind == ecu_init) && trouble != T_NODATA) an = ecu(f);
		if (trouble == T_DEAD) { busy = a; alive = false; return; }
		if (trouble == T_TEXT && r.chance(50)) an.clear();
		ns_t t = a, end = a; size_t n = 0;
		for (auto &l : an) {
			Bytes x = l.f; bool bad = false;
			if (sr && x.size() > 1 && x[1] != srv) continue;
			// without being told it listens to what the header suggests: OBD answers on ISO 9141
			if (!sr && kind == 3 && x.size() > 1 && x[1] != 0x6b) continue;
			if (!al && kind >= 3 && x.size() > 11) x.resize(11);
			t = std::max(a + l.after, end); std::string s;
			if (!hdr) x.assign(x.begin() + 3, x.end() - 1);
			for (uint8_t y : x) s += fmt("%02X ", y);
			if (trouble == T_TAILERR && n + 1 == an.size()) s += text, bad = true;
			if (trouble == T_GARBAGE && n + 1 == an.size()) { size_t p = r.below(s.size() - 1); static const char junk[] = "GXZ#:-+xg"; s[p - p % 3 + r.below(2)] = junk[r.below(9)]; bad = true; }
			(void)bad;
			end = say(t, s + nl()); n++;
		}
		if (trouble == T_TEXT) end = say(std::max(end, a + 10 * MS), text + nl());
		else if (!n && trouble != T_TAILERR && trouble != T_GARBAGE) { end = say(std::max(end, a) + 200 * MS, "NO DATA" + nl()); }
		else end = std::max(end + waitmore, a);
		busy = say(end, nl() + ">");
	}
};
static struct diag_l0_device *mk(int speed) {
	struct diag_l0_device *d = diag_l0_new("ELM");
	if (!d) return nullptr;
	for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next) {
		if (c->shortname && !strcmp(c->shortname, "port")) diag_cfg_setstr(c, "/dev/ttyVT0");
		else if (c->shortname && !strcmp(c->shortname, "elmspeed")) diag_cfg_setint(c, speed);
	}
	return d;
}
static void dress(Elm &e, Rng &r) {
	e.is323 = r.chance(20);
	if (e.is323) { e.official = true; e.banner = r.chance(80) ? "ELM323 v2.0" : "ELM323 v1.0"; if (e.banner != "ELM323 v2.0") e.official = false; }
	else { e.official = r.chance(65); e.banner = e.official ? r.pick({"ELM327 v1.0a", "ELM327 v1.1", "ELM327 v1.2", "ELM327 v1.3a", "ELM327 v1.4b", "ELM327 v2.0"}) : r.pick({"ELM327 v1.5", "ELM327 v1.5a", "ELM327 v2.1", "ELM327 v1.4a", "ELM327 v9.9"}); }
	e.has_init = e.official && r.chance(85); e.has_kw = e.official && r.chance(85); e.has_al = r.chance(85);
	e.baud = r.pick({38400, 38400, 9600, 115200});
	// left in some state by whoever used it before
	e.echo_ = r.chance(60); e.lf = r.chance(50); e.hdr = r.chance(30);
	if (r.chance(30)) { e.sh = r.bytes(3); e.al = true; }
	if (r.chance(20)) e.stale = true, e.in = r.pick({"ATZ", "0100", "XX", "AT"});
	e.waitmore = r.chance(50) ? r.range(20, 60) * MS : r.range(60, 180) * MS;
}
static std::string who(const Elm &e) { return fmt("%s @%u%s%s%s", e.banner.c_str(), e.baud, e.has_init ? "" : " no FI/SI", e.has_kw ? "" : " no KW", e.has_al ? "" : " no AL"); }
static std::string tail(const std::vector<std::string> &v) { std::string s; for (size_t i = v.size() > 14 ? v.size() - 14 : 0; i < v.size(); i++) s += (s.empty() ? "" : ",") + v[i]; return s; }
static void ready(const Elm &e, int proto, const std::string &ctx) {
	int want = proto == DIAG_L1_J1850_PWM ? 1 : proto == DIAG_L1_J1850_VPW ? 2 : proto == DIAG_L1_ISO9141 ? 3 : 0;
	CHECK(!e.echo_ && !e.lf && e.hdr && (e.is323 || !e.memo), "elm:left-unready", "%s echo %d linefeeds %d headers %d memory %d", ctx.c_str(), e.echo_, e.lf, e.hdr, e.memo);
	CHECK(e.is323 || !want || e.proto == want, "elm:wrong-bus-protocol", "%s: adapter set to protocol %d instead of %d", ctx.c_str(), e.proto, want);
}
// opening: any adapter, any speed, any refusal
static void open_(Rng &r, long) {
	Elm e(r.next()); dress(e, r);
	int custom = r.chance(40) ? 38400 : r.pick({9600, 115200, 57600, 19200, 230400});
	if (r.chance(15)) e.baud = r.pick({57600, 19200, 230400});
	if (r.chance(7)) e.alive = false;
	bool known = true;
	if (r.chance(8)) { e.banner = r.pick({"STN1110 v4.0", "OBDLink", "ELM32 v1", "LM327 v1.5"}); known = false; }
	if (r.chance(20)) e.refuse.insert(r.pick({"Z", "E0", "L0", "H1", "M0", "TP", "PC", "I"}));
	if (r.chance(5)) e.present = false;
	budget(100 * SEC, 2000000);
	long live = mem().live;
	struct diag_l0_device *d = mk(custom);
	int proto = r.pick({DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM});
	std::string ctx = who(e) + fmt(" custom speed %d proto %d%s%s%s%s", custom, proto, e.refuse.empty() ? "" : " refuses ", e.refuse.empty() ? "" : e.refuse.begin()->c_str(), e.alive ? "" : " dead", e.present ? "" : " absent");
	auto ref = [&](const char *x) { return e.refuse.count(x) > 0; };
	bool speed_ok = e.baud == (unsigned)custom || e.baud == 38400 || e.baud == 9600 || e.baud == 115200;
	bool want = e.alive && e.present && known && speed_ok && !ref("Z") && !ref("E0") && !ref("L0") && !ref("H1") && !(ref("M0") && !e.is323) &&
		!(e.is323 && (proto == DIAG_L1_J1850_PWM || proto == DIAG_L1_J1850_VPW)) && !(ref("TP") && !e.is323 && proto != DIAG_L1_ISO14230);
	for (int k = 0; k < 2; k++) {
		int rv = diag_l1_open(d, proto);
		std::string c = ctx + fmt(" rv=%d cmds %s", rv, tail(e.cmds).c_str());
		CHECK((rv == 0) == want, want ? "elm:open-refused" : "elm:open-accepted", "%s", c.c_str());
		CHECK(e.badcmd == 0, "elm:unknown-command", "%s", c.c_str());
		if (!rv) { ready(e, proto, c); CHECK(e.nopen == 1, "elm:open-count", "%s", c.c_str()); e.cmds.clear(); diag_l1_close(d); CHECK(e.interrupted || (!e.cmds.empty() && e.cmds.back() == "ATPC"), "elm:close-left-bus-open", "%s last %s", c.c_str(), tail(e.cmds).c_str()); }
		CHECK(e.nopen == 0, rv ? "elm:port-left-open" : "elm:close-left-port", "%s", c.c_str());
		CHECK(e.interrupted == 0 || !known || !e.refuse.empty(), "elm:interrupted", "%s", c.c_str());
		if (e.nopen) break;
		rep::cover(rv ? "opens-refused" : "opens"); rep::distinct(c); rep::sample(c);
		if (r.chance(30)) { e.echo_ = true; e.lf = true; e.hdr = false; }
	}
	diag_l0_del(d);
	CHECK(mem().live == live, "elm:leak", "%s blocks %ld", ctx.c_str(), mem().live - live);
}
enum Kind { K9141, KFASTP, KFASTF, KSLOW, KD2, KVPW, KPWM };
// whole sessions
static void session(Rng &r, long, bool faults) {
	Elm e(r.next()); dress(e, r);
	Kind k = (Kind)r.below(7);
	int l1 = k == KVPW ? DIAG_L1_J1850_VPW : k == KPWM ? DIAG_L1_J1850_PWM : (k == K9141 || k == KD2) ? DIAG_L1_ISO9141 : DIAG_L1_ISO14230;
	if (k == KVPW || k == KPWM) { if (e.is323) { e.is323 = false; e.banner = "ELM327 v1.2"; e.official = e.has_init = true; } }
	int l2 = k == KVPW || k == KPWM ? DIAG_L2_PROT_SAEJ1850 : k == K9141 ? DIAG_L2_PROT_ISO9141 : k == KD2 ? DIAG_L2_PROT_D2 : DIAG_L2_PROT_ISO14230;
	unsigned fl = k == KFASTP ? DIAG_L2_TYPE_FASTINIT : k == KFASTF ? (DIAG_L2_TYPE_FASTINIT | DIAG_L2_TYPE_FUNCADDR) : DIAG_L2_TYPE_SLOWINIT;
	uint8_t tgt = k == KVPW ? 0x6a : k == KPWM ? 0x6a : k == KSLOW ? 0x33 : r.chance(60) ? 0x33 : r.byte();
	uint8_t src = k == KD2 ? (r.chance(70) ? 0x13 : r.byte()) : (k == KVPW || k == KPWM || k == KSLOW) ? 0xf1 : r.chance(70) ? 0xf1 : r.byte();
	e.ecu_init = k == KPWM ? 1 : k == KVPW ? 2 : (k == K9141 || k == KD2) ? 3 : k == KSLOW ? 4 : 5;
	e.ecu_addr = k == KD2 ? oddpar(tgt) : tgt;
	e.kb1 = k == KD2 ? 0xd3 : 0x08; e.kb2 = k == KD2 ? 0xb0 : 0x08; e.kw_std = k != KD2;
	if (k == KD2) e.waitmore = r.range(10, 35) * MS;
	bool wrongkb = k == KD2 && r.chance(8);
	if (wrongkb) { if (r.chance(50)) e.kb1 ^= 1 << r.below(8); else e.kb2 ^= 1 << r.below(8); }
	int why = 0;
	if (r.chance(20)) { why = r.range(1, 4); if (why == 4 && e.is323) why = 1; if (why == 1) e.ecu_on = false; else if (why == 2) { e.ecu_addr ^= 1 << r.below(8); } else if (why == 3) e.refuse.insert(r.pick({"SH", "TP", "IIA", "KW0", "AL", "WM", "SR"})); else { e.ecu_init = e.ecu_init == 5 ? 4 : e.ecu_init == 4 ? 5 : e.ecu_init; } }
	bool obd = k != KD2;   // understands 01 00
	budget(600 * SEC, 5000000);
	long live = mem().live;
	struct diag_l0_device *d = mk(r.chance(50) ? 38400 : (int)e.baud);
	std::string ctx = who(e) + fmt(" kind %d target %02X tester %02X ecu %s %02X via %d%s%s", k, tgt, src, e.ecu_on ? "at" : "OFF", e.ecu_addr, e.ecu_init, e.refuse.empty() ? "" : " refuses ", e.refuse.empty() ? "" : e.refuse.begin()->c_str());
	std::vector<Line> plan; bool addressed = false; int nreq = 0; Bytes lastreq;
	e.ecu = [&](const Bytes &f) -> std::vector<Line> {
		nreq++;
		Bytes p(f.begin() + 3, f.end() - 1);
		if (plan.empty()) { // the 01 00 used to get a clone to initialise the bus
			if (!obd || p != Bytes({1, 0})) return {};
			Bytes a;
			if (k == KPWM) a = {0x41, 0x6b, 0x10}; else if (k == KVPW || k == K9141) a = {0x48, 0x6b, 0x10}; else a = {0x86, 0xf1, 0x10};
			for (uint8_t x : {0x41, 0, 0xbe, 0x1f, 0xb8, 0x10}) a.push_back(x);
			a.push_back(k == KPWM || k == KVPW ? crc1850(a) : sum8(a, a.size()));
			return {{30 * MS, a}};
		}
		addressed = true;
		return plan;
	};
	int rv = diag_l2_open(d, l1);
	if (rv) { CHECK(e.refuse.count("TP") && !e.is323 && l1 != DIAG_L1_ISO14230, "elm:open-refused", "%s rv %d cmds %s", ctx.c_str(), rv, tail(e.cmds).c_str()); diag_l0_del(d); CHECK(e.nopen == 0 && mem().live == live, "elm:leak", "%s", ctx.c_str()); return; }
	for (int life = 0; life < (k == KD2 ? 1 : 2); life++) {
		e.cmds.clear(); e.frames.clear(); plan.clear(); e.ninit = 0; e.interrupted = 0;
		struct diag_l2_conn *c = diag_l2_StartCommunications(d, l2, fl, 10400, tgt, src);
		std::string cc = ctx + fmt(" life %d: %s cmds %s", life, c ? "connected" : "refused", tail(e.cmds).c_str());
		bool jay = k == KVPW || k == KPWM;
		bool awake = jay || e.up;
		bool ideal = e.refuse.empty() && e.ecu_on && !why && !wrongkb && !(e.is323 && (k == KD2 || (k == K9141 && tgt != 0x33) || (k == KSLOW && tgt != 0x33)));
		if (k == KD2 && !e.has_init) ideal = false;         // only reachable with an OBD request: known limit
		CHECK(!c || awake, "elm:connected-to-nothing", "%s", cc.c_str());
		CHECK(c || !ideal, "elm:start-refused", "%s", cc.c_str());
		CHECK(!(c && wrongkb && e.has_init && e.has_kw && !e.refuse.count("KW0")), "elm:wrong-key-bytes-accepted", "%s", cc.c_str());
		CHECK(e.badcmd == 0, "elm:unknown-command", "%s", cc.c_str());
		if (!e.interrupted) rep::cover("starts-uninterrupted");
		rep::cover(c ? "connections" : "refused-connections");
		if (!c) { rep::distinct(cc); continue; }
		if (k == KD2 && !e.is323) CHECK(e.wm == Bytes({0x82, tgt, src, 0xa1}), "elm:wakeup-message", "%s wm %s", cc.c_str(), hex(e.wm).c_str());
		if (e.has_init && !jay) CHECK(e.ninit == 1, "elm:inits", "%s %d initialisations", cc.c_str(), e.ninit);
		int nr = r.range(1, 4); bool dead = false;
		for (int q = 0; q < nr && !dead; q++) {
			advance(r.range(0, 3000) * MS);
			size_t maxd = e.al && !jay && k != K9141 ? 8 : 7;
			Bytes p = r.bytes(r.range(1, maxd)); if (p[0] == 0x7f || !p[0]) p[0] = 1;
			plan.clear(); std::vector<Msg> want; std::string desc;
			int nl = k == KFASTP ? 1 : k == KD2 ? r.pick({1, 1, 2}) : r.pick({1, 1, 1, 2, 3});
			// a D2 request may come from another tester address than the connection's
			uint8_t qs = src;
			if (k == KD2 && r.chance(25)) { do qs = r.byte(); while (!qs); if (qs != src) rep::cover("other-tester-address"); }
			uint8_t es = k == KD2 || k == KFASTP ? tgt : r.chance(70) ? 0x10 : r.byte();
			ns_t t = r.range(2, 45) * MS;
			for (int i = 0; i < nl; i++) {
				size_t mx = e.al && (k == K9141) ? 7 : e.al && k == KD2 ? 62 : e.al ? 40 : 7;
				Bytes a = r.bytes(r.range(1, mx)), f;
				if (k == KD2) { a[0] = r.chance(80) ? p[0] | 0x40 : 0xb9; } else if (!jay && k != K9141) a[0] = p[0] ^ 0x40;
				if (a[0] == 0x7f) a[0] = 0x41;
				if (k == KPWM) f = {0x41, 0x6b, es}; else if (k == KVPW || k == K9141) f = {0x48, 0x6b, es}; else if (k == KD2) f = {(uint8_t)(0x80 + a.size() + 1), qs, es}; else f = {(uint8_t)(0x80 | a.size()), src, es};
				f.insert(f.end(), a.begin(), a.end());
				f.push_back(jay ? crc1850(f) : sum8(f, f.size()));
				plan.push_back({t, f}); t += r.range(2, 40) * MS; desc += "[" + hex(f) + "] ";
				Msg m; m.d = a; m.src = es; m.dest = f[1]; m.fmt = 0; m.type = 0; if (k != KD2 || !i) want.push_back(m);
			}
			e.trouble = faults && r.chance(60) ? (Trouble)r.range(1, 5) : T_NONE;
			if (e.trouble == T_TEXT) e.text = e.is323 ? r.pick({"BUS BUSY", "FB ERROR", "DATA ERROR", "?"}) : r.pick({"BUS BUSY", "FB ERROR", "DATA ERROR", "ACT ALERT", "BUFFER FULL", "BUS ERROR", "CAN ERROR", "LP ALERT", "LV RESET", "STOPPED", "UNABLE TO CONNECT", "ERR94", "?"});
			if (e.trouble == T_TAILERR) e.text = e.is323 ? "<DATA ERROR" : r.pick({"<DATA ERROR", "<RX ERROR"});
			e.frames.clear(); e.cmds.clear(); addressed = false; e.interrupted = 0;
			// 0 addresses: the connection's own
			TMsg m(p, k == KFASTP || k == KFASTF || k == KD2 ? tgt : 0, k == KD2 ? qs == src && r.chance(30) ? 0 : qs : k == KFASTP || k == KFASTF ? src : 0);
			if (k == KFASTF) m.m.fmt = DIAG_FMT_ISO_FUNCADDR;
			int err = 0; std::vector<Msg> got; ns_t t0 = now();
			bool viareq = r.chance(60);
			if (viareq) { struct diag_msg *x = diag_l2_request(c, &m.m, &err); got = chain(x); if (x) { err = 0; diag_freemsg(x); } else CHECK(err < 0, "elm:no-error-code", "%s", cc.c_str()); }
			else {
				err = diag_l2_send(c, &m.m);
				if (!err) { RecvSink sk; unsigned to = k == KD2 ? 1000 : r.range(100, 400); err = diag_l2_recv(c, to, sink_cb, &sk); for (auto &g : sk.got) got.insert(got.end(), g.begin(), g.end()); }
			}
			std::string rc = cc + fmt(" request [%s] answers %strouble %d %s -> err %d cmds %s frames", hex(p).c_str(), desc.c_str(), e.trouble, e.trouble ? e.text.c_str() : "", err, tail(e.cmds).c_str());
			for (auto &x : e.frames) rc += " [" + hex(x) + "]";
			rc += " got " + show(got) + fmt(" %llu ms", (unsigned long long)((now() - t0) / MS));
			Bytes h;
			if (k == KPWM) h = {0x61, 0x6a, 0xf1}; else if (k == KVPW) h = {0x68, 0x6a, 0xf1}; else if (k == K9141) h = {0x68, 0x6a, src};
			else if (k == KD2) h = {(uint8_t)(0x80 + p.size() + 1), tgt, qs}; else h = {(uint8_t)((k == KFASTP ? 0x80 : 0xc0) | p.size()), tgt, src};
			Bytes w = h; w.insert(w.end(), p.begin(), p.end()); w.push_back(jay ? crc1850(w) : sum8(w, w.size()));
			bool ref = !e.refuse.empty();
			CHECK(e.frames.size() <= 1 && (e.frames.empty() || e.frames[0] == w), "elm:wrong-frame-on-bus", "%s expected [%s]", rc.c_str(), hex(w).c_str());
			CHECK(e.frames.size() == 1 || ref || err < 0, "elm:request-lost", "%s", rc.c_str());
			// whatever is delivered was sent by the ECU, whole and in order
			CHECK(got.size() <= want.size(), "elm:delivered-too-much", "%s", rc.c_str());
			for (size_t i = 0; i < got.size() && i < want.size(); i++)
				CHECK(got[i].d == want[i].d && got[i].src == want[i].src && (k == K9141 || got[i].dest == want[i].dest), "elm:delivered-wrong", "%s expected %s", rc.c_str(), show(want).c_str());
			if (!e.ecu_on && e.trouble == T_NONE) e.trouble = T_NODATA;
			if (e.trouble == T_NONE && !ref) {
				CHECK(err == 0 && got.size() == want.size(), "elm:answer-lost", "%s expected %s", rc.c_str(), show(want).c_str());
				rep::cover("answers", got.size());
			} else if (e.trouble == T_NODATA && !ref) { CHECK(err == DIAG_ERR_TIMEOUT && got.empty(), "elm:no-data", "%s", rc.c_str()); rep::cover("no-data"); }
			else if (e.trouble != T_NONE) {
				if (err >= 0) CHECK(!got.empty(), "elm:success-without-answer", "%s", rc.c_str());
				if (e.trouble == T_TAILERR || e.trouble == T_GARBAGE) CHECK(got.size() < plan.size(), "elm:bad-line-delivered", "%s", rc.c_str());
				if (e.trouble == T_DEAD) { CHECK(got.empty() && err < 0, "elm:answer-invented", "%s", rc.c_str()); dead = true; }
				if (e.trouble == T_TEXT && got.empty()) CHECK(err < 0, "elm:error-ignored", "%s", rc.c_str());
				rep::cover(fmt("trouble-%d", e.trouble));
			}
			if (e.interrupted) rep::cover("interrupted-by-tester");
			rep::distinct(fmt("%d %s %d %zu %d", k, e.banner.c_str(), nl, p.size(), e.trouble) + hex(w)); rep::sample(rc);
			advance(600 * MS);   // let the adapter finish what it was printing
		}
		e.trouble = T_NONE; plan.clear();
		e.alive = true;
		diag_l2_StopCommunications(c);
		if (dead) break;
	}
	e.cmds.clear(); e.interrupted = 0;
	diag_l2_close(d);
	CHECK(e.interrupted || (!e.cmds.empty() && e.cmds.back() == "ATPC"), "elm:close-left-bus-open", "%s last %s", ctx.c_str(), tail(e.cmds).c_str());
	diag_l0_del(d);
	CHECK(e.nopen == 0 && mem().live == live, "elm:leak", "%s open %d blocks %ld", ctx.c_str(), e.nopen, mem().live - live);
}
static void talk(Rng &r, long i) { session(r, i, false); }
static void trouble(Rng &r, long i) { session(r, i, true); }
// an adapter that says anything at all
struct Mad : Tty {
	Rng r; int style; std::string in;
	Mad(uint64_t s) : Tty("/dev/ttyVT0"), r(s) { style = r.below(5); }
	int calm = 0;   // answers sensibly this many times first
	void on_tx(ns_t t, uint8_t b) override {
		in += (char)b;
		if (b != '\r') return;
		std::string c = in; in.clear();
		bool sane = calm-- > 0;
		ns_t a = t + (sane ? r.range(0, 50) : r.range(0, 900)) * MS;
		std::string s;
		static const char *bits[] = {"OK", "ELM327 v1.5", "ELM323 v2.0", "ELM327", "\r", "\r\n", ">", "NO DATA", "<DATA ERROR", "BUS INIT: ", "...", "ERROR", "1:D3 2:B0", "1:", "48 6B 10 41 00 ", "7", "FB ERROR", "?", " ", "4G", "0x12", "-1", "STOPPED", "84 F1 10 C1 ", "\xff", "DA"};
		bool init = c == "ATFI\r" || c == "ATSI\r" || c == "0100\r";
		if (sane || (c.substr(0, 2) == "AT" && r.chance(50))) {
			s = c == "ATZ\r" ? r.pick({"ELM327 v1.5\r\r>", "ELM327 v2.0\r\r>", "ELM323 v2.0\r\r>"}) : c == "ATKW\r" ? r.pick({"1:D3 2:B0\r\r>", "1:D3 2:\r>", "1:FFFFFFFFFF 2:123\r>"}) : init ? "BUS INIT: OK\r\r>" : "OK\r\r>";
		} else if (style == 0) for (int n = r.below(60); n; n--) s += (char)r.byte();
		else {
			int n = r.chance(10) ? r.range(100, 1500) : r.range(0, 12);
			Bytes f;
			while (n--) { if (r.chance(style == 1 ? 95 : style == 2 ? 60 : 20)) s += fmt("%02X ", r.byte()); else s += bits[r.below(sizeof bits / sizeof *bits)]; if (style == 1 && r.chance(5)) s += "\r"; }
			if (r.chance(80)) s += "\r>";
			if (style == 4) for (size_t i = 0; i < s.size(); i++) if (r.chance(3)) s[i] = (char)r.byte();
		}
		for (char x : s) { push(a, (uint8_t)x); a += sane || r.chance(97) ? byte_ns() : r.range(0, 300) * MS; }
	}
};
static void mad(Rng &r, long) {
	Mad e(r.next()); e.calm = r.pick({0, 3, 8, 12, 14, 14, 16, 20});
	budget(3000 * SEC, 20000000);
	long live = mem().live;
	struct diag_l0_device *d = mk(r.pick({38400, 9600}));
	int l1 = r.pick({DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM});
	int rv = diag_l2_open(d, l1);
	if (!rv) {
		rep::cover("opens");
		int l2 = l1 == DIAG_L1_ISO9141 ? r.pick({DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_D2}) : l1 == DIAG_L1_ISO14230 ? DIAG_L2_PROT_ISO14230 : DIAG_L2_PROT_SAEJ1850;
		unsigned fl = l1 == DIAG_L1_ISO14230 && r.chance(60) ? DIAG_L2_TYPE_FASTINIT : DIAG_L2_TYPE_SLOWINIT;
		struct diag_l2_conn *c = diag_l2_StartCommunications(d, l2, fl, 10400, 0x33, 0xf1);
		if (c) {
			rep::cover("connections");
			for (int i = r.range(1, 5); i; i--) {
				TMsg m(r.bytes(r.range(1, 8)), 0x33, 0xf1);
				int err = 0; struct diag_msg *x = diag_l2_request(c, &m.m, &err);
				if (x) { rep::cover("something-delivered"); diag_freemsg(x); } else { CHECK(err < 0, "elm:no-error-code", "style %d", e.style); rep::cover("errors-returned"); }
			}
			diag_l2_StopCommunications(c);
		}
		diag_l2_close(d);
	}
	diag_l0_del(d);
	CHECK(e.nopen == 0 && mem().live == live, "elm:leak", "hostile style %d rv %d open %d blocks %ld", e.style, rv, e.nopen, mem().live - live);
	rep::distinct(fmt("%lu %lu", e.txall.size(), e.nread));
}
std::vector<Mode> modes() { return {{"open", open_, stack_init}, {"talk", talk, stack_init}, {"trouble", trouble, stack_init}, {"mad", mad, stack_init}}; }
