// OBD-II (SAE J1979) scan tool monitors: whole application over a simulated vehicle.
#include "app.h"
#include "rlstub.h"
#include "j1979.h"
#include "car.h"
#include <regex>
#include <sstream>
using namespace vt;
using car::Bus; using car::Out; using car::Proto;
static const int MODES[] = {1, 2, 5, 6, 8, 9};
static int m1len(int pid) { switch (pid) { case 1: return 4; case 3: case 0x0c: case 0x10: case 0x1f: return 2; case 0x14: case 0x15: case 0x16: case 0x17: case 0x18: case 0x19: case 0x1a: case 0x1b: return 2; } return pid <= 0x1e ? 1 : 2; }
struct Ecu {
	uint8_t addr;
	std::map<int, std::set<int>> sup;          // mode -> supported ids (announced), incl. block ids > 0
	std::set<int> modes;                       // modes whose id 0 is answered
	std::map<int, Bytes> d1, d2;               // data bytes
	std::vector<std::pair<uint8_t, uint8_t>> dtc, pend;
	bool neg = false;                          // answers 7F to what it does not support
	std::map<int, std::vector<Bytes>> tests6;  // tid -> payloads after 46 tid
	std::map<int, Bytes> o2;                   // (tid<<8|sensor) -> value [min max]
	std::map<int, std::vector<Bytes>> info;    // infotype -> payloads after 49 it
	bool ffdtc = false; uint8_t ff[2] = {0, 0};
	unsigned gaps = 0;
	bool zerodtc = false;                      // answers mode 3/7 with an all-zero message when there is none
	bool no3 = false, no7 = false;                          // does not tell its stored codes
	bool clears = true, zero6 = false;         // zero6: its lists of tests do not tell their block
};
static Bytes bits(const std::set<int> &s, int base) {
	Bytes b(4);
	for (int i = 1; i <= 0x20; i++) if (s.count(base + i)) b[(i - 1) / 8] |= 0x80 >> ((i - 1) % 8);
	return b;
}
struct Car {
	std::vector<Ecu> e;
	Rng r; bool is14230 = false; bool shuffle = true;
	explicit Car(uint64_t s) : r(s) {}
	std::vector<Out> one(Ecu &c, const Bytes &q) {
		std::vector<Out> o;
		int mode = q[0], id = q.size() > 1 ? q[1] : -1;
		auto say = [&](Bytes b) { o.push_back({c.addr, b}); };
		auto no = [&]() { if (c.neg) { Bytes b = {0x7f}; b.push_back(mode); if (id >= 0) b.push_back(id); b.push_back(0x12); say(b); } };
		auto cat = [](Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; };
		auto dtcs = [&](std::vector<std::pair<uint8_t, uint8_t>> v, uint8_t rsp) {
			if (v.empty()) { if (c.zerodtc) say({rsp, 0, 0, 0, 0, 0, 0}); else no(); return; }
			// an empty place may be anywhere
			{ decltype(v) w; for (size_t i = 0; i < v.size(); i++) { if (c.gaps >> (i & 15) & 1) w.push_back({0, 0}); w.push_back(v[i]); } v = w; }
			for (size_t i = 0; i < v.size(); i += 3) { Bytes b = {rsp}; for (size_t k = i; k < i + 3; k++) { b.push_back(k < v.size() ? v[k].first : 0); b.push_back(k < v.size() ? v[k].second : 0); } say(b); }
		};
		uint8_t R = mode + 0x40, I = id;
		bool block = id >= 0 && id % 0x20 == 0, known = c.modes.count(mode) && (id == 0 || (block && c.sup[mode].count(id)));
		switch (mode) {
		case 1:
			if (block) { if (known) say(cat({R, I}, bits(c.sup[1], id))); else no(); }
			else if (c.sup[1].count(id)) say(cat({R, I}, c.d1[id])); else no();
			break;
		case 2:
			if (q.size() < 3) break;
			if (block) { if (known) say(cat({R, I, q[2]}, bits(c.sup[2], id))); else no(); }
			else if (id == 2 && c.modes.count(2)) say({R, I, q[2], c.ff[0], c.ff[1]});
			else if (c.sup[2].count(id) && (c.ff[0] | c.ff[1])) say(cat({R, I, q[2]}, c.d2[id])); else no();
			break;
		case 3: if (c.no3) no(); else dtcs(c.dtc, R); break;
		case 4: if (c.clears) { c.dtc.clear(); say({R}); } else no(); break;
		case 5:
			if (q.size() < 3) break;
			if (block) { if (known) say(cat({R, I, q[2]}, bits(c.sup[5], id))); else no(); }
			else if (c.o2.count(id << 8 | q[2])) say(cat({R, I, q[2]}, c.o2[id << 8 | q[2]])); else no();
			break;
		case 6:
			if (block) { if (known) say(cat({R, (uint8_t)(c.zero6 ? 0 : I), 0xff}, bits(c.sup[6], id))); else no(); }
			else if (c.tests6.count(id)) { for (auto &b : c.tests6[id]) say(cat({R, I}, b)); } else no();
			break;
		case 7: if (c.no7) no(); else dtcs(c.pend, R); break;
		case 8: if (block && known) say(cat({R, I}, bits(c.sup[8], id))); else no(); break;
		case 9:
			if (block) { if (known) say(cat({R, I, 1}, bits(c.sup[9], id))); else no(); }
			else if (c.info.count(id)) { for (auto &b : c.info[id]) say(cat({R, I}, b)); } else no();
			break;
		}
		return o;
	}
	std::vector<Out> answer(const Bytes &q) {
		std::vector<Out> o;
		std::vector<size_t> ord(e.size());
		for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
		if (shuffle) for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
		for (size_t i : ord) for (auto &x : one(e[i], q)) o.push_back(x);
		return o;
	}
	void fill(int n) {
		std::set<int> used;
		for (int i = 0; i < n; i++) {
			Ecu c;
			do c.addr = r.byte(); while (used.count(c.addr) || c.addr == 0xf1);
			used.insert(c.addr);
			c.neg = r.chance(25); c.zerodtc = r.chance(50); c.gaps = r.chance(25) ? r.below(65536) & r.below(65536) : 0; c.clears = r.chance(90); c.no3 = r.chance(12); c.no7 = r.chance(12); c.zero6 = r.chance(10);
			for (int m : MODES) {
				if (m != 1 && r.chance(40)) continue;
				c.modes.insert(m);
				int dens = r.pick({3, 10, 30, 60});
				for (int base = 0; base < 0x100; base += 0x20) {
					for (int k = 1; k < 0x20; k++) if (r.chance(dens)) c.sup[m].insert(base + k);
					if (base == 0xe0 || !r.chance(35)) break;
					c.sup[m].insert(base + 0x20);
				}
				if (r.chance(2)) for (int base = 0; base < 0xe0; base += 0x20) c.sup[m].insert(base + 0x20);
			}
			if (r.chance(80)) c.sup[1].insert(1); else c.sup[1].erase(1);
			if (r.chance(70)) c.sup[1].insert(0x13);
			for (int p : c.sup[1]) c.d1[p] = r.bytes(m1len(p));
			for (int p : c.sup[2]) c.d2[p] = r.bytes(m1len(p));
			c.sup[1].erase(2);
			auto dt = [&](std::vector<std::pair<uint8_t, uint8_t>> &v) { int k = r.chance(40) ? 0 : r.range(1, 8); while (k--) { uint8_t a = r.byte(), b = r.byte(); if (!a && !b) b = 1; if (r.chance(10)) a = 0, b |= 1; if (r.chance(10)) b = 0, a |= 1; v.push_back({a, b}); } };
			dt(c.dtc); dt(c.pend);
			if (c.sup[1].count(0x1c) && r.chance(75)) c.d1[0x1c][0] = r.range(0, 8);
			if (c.sup[1].count(1)) c.d1[1][0] = (c.dtc.size() & 0x7f) | (r.chance(50) ? 0x80 : 0);
			if (c.modes.count(2) && r.chance(60)) { c.ff[0] = r.chance(30) ? 0 : r.byte(); c.ff[1] = r.chance(20) ? 0 : r.byte(); }
			for (int t : c.sup[6]) if (t % 0x20) { int k = r.range(1, 3); for (int j = 0; j < k; j++) { Bytes b = r.bytes(5); if (r.chance(40)) { b[3] = b[1]; b[4] = b[2]; if (r.chance(60)) { int d = b[1] << 8 | b[2]; d += r.range(-2, 2); b[3] = d >> 8; b[4] = d; } } c.tests6[t].push_back(b); } }
			for (int t : c.sup[5]) if (t % 0x20) for (int s = 0; s < 8; s++) if (r.chance(50)) { c.o2[t << 8 | (1 << s)] = r.bytes(t <= 4 ? 1 : 3); }
			for (int t : c.sup[9]) if (t % 0x20) {
				int k = t == 2 ? 5 : t & 1 ? 1 : r.range(1, t == 6 ? 3 : 8);
				for (int j = 0; j < k; j++) { Bytes b = {(uint8_t)(t & 1 ? k : j + 1)}; if (!(t & 1)) for (int z = 0; z < 4; z++) b.push_back(t == 2 && j == 0 && z < 3 ? 0 : t == 6 ? r.byte() : r.pick({'A', 'Z', '1', '9', 'K', '-'})); c.info[t].push_back(b); }
			}
			e.push_back(c);
		}
	}
};
// ---- reference interpretation of what the tool must have printed
static std::string dtcname(uint8_t a, uint8_t b) { return fmt("%c%d%X%02X", "PCBU"[a >> 6], (a >> 4) & 3, a & 15, b); }
static std::vector<std::string> dtctokens(const std::string &s) {
	std::vector<std::string> v;
	static const std::regex re("\\b([PCBU][0-9A-F]{4})\\b");
	for (std::sregex_iterator i(s.begin(), s.end(), re), z; i != z; ++i) v.push_back((*i)[1]);
	return v;
}
static std::string join(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += x + " "; return s; }
struct Heard { std::vector<Bytes> msgs; };
// everything every ECU said, per request
struct Log { Bytes q; std::vector<Out> a; };

static int g_pid;    // the same in both runs of a comparison
static void setup() { app::init(); g_pid = (int)getpid(); }
static Proto rnd_proto(Rng &r) { return r.pick({car::P9141, car::P14230F, car::P14230S, car::PVPW, car::PPWM}); }
static void cleanup(FakeL0 &f) {
	app::cmd("diag disconnect");
	CHECK(global_l2_conn == nullptr && global_l3_conn == nullptr && global_state == STATE_IDLE && f.isopen == 0, "obd:disconnect-incomplete", "state %d, device open %d", global_state, f.isopen);
	global_dl0d = nullptr;
}
static std::string section(const std::string &s, const std::string &from, const std::string &to) {
	size_t a = s.find(from);
	if (a == s.npos) return "";
	a += from.size();
	size_t b = to.empty() ? s.npos : s.find(to, a);
	return s.substr(a, b == s.npos ? s.npos : b - a);
}
static void scan(Rng &r, long) {
	Proto p = rnd_proto(r);
	Bus bus(p, r);
	Car c(r.next());
	int n = r.chance(50) ? 1 : r.chance(70) ? r.range(2, 4) : r.chance(80) ? r.range(5, 8) : r.range(9, 10);
	c.fill(n);
	bool too_many = n > 8;
	if (too_many) c.shuffle = false;
	std::vector<Log> log;
	bus.answer = [&](const Bytes &q) { auto a = c.answer(q); log.push_back({q, a}); return a; };
	ns_t g0 = bus.j1850 ? r.range(1000, 300000 / (8 * n + 4) - 600) * US : (p == car::P9141 ? r.range(26, 45) : r.range(2, n > 5 ? 20 : 35)) * MS;
	bus.gap = [&](int) { return g0; };
	global_dl0d = &bus.f.dev;
	app::stdin_reset();
	long live0 = mem().live;
	budget(200000 * SEC, 300000000);
	// the connection is the scan's own, or one made by hand before - possibly after a scan of another car
	int way = r.chance(75) ? 0 : r.chance(50) ? 1 : 2;
	Car c0(r.next());
	std::string ctx = fmt("%s, %d ECUs%s", car::pname[p], n, way == 0 ? "" : way == 1 ? ", connected by hand" : ", connected by hand after a scan of another car");
	if (way == 2) {
		c0.fill(r.range(1, 4));
		auto mine = bus.answer;
		bus.answer = [&](const Bytes &q) { return c0.answer(q); };
		app::cmd("scan"); app::cmd("diag disconnect");
		bus.answer = mine;
		rep::cover("scans-after-another-car");
	}
	if (way) {
		static const char *l1[] = {"ISO9141", "ISO14230", "ISO14230", "J1850-VPW", "J1850-PWM"}, *l2[] = {"ISO9141", "ISO14230", "ISO14230", "SAEJ1850", "SAEJ1850"}, *in[] = {"5BAUD", "FAST", "5BAUD", "5BAUD", "5BAUD"};
		app::cmd(std::string("set l1protocol ") + l1[p]); app::cmd(std::string("set l2protocol ") + l2[p]); app::cmd(std::string("set initmode ") + in[p]);
		app::cmd(bus.j1850 ? "set destaddr 0x6a" : "set destaddr 0x33");
		std::string k = app::cmd("diag connect");
		CHECK(app::has(k, "Connection to ECU established!"), "obd:connect-by-hand", "%s: %s", ctx.c_str(), k.c_str());
		auto refused = [&](const char *why) {
			size_t q = bus.reqs.size();
			std::string x = app::cmd("scan");
			CHECK(app::g_rv == CMD_FAILED && app::has(x, why) && !app::has(x, "Connection to ECU established") && bus.reqs.size() == q, "obd:scan-not-refused", "%s: rv %d %s", ctx.c_str(), app::g_rv, x.c_str());
			rep::cover("scans-refused");
		};
		if (r.chance(30)) refused("Already connected, please disconnect first");
		if ((p == car::P14230F || p == car::P14230S) && r.chance(30)) {
			app::cmd("diag addl3 ISO14230");
			refused("L3 connection must be SAEJ1979");
			app::cmd("diag reml3");
		}
		k = app::cmd("diag addl3 SAEJ1979");
		app::cmd("set destaddr 0x33");
	}
	std::string o = app::cmd("scan");
	if (way) {
		rep::cover("scans-reusing-connection");
		CHECK(app::has(o, "Re-using active L3 connection.") && app::has(o, "Connection to ECU established") && app::g_rv == CMD_OK, "obd:reuse", "%s: %s", ctx.c_str(), o.substr(0, 1500).c_str());
	} else
	CHECK(app::has(o, std::string(car::pname[p]) + " Connected.") && app::has(o, "Connection to ECU established") && app::g_rv == CMD_OK, "obd:connect", "%s: %s", ctx.c_str(), o.substr(0, 1500).c_str());
	if (global_state != STATE_SCANDONE) { cleanup(bus.f); return; }
	CHECK(bus.badreq == 0, "obd:bad-request-frame", "%s: %lu malformed frames", ctx.c_str(), bus.badreq);
	// ECUs in order of their first answer after connecting
	std::vector<int> order; std::map<int, int> ix;
	bool first = true;
	for (auto &l : log) {
		if (first && l.q == Bytes{1, 0}) { first = false; continue; }   // the connection check
		for (auto &a : l.a) if (!ix.count(a.addr)) { ix[a.addr] = order.size(); order.push_back(a.addr); }
	}
	if (too_many) order.resize(std::min<size_t>(order.size(), 8));
	auto byaddr = [&](int a) -> Ecu & { for (auto &e : c.e) if (e.addr == a) return e; abort(); };
	// ---- ecus
	std::string t = app::cmd("ecus"), want = fmt("%zu ECUs found\n", order.size());
	for (size_t i = 0; i < order.size(); i++) want += fmt("ECU %zu: Address 0x%02X \n", i, order[i]);
	CHECK(t == want, "obd:ecu-list", "%s\ngot %s\nwanted %s", ctx.c_str(), t.c_str(), want.c_str());
	// ---- pids
	t = app::cmd("pids");
	want = "";
	bool anyneg = false;
	for (auto &e : c.e) anyneg |= e.neg;
	for (size_t i = 0; i < order.size(); i++) {
		Ecu &e = byaddr(order[i]);
		want += fmt("ECU %zu address 0x%02X:", i, order[i]);
		for (int m : MODES) {
			want += fmt(" mode %d:", m);
			if (!e.modes.count(m)) continue;
			want += " 00";
			for (int k : e.sup[m]) if (k <= 0x60) want += fmt(" %02X", k);
		}
		want += "\n";
	}
	{   // normalise the listing
		std::string g;
		std::istringstream is(t); std::string w;
		static const std::regex eh("ECU ([0-9]+) address 0x([0-9A-F]{2}): Supported PIDs:"), mh(" Mode ([0-9]+):"), pe("0x([0-9A-F]+)");
		while (std::getline(is, w)) {
			std::smatch m;
			if (std::regex_search(w, m, eh)) { if (!g.empty()) g += "\n"; g += "ECU " + m[1].str() + " address 0x" + m[2].str() + ":"; continue; }
			if (std::regex_search(w, m, mh)) g += " mode " + m[1].str() + ":";
			for (std::sregex_iterator i(w.begin(), w.end(), pe), z; i != z; ++i) g += " " + (*i)[1].str();
		}
		if (!g.empty()) g += "\n";
		CHECK(g == want, "obd:supported-pids", "%s neg %d\ngot\n%s\nwanted\n%s", ctx.c_str(), anyneg, g.c_str(), want.c_str());
		rep::cover("pid-lists");
	}
	// ---- current data / freeze frame dump: exactly what was asked and answered
	t = app::cmd("dumpdata");
	want = "Current Data\n";
	std::map<int, std::map<int, Bytes>> got1, got2;
	for (auto &l : log) if (l.q.size() > 1 && (l.q[0] == 1 || l.q[0] == 2)) {
		std::set<int> seen;
		for (auto &a : l.a) if (!seen.count(a.addr)) { seen.insert(a.addr); if (a.d[0] == l.q[0] + 0x40) (l.q[0] == 1 ? got1 : got2)[a.addr][l.q[1]] = a.d; }
	}
	for (auto *gm : {&got1, &got2}) {
		if (gm == &got2) want += "Freezeframe Data\n";
		for (int a : order) {
			want += fmt("ECU 0x%02X:\n", a);
			for (auto &k : (*gm)[a]) { want += fmt("0x%02X: ", k.first); for (uint8_t b : k.second) want += fmt("0x%02X ", b); want += "\n"; }
		}
	}
	std::string norm;
	for (auto &l : app::lines(t)) if (!app::has(l, "Failed")) norm += l + "\n";
	auto sq = [](std::string s) { std::string x; for (char ch : s) if (ch != ' ') x += ch; return x; };
	CHECK(sq(norm) == sq(want), "obd:dumpdata", "%s\ngot\n%s\nwanted\n%s", ctx.c_str(), norm.c_str(), want.c_str());
	rep::cover("dumps-checked");
	// ---- every announced PID was asked for
	std::set<int> asked, should;
	for (auto &l : log) if (l.q.size() == 2 && l.q[0] == 1) asked.insert(l.q[1]);
	for (int a : order) for (int k : byaddr(a).sup[1]) should.insert(k);
	for (int k : should) CHECK(asked.count(k), "obd:pid-not-read", "%s: PID %02X supported but never requested", ctx.c_str(), k);
	for (int k : asked) CHECK(k == 0 || k == 0x13 || should.count(k), "obd:unsupported-pid-read", "%s: PID %02X requested though no ECU supports it", ctx.c_str(), k);
	bool ffany = false;
	for (int a : order) { Ecu &e = byaddr(a); if (e.modes.count(2) && (e.ff[0] | e.ff[1])) {
		ffany = true;
		for (int k : e.sup[2]) if (k > 2) { bool f = false; for (auto &l : log) f |= l.q.size() == 3 && l.q[0] == 2 && l.q[1] == k; CHECK(f, "obd:freezeframe-not-read", "%s: ECU %02X freeze frame PID %02X (caused by %02X%02X) not requested", ctx.c_str(), a, k, e.ff[0], e.ff[1]); }
		size_t i = std::find(order.begin(), order.end(), a) - order.begin();
		CHECK(app::has(o, fmt("ECU %zu Freezeframe data exists, caused by DTC %s", i, dtcname(e.ff[0], e.ff[1]).c_str())), "obd:freezeframe-cause", "%s: ECU %zu freeze frame cause %02X%02X not reported: %s", ctx.c_str(), i, e.ff[0], e.ff[1], section(o, "Freezeframe", "\n").c_str());
		rep::cover("freeze-frames");
	} else { size_t i = std::find(order.begin(), order.end(), a) - order.begin(); CHECK(!app::has(o, fmt("ECU %zu Freezeframe data exists", i)), "obd:phantom-freezeframe", "%s: ECU %zu", ctx.c_str(), i); } }
	// ---- MIL, number of codes, stored codes
	int num = 0; bool mil = false, ready = false, has1 = false;
	std::vector<std::string> codes, pend;
	for (int a : order) {
		Ecu &e = byaddr(a);
		if (e.sup[1].count(1)) { has1 = true; auto &d = e.d1[1]; num += d[0] & 0x7f; mil |= d[0] & 0x80; ready |= (d[1] & 0xf0) || d[3]; }
		if (!e.no3) for (auto &x : e.dtc) codes.push_back(dtcname(x.first, x.second));
		if (!e.no7) for (auto &x : e.pend) pend.push_back(dtcname(x.first, x.second));
	}
	if (has1) {
		CHECK(app::has(o, fmt("MIL light %s, %d stored DTC", mil ? "ON" : "OFF", num)), "obd:mil-or-count", "%s: wanted MIL %d, %d DTCs; got %s", ctx.c_str(), mil, num, section(o, "MIL", "\n").c_str());
		CHECK(app::has(o, "Not all readiness tests have completed") == ready, "obd:readiness-summary", "%s: incomplete %d", ctx.c_str(), ready);
		rep::cover("mil-checked");
		bool told = false; for (auto &e : c.e) told |= !e.no3 && (!e.dtc.empty() || e.zerodtc);
		CHECK(app::has(o, "ECU would not return DTCs") == (num && !told), "obd:dtcs-refused", "%s: %d DTCs stored, %s", ctx.c_str(), num, told ? "told" : "not told by any ECU");
		if (num && !told) rep::cover("dtcs-refused");
		if (num) { auto g = dtctokens(section(o, "(Emission DTCs)...\n", "Requesting")); for (auto &e : c.e) if (e.gaps && !e.no3 && !e.dtc.empty()) rep::cover("codes-after-empty-places"); CHECK(g == codes, "obd:stored-dtcs", "%s: got %s wanted %s", ctx.c_str(), join(g).c_str(), join(codes).c_str()); rep::cover("dtc-lists"); }
	} else CHECK(app::has(o, "do not support DTC#/test query"), "obd:no-dtc-support", "%s", ctx.c_str());
	auto told7 = [&](const std::string &txt, size_t from) { // on this bus a refusal is an answer: it isn't the same as having nothing
		bool yes = false, no = false;
		for (size_t i = from; i < log.size(); i++) if (log[i].q == Bytes{7}) { yes = no = false; for (auto &a : log[i].a) if (!ix.count(a.addr) || ix[a.addr] < 8) { yes |= a.d[0] == 0x47; no |= a.d[0] == 0x7f; } }
		if (p == car::P14230F || p == car::P14230S) if (no && !yes) { CHECK(app::has(txt, "Failed to get test results for continuously monitored"), "obd:pending-refused", "%s: refused but %s", ctx.c_str(), section(txt, "Mode 7", "Non-").c_str()); rep::cover("pending-refused"); }
	};
	told7(o, 0);
	{ auto g = dtctokens(section(o, "(Current cycle emission DTCs)...\n", "Non-continuously")); CHECK(g == pend, "obd:pending-dtcs", "%s: got %s wanted %s", ctx.c_str(), join(g).c_str(), join(pend).c_str()); rep::cover("pending-lists"); }
	// ---- which standard each ECU says it meets
	{
		static const char *std_[] = {"", "OBD II (California ARB)", "OBD (Federal EPA)", "OBD and OBD II", "OBD I", "not OBD", "EOBD (Europe)"};
		std::vector<std::string> w, g;
		for (size_t i = 0; i < order.size(); i++) { Ecu &e = byaddr(order[i]); if (e.sup[1].count(0x1c)) { int v = e.d1[0x1c][0]; w.push_back(fmt("ECU %zu is %s compliant", i, v >= 1 && v <= 6 ? std_[v] : fmt("unknown (%d)", v).c_str())); } }
		for (auto &l : app::lines(o)) if (app::has(l, " compliant")) g.push_back(l.substr(l.find("ECU ") == std::string::npos ? 0 : l.find("ECU ")));
		CHECK(g == w, "obd:compliance", "%s: got %s wanted %s", ctx.c_str(), join(g).c_str(), join(w).c_str());
		if (!w.empty()) rep::cover("compliance-shown", w.size());
	}
	// ---- oxygen sensors
	int ns = 0; uint8_t sens = 0; bool has13 = false, mon = false;
	for (int a : order) { Ecu &e = byaddr(a); if (e.sup[1].count(0x13)) { has13 = true; ns += __builtin_popcount(e.d1[0x13][0]); sens |= e.d1[0x13][0]; } if (e.sup[1].count(1) && (e.d1[1][2] & 0x20)) mon = true; }
	if (has13) CHECK(app::has(o, fmt("%d Oxygen (O2) sensors in vehicle", ns)), "obd:o2-count", "%s wanted %d got %s", ctx.c_str(), ns, section(o, "(O2 sensors location)...\n", "\n").c_str());
	bool any5 = false;
	for (int a : order) any5 |= byaddr(a).modes.count(5) > 0;
	CHECK(app::has(o, "Oxygen (O2) sensor monitoring not supported\n") == !mon, "obd:o2-monitoring", "%s: monitoring %d", ctx.c_str(), mon);
	CHECK(app::has(o, "Oxygen (O2) sensor tests not supported\n") == (mon && !any5), "obd:o2-tests", "%s: monitoring %d, mode 5 %d", ctx.c_str(), mon, any5);
	if (mon && any5) {
		std::set<int> m5;
		for (int a : order) for (int k : byaddr(a).sup[5]) m5.insert(k);
		for (int s = 0; s < 8; s++) for (int tid = 1; tid < 0x20; tid++) {
			bool w = (sens >> s & 1) && m5.count(tid), g = false;
			for (auto &l : log) g |= l.q.size() == 3 && l.q[0] == 5 && l.q[1] == tid && l.q[2] == (1 << s);
			CHECK(w == g, "obd:o2-tests-asked", "%s: sensor %d test %02X wanted %d asked %d", ctx.c_str(), s, tid, w, g);
		}
		rep::cover("o2-test-runs");
	}
	// ---- O2 test results, ECU by ECU, in the order they came
	{
		std::vector<std::string> w;
		for (auto &l : log) if (l.q.size() == 3 && l.q[0] == 5 && l.q[1] % 0x20) for (auto &a : l.a) if (a.d[0] == 0x45 && ix[a.addr] < 8) {
			const char *nm[] = {"", "Rich to lean sensor threshold voltage", "Lean to rich sensor threshold voltage", "Low sensor voltage for switch time calc.", "High sensor voltage for switch time calc.", "Rich to lean sensor switch time", "Lean to rich sensor switch time", "Minimum sensor voltage for test cycle", "Maximum sensor voltage for test cycle", "Time between sensor transitions"};
			int td = a.d[1]; double v = a.d[3];
			std::string s = fmt("%s: ", td <= 9 ? nm[td] : fmt("Test %d", td).c_str());
			if (td <= 4) s += fmt("%f", v / 200);
			else {
				double mn = a.d[4], mx = a.d[5]; const char *ok = v < mn || v > mx ? "FAILED" : "Passed";
				if (td == 5 || td == 6 || td == 9) s += fmt("actual %2.2f min %2.2f max %2.2f %s", v / 250, mn / 250, mx / 250, ok);
				else if (td <= 8) s += fmt("%f %f %f %s", v / 200, mn / 200, mx / 200, ok);
				else s += fmt("actual 0x%X min 0x%X max 0x%X %s", (int)v, (int)mn, (int)mx, ok);
			}
			w.push_back(s);
		}
		std::vector<std::string> g;
		static const std::regex re("^(ECU [0-9]+ )?((Rich|Lean|Low|High|Minimum|Maximum|Time|Test [0-9]+:).*)$");
		std::smatch m;
		for (auto &l : app::lines(section(o, "sensors in vehicle", "(Current cycle"))) if (std::regex_match(l, m, re)) g.push_back(m[2]);
		CHECK(g == w, "obd:o2-results", "%s:\ngot %s\nwanted %s", ctx.c_str(), join(g).c_str(), join(w).c_str());
		rep::cover("o2-results", w.size());
	}
	// ---- non-continuous monitors: scan shows failures only, test ncms shows all
	auto ncms = [&](const std::vector<Log> &lg, size_t from, bool all, int hi = 256) {
		std::vector<std::string> w;
		for (size_t i = from; i < lg.size(); i++) { auto &l = lg[i]; if (l.q.size() == 2 && l.q[0] == 6 && l.q[1] % 0x20) for (auto &a : l.a) if (a.d[0] == 0x46 && ix[a.addr] < 8) {
			int v = a.d[3] * hi + a.d[4], lim = a.d[5] * hi + a.d[6]; bool mn = a.d[2] & 0x80, bad = mn ? v < lim : v > lim;
			if (bad || all) w.push_back(fmt("Test 0x%X Component 0x%X %s %s val %d Current Val %d", a.d[1], a.d[2] & 0x7f, bad ? "FAILED" : "Passed", mn ? "Min" : "Max", lim, v));
			rep::cover(bad ? "ncms-failed" : "ncms-passed");
		} }
		return w;
	};
	auto ncmslines = [&](const std::string &s) { std::vector<std::string> g; for (auto &l : app::lines(s)) if (app::has(l, " Component ")) g.push_back(l); return g; };
	// (one listed finding: the values are put together with 255 instead of 256; anything else is another failure)
	auto ncmscheck = [&](const std::string &key, const std::string &txt, size_t from, bool all) {
		auto w = ncms(log, from, all), w255 = ncms(log, from, all, 255), g = ncmslines(txt);
		CHECK(g == w || g != w255, "obd:ncms-high-byte-times-255", "%s:\ngot %s\nwanted %s", ctx.c_str(), join(g).c_str(), join(w).c_str());
		CHECK(g == w || g == w255, key, "%s:\ngot %s\nwanted %s", ctx.c_str(), join(g).c_str(), join(w).c_str());
	};
	ncmscheck("obd:ncms-failures", o, 0, false);
	std::set<int> m6a, m6w;
	for (auto &l : log) if (l.q.size() == 2 && l.q[0] == 6 && l.q[1] % 0x20) m6a.insert(l.q[1]);
	for (int a : order) for (int k : byaddr(a).sup[6]) if (k % 0x20) m6w.insert(k);
	CHECK(m6a == m6w, "obd:ncms-tests-asked", "%s: %zu tests supported, %zu asked", ctx.c_str(), m6w.size(), m6a.size());
	if (r.chance(50)) { size_t k = log.size(); t = app::cmd("test ncms"); ncmscheck("obd:ncms-all", t, k, true); }
	// ---- readiness detail
	if (r.chance(50) && has1) {
		t = app::cmd("test readiness");
		static const char *nm[] = {"Misfire Monitoring", "Fuel System Monitoring", "Comprehensive Component Monitoring", nullptr, "Catalyst Monitoring", "Heated Catalyst Monitoring", "Evaporative System Monitoring", "Secondary Air System Monitoring", "A/C System Refrigerant Monitoring", "Oxygen Sensor Monitoring", "Oxygen Sensor Heater Monitor", "EGR System Monitoring"};
		std::string w; std::set<int> ic, it;
		for (size_t i = 0; i < order.size(); i++) {
			Ecu &e = byaddr(order[i]);
			if (!e.sup[1].count(1)) continue;
			auto &d = e.d1[1];
			for (int k = 0; k < 12; k++) if (nm[k]) {
				bool s = k < 4 ? d[1] >> k & 1 : d[2] >> (k - 4) & 1, inc = k < 4 ? d[1] >> (k + 4) & 1 : d[3] >> (k - 4) & 1;
				if (s && inc) (k < 4 ? ic : it).insert(k);
				if (order.size() > 1) w += fmt("ECU %zu: ", i);
				w += fmt("%s: %s\n", nm[k], s ? inc ? "NOT Complete" : "Complete" : "Not Supported");
			}
		}
		auto cnt = [](size_t k) { return k ? fmt("%zu", k) : std::string("None"); };
		w += "Number of incomplete continuous monitors: " + cnt(ic.size()) + "\nNumber of incomplete non-continuous monitors: " + cnt(it.size()) + "\nTotal number of incomplete monitors: " + cnt(ic.size() + it.size()) + "\n";
		std::string tt;
		for (auto &l : app::lines(t)) if (!app::has(l, "ERROR: ")) tt += l + "\n";
		t = tt;
		CHECK(t == w, "obd:readiness", "%s:\ngot\n%s\nwanted\n%s", ctx.c_str(), t.c_str(), w.c_str());
		rep::cover("readiness-reports");
	}
	// ---- vehicle information (one ECU answering)
	if (r.chance(60)) {
		t = app::cmd("test rvi");
		bool s2 = false, s4 = false, s6 = false;
		for (int a : order) { auto &s = byaddr(a).sup[9]; s2 |= s.count(2); s4 |= s.count(4); s6 |= s.count(6); }
		CHECK(app::has(t, "doesn't support VIN") == !s2 && app::has(t, "doesn't support Calibration") == !s4 && app::has(t, "doesn't support CVN") == !s6, "obd:rvi-support", "%s: %s", ctx.c_str(), t.c_str());
		auto rv = [&](int it, bool sup, const char *lab, bool hexd, int skip) {
			if (!sup) return;
			bool match = false; std::string wants;
			for (int a : order) { Ecu &e = byaddr(a); if (!e.info.count(it)) continue;
				std::string w; for (auto &b : e.info[it]) for (size_t k = 1; k < 5; k++) w += hexd ? fmt("0x%02X ", b[k]) : std::string(1, (char)b[k]);
				w = w.substr(skip); match |= app::has(t, lab + w); wants += w + " | "; }
			CHECK(match, "obd:rvi", "%s infotype %d: got %s; wanted %s", ctx.c_str(), it, t.c_str(), wants.c_str());
			rep::cover(fmt("rvi-%d", it));
		};
		rv(2, s2, "VIN: ", false, 3); rv(4, s4, "Calibration ID: ", false, 0); rv(6, s6, "CVN: ", true, 0);
	}
	// ---- codes of the current cycle, asked for again: they may have come and gone
	if (r.chance(50)) {
		pend.clear(); size_t k = log.size();
		for (int a : order) { Ecu &e = byaddr(a); if (r.chance(60)) { if (!e.pend.empty() && r.chance(50)) e.pend.pop_back(); else if (e.pend.size() < 3) e.pend.push_back({(uint8_t)r.byte(), (uint8_t)r.range(1, 255)}); } if (!e.no7) for (auto &x : e.pend) pend.push_back(dtcname(x.first, x.second)); }
		t = app::cmd("test cms"); told7(t, k);
		auto g = dtctokens(t);
		CHECK(g == pend, "obd:pending-dtcs", "%s: test cms: got %s wanted %s", ctx.c_str(), join(g).c_str(), join(pend).c_str());
		rep::cover("pending-again");
	}
	// ---- clear
	if (r.chance(50)) {
		bool yes = r.chance(70); size_t k = log.size();
		bool eof = !yes && r.chance(25); app::stdin_reset();
		if (eof) app::stdin_eof();
		else app::stdin_feed(yes ? r.pick({"y\n", "yes\n", "Y\n"}) : r.pick({"n\n", "\n", "no\n", "yeah\n"}));
		bool cl = false, anyp = false;
		for (int a : order) { (void)a; }
		t = app::cmd("cleardtc");
		for (size_t i = k; i < log.size(); i++) if (log[i].q == Bytes{4}) { cl = true; for (auto &a : log[i].a) anyp |= a.d[0] == 0x44 && (!too_many || ix[a.addr] < 8); }
		CHECK(cl == yes, "obd:clear-consent", "%s: answer %d, clear request sent %d", ctx.c_str(), yes, cl);
		CHECK(yes ? app::has(t, anyp ? "Done" : "Failed") : eof ? !app::has(t, "Done") : app::has(t, "Not done"), "obd:clear-report", "%s: an ECU confirmed %d: %s", ctx.c_str(), anyp, t.c_str());
		rep::cover(yes ? anyp ? "cleared" : "clear-failed" : eof ? "clear-no-answer" : "clear-declined"); if (eof) app::stdin_reset();
	}
	// ---- an idle connection is kept alive
	if (r.chance(30)) {
		ns_t t0 = now(); size_t k = bus.f.tx.size();
		idle(r.range(8, 30) * SEC);
		ns_t last = t0, t1 = now(); bool ok = true;
		for (size_t i = k; i < bus.f.tx.size(); i++) { ok &= bus.f.tx[i].t - last < 5 * SEC; last = bus.f.tx[i].t; }
		ok &= t1 - last < 5 * SEC;
		CHECK(ok, "obd:keepalive", "%s: more than 5 s of silence in an idle session", ctx.c_str());
		rep::cover("idle-periods");
	}
	cleanup(bus.f);
	for (auto &e : ecu_info) if (e.rxmsg) { diag_freemsg(e.rxmsg); e.rxmsg = nullptr; }
	CHECK(mem().live <= live0, "obd:leak", "%s: %ld blocks leaked", ctx.c_str(), mem().live - live0);
	rep::cover(fmt("scans-%s", car::pname[p]));
	rep::cover(n > 1 ? "multi-ecu-scans" : "single-ecu-scans");
	rep::distinct(ctx + o);
	rep::sample(ctx + fmt(": %zu requests, %zu stored DTCs, MIL %d, freeze frame %d", log.size(), codes.size(), mil, ffany));
}

// ---- monitor: what J1979 says each value means (independent of the tool's own table)
static std::string f1(double v, int w, int pr) { return fmt("%*.*f", w, pr, v); }
static std::string meaning(int pid, Bytes d, bool eng) {
	d.resize(8);
	int A = d[0], W = d[0] * 256 + d[1];
	switch (pid) {
	case 0x03: return A == 1 ? "Open" : A == 2 ? "Closed" : A == 4 ? "Open-Driving" : A == 8 ? "Open-Fault" : A == 16 ? "Closed-Fault" : "Open(rsvd)";
	case 0x04: case 0x11: return f1(A * 100.0 / 255, 5, 1) + "%";
	case 0x05: case 0x0f: return eng ? f1((A - 40) * 9 / 5.0 + 32, 3, 0) + "F" : f1(A - 40, 3, 0) + "C";
	case 0x06: case 0x07: case 0x08: case 0x09: return f1((A - 128) * 100.0 / 128, 5, 1) + "%";
	case 0x0a: return eng ? f1(A * 3 * 0.14503774, 4, 1) + "psig" : f1(A * 3, 3, 0) + "kPaG";
	case 0x0b: return eng ? f1(A * 0.29529983, 4, 1) + "inHg" : f1(A, 3, 0) + "kPaA";
	case 0x0c: return f1(W / 4.0, 5, 0) + "RPM";
	case 0x0d: return eng ? f1(A * 0.62137119, 3, 0) + "mph" : f1(A, 3, 0) + "km/h";
	case 0x0e: return f1((A - 128) / 2.0, 4, 1) + " deg";
	case 0x10: return eng ? f1(W / 100.0 * 0.13227736, 6, 1) + "lb/min" : f1(W / 100.0, 6, 2) + "gm/s";
	case 0x12: case 0x13: return "";
	case 0x1e: return A & 1 ? "PTO Active" : "----";
	}
	return f1(A / 200.0, 5, 3) + "V" + (d[1] == 0xff ? "" : "/" + f1((d[1] - 128) * 100.0 / 128, 5, 1) + "%");
}
static const std::map<int, const char *> pidname = {{3, "Fuel System Status"}, {4, "Calculated Load Value"}, {5, "Engine Coolant Temperature"}, {6, "Short term fuel trim Bank 1"}, {7, "Long term fuel trim Bank 1"}, {8, "Short term fuel trim Bank 2"}, {9, "Long term fuel trim Bank 2"}, {0x0a, "Fuel Pressure"}, {0x0b, "Intake Manifold Pressure"}, {0x0c, "Engine RPM"}, {0x0d, "Vehicle Speed"}, {0x0e, "Ignition timing advance Cyl #1"}, {0x0f, "Intake Air Temperature"}, {0x10, "Air Flow Rate"}, {0x11, "Absolute Throttle Position"}, {0x12, "Commanded Secondary Air Status"}, {0x13, "Location of Oxygen Sensors"}, {0x14, "Bank 1 Sensor 1 Voltage/Trim"}, {0x15, "Bank 1 Sensor 2 Voltage/Trim"}, {0x16, "Bank 1 Sensor 3 Voltage/Trim"}, {0x17, "Bank 1 Sensor 4 Voltage/Trim"}, {0x18, "Bank 2 Sensor 1 Voltage/Trim"}, {0x19, "Bank 2 Sensor 2 Voltage/Trim"}, {0x1a, "Bank 2 Sensor 3 Voltage/Trim"}, {0x1b, "Bank 2 Sensor 4 Voltage/Trim"}, {0x1e, "Auxiliary Input Status"}};
static std::string slurp(const std::string &f) { FILE *h = fopen(f.c_str(), "r"); if (!h) return ""; std::string o; char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, h)) > 0) o.append(b, k); fclose(h); return o; }
static void monitor(Rng &r, long) {
	Proto p = rnd_proto(r);
	Bus bus(p, r);
	Car c(r.next());
	int n = r.chance(60) ? 1 : r.range(2, 4);
	c.fill(n);
	std::vector<Log> log;
	int passes = 0, stopat = r.range(1, 3);
	bool changing = r.chance(80), live = false;
	std::map<int, std::map<int, Bytes>> full[2];                        // whole answers, as logged
	std::vector<std::pair<vt::ns_t, std::string>> wlog;
	std::vector<int> order;
	std::string stopfeed = "\n";
	std::vector<std::map<int, std::map<int, Bytes>>> snap1, snap2;      // what was last heard, at the end of each pass
	std::map<int, std::map<int, Bytes>> cur1, cur2;
	auto note_log = [&]() {
		for (int md = 0; md < 2; md++) {
			wlog.push_back({now(), fmt("D MODE %d DATA", md + 1)});
			for (size_t i = 0; i < order.size(); i++) for (auto &k : full[md][order[i]]) { std::string l = fmt("%zu: ", i); for (auto b : k.second) l += fmt("0x%02X ", b); wlog.push_back({now(), l}); }
		}
	};
	bus.answer = [&](const Bytes &q) {
		if (changing && live) for (auto &e : c.e) { for (auto &k : e.d1) if (k.first != 1 && k.first != 0x13) { k.second = r.bytes(k.second.size()); if (r.chance(20)) k.second[0] = 1 << r.below(6); if (r.chance(20) && k.second.size() > 1) k.second[1] = 0xff; } for (auto &k : e.d2) k.second = r.bytes(k.second.size()); }
		auto a = c.answer(q);
		std::set<int> seen;
		for (auto &o : a) if ((q[0] == 1 || q[0] == 2) && !seen.count(o.addr)) {
			seen.insert(o.addr);
			auto &m = (q[0] == 1 ? cur1 : cur2)[o.addr];
			if (o.d[0] == q[0] + 0x40) m[q[1]] = Bytes(o.d.begin() + (q[0] == 1 ? 2 : 3), o.d.end()); else m.erase(q[1]);
			if (o.d[0] == q[0] + 0x40) full[q[0] - 1][o.addr][q[1]] = Bytes(o.d.begin(), o.d.begin() + std::min<size_t>(o.d.size(), 7)); else full[q[0] - 1][o.addr].erase(q[1]);
		}
		bool again = !log.empty() && log.back().q == q;
		log.push_back({q, a});
		if (live && q == Bytes{7} && !again) { snap1.push_back(cur1); snap2.push_back(cur2); note_log(); if (++passes == stopat) app::stdin_feed(stopfeed); }
		return a;
	};
	ns_t g0 = bus.j1850 ? 1200 * US : 30 * MS;
	bus.gap = [&](int) { return g0; };
	global_dl0d = &bus.f.dev;
	app::stdin_reset();
	budget(200000 * SEC, 300000000);
	app::cmd("scan");
	std::string ctx = fmt("%s, %d ECUs", car::pname[p], n);
	if (global_state != STATE_SCANDONE) { rep::violation("obd:connect", ctx); cleanup(bus.f); return; }
	for (unsigned i = 0; i < ecu_count; i++) order.push_back(ecu_info[i].ecu_addr);
	int how = r.below(4); bool eng = how & 1;
	if (how >= 2) app::cmd(std::string("set display ") + (eng ? "english" : "metric"));
	std::string lf, mcmd = how >= 2 ? "monitor" : eng ? "monitor english" : "monitor metric", o; vt::ns_t l0 = now();
	live = true;
	if (r.chance(50)) {
		lf = fmt("%s/mon%d.log", getenv("SCRATCH") ? getenv("SCRATCH") : "/tmp", g_pid); unlink(lf.c_str());
		app::stdin_feed("log " + lf + "\n" + mcmd + "\n");
		stopfeed = "\nstoplog\nexit\n";
		o = capture([&]() { scantool_cli("P", nullptr, scantool_cmd_table); });
		app::g_rv = CMD_OK;
	} else o = app::cmd(mcmd);
	live = false;
	if (!lf.empty()) {
		auto ll = app::lines(slurp(lf)); unlink(lf.c_str());
		std::string g, w;
		for (size_t i = 2; i < ll.size(); i++) {
			if (ll[i][0] == '>') continue;     // commands
			unsigned long a, b; int k = 0;
			if (sscanf(ll[i].c_str(), "D %lu.%lu %n", &a, &b, &k) == 2 && k && ll[i].size() > (size_t)k) {
				size_t e = std::min(i - 2, wlog.size() - 1);
				double dt = a * 1000.0 + b - (wlog.empty() ? 0 : (wlog[e].first - l0) / 1e6);
				CHECK(!wlog.empty() && dt <= 5 && dt > -400000, "log:time", "logged at %lu.%03lu, %+.0f ms from when the pass ended", a, b, dt);
				g += "D " + ll[i].substr(k) + "\n";
			} else g += ll[i] + "\n";
		}
		for (auto &x : wlog) w += x.second + "\n";
		if (g != w) { size_t k = 0; while (k < g.size() && k < w.size() && g[k] == w[k]) k++; k = k > 60 ? k - 60 : 0; rep::violation("log:data", fmt("%s, at byte %zu: got\n%s\nwanted\n%s", ctx.c_str(), k, g.substr(k, 300).c_str(), w.substr(k, 300).c_str())); }
		rep::cover("logged-passes", passes); rep::cover("logged-values", wlog.size());
	}
	CHECK(passes == stopat && app::g_rv == CMD_OK, "obd:monitor-passes", "%s: %d of %d passes: %s", ctx.c_str(), passes, stopat, o.substr(0, 600).c_str());
	auto L = app::lines(o);
	size_t li = 0; int tables = 0;
	while (li < L.size() && tables < passes) {
		if (L[li] != fmt("%-30.30s %-15.15s FreezeFrame", "Parameter", "Current")) { li++; continue; }
		li++;
		// The table is printed before the mode 7 request that ends the pass, after all its data was read
		auto &s1 = snap1[tables], &s2 = snap2[tables];
		std::string w, g;
		int rows = 0;
		for (auto &k : pidname) for (int a : order) {
			bool h1 = s1[a].count(k.first), h2 = s2[a].count(k.first);
			if (!h1 && !h2) continue;
			std::string v1 = h1 ? meaning(k.first, s1[a][k.first], eng) : "-----", v2 = h2 ? meaning(k.first, s2[a][k.first], eng) : "-----";
			w += fmt("%-30.30s %-15.15s %-15.15s\n", k.second, v1.c_str(), v2.c_str());
			rows++;
			rep::cover(fmt("pid-%02X%s", k.first, eng ? "-english" : "-metric"));
		}
		while (rows-- > 0 && li < L.size()) g += L[li++] + "\n";
		CHECK(g == w, "obd:monitor-values", "%s %s:\ngot\n%s\nwanted\n%s", ctx.c_str(), eng ? "english" : "metric", g.c_str(), w.c_str());
		tables++;
	}
	CHECK(tables == passes, "obd:monitor-tables", "%s: %d tables in %d passes", ctx.c_str(), tables, passes);
	if (how >= 2) app::cmd("set display metric");
	rep::cover("monitor-tables", tables);
	rep::distinct(ctx + o);
	rep::sample(ctx + fmt(": %d passes, %zu lines", passes, L.size()));
	cleanup(bus.f);
}
// ---- anything at all may come back
static Bytes mutate(Rng &r, Bytes b, size_t maxlen) {
	for (int k = r.range(1, 3); k; k--) switch (r.below(8)) {
	case 0: if (!b.empty()) b.resize(r.below(b.size() + 1)); break;
	case 1: { Bytes x = r.bytes(r.range(1, 12)); b.insert(b.end(), x.begin(), x.end()); break; }
	case 2: if (!b.empty()) b[r.below(b.size())] = r.byte(); break;
	case 3: if (!b.empty()) b[0] = r.byte(); break;
	case 4: b = r.bytes(r.below(maxlen + 1)); break;
	case 5: { uint8_t x = b.empty() ? 1 : b[0] - 0x40; b = {0x7f, x}; if (r.chance(70)) b.push_back(r.byte()); break; }
	case 6: if (b.size() > 1) b[1] = r.byte(); break;
	case 7: b.assign(b.size(), r.pick({0, 0xff, 0x80, 0x7f})); break;
	}
	if (b.size() > maxlen) b.resize(maxlen);
	if (b.empty()) b.push_back(r.byte());
	return b;
}
static void hostile(Rng &r, long) {
	Proto p = rnd_proto(r);
	Bus bus(p, r);
	Car c(r.next());
	c.fill(r.range(1, 3));
	size_t maxlen = p == car::P9141 ? 7 : bus.j1850 ? 7 : r.chance(50) ? 12 : 255;
	if (bus.j1850 && r.chance(30)) maxlen = 40;
	int rate = r.pick({5, 30, 70, 100}); bool active = false; unsigned long mutated = 0;
	ns_t quiet = 0;
	bus.answer = [&](const Bytes &q) {
		auto a = c.answer(q);
		if (!active) return a;
		if (quiet && now() > quiet) return std::vector<Out>();
		for (auto &o : a) if (r.chance(rate)) { o.d = mutate(r, o.d, maxlen); mutated++; }
		if (r.chance(rate)) { int k = r.chance(10) ? r.range(5, 20) : r.range(0, 2); while (k--) { a.push_back({(uint8_t)(r.chance(50) ? r.byte() : c.e[0].addr), mutate(r, Bytes{(uint8_t)(q[0] + 0x40), (uint8_t)(q.size() > 1 ? q[1] : 0), r.byte(), r.byte()}, maxlen)}); mutated++; } }
		if (r.chance(rate / 4)) a.clear();
		if (a.size() > 24) a.resize(24);
		return a;
	};
	bus.gap = [&](int) { return bus.j1850 ? 1200 * US : 30 * MS; };
	global_dl0d = &bus.f.dev;
	app::stdin_reset();
	budget(400000 * SEC, 300000000);
	active = r.chance(50);
	std::string all;
	if (r.chance(30) && !dbg_mode) { diag_cli_debug = 0xff; diag_l3_debug = 0xff; diag_l2_debug = 0xff; diag_l1_debug = 0xff; }
	all += app::cmd("scan");
	active = true;
	if (global_state == STATE_SCANDONE) {
		static const char *cmds[] = {"ecus", "pids", "dumpdata", "test ncms", "test cms", "test readiness", "test rvi", "cleardtc", "monitor", "monitor english", "scan", "diag sendreq 0x01 0x0c", "diag read 1", "diag sr 9 2"};
		for (int k = r.range(3, 10); k; k--) {
			std::string cm = cmds[r.below(sizeof cmds / sizeof *cmds)];
			app::stdin_feed(app::has(cm, "monitor") ? "\n" : "y\n");
			ns_t t0 = now();
			if (app::has(cm, "monitor") && r.chance(60)) { char ch; if (read(0, &ch, 1)) {} int left = r.range(5, 300); auto inner = bus.answer; bus.answer = [&, inner, left](const Bytes &q) mutable { if (left-- == 0) app::stdin_feed("\n"); return inner(q); }; all += app::cmd(cm); bus.answer = inner; }
			else all += app::cmd(cm);
			(void)t0;
			app::stdin_reset();
			if (r.chance(20)) idle(r.range(1, 15) * SEC);
			rep::cover("hostile-" + cm.substr(0, cm.find(' ', 5)));
		}
		rep::cover("hostile-sessions");
	} else rep::cover("hostile-refused");
	if (!dbg_mode) diag_cli_debug = diag_l3_debug = diag_l2_debug = diag_l1_debug = 0;
	rep::cover("mutated-responses", mutated);
	rep::distinct(all);
	// and the tool works again with a sane vehicle
	active = false;
	cleanup(bus.f);
	idle(6 * SEC);
	global_dl0d = &bus.f.dev;
	bus.f.clear();
	std::string o = app::cmd("scan");
	CHECK(global_state == STATE_SCANDONE, "obd:not-usable-after-garbage", "%s: %s", car::pname[p], o.substr(0, 1200).c_str());
	if (global_state == STATE_SCANDONE) {
		std::set<int> w, g;
		for (auto &e : c.e) w.insert(e.addr);
		for (unsigned i = 0; i < ecu_count; i++) g.insert(ecu_info[i].ecu_addr);
		CHECK(w == g, "obd:stale-ecus", "%s: %zu ECUs found, vehicle has %zu", car::pname[p], g.size(), w.size());
		rep::cover("recovered");
	}
	cleanup(bus.f);
}

// ---- L3: text, framing and keep-alive of J1979 on any lower layer
// a valid message, of the length J1979 gives it
static Bytes valid_msg(Rng &r) {
	if (r.chance(25)) { int m = r.range(1, 9); static const int n[] = {0, 2, 3, 1, 1, 3, 2, 1, 7, 2}; Bytes b = r.bytes(n[m]); b[0] = m; return b; }
	int m = r.range(1, 9); uint8_t id = r.chance(20) ? 0x20 * r.below(8) : r.chance(30) ? 1 << r.below(8) : r.byte(); size_t n = 7;
	switch (m) {
	case 1: if (id % 32) { do id = r.chance(90) ? r.range(1, 0x1f) : r.range(0x55, 0x58); while (id == 2); n = id >= 0x55 ? 3 : 2 + m1len(id); } else n = 6; break;
	case 2: if (id % 32) { do id = r.chance(90) ? r.range(2, 0x1f) : r.range(0x55, 0x58); while (0); n = id == 2 ? 5 : id >= 0x55 ? 4 : 3 + m1len(id); } else n = 7; break;
	case 4: n = 1; break;
	case 5: n = id % 32 == 0 ? 7 : id <= 4 ? 4 : 6; break;
	case 9: n = id % 32 == 0 ? 7 : id & 1 ? 3 : 7; break;
	}
	Bytes b = r.bytes(n); b[0] = 0x40 + m; if (n > 1) b[1] = id;
	return b;
}
struct J3 { FakeL0 f; Session s; struct diag_l3_conn *l3 = nullptr; bool answer = true;
	J3(uint32_t fl) : f(DIAG_L1_RAW, fl), s(f) {
		f.ecu = [this](FakeL0 &x, const Bytes &b) { if (answer && b.size() >= 2 && b[b.size() - 2] == 1 && b.back() == 0) x.push(now() + 30 * MS, Bytes{0x41, 0, 1, 2, 3, 4}); };
	}
	bool up() { bool ok = false; capture([&]() { ok = s.open(DIAG_L1_RAW) == 0 && s.start(DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xf1); if (ok) l3 = diag_l3_start("SAEJ1979", s.c); }); return l3; }
	~J3() { if (l3) diag_l3_stop(l3); }
};
static void l3(Rng &r, long) {
	long live0 = mem().live; int what = r.below(3);
	std::string o;
	if (what == 0) {            // text
		struct diag_l3_conn dummy; memset(&dummy, 0, sizeof dummy);
		for (int i = 0; diag_l3_protocols[i]; i++) if (!strcasecmp(diag_l3_protocols[i]->proto_name, "SAEJ1979")) dummy.d_l3_proto = diag_l3_protocols[i];
		for (int k = 0; k < 60; k++) {
			Bytes m = r.chance(60) ? valid_msg(r) : r.bytes(r.chance(70) ? r.below(12) : r.below(256));
			if (!m.empty() && r.chance(40)) m[0] = (r.chance(50) ? 0x40 : 0) | r.below(12);
			if (r.chance(25) && m.size() > 1) m.resize(r.range(1, m.size()));
			size_t bs = r.chance(20) ? r.range(1, 40) : r.chance(50) ? 255 : r.range(60, 1600);
			TMsg tm(m);
			std::vector<char> buf(bs); char *p = (char *)malloc(bs); memset(p, 0x5a, bs);
			std::string e = capture([&]() { diag_l3_decode(&dummy, &tm.m, p, bs); });
			size_t n = strnlen(p, bs);
			std::string g(p, n), w = m_text(m); free(p);
			if (w.size() > bs - 1) { w.resize(bs - 1); rep::cover("text-truncated"); }
			CHECK(n < bs, "obd:text-unterminated", "%s, buffer %zu", hex(m).c_str(), bs);
			CHECK(g == w, "obd:text", "%s, buffer %zu: [%s] wanted [%s]", hex(m).c_str(), bs, g.c_str(), w.c_str());
			rep::cover("texts"); rep::distinct(w);
			if (!m.empty()) rep::cover((m[0] & ~0x40) <= 9 ? fmt("text-mode-%d", m[0] & 0xf) : "text-unknown");
		}
		return;
	}
	J3 j(0);
	budget(400000 * SEC, 300000000);
	if (!j.up()) { rep::violation("obd:l3-start", "no connection over an unframed bus"); return; }
	RecvSink k;
	if (what == 1) {            // framing by content: every message once, complete, in order
		for (int round = 0; round < 4; round++) {
			std::vector<Bytes> want; Bytes stream;
			for (int n = r.chance(50) ? 1 : r.chance(80) ? r.range(2, 6) : r.chance(50) ? r.range(20, 120) : r.range(120, 350); n; n--) { want.push_back(valid_msg(r)); stream.insert(stream.end(), want.back().begin(), want.back().end()); }
			bool bad = r.chance(25);
			if (bad) { Bytes junk = r.bytes(r.range(1, 20)); junk[0] = r.pick({0x0a, 0x00, 0x40, 0x4a, 0x7f, 0xff, 0x39}); want.push_back({}); stream.insert(stream.end(), junk.begin(), junk.end()); }
			// the bytes come in chunks with pauses
			ns_t t = now() + 10 * MS; int np = r.below(6);
			std::set<size_t> cuts; for (int i = 0; i < np; i++) cuts.insert(r.below(stream.size()));
			if (bad) { std::set<size_t> c2; size_t lim = stream.size() - 21; for (size_t c : cuts) if (stream.size() > 21 && c < lim) c2.insert(c); cuts = c2; }
			size_t at = 0;
			for (size_t i = 0; i <= stream.size(); i++) if (i == stream.size() || cuts.count(i)) { Bytes c(stream.begin() + at, stream.begin() + i); if (!c.empty()) { j.f.push(t, c); t += c.size() * j.f.byte_ns + r.pick({1, 4, 8, 40, 400}) * MS; } at = i; }
			k.got.clear(); int idle0 = 0; std::vector<Bytes> g;
			o += capture([&]() { for (int n = 0; n < 2000 && idle0 < 3; n++) { int rv = diag_l3_recv(j.l3, r.pick({20, 50, 100, 500}), sink_cb, &k); if (rv == DIAG_ERR_TIMEOUT) { idle0 += now() > t; } else if (rv < 0) { rep::violation("obd:l3-recv", fmt("%d", rv)); break; } } });
			for (auto &c : k.got) for (auto &m : c) g.push_back(m.d);
			if (bad) for (size_t i = 0; i < g.size(); i++) if (g[i].empty()) { g.resize(i + 1); break; }    // what follows can't be told apart
			std::string a, b; for (auto &x : g) a += hex(x) + " | "; for (auto &x : want) b += hex(x) + " | ";
			CHECK(g == want, "obd:l3-framing", "%zu bytes in %zu pieces: got %s\nwanted %s", stream.size(), cuts.size() + 1, a.c_str(), b.c_str());
			rep::cover("framed-messages", want.size()); if (bad) rep::cover("unframeable"); rep::distinct(hex(stream));
			if (want.size() > 40) rep::cover("long-bursts");
			if (bad) break;
		}
	} else {                    // keep-alive
		ns_t last = now(); size_t seen = j.f.tx.size();
		for (int n = r.range(1, 8); n; n--) {
			if (r.chance(40)) {
				idle(r.range(1, 3300) * MS);
				TMsg m(Bytes{1, 0x0c}); o += capture([&]() { diag_l3_send(j.l3, &m.m); });
				RecvSink k2; if (r.chance(50)) o += capture([&]() { diag_l3_recv(j.l3, r.range(1, 300), sink_cb, &k2); });
			} else { o += capture([&]() { idle(r.range(1, 25) * SEC); }); }
			for (; seen < j.f.tx.size(); seen++) {
				CHECK(j.f.tx[seen].t - last < 5 * SEC, "obd:keepalive-late", "%.1f s without a request", (j.f.tx[seen].t - last) / 1e9);
				last = j.f.tx[seen].t; rep::cover("requests-on-idle-bus");
			}
			CHECK(now() - last < 5 * SEC, "obd:keepalive-late", "%.1f s without a request", (now() - last) / 1e9);
		}
		rep::cover("keepalive-sessions"); rep::distinct(fmt("%zu %llu", seen, (unsigned long long)now()));
	}
	diag_l3_stop(j.l3); j.l3 = nullptr; j.s.close();
	CHECK(mem().live <= live0, "obd:l3-leak", "%ld blocks", mem().live - live0);
}
std::vector<Mode> modes() { return {{"scan", scan, setup, true}, {"monitor", monitor, setup, true}, {"hostile", hostile, setup, true}, {"l3", l3, setup}}; }
