// The debug command, and what debugging shows.
#include "app.h"
using namespace vt;
static const struct { int m; const char *n; } FL_[] = {{1, "OPEN"}, {2, "CLOSE"}, {4, "READ"}, {8, "WRITE"}, {0x10, "IOCTL"}, {0x20, "PROTO"}, {0x40, "INIT"}, {0x80, "DATA"}, {0x100, "TIMER"}};
static void cmd(Rng &r, long) {
	static const char *L[] = {"l0", "l1", "l2", "l3", "cli"}, *N[] = {"L0", "L1", "L2", "L3", "CLI"};
	unsigned want[5];
	app::stdin_reset(); budget(100 * SEC, 1000000);
	app::cmd("debug all 0");
	for (auto &w : want) w = 0;
	std::string sig;
	for (int i = r.range(3, 25); i--;) {
		std::string o;
		int k = r.below(10);
		unsigned v = r.chance(30) ? r.pick({0u, 0u - 1u, 0x1ffu, 0x80u, 0x8cu}) : r.chance(60) ? 1u << r.below(9) : r.below(0x200);
		std::string t = v == 0u - 1u ? "-1" : r.chance(50) ? fmt("0x%x", v) : r.chance(70) ? fmt("%u", v) : r.chance(50) ? fmt("$%X", v) : fmt("0%o", v);
		int l = r.below(5); bool nan = r.chance(8);
		if (nan) t = r.pick({"x", "0xg", "1.5", "$", "09", "4294967296", "abc", "-"});
		if (k < 5) { o = app::cmd(fmt("debug %s %s", L[l], t.c_str())); if (!nan) want[l] = v; }
		else if (k < 6) { o = app::cmd(fmt("debug %s%s", L[l], r.pick({"", " ?"}))); }
		else if (k < 8) { o = app::cmd("debug all " + t); if (!nan) for (auto &w : want) w = v; l = -1; }
		else { o = app::cmd(r.chance(50) ? "debug show" : "debug all"); l = -1; }
		if (nan && k != 5 && k < 8) { CHECK(app::g_rv != CMD_OK, "debug:not-a-number", "\"debug %s\" taken: %s", t.c_str(), o.c_str()); rep::cover("levels-refused"); continue; }
		CHECK(app::g_rv == CMD_OK, "debug:refused", "value %s: result %d: %s", t.c_str(), app::g_rv, o.c_str());
		std::string x;
		if (l >= 0) {
			x = fmt("%s debug is 0x%X: ", N[l], want[l]);
			for (auto &f : FL_) if (want[l] & f.m) x += std::string(f.n) + " ";
			x += "\n";
			CHECK(o == x, "debug:shown", "after %s: got \"%s\", expected \"%s\"", t.c_str(), o.c_str(), x.c_str());
			rep::cover("levels-shown");
		}
		o = app::cmd("debug show");
		x = fmt("Debug values: L0 0x%X, L1 0x%X, L2 0x%X L3 0x%X CLI 0x%X\n", want[0], want[1], want[2], want[3], want[4]);
		CHECK(o == x, "debug:values", "got \"%s\", expected \"%s\"", o.c_str(), x.c_str());
		rep::cover("values-checked"); sig += fmt("%x.", v);
	}
	if (r.chance(20)) {
		std::string o = app::cmd("debug help");
		for (auto &f : FL_) { bool got = false; for (auto &l : app::lines(o)) if (app::has(l, fmt("0x%4X:", f.m).c_str())) got = true; CHECK(got, "debug:help", "flag %x is not listed", f.m); }
		rep::cover("help-checked");
	}
	app::cmd("debug all 0");
	rep::distinct(sig);
}
static std::string dump(const Bytes &b) { std::string s; for (uint8_t x : b) s += fmt("0x%02X ", x); return s; }
// all the bytes shown in a text, line by line
static bool shows(const std::string &text, const Bytes &b) {
	std::string d = dump(b);
	for (auto &l : app::lines(text)) {
		size_t p = l.find(d);
		// exactly these, at the end of a line
		if (p != std::string::npos && p + d.size() == l.size() && (p < 5 || l[p - 1] != ' ' || !(l[p - 5] == '0' && l[p - 4] == 'x' && isxdigit(l[p - 3]) && isxdigit(l[p - 2])))) return true;
	}
	return false;
}
// what is sent and received is what is shown; nothing is shown unless asked for
static void data(Rng &r, long) {
	app::stdin_reset(); budget(400 * SEC, 1000000);
	static const struct { int l1, l2, ty; } P[] = {{DIAG_L1_ISO9141, DIAG_L2_PROT_RAW, 0}, {DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_MONINIT}, {DIAG_L1_ISO9141, DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_MONINIT}};
	auto &p = P[r.below(3)];
	FakeL0 f(p.l1, 0);
	Session s(f);
	app::cmd("debug all 0");
	if (s.open(p.l1)) { rep::violation("debug:open", "refused"); return; }
	bool ok = false;
	capture([&]() { ok = s.start(p.l2, p.ty, 10400, 0x33, 0xf1); });
	if (!ok) { rep::violation("debug:start", fmt("protocol %d refused", p.l2)); return; }
	for (int k = 0; k < 4; k++) {
		int lv = r.below(3);      // 0: silent, 1: only layer 1, 2: only layer 2
		unsigned m = r.pick({0x8cu, 0xffu, 0u - 1u, 0xcu, 0x80u, 0u});
		if (!lv) m = 0;
		app::cmd("debug all 0"); if (lv) app::cmd(fmt("debug l%d %s", lv, m == 0u - 1u ? "-1" : fmt("%u", m).c_str()));
		bool data = (m & 0x8c) == 0x8c;
		Bytes b = r.bytes(r.range(1, 7));
		std::string e, e2, o, o2;
		f.tx.clear(); f.clear(); f.pend.clear();
		int rv = -1;
		{ TMsg m2(b, 0x33, 0xf1); o = capture([&]() { rv = diag_l2_send(s.c, &m2.m); }, e); }
		Bytes sent = f.sent();
		CHECK(rv == 0 && !sent.empty(), "debug:send", "rv %d sent %zu", rv, sent.size());
		CHECK(o.empty(), "debug:stdout", "debugging messages mixed with the program's output: %s", o.c_str());
		CHECK(m || e.empty(), "debug:unasked", "with no debugging: %s", e.c_str());
		if (data && (lv == 1 || p.l2 != DIAG_L2_PROT_RAW)) { CHECK(shows(e, sent), "debug:sent-bytes", "level %d protocol %d: sent [%s], shown: %s", lv, p.l2, hex(sent).c_str(), e.c_str()); rep::cover(fmt("sent-shown-l%d", lv)); }
		if (lv && !(m & 0x80)) CHECK(!shows(e, sent), "debug:sent-bytes-unasked", "mask %x: %s", m, e.c_str());
		if (!lv || !m) rep::cover("silent-sends");
		// an answer
		Bytes a = r.bytes(r.range(1, 7)), w = a;
		if (p.l2 == DIAG_L2_PROT_ISO9141) { w.insert(w.begin(), {0x48, 0x6b, 0x10}); w.push_back(sum8(w, w.size())); }
		else if (p.l2 == DIAG_L2_PROT_ISO14230) { w.insert(w.begin(), {(uint8_t)(0x80 | a.size()), 0xf1, 0x10}); w.push_back(sum8(w, w.size())); }
		idle(100 * MS); f.clear();
		f.push(now() + 10 * MS, w, MS / 2);
		RecvSink got; o2 = capture([&]() { rv = diag_l2_recv(s.c, 400, sink_cb, &got); }, e2);
		CHECK(rv >= 0 && got.got.size() == 1 && got.got[0].size() == 1 && got.got[0][0].d == a, "debug:recv", "rv %d, expected %s", rv, hex(a).c_str());
		CHECK(o2.empty(), "debug:stdout", "debugging messages mixed with the program's output: %s", o2.c_str());
		CHECK(m || e2.empty(), "debug:unasked", "with no debugging: %s", e2.c_str());
		if (data && lv == 1) {
			// as read from the line, in one or several pieces
			std::string all; for (auto &l : app::lines(e2)) { for (size_t q = 0; q + 5 <= l.size(); q++) if (l[q] == '0' && l[q + 1] == 'x' && isxdigit(l[q + 2]) && isxdigit(l[q + 3]) && l[q + 4] == ' ') { all += l.substr(q, 5); q += 4; } }
			CHECK(all == dump(w), "debug:read-bytes", "came [%s], shown: %s", hex(w).c_str(), e2.c_str());
			rep::cover("read-shown");
		}
		rep::distinct(fmt("%d.%d.%x.%zu.%zu", p.l2, lv, m, b.size(), a.size()));
	}
	app::cmd("debug all 0");
	capture([&]() { s.close(); });
}
std::vector<Mode> modes() { return {{"cmd", cmd, app::init}, {"data", data, app::init}}; }
