// The "850" commands: a simulated Volvo, and an independent statement of what
// each command asks the car and shows the user.
#include "rlstub.h"
#include "volvo.h"
extern "C" {
#include "scantool_850/dtc.h"
#include "scantool_850/ecu.h"
}
using namespace vt;
static Rng *R;
static void setup() { scratch(); stack_init(); app::init(); app::stdin_reset(); }

// ---------------------------------------------------------------- the car
struct Entry { uint8_t ecu; Bytes rq; bool ok; bool silent; Bytes d; std::vector<Bytes> raw; const char *kind; };
static std::vector<Entry> lg;
static int mischief;                    // percent
static bool nopend;
static std::map<int, int> holes;        // ecu<<8|page -> missing
static Bytes idblock(Rng &r, uint8_t id) {
	Bytes b;
	if (id == 0xf0) {
		b = r.bytes(15); b[0] = 0;
		for (int i : {5, 6, 7, 12, 13, 14}) b[i] = (uint8_t)r.range(0x20, 0x7e);
		int k = r.below(12);
		if (k == 0) b[0] = r.byte();
		if (k == 1) b[r.pick({5, 6, 7, 12, 13, 14})] = r.pick({0, 0x1f, 0x7f, 10});
		if (k == 2) b = r.bytes(r.below(30));
	} else {
		for (int i = 0; i < 10; i++) b.push_back('0' + r.below(10));
		int k = r.below(8);
		if (k == 0) b[r.below(10)] = r.pick({'/', ':', 'a', ' ', '\0'});
		if (k == 1) b = r.bytes(r.below(16));
	}
	return b;
}
// the data an ECU gives; the first of `more` responses for long lists
static Bytes value(Rng &r, uint8_t ecu, const Bytes &q, std::vector<Bytes> &more) {
	switch (q[0]) {
	case 0xa7: return r.chance(30) ? r.bytes(q[5]) : Bytes(q[5], r.byte());
	case 0xa5: { int k = r.below(10); Bytes b = k < 7 ? r.bytes(r.range(1, 6)) : k == 7 ? Bytes() : k == 8 ? r.bytes(20) : r.bytes(r.range(15, 58));
		if (b.size() && r.chance(50)) b[0] = r.below(8);
		if (b.size() > 1 && r.chance(50)) { b[0] = r.pick({3, 3, 2, 0, 4, 0xff}); b[1] = r.pick({0xff, 0xfe, 0, 1, 0x80}); }
		return b; }
	case 0xb9: if (q[1] == 0xf0 || q[1] == 1) return idblock(r, q[1]); return r.bytes(r.chance(80) ? r.below(12) : r.range(18, 58));
	case 0xad: return r.bytes(r.chance(85) ? r.below(15) : r.range(18, 58));
	case 0xae: { int n = r.pick({0, 0, 1, 2, 3, 5, 11, 12, 13, 20, 24, 25, 30, 36, 40});
		Bytes all; const struct dtc_table_entry *t = dtctable_by_addr(ecu); int len = 0; while (t && t[len].dtc_suffix) len++;
		while (n--) all.push_back(len && r.chance(85) ? t[r.below(len)].raw_value : r.byte());
		Bytes a(all.begin(), all.begin() + std::min<size_t>(12, all.size()));
		for (size_t i = 12; i < all.size() || (i == 12 && all.size() == 12 && r.chance(0)); i += 12) more.push_back(Bytes(all.begin() + i, all.begin() + std::min(i + 12, all.size())));
		return a; }
	}
	return {};
}
static std::vector<Bytes> answer(Rng &r, uint8_t ecu, const Bytes &q) {
	Entry e{ecu, q, true, false, {}, {}, "good"};
	std::vector<Bytes> more;
	Bytes h = {(uint8_t)(q[0] ^ 0x40)}; if (q.size() > 1) h.push_back(q[1]);
	bool mem = q[0] == 0xa7 && q.size() == 6 && q[5] <= 58, known = true, plain = false;
	size_t want = q[0] == 0xa1 ? 1 : q[0] == 0xa7 ? 6 : q[0] == 0xa5 || q[0] == 0xad ? 3 : q[0] == 0xb0 ? q.size() == 4 ? 4 : 2 : 2;
	switch (q.size() == want ? q[0] : 0) { case 0xa1: plain = true; break; case 0xa7: known = mem; break; case 0xa5: case 0xad: case 0xb9: case 0xae: break; case 0xaf: case 0xb0: case 0xb2: plain = true; break; default: known = false; }
	if (!known) {
		Bytes a = r.chance(80) ? r.bytes(r.range(1, 59)) : Bytes{0x7f, q[0], 0x11};
		e.d = a; e.kind = "raw"; if (r.chance(10)) { e.ok = false; e.silent = true; } else e.raw.push_back(a);
		lg.push_back(e); return e.raw;
	}
	if (mem) { h.push_back(q[2]); h.push_back(q[3]); }
	e.d = value(r, ecu, q, more);
	Bytes a = h; a.insert(a.end(), e.d.begin(), e.d.end());
	std::vector<Bytes> v; bool pend = !nopend && r.chance(6);
	if (mem && holes.count(ecu << 8 | q[2])) { e.ok = false; e.kind = "hole"; a = {0x7f, q[0], 0x12}; }
	else if (r.chance(mischief)) {
		int k = r.below(mem ? 9 : 6);
		if (k == 0) { e.ok = false; e.silent = true; e.kind = "silent"; a.clear(); pend = pend && r.chance(50); }
		else if (k == 1) { e.ok = false; e.kind = "negative"; a = {0x7f, q[0], (uint8_t)r.pick({0x11, 0x12, 0x21, 0x33, 0x10})}; }
		else if (k == 2) { e.ok = false; e.kind = "other-service"; a[0] ^= 1 << r.below(8); if (a[0] == 0x7e) a[0] = 0xe5 ^ 0x80; }
		else if (k == 3 && q.size() > 1) { e.ok = false; e.kind = "other-id"; a[1] ^= 1 << r.below(8); }
		else if (k == 4 && q.size() > 1) { e.ok = false; e.kind = "truncated"; a.resize(1); }
		else if (k == 5 && plain && q[0] != 0xa1) { e.ok = false; e.kind = "too-long"; a.push_back(r.byte()); }
		else if (k == 6) { e.ok = false; e.kind = "other-address"; a[2 + r.below(2)] ^= 1 << r.below(8); }
		else if (k == 7) { e.ok = false; e.kind = "too-short"; a.pop_back(); }
		else if (k == 8) { e.ok = false; e.kind = "too-long"; a.push_back(r.byte()); }
	}
	if (pend) v.push_back({0x7e, q[0], 0x23});
	if (!a.empty()) v.push_back(a);
	if (e.ok) for (auto &m : more) { Bytes b = h; b.insert(b.end(), m.begin(), m.end()); v.push_back(b); }
	e.raw = v;
	lg.push_back(e);
	rep::cover(std::string("answer-") + e.kind); if (pend) rep::cover("answer-in-progress");
	return v;
}
static std::vector<volvo::Blk> answer71(Rng &r, const volvo::Blk &q) {
	Entry e{0x10, {q.title}, true, false, {}, {}, "good"};
	e.rq.insert(e.rq.end(), q.d.begin(), q.d.end());
	std::vector<volvo::Blk> v;
	auto one = [&](uint8_t t, const Bytes &d) { e.d = d; v.push_back({t, d}); };
	switch (q.title) {
	case 1: one(0xfe, r.bytes(q.d.size() == 3 ? q.d[0] : 1)); break;
	case 8: one(0xfb, r.bytes(2)); break;
	case 7: { int n = r.pick({0, 1, 2, 2, 3, 4, 5}); if (!n) { one(0xfc, {0}); break; }
		const struct dtc_table_entry *t = dtctable_by_addr(0x10); int len = 0; while (t && t[len].dtc_suffix) len++;
		bool first = true;
		while (n > 0) { Bytes d; for (int i = 0; i < 2 && n > 0; i++, n--) { d.push_back(r.chance(85) && len ? t[r.below(len)].raw_value : r.byte()); Bytes x = r.bytes(4); d.insert(d.end(), x.begin(), x.end()); } v.push_back({0xfc, d}); if (first) e.d = d; first = false; }
		break; }
	case 5: break; // acknowledged
	default: e.kind = "raw"; one(0xf6, r.bytes(r.range(1, 12)));
	}
	if (q.title == 5) { if (r.chance(mischief)) { e.ok = false; e.kind = "other-title"; v.push_back({0xf6, r.bytes(3)}); } }
	else if (r.chance(mischief) && q.title != 0x30) {
		int k = r.below(3);
		if (k == 0) { e.ok = false; e.kind = "other-title"; v[0].title = r.pick({0xf6, 0xed, 0xfd}); }
		else if (k == 1) { e.ok = false; e.kind = "acknowledged-only"; v.clear(); }
		else if (q.title != 7) { e.ok = false; e.kind = "wrong-length"; if (r.chance(50)) v[0].d.push_back(1); else v[0].d.pop_back(); }
	}
	for (auto &b : v) e.raw.push_back(b.d);
	lg.push_back(e);
	rep::cover(std::string("kwp71-") + e.kind);
	return v;
}
// ---------------------------------------------------------------- the oracle
enum Conn { NONE, D2, K71, OTHER };
struct Model {
	Conn st = NONE; uint8_t ecu = 0; bool read_dtcs = false; std::vector<Bytes> ident;
	size_t pos = 0; std::string exp; std::string cmd; bool broken = false;
	int stops = 0, inits = 0; std::vector<uint8_t> initaddr; std::string err; bool live = false; int lines = 0; int iter = 0;
	std::string ctx() { return fmt("[%s] to %s %02X", cmd.substr(0, 120).c_str(), st == D2 ? "D2" : st == K71 ? "KWP71" : "-", ecu); }
	const Entry *ask(const Bytes &rq) {
		if (broken) return nullptr;
		if (pos >= lg.size()) { broken = true; rep::violation("850:request-missing", ctx() + ": request " + hex(rq) + " was never made"); return nullptr; }
		const Entry &e = lg[pos++];
		if (e.rq != rq || e.ecu != ecu) { broken = true; rep::violation("850:wrong-request", ctx() + fmt(": request %s to %02X instead of ", hex(e.rq).c_str(), e.ecu) + hex(rq)); return nullptr; }
		return &e;
	}
	void out(const std::string &s) { exp += s; }
	void ln(const std::string &s) { exp += s; if (live) { exp += "\033[K"; lines++; } exp += '\n'; }
	static std::string num(double v, double tol, int dec, bool plus = false) { return fmt("\001%.9g %.9g %d %d\002", v, tol, dec, plus); }
	std::string desc() { const struct ecu_info *e; for (e = ecu_list; e->name; e++) if (e->addr == ecu) return e->desc; return fmt("ECU %02X", ecu); }
	std::string prefix() { const struct ecu_info *e; for (e = ecu_list; e->name; e++) if (e->addr == ecu) return e->dtc_prefix; return "???"; }
	const struct dtc_table_entry *table() { for (auto *m = ecu_dtc_map; m->dtc_table; m++) if (m->ecu_addr == ecu) return m->dtc_table; return nullptr; }
	const struct dtc_table_entry *find(uint8_t raw) { auto *t = table(); if (t) for (; t->dtc_suffix; t++) if (t->raw_value == raw) return t; return nullptr; }
	std::string code(uint8_t raw) { auto *t = find(raw); std::string s = prefix() + "-" + (t && t->dtc_suffix > 0 ? fmt("%03d", std::min<int>(t->dtc_suffix, 999)) : "???"); return s.substr(0, 7); }
	void hexline(unsigned a, int w, const Bytes &d) { std::string s = fmt("%0*X:", w, a); for (auto b : d) s += fmt(" %02X", b); ln(s); }
	void interpret(int ns, unsigned a, const Bytes &b) {
		auto F = [](double c) { return c * 9 / 5 + 32; };
		if (ns == 1) { // memory, KWP71 engine control unit
			if (ecu == 0x10 && a <= 0x36 && a + b.size() > 0x36) ln("Battery voltage: " + num(b[0x36 - a] * 29750.0 / 8250 * 5 / 255, 0.0501, 1) + " V");
			return;
		}
		if (ns != 2) return;
		size_t n = b.size();
		if (ecu == 0x7a) switch (a) {
		case 0x02: if (n >= 2) ln("Engine Coolant Temperature: " + num(b[1] - 80, 0, 0) + "C (" + num(F(b[1] - 80), 0.99, 0) + "F)"); break;
		case 0x03: ln("Battery voltage: " + num(b[0] * 29750.0 / 8250 * 5 / 255, 0.0501, 1) + " V"); break;
		case 0x0a: { static const char *w[] = {"in progress or engine off", "completed", "not possible", "status unknown"};
			ln(std::string("Warm-up ") + w[(b[0] >> 2) & 3]); ln(std::string("MIL ") + (b[0] & 0x10 ? "" : "not ") + "requested by TCM"); break; }
		case 0x10: ln("MAF sensor signal: " + num(b[0] * 9460.0 / 8250 * 5 / 255, 0.00501, 2) + " V"); break;
		case 0x18: ln("Short term fuel trim: " + num(b[0] * 100.0 / 128 - 100, 0.0501, 1, true) + "%"); break;
		case 0x19: ln("Long term fuel trim, additive (unscaled): " + num(b[0] - 128, 0, 0, true)); break;
		case 0x1a: ln("Long term fuel trim, multiplicative: " + num(b[0] * 100.0 / 128 - 100, 0.0501, 1, true) + "%"); break;
		}
		if (ecu == 0x6e && a == 0x05) {
			static const char *p[] = {"Open", "S", "E", "W"}, *d[] = {"Economy", "Sport", "Winter"};
			ln(fmt("Mode selector: MS1 %s, MS2 %s, switch position %s", b[0] & 1 ? "low" : "high", b[0] & 2 ? "low" : "high", b[0] < 4 ? p[b[0]] : "Unknown"));
			if (n >= 2) ln(std::string("Driving mode: ") + (b[1] < 3 ? d[b[1]] : "Unknown"));
		}
		if (ecu == 0x6e && a == 0x0c && n >= 2) {
			int raw = b[0] * 256 + b[1]; double v = raw * 5.0 / 1023;
			ln("ATF temperature sensor voltage: " + num(v, 0.00501 + v * 1e-6, 2) + " V");
			if (raw == 1023) v = 4.999;
			if (raw <= 1023) { double o = 1000 * v / (5 - v); ln("ATF temperature sensor resistance: " + num(o, 1.01 + o * 2e-3, 0) + " ohms"); }
			if (n >= 4) { int t = (int16_t)(uint16_t)(b[2] * 256 + b[3] - 11); ln("ATF temperature: " + num(t, 0, 0) + "C (" + num(F(t), 0.99, 0) + "F)"); }
		}
	}
	bool compare(const std::string &got) {
		std::vector<std::string> e = app::lines(exp), g = app::lines(got);
		size_t i = 0;
		for (;; i++) {
			if (i >= e.size() && i >= g.size()) return true;
			if (i >= e.size() || i >= g.size()) break;
			size_t a = 0, b = 0; bool ok = true;
			const std::string &x = e[i], &y = g[i];
			while (a < x.size() && ok) {
				if (x[a] != '\001') { ok = b < y.size() && y[b] == x[a]; a++; b++; continue; }
				size_t z = x.find('\002', a); double v, tol; int dec, plus;
				sscanf(x.c_str() + a + 1, "%lf %lf %d %d", &v, &tol, &dec, &plus); a = z + 1;
				char *end; double w = strtod(y.c_str() + b, &end); std::string t((const char *)y.c_str() + b, (const char *)end); size_t dot = t.find('.');
				ok = !t.empty() && std::abs(w - v) <= tol && (dot == std::string::npos ? dec == 0 : (int)(t.size() - dot - 1) == dec) && (!plus || t[0] == '+' || t[0] == '-');
				b += t.size();
			}
			if (!ok || b != y.size()) break;
		}
		std::string key = "850:display";
		rep::violation(key, ctx() + fmt(": line %zu is \"%s\", should be \"%s\"", i + 1, i < g.size() ? g[i].c_str() : "(none)", i < e.size() ? e[i].c_str() : "(none)"));
		return false;
	}
};
static Model M;
static volvo::Car *C;
// one command; feed: what the user types when asked / when the command polls
static std::vector<std::string> feed; static size_t fed;
std::string cmd2(const std::string &, std::string &);
static std::string run(const std::string &c) {
	std::string o;
	budget(3600 * 4 * SEC, 30000000);
	fed = 0;
	M.cmd = c;
	std::vector<std::string> w; std::string t;
	static std::string err;
	o.clear(); err.clear();
	o = cmd2(c, err); M.err = err;
	if (rep::verbose) { fprintf(stderr, "== %s\n%s-- %s", c.c_str(), o.c_str(), err.c_str()); for (size_t i = M.pos; i < lg.size(); i++) fprintf(stderr, "   %s -> %s %s\n", hex(lg[i].rq).c_str(), lg[i].kind, lg[i].raw.empty() ? "" : hex(lg[i].raw[0]).c_str()); }
	return o;
}
std::string cmd2(const std::string &line, std::string &err) {
	std::vector<std::string> w; std::string t;
	for (char c : line + " ") { if (c == ' ') { if (!t.empty()) w.push_back(t); t.clear(); } else t += c; }
	const struct cmd_tbl_entry *e = w[0] == "850" ? v850_cmd_table : diag_cmd_table, *c = nullptr;
	for (; e->command; e++) if (!strcasecmp(e->command, w[1].c_str())) { c = e; break; }
	if (!c || !c->routine) { app::g_rv = -99; return "NO-SUCH-COMMAND"; }
	std::vector<char *> av; for (size_t i = 1; i < w.size(); i++) av.push_back(strdup(w[i].c_str()));
	static char nul[2] = {0, 0}; int n = av.size(); av.push_back(nul);
	std::string o = capture([&]() { app::g_rv = c->routine(n, av.data()); }, err);
	for (int i = 0; i < n; i++) free(av[i]);
	return o;
}
#undef CHECK
#define CHECK(cond, key, ...) do { if (!(cond)) { rep::violation(key, fmt(__VA_ARGS__)); M.broken = true; } } while (0)
static void check(const std::string &got, int rv) {
	if (M.broken) return;
	CHECK(M.pos == lg.size(), "850:extra-request", "%s: request %s to %02X is not part of this command", M.ctx().c_str(), M.pos < lg.size() ? hex(lg[M.pos].rq).c_str() : "", M.pos < lg.size() ? lg[M.pos].ecu : 0);
	if (!M.compare(got)) { M.broken = true; return; }
	CHECK(app::g_rv == rv, "850:status", "%s: command status %d instead of %d", M.ctx().c_str(), app::g_rv, rv);
	CHECK((int)C->inits.size() == M.inits && C->stops == M.stops, "850:connection", "%s: %zu wake-ups and %ld session ends instead of %d and %d", M.ctx().c_str(), C->inits.size(), C->stops, M.inits, M.stops);
	CHECK((global_state >= STATE_CONNECTED) == (M.st != NONE) && (global_l2_conn != nullptr) == (M.st != NONE), "850:connection", "%s: connected %d, should be %d", M.ctx().c_str(), global_state >= STATE_CONNECTED, M.st != NONE);
	CHECK(C->f.isopen == (M.st != NONE), "850:connection", "%s: port open %d", M.ctx().c_str(), C->f.isopen);
	rep::cover("commands");
}
static bool precond(Conn want, bool either = false) {
	if (either ? (M.st == D2 || M.st == K71) : M.st == want) return true;
	if (M.st == NONE) M.ln("Not connected.");
	else if (M.st == OTHER) M.ln(want == NONE && !either ? "Already connected with non-Volvo protocol. Please use 'diag disconnect'." : "Connected with non-Volvo protocol.");
	else if (want == NONE && !either) M.ln("Already connected to " + M.desc() + ". Please disconnect first.");
	else M.ln("This function is not available with this protocol.");
	return false;
}
// ---- connect
static bool m_connect(uint8_t addr) { // assumes disconnected
	M.inits++; M.initaddr.push_back(addr);
	if (addr == 0x10 ? !C->kwppresent : !C->d2present.count(addr)) return false;
	M.ecu = addr; M.st = addr == 0x10 ? K71 : D2; M.read_dtcs = false;
	M.ln("Connected to " + M.desc() + ".");
	if (M.st == D2) for (int i = 0; i < 3; i++) M.ask({0xa1});
	else { M.ln("Warning: KWP71 communication is not entirely reliable yet."); M.ident.clear(); for (auto &b : C->ident) M.ident.push_back(b.d); }
	return true;
}
static void m_disconnect() { if (M.st == D2) M.stops++; else M.stops = C->stops; M.ln("Disconnected from " + M.desc() + "."); M.st = NONE; M.read_dtcs = false; }
static void c_connect(Rng &r) {
	int nl = 0; while (ecu_list[nl].name) nl++;
	std::string a; int addr = -1; int k = r.below(12);
	if (k < 7) { auto &e = ecu_list[r.below(nl)]; if (r.chance(30) || C->d2present.count(e.addr)) { a = e.name; addr = e.addr; } else { addr = 0x7a; a = "m44"; } if (r.chance(20)) for (auto &c : a) c = toupper(c); }
	else if (k < 9) { addr = r.pick({0x7a, 0x6e, 0x10, 0x51, (int)r.below(128)}); a = r.chance(50) ? fmt("0x%x", addr) : fmt("%d", addr); }
	else if (k == 9) a = r.pick({"0x80", "128", "0x7az", "nosuch", "m4", "12x", "256"});
	else if (k == 10) a = "?";
	std::string o = run("850 connect" + (a.empty() ? "" : " " + a) + (k == 11 && r.chance(50) ? " m44 x" : ""));
	if (k == 11) { M.ln(app::has(M.cmd, "x") ? "Too many arguments" : "Too few arguments"); check(o, CMD_USAGE); return; }
	if (k == 10) { M.ln("Known ECUs are:"); for (auto *e = ecu_list; e->name; e++) { std::string d = e->desc; d[0] = toupper(d[0]); M.ln(std::string(" ") + e->name + "\t" + d); } M.ln("Can also specify target by numeric address."); check(o, CMD_USAGE); return; }
	if (!precond(NONE)) { check(o, CMD_OK); return; }
	if (addr < 0) { M.ln("Unknown ECU '" + a + "'"); check(o, CMD_OK); return; }
	bool ok = m_connect(addr);
	if (!ok) { int rv = app::g_rv; CHECK(rv != CMD_OK, "850:status", "connect to an absent ECU reports success"); check(o, rv); return; }
	check(o, CMD_OK);
	if (M.broken) return;
	uint8_t w = C->inits.back() & 0x7f; CHECK(w == addr, "850:connection", "woke %02X instead of %02X", w, addr);
	CHECK(global_l2_conn->diag_l2_destaddr == addr && C->tester == 0x13 && C->bad == 0, "850:connection", "destination %02X, %lu malformed frames", global_l2_conn->diag_l2_destaddr, C->bad);
	{ auto &sp = C->f.speeds; unsigned want = M.st == D2 ? 10400 : 9600;
	CHECK(!sp.empty() && sp.back().speed == want && sp.back().databits == diag_databits_8 && sp.back().stopbits == diag_stopbits_1 && sp.back().parflag == diag_par_n, "850:line-speed", "connected to %02X with the line at %u bit/s", addr, sp.empty() ? 0 : sp.back().speed); }
	rep::cover(M.st == D2 ? "connected-d2" : "connected-kwp71");
}
// ---- reads
struct Item { int ns; unsigned a, e; };
struct Tok { std::string s; bool ok; std::string msg; Item it; };
static std::string n16(Rng &r, unsigned v) { return r.chance(60) ? fmt("0x%X", v) : r.chance(50) ? fmt("%u", v) : fmt("0x%04x", v); }
static Tok t_peek(Rng &r) {
	unsigned a = r.chance(40) ? r.pick({0u, 0x36u, 0x30u, 0xf800u, 0xfff8u, 0xffffu, 0xfffeu, 0xfffcu, 0xffu, 0x2fu}) : r.below(0x10000), e = a; int k = r.below(11);
	std::string s = n16(r, a);
	if (k < 3) ;
	else if (k == 3) { s += r.pick({'w', 'W'}); e = a + 1; }
	else if (k == 4) { s += r.pick({'l', 'L'}); e = a + 3; }
	else if (k < 8) { e = a + r.pick({0, 1, 6, 7, 8, 9, 15, 16, 23, (int)r.below(60)}); s += r.pick({'.', '-'}); s += n16(r, e); }
	else if (k == 8 && r.chance(50)) { unsigned b = a ? r.below(a) : 0x12345; s += "." + n16(r, b); return {s, false, "Invalid address range '" + s + "'", {}}; }
	else if (k == 9 && r.chance(50)) { s = r.pick({"0x10000", "65536", "0x1ffff", "99999999", "0x10.", "5x", "w", "0x20ww", "0x20.zz", "3l4", "0x10q"}); return {s, false, s == "0x20.zz" ? "Invalid address range '" + s + "'" : s == "w" ? "Invalid address 'w'" : "Invalid address '" + s + "'", {}}; }
	if (s == "w") return {s, false, "Invalid address 'w'", {}};
	if (e > 0xffff) return {s, false, "Invalid address range '" + s + "'", {}};
	return {s, true, "", {1, a, e}};
}
static Tok t_id(Rng &r, int ns) {
	if (ns == 2 && r.chance(20)) { Tok t = t_peek(r); if (r.chance(4)) return {"*", false, "Invalid identifier '*'", {}}; t.s = "*" + t.s; return t; }
	if (r.chance(4)) { std::string s = r.pick({"256", "0x100", "5x", "zz", "0x1g", "99999999999", "12w"}); return {s, false, "Invalid identifier '" + s + "'", {}}; }
	unsigned a = ns == 2 ? (r.chance(75) ? r.pick({2u, 3u, 0xau, 0x10u, 0x18u, 0x19u, 0x1au, 5u, 0xcu}) : r.below(256)) : r.below(256);
	return {n16(r, a), true, "", {ns, a, a}};
}
static Tok t_freeze(Rng &r) {
	int k = r.below(10); auto *t = M.table(); int len = 0; while (t && t[len].dtc_suffix) len++;
	std::string p = M.prefix();
	if (k < 4) { unsigned a = r.below(256); return {r.chance(50) ? fmt("0x%02X", a) : fmt("0%o", a), true, "", {4, a, a}}; }
	if (k == 4) { // decimal: taken as a raw byte, with a warning
		unsigned a = r.range(1, 400); std::string s = fmt("%u", a);
		if (a > 255) return {s, false, "Invalid identifier '" + s + "'\nDid you mean " + p + "-" + s + "?", {}};
		std::string m = fmt("Warning: retrieving freeze frame by raw identifier %u (=%02X).\nDid you mean ", a, a);
		return {s, true, m + (a < 100 ? "0x" + s : p + "-" + s) + "?", {4, a, a}};
	}
	if (k == 5) { std::string s = r.pick({"0x100", "0xfffff", "12q", "0xgg", "-"}); if (s == "-") s = "5-5"; return {s, false, "Invalid identifier '" + s + "'", {}}; }
	if (k < 9 && len && isalpha(p[0])) {
		auto &e = t[r.below(len)]; int sfx = e.dtc_suffix;
		if (sfx > 0) {
			std::string s = p + (r.chance(60) ? "-" : "") + fmt("%d", sfx); if (r.chance(30)) for (auto &c : s) c = tolower(c);
			if (s.size() <= 7) for (auto *x = t; x->dtc_suffix; x++) if (x->dtc_suffix == sfx) return {s, true, "", {4, x->raw_value, x->raw_value}};
		}
	}
	unsigned any = 0; if (len) { any = t[r.below(len)].dtc_suffix; }
	std::string s = r.pick(std::vector<std::string>{"ZZ-115", "EFI-115x", p + "-", p, p + "-0", p + "1", "EFI--1", p + "--1", p + fmt("%u", any > 999 ? 65535 : 65536 + any), "VERYLONGNAME-112"});
	bool valid = false; // unless that designation happens to exist
	{ size_t i = 0; while (i < s.size() && isalpha(s[i])) i++; std::string pre = s.substr(0, i), rest = s.substr(i); if (rest[0] == '-') rest = rest.substr(1); char *q; long v = strtol(rest.c_str(), &q, 10);
	  if (isalpha(s[0]) && !strcasecmp(pre.c_str(), p.c_str()) && !rest.empty() && !*q && v > 0 && t && s.size() <= 7) for (auto *x = t; x->dtc_suffix; x++) if (x->dtc_suffix == v) { valid = true; return {s, true, "", {4, x->raw_value, x->raw_value}}; } }
	(void)valid;
	return {s, false, "Invalid identifier '" + s + "'", {}};
}
// what the reading loop does with a parsed list; iterations: rounds before Enter
static void m_read(const std::vector<Item> &v, int fam, int rounds, bool live) {
	M.live = live;
	for (int n = 0; n < rounds && !M.broken; n++) {
		M.lines = 0;
		for (auto &it : v) {
			if (it.ns == 1) {
				for (unsigned a = it.a, left = it.e - it.a + 1; left;) {
					unsigned k = std::min(left, 8u);
					const Entry *e = M.st == D2 ? M.ask({0xa7, 0, (uint8_t)(a >> 8), (uint8_t)a, 1, (uint8_t)k}) : M.ask({1, (uint8_t)k, (uint8_t)(a >> 8), (uint8_t)a});
					if (!e) { M.live = false; return; }
					if (!e->ok) { M.live = false; M.ln(fmt("Error reading %s%04X", fam == 2 ? "*" : "", a)); return; }
					M.hexline(a, 4, e->d); M.interpret(1, a, e->d);
					a += k; left -= k;
				}
				continue;
			}
			uint8_t id = it.a;
			const Entry *e = it.ns == 2 ? M.ask({0xa5, id, 1}) : it.ns == 3 ? M.ask({0xb9, id}) : it.ns == 4 ? M.ask({0xad, id, 0}) : M.ask({8, id, 0, 0});
			if (!e) { M.live = false; return; }
			if (!e->ok) { M.live = false; M.ln(fmt("Error reading %02X", id)); return; }
			if (it.ns == 4) M.out(M.code(id) + "  ");
			if (e->d.empty()) { M.ln(fmt("%02X: no data", id)); continue; }
			Bytes d = e->d; if (d.size() > 20) d.resize(20);
			M.hexline(id, 2, d);
			if (e->d.size() > 20) M.ln(fmt(" (%zu bytes received, only first 20 shown)", e->d.size()));
			M.interpret(it.ns, id, d);
		}
		if (live && n + 1 < rounds) M.out(fmt("\033[%dF", M.lines));
		rep::cover("read-rounds");
	}
	M.live = false;
}
static long polls, press_at;
static void c_read(Rng &r) {
	static const char *name[] = {"", "peek", "read", "readnv", "freeze", "adc"};
	int fam = M.st == K71 ? r.pick({1, 1, 5, 5, 2, 3}) : r.pick({1, 1, 2, 2, 2, 3, 4, 4, 5});
	std::vector<Tok> v; int n = r.chance(85) ? r.range(1, 4) : r.range(0, 12);
	for (int i = 0; i < n; i++) v.push_back(fam == 1 ? t_peek(r) : fam == 4 ? t_freeze(r) : t_id(r, fam));
	std::string tail; int rounds = 1; bool live = false;
	bool cont = fam != 3 && fam != 4;
	if (cont && r.chance(35)) { live = r.chance(60); tail = live ? (r.chance(80) ? " live" : " LIVE") : " stream"; rounds = r.chance(70) ? r.range(1, 6) : r.range(7, 40); }
	bool both = !tail.empty() && r.chance(3);
	if (!cont && r.chance(4)) { v.push_back({"live", false, "Invalid identifier 'live'", {}}); }
	std::string c = std::string("850 ") + name[fam]; for (auto &t : v) c += " " + t.s;
	if (both) { c += live ? " stream live" : " live stream"; }
	else c += tail;
	press_at = tail.empty() ? 0 : rounds + 1; polls = 0;  // the first look at the keyboard is before the first round
	int m0 = mischief; if (rounds > 6) mischief = r.below(3);
	std::string o = run(c);
	mischief = m0; press_at = 0; app::stdin_reset();
	Conn want = fam == 5 ? K71 : D2;
	if (fam == 1) {
		if (c == "850 peek") { M.ln("Too few arguments"); check(o, CMD_USAGE); return; }
		if (!precond(D2, true)) { check(o, CMD_OK); return; }
	} else {
		if (!precond(want)) { check(o, CMD_OK); return; }
		if (v.empty() && tail.empty()) { M.ln("Too few arguments"); check(o, CMD_USAGE); return; }
	}
	if (v.empty() && !both) { if (tail.empty()) { M.ln("Too few arguments"); } check(o, CMD_USAGE); return; }
	if (both) {
		// the last word is the mode, the one before it just another item
		std::string w = live ? "stream" : "live";
		v.push_back({w, false, std::string(fam == 1 ? "Invalid address '" : "Invalid identifier '") + w + "'", {}}); rep::cover("two-modes");
	}
	std::vector<Item> its;
	for (auto &t : v) { if (!t.msg.empty()) for (auto &l : app::lines(t.msg)) { M.live = false; M.ln(l); } if (!t.ok) { check(o, CMD_OK); rep::cover("invalid-argument"); return; } its.push_back(t.it); }
	m_read(its, fam, rounds, live);
	check(o, CMD_OK);
	rep::cover(std::string("cmd-") + name[fam]);
}
static bool m_dtclist(Bytes &d) {
	const Entry *e = M.st == D2 ? M.ask({0xae, 1}) : M.ask({7});
	if (!e) return false;
	d = e->d; if (M.st == K71 && d == Bytes{0}) d.clear();
	return e->ok;
}
static void m_dtc(bool tips) {
	Bytes d; bool ok = m_dtclist(d); if (M.broken) return;
	if (!ok) { M.ln("Couldn't retrieve DTCs."); return; }
	M.read_dtcs = true;
	if (d.empty()) { M.ln("No stored DTCs."); return; }
	if (d.size() > 12) d.resize(12);
	M.ln("Stored DTCs:");
	bool unconf = false, have = false; size_t span = M.st == D2 ? 1 : 5;
	for (size_t i = 0; i < d.size(); i += span) {
		auto *t = M.find(d[i]); std::string ds = t ? t->desc : "";
		M.ln(M.code(d[i]) + fmt(" (%02X) ", d[i]) + ds);
		if (!ds.empty() && ds.back() == '?') unconf = true;
		if (t && t->tips) { have = true; if (tips) for (auto &l : app::lines(t->tips)) M.ln(l); }
	}
	if (unconf) M.ln("Warning: descriptions and DTC suffixes for lines ending in ? are unconfirmed");
	bool many = d.size() > span;
	if (have && !tips) M.ln(std::string("Tips are available for ") + (many ? "some of these DTCs" : "this DTC") + ". Use \"dtc tips\" to show them.");
	if (tips && !have) M.ln(std::string("No tips are available for ") + (many ? "these DTCs" : "this DTC") + ".");
	rep::cover("dtc-lists");
}
static void c_dtc(Rng &r) {
	bool tips = r.chance(40); std::string x = tips ? r.pick({" tips", " TIPS"}) : r.chance(3) ? " x" : "";
	std::string o = run("850 dtc" + x);
	if (x == " x") { check(o, CMD_USAGE); return; }
	if (!precond(D2, true)) { check(o, CMD_OK); return; }
	m_dtc(tips); check(o, CMD_OK);
}
static bool yes(const std::string &s) { return !strcasecmp(s.c_str(), "y") || !strcasecmp(s.c_str(), "yes"); }
static std::vector<std::string> replies(Rng &r, int n) {
	std::vector<std::string> v; while (n--) v.push_back(r.chance(65) ? r.pick({"y", "yes", "Y", "YES", "Yes"}) : r.pick({"n", "no", "", "yes please", "ye", " ", "1", "N", "yep", "\004"}));
	return v;
}
// asks one question; false: stopped here
static bool m_ask(size_t &i, const std::string &q) {
	M.out(q);
	if (i >= feed.size() || feed[i] == "\004") { rep::cover("user-left"); return false; }
	std::string a = feed[i++]; size_t b = a.find_first_not_of(' '); a = b == std::string::npos ? "" : a.substr(b);
	if (!yes(a)) { M.ln("Not done"); rep::cover("user-declined"); return false; }
	return true;
}
static void c_clear(Rng &r) {
	feed = replies(r, 2);
	std::string o = run("850 cleardtc"); bool eof = false; for (size_t k = 0; k < fed && k < feed.size(); k++) eof |= feed[k] == "\004";
	app::stdin_reset();
	if (!precond(D2, true)) { check(o, CMD_OK); return; }
	size_t i = 0;
	if (!m_ask(i, "Are you sure you wish to clear the Diagnostic Trouble Codes (y/n) ? ")) { check(o, CMD_OK); return; }
	if (!M.read_dtcs && !m_ask(i, "You haven't read the DTCs yet. Are you sure you wish to clear them (y/n) ? ")) { check(o, CMD_OK); return; }
	Bytes d; bool ok = m_dtclist(d); if (M.broken) return;
	if (!ok) M.ln("Failed");
	else if (d.empty()) M.ln("No DTCs to clear!");
	else { const Entry *e = M.st == D2 ? M.ask({0xaf, 1}) : M.ask({5}); if (!e) return; M.ln(e->ok ? "Done" : "Failed"); rep::cover("clears"); }
	check(o, CMD_OK);
}
static void c_freezeall(Rng &r) {
	int m0 = mischief; if (r.chance(60)) mischief = 0;
	std::string o = run(r.chance(80) ? "850 freeze all" : "850 freeze ALL"); mischief = m0;
	if (!precond(D2)) { check(o, CMD_OK); return; }
	Bytes d; bool ok = m_dtclist(d); if (M.broken) return;
	if (!ok) M.ln("Couldn't retrieve DTCs.");
	else if (d.empty()) M.ln("No stored DTCs.");
	else { std::vector<Item> v; for (size_t i = 0; i < d.size() && i < 12; i++) v.push_back({4, d[i], d[i]}); m_read(v, 4, 1, false); rep::cover("freeze-all"); }
	check(o, CMD_OK);
}
static void m_id() {
	if (M.st == D2) {
		const Entry *e = M.ask({0xb9, 0xf0}); if (!e) return;
		if (!e->ok) { M.ln("Couldn't read identification."); return; }
		const Bytes &b = e->d;
		if (b.size() != 15) { M.ln(fmt("Identification response was %zu bytes, expected 15", b.size())); return; }
		if (b[0]) { M.ln(fmt("First identification response byte was %02X, expected 0", b[0])); return; }
		for (int i : {5, 6, 7, 12, 13, 14}) if (b[i] < 0x20 || b[i] > 0x7e) { M.ln("Unexpected characters in version response"); return; }
		M.ln(fmt("Hardware ID: P%02X%02X%02X%02X revision %c%c%c", b[1], b[2], b[3], b[4], b[5], b[6], b[7]));
		M.ln(fmt("Software ID:  %02X%02X%02X%02X revision %c%c%c", b[8], b[9], b[10], b[11], b[12], b[13], b[14]));
		rep::cover("identified");
		if (M.ecu != 0x7a) return;
		e = M.ask({0xb9, 1}); if (!e || !e->ok) return;
		if (e->d.size() != 10) { M.ln(fmt("Identification response was %zu bytes, expected 10", e->d.size())); return; }
		for (auto c : e->d) if (c < '0' || c > '9') { M.ln("Unexpected characters in identification block"); return; }
		std::string s(e->d.begin(), e->d.end());
		M.ln("Order number: " + s.substr(0, 1) + " " + s.substr(1, 3) + " " + s.substr(4, 3) + " " + s.substr(7, 3));
		return;
	}
	for (size_t k = 0; k < 3 && k < M.ident.size(); k += 2) {
		const Bytes &b = M.ident[k];
		if (b.size() != 10) { M.ln(fmt("Identification block was %zu bytes, expected 10", b.size())); return; }
		std::string s(b.begin(), b.end());
		for (size_t i = 0; i < (k ? 7u : 10u); i++) if (b[i] < '0' || b[i] > '9') { M.ln("Unexpected characters in identification block"); return; }
		if (!k) M.ln("Order number: " + s.substr(0, 1) + " " + s.substr(1, 3) + " " + s.substr(4, 3) + " " + s.substr(7, 3));
		else M.ln("Hardware ID: P0" + s.substr(0, 7));
	}
	rep::cover("identified-kwp71");
}
static void c_id(Rng &) { std::string o = run("850 id"); if (precond(D2, true)) m_id(); check(o, CMD_OK); }
static void c_ping(Rng &) {
	std::string o = run("850 ping");
	if (precond(D2, true)) { if (M.st == D2) { const Entry *e = M.ask({0xa1}); if (!e) return; M.ln(e->ok ? "Pong!" : "Ping failed."); rep::cover("pings"); } else M.ln("Pong!"); }
	check(o, CMD_OK);
}
static void c_disconnect(Rng &r) {
	bool x = r.chance(3); std::string o = run(x ? "850 disconnect x" : "850 disconnect");
	if (x) { M.ln("Too many arguments"); check(o, CMD_USAGE); return; }
	if (precond(D2, true)) m_disconnect();
	check(o, CMD_OK);
}
static void c_test(Rng &r) {
	std::string a = r.pick({"fan1", "fan2", "FAN1", "fan3", "", "fan1 x"});
	std::string o = run("850 test" + (a.empty() ? "" : " " + a));
	if (precond(D2)) {
		std::string l = a; for (auto &c : l) c = tolower(c);
		if (M.ecu == 0x7a && (l == "fan1" || l == "fan2")) { const Entry *e = M.ask({0xb0, (uint8_t)(l == "fan1" ? 0x0e : 0x1f), 0x32, 3}); if (!e) return; M.ln(e->ok ? "Activating engine cooling fan." : "Unable to activate fan."); rep::cover("actuator-tests"); }
		else { M.ln("Usage: test <testname>"); if (M.ecu == 0x7a) { M.ln("Available tests:"); M.ln("fan1 - Activate engine cooling fan, half speed (please keep fingers clear)"); M.ln("fan2 - Activate engine cooling fan, full speed (please keep fingers clear)"); } else M.ln("No available tests for this ECU."); }
	}
	check(o, CMD_OK);
}
static void c_srl(Rng &r) {
	feed = replies(r, 1);
	std::string o = run("850 resetsrl"); app::stdin_reset();
	if (M.st == OTHER) { M.ln("Already connected with non-Volvo protocol. Please use 'diag disconnect'."); check(o, CMD_OK); return; }
	size_t i = 0;
	if (!m_ask(i, "Are you sure you wish to reset the Service Reminder Light (y/n) ? ")) { check(o, CMD_OK); return; }
	if (M.st != NONE && (M.st != D2 || M.ecu != 0x51)) { M.ln("Disconnecting from " + M.desc() + " first."); m_disconnect(); }
	if (M.st == NONE && !m_connect(0x51)) { M.ln("Couldn't connect to combined instrument panel."); check(o, CMD_OK); return; }
	const Entry *e = M.ask({0xb0, 0x30}); if (!e) return; bool old = e->ok;
	e = M.ask({0xb2, 0x30}); if (!e) return;
	M.ln(e->ok ? "Done" : e->silent && old ? "Probably done" : "Failed");
	rep::cover("srl-resets");
	check(o, CMD_OK);
}
static void c_scanall(Rng &) {
	std::string o = run("850 scan-all");
	if (!precond(NONE)) { check(o, CMD_OK); return; }
	M.ln("Scanning all ECUs.");
	for (auto *e = ecu_list; e->name && !M.broken; e++) {
		if (e->addr == 0x10) continue;
		if (m_connect(e->addr)) { m_id(); m_dtc(false); m_disconnect(); }
		else M.ln(std::string("Couldn't connect to ") + e->desc + ".");
	}
	M.ln("Scan-all done.");
	check(o, CMD_OK); rep::cover("scan-all");
}
static void c_dump(Rng &r) {
	bool fast = r.chance(92); std::string f = r.chance(5) ? "dir/none" : r.chance(15) ? "/dev/full" : "ram.txt"; bool full = f == "/dev/full";
	if (r.chance(5)) { std::string o = run(std::string("850 dumpram") + r.pick({"", " ram.txt slow", " ram.txt fast x"})); check(o, CMD_USAGE); return; }
	int m0 = mischief; mischief = fast ? r.below(4) : 0;
	if (fast && r.chance(70)) holes[M.ecu << 8 | 1] = 1;
	unlink("ram.txt");
	std::string o = run("850 dumpram " + f + (fast ? " fast" : "")); mischief = m0;
	if (!precond(D2)) { check(o, CMD_OK); return; }
	if (f != "ram.txt" && !full) { check(o, CMD_OK); return; }
	M.ln("Dumping RAM to " + f + "...");
	std::string want;
	for (unsigned a = 0;; ) {
		if (full && want.size() > 1 && M.pos >= lg.size()) break; // nothing can be stored: when that is noticed depends on buffering
		const Entry *e = M.ask({0xa7, 0, (uint8_t)(a >> 8), (uint8_t)a, 1, 8}); if (!e) return;
		if (e->ok) { want += fmt("%04X:", a); for (auto b : e->d) want += fmt(" %02X", b); want += "\n"; }
		if (full && e->ok && want.size() > 1 && M.pos >= lg.size()) break;
		if (!(a & 0x1f)) M.out(fmt("\r%04X %s", a, e->ok ? ":)" : ":/"));
		if (a == 0xfff8) break;
		a += 8; if (fast && !e->ok && a < 0xf000) a = 0xf000;
	}
	if (full && !want.empty()) {
		CHECK(o.find(":D") == std::string::npos, "850:dump-not-stored", "%s: %zu bytes written to a full disk: %s", M.ctx().c_str(), want.size(), o.c_str());
		rep::cover("dumps-to-full-disk"); check(o, CMD_OK); return;
	}
	M.ln("\rFFF8 :D");
	check(o, CMD_OK);
	if (full) return;
	std::string got; FILE *h = fopen("ram.txt", "r"); if (h) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) got.append(b, n); fclose(h); }
	if (!M.broken) CHECK(got == want, "850:dump", "%s: the file holds %zu bytes, should be %zu; they differ at byte %zu", M.ctx().c_str(), got.size(), want.size(), (size_t)(std::mismatch(got.begin(), got.begin() + std::min(got.size(), want.size()), want.begin()).first - got.begin()));
	rep::cover("dumps");
}
static void c_send(Rng &r) {
	size_t n = r.chance(90) ? r.range(1, 12) : r.range(13, 62); Bytes b = r.bytes(n);
	if (r.chance(4)) b = r.bytes(r.range(63, 270));
	b[0] = M.st == K71 ? r.pick({0x30, 0x31, 0x22}) : r.chance(50) ? r.pick({0xa7, 0xa5, 0xb9, 0xad, 0xa1, 0xb0}) : (int)(0x21 + r.below(0x5e));
	if (M.st == D2 && b[0] == 0xa7 && b.size() != 6) b[0] = 0x22;
	if (b[0] == 0xad && r.chance(80)) b.resize(1);
	std::string c = "850 sendreq"; for (auto x : b) { int k = r.below(3); c += k == 0 ? fmt(" 0x%02X", x) : k == 1 ? fmt(" %d", x) : fmt(" $%x", x); }
	bool nob = b.size() < 30 && r.chance(6); if (nob) c += std::string(" ") + r.pick({"x", "256", "-1", "0x100", "0xfg", "$", "09", "1.5", "4294967297"});
	int m0 = mischief; mischief = 0; nopend = true;
	std::string o = run(c); mischief = m0; nopend = false;
	if (!precond(D2, true)) { check(o, CMD_OK); return; }
	if (nob) { CHECK(app::g_rv != CMD_OK && app::has(o, "is not a byte") && M.pos == lg.size(), "850:sent-no-byte", "%s: \"%s\" said \"%s\"", M.ctx().c_str(), c.c_str(), o.c_str()); M.pos = lg.size(); rep::cover("no-bytes-refused"); return; }
	size_t cap = M.st == D2 ? 62 : 253;
	if (b.size() > cap) {
		bool refused = o.find("sendreq: failed") == 0;
		CHECK(refused || app::g_rv == CMD_USAGE, "850:oversize", "%s: %zu bytes: \"%s\"", M.ctx().c_str(), b.size(), o.c_str());
		CHECK(M.pos == lg.size(), "850:extra-request", "%s: %s sent for an oversized request", M.ctx().c_str(), M.pos < lg.size() ? hex(lg[M.pos].rq).c_str() : "");
		M.pos = lg.size(); rep::cover("oversize"); return;
	}
	const Entry *e = M.ask(b); if (!e) return;
	if (e->silent) M.ln("No data received");
	check(o, CMD_OK);
	for (size_t i = 0; i < e->raw.size() && !M.broken; i++) {
		std::string d = "data: "; for (auto x : e->raw[i]) d += fmt("0x%02X ", x);
		CHECK(app::has(M.err, d + "\n"), "850:display", "%s: the answer %s is not shown: %s", M.ctx().c_str(), hex(e->raw[i]).c_str(), M.err.c_str());
		if (M.st == D2) CHECK(app::has(M.err, fmt("src=0x%02X dest=0x13", M.ecu)), "850:display", "%s: addresses: %s", M.ctx().c_str(), M.err.c_str());
		if (e->kind != std::string("raw")) break;
	}
	rep::cover("raw-requests");
}
static void c_other(Rng &r) { // a session of another kind gets in between
	if (M.st != NONE) return;
	global_cfg.L1proto = DIAG_L1_ISO9141; global_cfg.L2proto = DIAG_L2_PROT_RAW; global_cfg.speed = 10400;
	std::string e; cmd2("diag connect", e);
	if (global_state != STATE_CONNECTED) { rep::violation("850:connection", "raw connection refused"); return; }
	M.st = OTHER; size_t tx = C->f.tx.size();
	for (int i = r.range(1, 5); i--;) {
		M.exp.clear();
		static void (*cm[])(Rng &) = {c_connect, c_read, c_dtc, c_clear, c_freezeall, c_id, c_ping, c_disconnect, c_test, c_srl, c_scanall, c_send, c_dump};
		cm[r.below(13)](r);
		if (M.broken) return;
	}
	CHECK(C->f.tx.size() == tx, "850:other-session", "%s put bytes on the bus of a session of another protocol", M.cmd.c_str());
	cmd2("diag disconnect", e);
	M.st = NONE; rep::cover("other-protocol");
}
static void c_idle(Rng &r) { int n = C->reqs.size(); idle(r.range(1, 20) * SEC); for (size_t i = n; i < C->reqs.size(); i++) if (C->reqs[i].b == Bytes{0xa1}) { M.pos = lg.size(); rep::cover("keepalives"); } else rep::violation("850:keepalive", "while idle, request " + hex(C->reqs[i].b)); }
static void cmds(Rng &r, long) {
	R = &r; wipe(); reset_clock(1000 * SEC); budget(36000 * SEC, 30000000); app::stdin_reset();
	if (!dbg_mode) diag_l0_debug = diag_l1_debug = diag_l2_debug = diag_l3_debug = 0;
	global_state = STATE_IDLE; global_l2_conn = nullptr; global_l3_conn = nullptr;
	lg.clear(); holes.clear(); M = Model(); mischief = r.pick({0, 3, 10, 25});
	volvo::Car car; C = &car; car.pingall = true; car.kwppresent = !r.chance(10);
	for (auto *e = ecu_list; e->name; e++) if (e->addr != 0x10 && r.chance(60)) { car.d2present.insert(e->addr); for (int i = r.below(4); i--;) holes[e->addr << 8 | (int)r.pick({0x00, 0x01, 0xff, 0xf8, 0x10, 0x80})] = 1; }
	car.d2present.insert(r.below(128)); car.d2present.insert(r.pick({0x7a, 0x6e, 0x51})); car.d2present.erase(0x10); car.d2present.erase(0x33);
	for (int i = r.range(1, 4); i--;) { Bytes b; for (int k = 0; k < 10; k++) b.push_back('0' + r.below(10)); if (r.chance(10)) b = r.bytes(r.below(14)); if (r.chance(10) && b.size()) b[r.below(b.size())] = r.pick({'/', ':', 'x'}); car.ident.push_back({0xf6, b}); }
	Rng r2(r.next());
	car.d2 = [&](uint8_t ecu, const Bytes &q) { return answer(r2, ecu, q); };
	car.k71 = [&](const volvo::Blk &q) { return answer71(r2, q); };
	car.delay = [&]() { return (ns_t)r2.range(5, 80) * MS; };
	global_dl0d = &car.f.dev;
	on_stdin = [&]() { if (fed < feed.size()) { std::string s = feed[fed++]; if (s == "\004") app::stdin_eof(); else app::stdin_feed(s + "\n"); } else app::stdin_eof(); };
	on_poll = [&]() { polls++; if (press_at && polls == press_at) app::stdin_feed("\n"); };
	unsigned long ser = alloc_serial(); bool k71 = false;
	static const struct { void (*f)(Rng &); int w; } cm[] = {{c_connect, 6}, {c_read, 40}, {c_dtc, 12}, {c_clear, 10}, {c_freezeall, 6}, {c_id, 8}, {c_ping, 4}, {c_disconnect, 4}, {c_test, 5}, {c_srl, 5}, {c_scanall, 1}, {c_send, 8}, {c_other, 1}, {c_idle, 3}};
	int tot = 0; for (auto &x : cm) tot += x.w;
	std::string sig;
	for (int i = r.range(4, 25); i-- && !M.broken;) {
		M.exp.clear(); M.pos = lg.size(); press_at = 0;
		if (M.st == NONE && r.chance(75)) c_connect(r);
		else if (M.st == D2 && r.below(400) == 0) c_dump(r);
		else { int k = r.below(tot); for (auto &x : cm) { if (k < x.w) { if (x.f == c_scanall && M.st == NONE && r.chance(70)) break; x.f(r); break; } k -= x.w; } }
		k71 |= M.st == K71; sig += M.cmd + ";";
	}
	M.exp.clear(); M.pos = lg.size();
	if (!M.broken) { if (M.st != NONE) c_disconnect(r); if (M.st != NONE) { M.exp.clear(); std::string o = run("850 disconnect"); m_disconnect(); check(o, CMD_OK); } }
	else if (global_state >= STATE_CONNECTED) { std::string e; cmd2("diag disconnect", e); }
	on_stdin = nullptr; on_poll = nullptr;
	if (!k71 && !M.broken) CHECK(live_since(ser).empty(), "850:leak", "%zu blocks left after: %s", live_since(ser).size(), sig.substr(0, 300).c_str());
	rep::distinct(sig); if (r.chance(1)) rep::sample(sig.substr(0, 300));
}
std::vector<Mode> modes() { return {{"cmds", cmds, setup, true}}; }
