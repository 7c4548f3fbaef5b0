// Configurable items and the "set" commands against a model of every setting.
#include "app.h"
#include "diag_os.h"
using namespace vt;
static std::vector<Tty *> g_tty;
static void setup() { stack_init(); app::init(); app::stdin_reset(); }

// ---- ports present on the virtual machine
static std::vector<std::string> g_ports;      // those that must be found
static void ports(Rng &r) {
	for (auto *t : g_tty) delete t;
	g_tty.clear(); g_ports.clear(); vdirs.clear();
	auto dir = [&](const std::string &d, bool usb) {
		std::vector<std::string> e = {".", ".."};
		int n = r.below(7);
		std::set<std::string> used;
		for (int i = 0; i < n; i++) {
			std::string name = r.pick({"ttyS", "ttyUSB", "ttyACM", "tty", "null", "ptyS", "xttyUSB", "ttyUS"}) + fmt("%d", (int)r.below(12));
			if (!used.insert(name).second) continue;
			e.push_back(name);
			int kind = r.below(10);   // 0 absent, 1 not a tty
			auto *t = new Tty(d + "/" + name); t->present = kind != 0; t->istty = kind != 1; g_tty.push_back(t);
			bool m = name.compare(0, 6, "ttyUSB") == 0 || (!usb && (name.compare(0, 4, "ttyS") == 0 || name.compare(0, 6, "ttyACM") == 0));
			if (m && kind > 1) g_ports.push_back(t->path);
		}
		vdirs[d] = e;
	};
	if (!r.chance(5)) dir("/dev", false); else vdirs["/none"] = {};
	if (r.chance(50)) dir("/dev/usb", true);
}
static std::string rstr(Rng &r) {
	static const char *f[] = {"/dev/ttyS0", "/dev/ttyUSB3", "x", "", "/dev/null", "0", "\\\\.\\COM11", "freediag_carsim.db"};
	if (r.chance(60)) return f[r.below(8)];
	std::string s; int n = r.chance(80) ? r.below(30) : r.below(900);
	for (int i = 0; i < n; i++) s += (char)r.range(33, 126);
	return s;
}
static int rint(Rng &r) { switch (r.below(5)) { case 0: return r.range(-5, 300); case 1: return (int)r.next(); case 2: return r.pick({0, 1, -1, 2147483647, -2147483647 - 1, 9999999, 10000000, -999999, -1000000, 12345678}); case 3: return 1 << r.below(31); default: return r.range(-200000, 200000); } }

// ---------------------------------------------------------------- api
struct Item { struct cfgi c; int kind; long v = 0, dv = 0; std::string s, ds; bool opts = false; std::vector<std::string> o; int no = 0; bool tty = false, cleared = false; };
static void check(Item &it, const char *after) {
	struct cfgi *c = &it.c;
	switch (it.kind) {
	case CFGT_INT: CHECK(c->val.i == it.v, "cfg:value", "after %s: int is %d, should be %ld", after, c->val.i, it.v); break;
	case CFGT_U8: CHECK(c->val.u8 == it.v, "cfg:value", "after %s: u8 is %d, should be %ld", after, c->val.u8, it.v); break;
	case CFGT_BOOL: CHECK(c->val.b == !!it.v, "cfg:value", "after %s: bool is %d, should be %ld", after, c->val.b, it.v); break;
	case CFGT_STR: CHECK(c->val.str && it.s == c->val.str, "cfg:value", "after %s: string is \"%s\", should be \"%s\"", after, c->val.str ? c->val.str : "(null)", it.s.c_str()); break;
	}
	CHECK(c->numopts == (int)it.no, "cfg:options", "after %s: %d options, should be %d", after, c->numopts, it.no);
}
static void api(Rng &r, long) {
	reset_clock(1000 * SEC); budget(60 * SEC, 200000);
	ports(r);
	unsigned long ser = alloc_serial();
	int n = r.range(1, 3); std::vector<Item> items(n);
	static char *itab[] = {(char *)"zero", (char *)"one", (char *)"two"};
	std::string script;
	for (auto &it : items) {
		memset((void *)&it.c, r.byte(), sizeof it.c); it.c.next = nullptr; it.c.opt = nullptr; it.c.dyn_opt = false; it.c.refresh = nullptr;
		// the way drivers create them: zeroed memory
		memset((void *)&it.c, 0, sizeof it.c);
		int k = r.below(5), rv = 0;
		capture([&]() {
			switch (k) {
			case 0: { it.kind = CFGT_INT; it.v = rint(r); it.dv = rint(r); rv = diag_cfgn_int(&it.c, it.v, it.dv);
				if (r.chance(30)) { it.c.opt = itab; it.c.numopts = 3; it.o = {"zero", "one", "two"}; it.no = 3; } break; }
			case 1: it.kind = CFGT_U8; it.v = r.byte(); it.dv = r.byte(); rv = diag_cfgn_u8(&it.c, it.v, it.dv); break;
			case 2: it.kind = CFGT_BOOL; it.v = r.below(2); it.dv = r.below(2); rv = diag_cfgn_bool(&it.c, it.v, it.dv); break;
			case 3: { it.kind = CFGT_STR; it.s = it.ds = rstr(r); std::string tmp = it.ds; tmp.c_str(); char *p = strdup(tmp.c_str()); rv = diag_cfgn_str(&it.c, p, "descr", "sn"); memset(p, '?', tmp.size()); free(p);
				CHECK(it.c.descr && !strcmp(it.c.descr, "descr") && it.c.shortname && !strcmp(it.c.shortname, "sn"), "cfg:create", "name or description not kept"); break; }
			case 4: it.kind = CFGT_STR; it.tty = true; rv = diag_cfgn_tty(&it.c); if (!rv) it.s = it.ds = it.c.val.str; break;
			}
		});
		CHECK(rv == 0, "cfg:create", "creating an item of kind %d failed: %d", k, rv);
		script += fmt("%d", k);
	}
	int ops = r.range(3, 25);
	for (int i = 0; i < ops; i++) {
		Item &it = items[r.below(n)]; struct cfgi *c = &it.c;
		int op = r.below(12), rv = 0; bool oom = r.chance(8);
		if (oom) fail_alloc_in = r.below(3);
		char what[80] = "";
		capture([&]() {
			switch (op) {
			case 0: { int v = rint(r); snprintf(what, sizeof what, "setint(%d)", v); rv = diag_cfg_setint(c, v); CHECK((rv == 0) == (it.kind == CFGT_INT), "cfg:type", "%s on kind %d returned %d", what, it.kind, rv); if (!rv) it.v = v; break; }
			case 1: { int v = r.byte(); snprintf(what, sizeof what, "setu8(%d)", v); rv = diag_cfg_setu8(c, v); CHECK((rv == 0) == (it.kind == CFGT_U8), "cfg:type", "%s on kind %d returned %d", what, it.kind, rv); if (!rv) it.v = v; break; }
			case 2: { bool v = r.below(2); snprintf(what, sizeof what, "setbool(%d)", v); rv = diag_cfg_setbool(c, v); CHECK((rv == 0) == (it.kind == CFGT_BOOL), "cfg:type", "%s on kind %d returned %d", what, it.kind, rv); if (!rv) it.v = v; break; }
			case 3: case 4: {
				std::string v = rstr(r); snprintf(what, sizeof what, "setstr(%.40s)", v.c_str());
				bool self = it.kind == CFGT_STR && r.chance(15); size_t off = 0;
				long fa = fail_alloc_in; fail_alloc_in = -1; char *p = strdup(v.c_str()); fail_alloc_in = fa;
				if (self) { off = r.below(strlen(c->val.str) + 1); v = c->val.str + off; }
				rv = diag_cfg_setstr(c, self ? c->val.str + off : p);
				if (it.kind != CFGT_STR) CHECK(rv != 0, "cfg:type", "%s on kind %d returned %d", what, it.kind, rv);
				else { CHECK(rv == 0 || oom, "cfg:set", "%s returned %d", what, rv); if (!rv) { it.s = v; rep::cover(self ? "set-from-itself" : "strings-set"); } else rep::cover("out-of-memory"); }
				memset(p, '?', strlen(p)); free(p); break; }
			case 5: case 6: {
				if (it.kind != CFGT_STR && it.kind != CFGT_INT) break;
				int o = r.range(-2, it.no + 1); snprintf(what, sizeof what, "setopt(%d)", o);
				rv = diag_cfg_setopt(c, o);
				bool ok = o >= 0 && o < it.no;
				if (!ok) { CHECK(rv != 0, "cfg:option-range", "option %d of %d was accepted", o, it.no); rep::cover("options-refused"); }
				else if (it.kind == CFGT_INT) { CHECK(rv == 0, "cfg:option", "%s returned %d", what, rv); it.v = o; rep::cover("options-set"); }
				else { CHECK(rv == 0 || oom, "cfg:option", "%s returned %d", what, rv); if (!rv) { it.s = it.o[o]; rep::cover("options-set"); } }
				break; }
			case 7: case 8: {
				snprintf(what, sizeof what, "getstr");
				char *s = diag_cfg_getstr(c);
				if (!s) { CHECK(oom, "cfg:get", "no text for an item of kind %d", it.kind); break; }
				rep::cover("values-shown");
				if (it.kind == CFGT_STR) CHECK(it.s == s, "cfg:get", "shows \"%s\" for \"%s\"", s, it.s.c_str());
				else { char *e; long v = strtol(s, &e, 0); while (*e == ' ') e++; CHECK(!*e && e != s && v == it.v, "cfg:get", "shows \"%s\" for %ld (kind %d)", s, it.v, it.kind); }
				free(s); break; }
			case 9: {
				snprintf(what, sizeof what, "reset"); diag_cfg_reset(c);
				if (it.kind == CFGT_STR) { if (oom && c->val.str && it.s == c->val.str) break; it.s = it.ds; } else it.v = it.dv;
				rep::cover("resets"); break; }
			case 10: case 11: {
				if (r.chance(30)) ports(r);
				snprintf(what, sizeof what, "refresh");
				diag_cfg_refresh(c);
				if (!it.tty) break;
				std::vector<std::string> g; for (int k = 0; k < c->numopts; k++) g.push_back(c->opt[k]);
				CHECK(open_dirs == 0, "cfg:leak", "directory left open");
				for (auto *t : g_tty) CHECK(t->nopen == 0, "cfg:leak", "port %s left open", t->path.c_str());
				if (!oom) { CHECK(g == g_ports, "cfg:ports", "found %zu ports, there are %zu", g.size(), g_ports.size()); if (!g.empty()) it.ds = g[0]; rep::cover("port-lists"); rep::cover("ports-found", g.size()); }
				else { CHECK(g.empty() || g == g_ports, "cfg:ports", "out of memory: found %zu ports of %zu", g.size(), g_ports.size()); if (!g.empty()) it.ds = g[0]; }
				it.o = g; it.no = g.size();
				break; }
			}
		});
		fail_alloc_in = -1;
		script += fmt(".%d", op);
		for (auto &x : items) check(x, what);
	}
	capture([&]() { for (auto &it : items) diag_cfg_clear(&it.c); });
	auto lv = live_since(ser);
	CHECK(lv.empty(), "cfg:leak", "%zu blocks left after clearing the items", lv.size());
	rep::distinct(script);
}

// ---------------------------------------------------------------- set
struct SItem { std::string name; int type; std::string s; long v; };
struct Model { std::string iface, l1, l2, init; unsigned speed; int src, tgt, func, units; std::vector<SItem> it; bool dev; } M;
static const char *L1N[] = {"ISO9141", "ISO14230", "J1850-VPW", "J1850-PWM", "CAN", "RAW"};
static const int L1V[] = {1, 2, 4, 8, 16, 128};
static const char *INI[] = {"5BAUD", "FAST", "CARB"};
static std::string lc(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static std::string anycase(Rng &r, std::string s) { if (r.chance(50)) return s; for (auto &c : s) c = r.chance(50) ? tolower(c) : toupper(c); return s; }
static void items_now() {
	M.it.clear(); M.dev = global_dl0d != nullptr;
	if (!global_dl0d) return;
	for (struct cfgi *c = diag_l0_getcfg(global_dl0d); c; c = c->next) {
		SItem s; s.name = c->shortname; s.type = c->type; s.v = c->type == CFGT_INT ? c->val.i : c->type == CFGT_U8 ? c->val.u8 : c->type == CFGT_BOOL ? c->val.b : 0; if (c->type == CFGT_STR) s.s = c->val.str;
		M.it.push_back(s);
	}
}
static std::string last(const std::string &l) { size_t e = l.find_last_not_of(" \t\r"); if (e == std::string::npos) return ""; size_t b = l.find_last_of(" \t", e); return l.substr(b == std::string::npos ? 0 : b + 1, e - (b == std::string::npos ? 0 : b + 1) + 1); }
static bool shown(const SItem &s, const std::string &v) {
	if (s.type == CFGT_STR) return v == s.s;
	char *e; long x = strtol(v.c_str(), &e, 0); return e != v.c_str() && strspn(e, " ") == strlen(e) && x == s.v;
}
static void verify(const char *after) {
	std::string o = app::cmd("set show");
	std::map<std::string, std::string> got; std::vector<std::pair<std::string, std::string>> opt; bool inopt = false;
	for (auto &l : app::lines(o)) {
		if (l.compare(0, 10, "L0 options") == 0) { inopt = true; continue; }
		if (inopt) { size_t e = l.find('='); if (e != std::string::npos) { size_t b = l.find_first_not_of(" \t"); opt.push_back({l.substr(b, e - b), l.substr(e + 1)}); } continue; }
		size_t c = l.find(':'); if (c != std::string::npos) got[lc(l.substr(0, c))] = l.substr(c + 1);
	}
	auto want = [&](const char *k, const std::string &v) {
		if (!got.count(k)) { rep::violation("set:show", fmt("after %s: \"set show\" doesn't show %s: %s", after, k, o.c_str())); return; }
		std::string g = last(got[k]);
		CHECK(lc(g) == lc(v), "set:value", "after \"%s\": %s is shown as \"%s\", should be %s", after, k, g.c_str(), v.c_str());
	};
	want("interface", M.iface); want("testerid", fmt("0x%02X", M.src)); want("destaddr", fmt("0x%02X", M.tgt));
	want("l1protocol", M.l1); want("l2protocol", M.l2); want("initmode", M.init);
	{ char *e; std::string g = last(got["connect speed"]); CHECK(strtoul(g.c_str(), &e, 10) == M.speed && !*e, "set:value", "after \"%s\": speed is shown as %s, should be %u", after, g.c_str(), M.speed); }
	CHECK(app::has(got["display"], M.units ? "english" : "metric"), "set:value", "after \"%s\": display is shown as %s", after, got["display"].c_str());
	CHECK(app::has(got["addrtype"], M.func ? "func" : "phys"), "set:value", "after \"%s\": address type is shown as %s", after, got["addrtype"].c_str());
	CHECK(opt.size() == M.it.size(), "set:show", "after \"%s\": %zu interface items shown, there are %zu", after, opt.size(), M.it.size());
	for (size_t i = 0; i < opt.size() && i < M.it.size(); i++) CHECK(opt[i].first == M.it[i].name && shown(M.it[i], opt[i].second), "set:value", "after \"%s\": %s shown as %s=%s", after, M.it[i].name.c_str(), opt[i].first.c_str(), opt[i].second.c_str());
	// what connecting will use
	int l1 = 0; for (int i = 0; i < 6; i++) if (M.l1 == L1N[i]) l1 = L1V[i];
	int ini = 0; for (int i = 0; i < 3; i++) if (M.init == INI[i]) ini = i;
	CHECK(global_cfg.src == M.src && global_cfg.tgt == M.tgt && global_cfg.speed == M.speed && global_cfg.addrtype == !!M.func && global_cfg.units == !!M.units && global_cfg.L1proto == l1 && global_cfg.initmode == ini, "set:stored", "after \"%s\": stored settings differ from those set", after);
	const struct diag_l2_proto *p = nullptr; for (int i = 0; l2proto_list[i]; i++) if (l2proto_list[i]->diag_l2_protocol == global_cfg.L2proto) p = l2proto_list[i];
	CHECK(p && M.l2 == p->shortname, "set:stored", "after \"%s\": stored L2 protocol is %s, should be %s", after, p ? p->shortname : "?", M.l2.c_str());
	CHECK(!global_dl0d || lc(global_dl0d->dl0->shortname) == lc(M.iface), "set:interface", "after \"%s\": interface in use is %s", after, global_dl0d ? global_dl0d->dl0->shortname : "none");
	rep::cover("show-checked");
}
// a number as a user may write it; val: what it means (0 if it isn't one)
static bool g_nan;   // the last one was no number, or none that fits
static std::string number(Rng &r, long lo, long hi, long &val) {
	g_nan = r.chance(12);
	if (g_nan) {
		val = 0;
		switch (r.below(8)) {
		case 0: return r.pick({"zz", "12x", "0x", "$", "x10", "1.5", "12,", "--3", "0x-1", "ten"});
		case 1: return "0" + std::string(1, '8' + r.below(2));
		case 2: return "0xG1"; case 3: return "1A"; case 4: return "12a4";
		case 5: return "0x" + fmt("%llX", 0x80000000ULL + r.below(1ULL << 36));
		case 6: return fmt("%llu", 2147483648ULL + r.below(1ULL << 40)); default: { std::string s; for (int i = r.range(12, 60); i--;) s += (char)('1' + r.below(9)); return s; }
		}
	}
	val = r.range(lo, hi);
	long a = val < 0 ? -val : val; const char *sg = val < 0 ? "-" : "";
	switch (r.below(5)) {
	case 0: return fmt(r.chance(50) ? "%s0x%lx" : "%s0X%lX", sg, a);
	case 1: return fmt("%s$%lX", sg, a);
	case 2: return fmt("%s0%lo", sg, a);
	default: return a ? fmt("%s%ld", sg, a) : std::string("0");
	}
}
static void said(const std::string &o, bool ok, bool help, const std::string &c) {
	bool no = o.find("nvalid") != std::string::npos;
	if (!help) { CHECK(no == !ok, "set:said", "\"set %s\" (%s) said: %s", c.c_str(), ok ? "valid" : "not valid", o.c_str()); rep::cover("answers-read"); }
}
static void set(Rng &r, long) {
	reset_clock(1000 * SEC); budget(600 * SEC, 2000000);
	ports(r);
	capture([&]() { if (global_dl0d) { diag_l0_del(global_dl0d); global_dl0d = nullptr; } });
	unsigned long ser = alloc_serial();
	global_state = STATE_IDLE;
	capture([&]() { set_init(); });
	M.iface = "DUMB"; M.l1 = "ISO9141"; M.l2 = l2proto_list[0]->shortname; M.init = "FAST"; M.speed = 10400; M.src = 0xf1; M.tgt = 0x33; M.func = 1; M.units = 0;
	items_now();
	verify("start");
	int ops = r.range(2, 14); std::string script;
	for (int i = 0; i < ops; i++) {
		int op = r.below(12); std::string c; script += fmt("%x", op);
		long v;
		switch (op) {
		case 0: { std::vector<std::string> n; for (int k = 0; l0dev_list[k]; k++) n.push_back(l0dev_list[k]->shortname);
			std::string w = r.chance(75) ? r.pick(n) : r.pick({std::string("NONE"), std::string("DUM"), std::string("DUMBX"), std::string("?"), n[0] + "2"});
			bool ok = std::count(n.begin(), n.end(), w); bool two = r.chance(6); bool busy = ok && !two && global_dl0d && r.chance(15);
			if (busy) global_dl0d->opened = 1;
			c = "interface " + anycase(r, w) + (two ? " extra" : ""); app::cmd("set " + c);
			if (busy) { global_dl0d->opened = 0; rep::cover("interface-busy"); }
			else if (ok && !two) { M.iface = w; items_now(); CHECK(M.dev, "set:interface", "interface %s wasn't loaded", w.c_str()); rep::cover("interfaces-selected"); }
			else rep::cover("invalid-values");
			break; }
		case 1: { std::string w = number(r, r.chance(10) ? -200000 : 0, 200000, v); c = "speed " + w; app::cmd("set " + c); if (!g_nan && v >= 0) { M.speed = v; rep::cover("numbers-set"); } else { CHECK(app::g_rv != CMD_OK, "set:range", "\"set %s\" reported success", c.c_str()); rep::cover("numbers-refused"); } break; }
		case 2: case 3: { bool big = r.chance(20); std::string w = big ? number(r, r.chance(50) ? -70000 : 256, 70000, v) : number(r, 0, 255, v); c = (op == 2 ? "testerid " : "destaddr ") + w; app::cmd("set " + c);
			if (!g_nan && v >= 0 && v <= 255) { (op == 2 ? M.src : M.tgt) = v; rep::cover("numbers-set"); } else { CHECK(app::g_rv != CMD_OK, "set:range", "\"set %s\" reported success", c.c_str()); rep::cover("numbers-refused"); } break; }
		case 4: { int k = r.below(3); c = std::string("addrtype ") + r.pick(k == 0 ? std::vector<std::string>{"func", "functional"} : k == 1 ? std::vector<std::string>{"phys", "physical"} : std::vector<std::string>{"fun", "x", "?", "PH"}); app::cmd("set " + c); if (k < 2) M.func = k == 0; else { CHECK(app::g_rv != CMD_OK, "set:invalid", "\"set %s\" reported success", c.c_str()); rep::cover("invalid-values"); } break; }
		case 5: { int k = r.below(3); c = "display " + (k == 0 ? anycase(r, "english") : k == 1 ? anycase(r, "metric") : std::string(r.pick({"eng", "?", "metricx"}))); app::cmd("set " + c); if (k < 2) M.units = k == 0; else { CHECK(app::g_rv != CMD_OK, "set:invalid", "\"set %s\" reported success", c.c_str()); rep::cover("invalid-values"); } break; }
		case 6: { std::vector<std::string> n(L1N, L1N + 6); std::string w = r.chance(75) ? r.pick(n) : r.pick({std::string("ISO"), std::string("?"), std::string("CANX"), std::string("iso91411")}); c = "l1protocol " + anycase(r, w); said(app::cmd("set " + c), std::count(n.begin(), n.end(), w), w == "?", c); if (std::count(n.begin(), n.end(), w)) { M.l1 = w; rep::cover("protocols-set"); } else rep::cover("invalid-values"); break; }
		case 7: { std::vector<std::string> n; for (int k = 0; l2proto_list[k]; k++) n.push_back(l2proto_list[k]->shortname); std::string w = r.chance(75) ? r.pick(n) : r.pick({std::string("ISO"), std::string("?"), std::string("RAWX")}); c = "l2protocol " + anycase(r, w); said(app::cmd("set " + c), std::count(n.begin(), n.end(), w), w == "?", c); if (std::count(n.begin(), n.end(), w)) { M.l2 = w; rep::cover("protocols-set"); } else rep::cover("invalid-values"); break; }
		case 8: { std::vector<std::string> n(INI, INI + 3); std::string w = r.chance(75) ? r.pick(n) : r.pick({std::string("FASTER"), std::string("?"), std::string("5")}); c = "initmode " + anycase(r, w); said(app::cmd("set " + c), std::count(n.begin(), n.end(), w), w == "?", c); if (std::count(n.begin(), n.end(), w)) M.init = w; else rep::cover("invalid-values"); break; }
		case 9: case 10: {
			if (M.it.empty()) break;
			SItem &s = M.it[r.below(M.it.size())]; int k = r.below(10);
			if (k == 0) { c = s.name + " ?"; std::string o = app::cmd("set " + c); if (s.name == "port") for (auto &p : g_ports) CHECK(app::has(o, p), "set:options", "\"set port ?\" doesn't list %s: %s", p.c_str(), o.c_str()); rep::cover("options-listed"); break; }
			if (k == 1) { c = anycase(r, s.name); std::string o = app::cmd("set " + c); size_t q = o.find(':'); std::string w = q == std::string::npos ? "" : app::lines(o.substr(q + 1))[0]; size_t b = w.find_first_not_of(" "); CHECK(b != std::string::npos && shown(s, w.substr(b)), "set:value", "\"set %s\" shows \"%s\"", c.c_str(), o.c_str()); break; }
			if (s.type == CFGT_STR) { std::string w; do w = rstr(r); while (w.empty() || w == "?" ); c = anycase(r, s.name) + " " + w; app::cmd("set " + c); s.s = w; }
			else {
				std::string w = s.type == CFGT_U8 ? number(r, r.chance(10) ? -300 : 0, r.chance(20) ? 1000 : 255, v) : s.type == CFGT_BOOL ? number(r, 0, 1, v) : number(r, -100000, 200000, v); c = anycase(r, s.name) + " " + w; app::cmd("set " + c);
				if (g_nan || (s.type == CFGT_U8 && (v < 0 || v > 255))) { CHECK(app::g_rv != CMD_OK, "set:range", "\"set %s\" reported success", c.c_str()); rep::cover("items-refused"); break; }
				s.v = v;
			}
			CHECK(app::g_rv == CMD_OK, "set:refused", "\"set %s\" failed", c.c_str());
			rep::cover("items-set"); break; }
		default: { c = r.pick({"nosuchitem", "por", "dumbopt", "?"}) + std::string(r.chance(50) ? " 5" : ""); bool isport = c[0] == '?'; app::cmd("set " + c); if (!isport) CHECK(app::g_rv != CMD_OK, "set:invalid", "\"set %s\" reported success", c.c_str()); rep::cover("invalid-values"); }
		}
		verify(c.c_str());
	}
	capture([&]() { if (global_dl0d) { diag_l0_del(global_dl0d); global_dl0d = nullptr; } });
	auto lv = live_since(ser);
	CHECK(lv.empty(), "set:leak", "%zu blocks left after removing the interface", lv.size());
	rep::distinct(script + M.iface + fmt("%d%d%s%s", M.src, M.tgt, M.l1.c_str(), M.l2.c_str()));
}
std::vector<Mode> modes() { return {{"api", api, setup}, {"set", set, setup}}; }
