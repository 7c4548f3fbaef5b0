// The car simulator interface against an independent reading of its file format.
#include "l2util.h"
#include <unistd.h>
#include <cmath>
extern "C" {
#include "diag_cfg.h"
#include "diag_os.h"
}
static std::string g_path;
static struct diag_l0_device *g_dev;
static void setup() {
	stack_init();
	char t[] = "/tmp/vsimXXXXXX"; close(mkstemp(t)); g_path = t;
	static std::string keep = g_path; atexit([] { unlink(keep.c_str()); });
}
static void put(const std::string &s) { FILE *f = fopen(g_path.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static bool mk() {
	if (g_dev) return true;
	capture([&]() { g_dev = diag_l0_new("CARSIM"); });
	if (!g_dev) return false;
	for (struct cfgi *c = diag_l0_getcfg(g_dev); c; c = c->next) if (c->shortname && !strcmp(c->shortname, "simfile")) { capture([&]() { diag_cfg_setstr(c, g_path.c_str()); }); return true; }
	return false;
}
struct Tok { int k; uint8_t v; };      // 0 hex, 1 req, 2 req+, 3 cks1, 4 sin1, 5 swt1
struct Rp { std::vector<Tok> t; std::string text; };
struct Rq { std::vector<int> b; std::vector<Rp> rp; };   // -1: don't care
struct Db { std::vector<Rq> rq; bool dataonly = false, nocksum = false, framed = false, fullinit = false; int proto = 0; };
static const struct { const char *n; int p; } protos[] = {{"P_9141", DIAG_L1_ISO9141}, {"P_14230", DIAG_L1_ISO14230}, {"P_J1850P", DIAG_L1_J1850_PWM}, {"P_J1850V", DIAG_L1_J1850_VPW}, {"P_CAN", DIAG_L1_CAN}, {"P_RAW", DIAG_L1_RAW}};
static std::string hexb(Rng &r, uint8_t v) { return r.chance(85) ? fmt(r.chance(50) ? "0x%02X" : "0x%02x", v) : fmt("%02X", v); }
static std::string noise(Rng &r) {
	std::string s = r.pick({"# ", "#", "### "});
	int n = r.chance(70) ? r.below(18) : r.chance(70) ? r.below(90) : r.below(1200);
	for (int i = 0; i < n; i++) s += (char)r.range(32, 126);
	// something looking like a directive in the middle of a comment
	if (r.chance(40)) { std::string d = r.pick({"CFG DATAONLY", "CFG FULLINIT", "RQ 0x01 0x02", "RP 0x99", "CFG P_CAN", "CFG FRAMED", "CFG NOL2CKSUM"}); int at = r.chance(50) ? 19 * (int)r.range(1, 3) : r.range(1, 60); while ((int)s.size() < at) s += ' '; s.resize(at); s += d; }
	return s;
}
static std::string build(Rng &r, Db &db, bool &crlf) {
	std::string o; crlf = r.chance(10); std::string nl = crlf ? "\r\n" : "\n";
	auto junk = [&]() { while (r.chance(30)) o += (r.chance(20) ? std::string() : noise(r)) + nl; };
	int ncfg = r.below(4);
	junk();
	auto cfg = [&]() {
		std::string c;
		switch (r.below(6)) {
		case 0: c = "DATAONLY"; db.dataonly = true; break;
		case 1: c = "NOL2CKSUM"; db.nocksum = true; break;
		case 2: c = "FRAMED"; db.framed = true; break;
		case 3: c = "FULLINIT"; db.fullinit = true; break;
		default: { auto &p = protos[r.below(6)]; c = p.n; db.proto = p.p; }
		}
		o += "CFG " + c + nl;
	};
	while (ncfg-- > 0) { cfg(); junk(); }
	int nrq = r.range(1, 6);
	uint8_t common = r.byte();
	for (int i = 0; i < nrq; i++) {
		Rq q; int n = r.chance(90) ? r.range(1, 8) : r.range(9, 250);
		for (int j = 0; j < n; j++) q.b.push_back(r.chance(15) ? -1 : r.chance(60) ? common : r.byte());
		if (q.b[0] < 0) q.b[0] = common;
		o += "RQ"; for (int b : q.b) o += " " + (b < 0 ? std::string("XXXX") : hexb(r, b));
		if (r.chance(10)) o += "  ";
		o += nl; junk();
		int m = r.chance(20) ? 0 : r.chance(98) ? r.range(1, 4) : r.range(200, 600); bool many = m > 100;
		for (int j = 0; j < m; j++) {
			Rp p; int k = many || r.chance(88) ? r.range(1, 12) : r.chance(50) ? r.range(13, 260) : 0;
			p.text = "RP";
			for (int x = 0; x < k; x++) {
				Tok t = {0, r.byte()}; std::string s = hexb(r, t.v);
				if (r.chance(30) && p.text.size() + 5 * (k - x) < 1285) switch (r.below(8)) {
					case 0: case 1: t = {1, (uint8_t)r.range(1, std::min(n, 255))}; s = fmt("req%d", t.v); break;
					case 2: case 3: t = {2, (uint8_t)r.range(1, std::min(n, 255))}; s = fmt("req%d+", t.v); break;
					case 4: case 5: t = {3, 0}; s = "cks1"; break;
					case 6: t = {4, 0}; s = "sin1"; break;
					case 7: t = {5, 0}; s = "swt1"; break;
				}
				p.t.push_back(t); p.text += " " + s;
			}
			o += p.text + nl; junk();
			q.rp.push_back(p);
		}
		db.rq.push_back(q);
		if (r.chance(8)) cfg();
	}
	if (r.chance(25)) while (!o.empty() && (o.back() == '\n' || o.back() == '\r')) o.pop_back();
	return o;
}
static const Rq *find(const Db &db, const Bytes &q) {
	for (auto &e : db.rq) {
		if (q.size() < e.b.size()) continue;
		bool ok = true;
		for (size_t i = 0; i < e.b.size() && ok; i++) ok = e.b[i] < 0 || e.b[i] == q[i];
		if (ok) return &e;
	}
	return nullptr;
}
// check one answer's bytes against its line; times are those of the clock at parsing
static bool answer_ok(const Rp &p, const Bytes &q, const Bytes &got, unsigned long ms, std::string &why) {
	if (got.size() != p.t.size()) { why = fmt("%zu bytes instead of %zu", got.size(), p.t.size()); return false; }
	uint8_t s = 0;
	for (size_t i = 0; i < got.size(); i++) {
		const Tok &t = p.t[i]; int w = -1;
		switch (t.k) {
		case 0: w = t.v; break;
		case 1: w = q[t.v - 1]; break;
		case 2: w = (uint8_t)(q[t.v - 1] + 1); break;
		case 3: w = s; break;
		case 4: { double v = 127 * sin((ms % 1000) * 2 * M_PI / 1000); int a = (int8_t)got[i], b = (int)got[i] - 128;
			if (std::fabs(a - v) > 2.01 && std::fabs(b - v) > 2.01) { why = fmt("sin1 is %d at %lu ms", got[i], ms % 1000); return false; } break; }
		case 5: { double v = 255.0 * (ms % 1000) / 1000; if (std::fabs(got[i] - v) > 1.01 && !(v > 253 && got[i] < 2) && !(v < 2 && got[i] > 253)) { why = fmt("swt1 is %d at %lu ms", got[i], ms % 1000); return false; } break; }
		}
		if (w >= 0 && got[i] != w) { why = fmt("byte %zu is %02X instead of %02X", i, got[i], w); return false; }
		s += got[i];
	}
	return true;
}
static void run(Rng &r, long) {
	vt::reset_clock((1000000 + r.below(5000)) * vt::MS);
	if (!mk()) { rep::violation("sim:device", "no CARSIM device"); return; }
	for (int round = r.range(1, 2); round; round--) {
		Db db; bool crlf; std::string text = build(r, db, crlf);
		put(text);
		int want = r.pick({DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_RAW, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM});
		if (db.proto && r.chance(80) && db.proto != DIAG_L1_CAN) want = db.proto;
		std::string ctx = fmt("proto %d file %zu bytes%s, ", want, text.size(), crlf ? " crlf" : "");
		int rv; capture([&]() { rv = diag_l1_open(g_dev, want); });
		bool refuse = db.proto && db.proto != want;
		CHECK((rv != 0) == refuse, "sim:protocol-restriction", "%sfile restricted to %d: open returned %d", ctx.c_str(), db.proto, rv);
		rep::cover(refuse ? "refused-protocol" : "opened");
		if (rv) continue;
		uint32_t fl = diag_l1_getflags(g_dev);
		bool framed = db.framed || db.dataonly || db.nocksum;
		struct { uint32_t m; bool w; const char *n; } fs[] = {
			{DIAG_L1_DOESL2FRAME, framed, "framing"}, {DIAG_L1_DOESL2CKSUM, db.nocksum || db.dataonly, "adds checksum"}, {DIAG_L1_STRIPSL2CKSUM, db.nocksum || db.dataonly, "strips checksum"},
			{DIAG_L1_DATAONLY, db.dataonly, "data only"}, {DIAG_L1_NOHDRS, db.dataonly, "no headers"}, {DIAG_L1_DOESFULLINIT, db.fullinit, "full init"}, {DIAG_L1_SLOW, true, "slow init"}, {DIAG_L1_FAST, true, "fast init"}, {DIAG_L1_NOTTY, true, "no tty"}, {DIAG_L1_HALFDUPLEX, false, "half duplex"}};
		for (auto &x : fs) CHECK(!!(fl & x.m) == x.w, "sim:configuration", "%s%s is %d, file says %d:\n%s", ctx.c_str(), x.n, !!(fl & x.m), x.w, text.substr(0, 700).c_str());
		rep::cover("configurations");
		const Rq *open_q = nullptr; Bytes oq; size_t ri = 0; Bytes acc; unsigned long parse_ms = 0;   // unread answers
		for (int n = r.range(2, 10); n; n--) {
			// a request: from the file, altered, shortened, extended or random
			Bytes q; const Rq &e = db.rq[r.below(db.rq.size())];
			for (int b : e.b) q.push_back(b < 0 ? r.byte() : b);
			if (r.chance(25)) q[r.below(q.size())] ^= 1 << r.below(8);
			if (r.chance(20)) q.resize(r.range(1, q.size()));
			while (r.chance(30) && q.size() < 260) q.push_back(r.byte());
			vt::advance(r.below(3000) * vt::MS);
			bool init = r.chance(8); int type = init ? r.pick({(int)DIAG_L1_INITBUS_FAST, (int)DIAG_L1_INITBUS_5BAUD, (int)DIAG_L1_INITBUS_2SLOW}) : 0;
			std::string why;
			if (init) {
				struct diag_l1_initbus_args in; memset(&in, 0, sizeof in); in.type = type; in.addr = e.b[0]; q = {type == DIAG_L1_INITBUS_FAST ? (uint8_t)0 : in.addr};
				parse_ms = diag_os_getms();
				capture([&]() { rv = diag_l1_ioctl(g_dev, DIAG_IOCTL_INITBUS, &in); });
				bool bad = !db.fullinit && type == DIAG_L1_INITBUS_2SLOW;
				CHECK((rv != 0) == bad, "sim:init", "%sinit type %d returned %d", ctx.c_str(), type, rv);
				rep::cover("bus-inits");
				open_q = nullptr; acc.clear(); ri = 0;
				if (db.fullinit || bad) continue;
				open_q = find(db, q); oq = q;
				if (open_q && open_q->rp.empty()) open_q = nullptr;
				if (open_q && type == DIAG_L1_INITBUS_5BAUD) {   // the sync byte is consumed
					if (framed || open_q->rp[0].t.size() <= 1) ri = 1; else { ri = 0; acc.resize(1); acc[0] = 0; }
					if (!acc.empty()) { auto &t = open_q->rp[0].t[0]; if (t.k > 3) { open_q = nullptr; break; } acc[0] = t.k == 0 ? t.v : t.k == 1 ? q[t.v - 1] : t.k == 2 ? q[t.v - 1] + 1 : 0; }
				}
				if (open_q && ri >= open_q->rp.size()) open_q = nullptr;
			} else {
				bool expect_refuse = open_q != nullptr;
				Bytes qq = q; uint8_t *hp = (uint8_t *)malloc(q.size()); memcpy(hp, q.data(), q.size());
				capture([&]() { rv = diag_l1_send(g_dev, hp, q.size(), 0); });
				free(hp);
				CHECK((rv != 0) == expect_refuse, "sim:send", "%srequest %s with%s unread answers returned %d", ctx.c_str(), hex(q).c_str(), expect_refuse ? "" : "out", rv);
				if (rv) { rep::cover("refused-with-answers-unread"); }
				else { open_q = find(db, q); oq = q; ri = 0; acc.clear(); if (open_q && open_q->rp.empty()) { open_q = nullptr; rep::cover("requests-without-answer-lines"); } else rep::cover(open_q ? "requests-matched" : "requests-unmatched"); }
			}
			// read: everything, or some
			int reads = r.chance(75) ? 100000 : r.below(4);
			while (reads-- > 0) {
				size_t len = r.chance(50) ? r.range(1, 20) : 300;
				uint8_t *buf = (uint8_t *)malloc(len);
				vt::ns_t t0 = vt::now();
				unsigned long ms = diag_os_getms();
				capture([&]() { rv = diag_l1_recv(g_dev, buf, len, r.pick({1, 50, 300})); });
				if (rv > 0) vt::defined(buf, (size_t)rv < len ? rv : len);
				Bytes got; if (rv > 0) got.assign(buf, buf + rv);
				free(buf);
				(void)t0;
				if (!open_q) { CHECK(rv == DIAG_ERR_TIMEOUT, "sim:answers", "%s%s has no (more) answers, got %d %s", ctx.c_str(), hex(oq).c_str(), rv, hex(got).c_str()); rep::cover("silences"); break; }
				const Rp &p = open_q->rp[ri];
				if (acc.empty()) parse_ms = ms;
				if (p.t.empty()) { CHECK(rv == DIAG_ERR_TIMEOUT, "sim:answers", "%sempty answer line gave %d", ctx.c_str(), rv); rep::cover("empty-answers"); }
				else {
					size_t left = p.t.size() - acc.size();
					CHECK(rv == (int)std::min(left, len), "sim:answers", "%s%s: answer \"%s\" (%zu bytes left), read of %zu gave %d", ctx.c_str(), hex(oq).c_str(), p.text.substr(0, 200).c_str(), left, len, rv);
					if (rv <= 0) { open_q = nullptr; break; }
					acc.insert(acc.end(), got.begin(), got.end());
					if (framed && acc.size() < p.t.size()) { // the rest of a frame is lost
						Rp cut = p; cut.t.resize(acc.size());
						CHECK(answer_ok(cut, oq, acc, parse_ms, why), "sim:answer-bytes", "%s%s: \"%s\" gave %s: %s", ctx.c_str(), hex(oq).c_str(), p.text.c_str(), hex(acc).c_str(), why.c_str());
						rep::cover("frames-cut-by-reader");
					} else if (acc.size() < p.t.size()) { rep::cover("partial-reads"); continue; }
					else {
						CHECK(answer_ok(p, oq, acc, parse_ms, why), "sim:answer-bytes", "%s%s: \"%s\" gave %s: %s", ctx.c_str(), hex(oq).c_str(), p.text.c_str(), hex(acc).c_str(), why.c_str());
						rep::cover("answers"); if (ri >= 255) rep::cover("answers-past-255"); for (auto &t : p.t) if (t.k) { static const char *tn[] = {"", "tokens-req", "tokens-req+", "tokens-cks1", "tokens-sin1", "tokens-swt1"}; rep::cover(tn[t.k]); }
					}
				}
				acc.clear();
				if (++ri >= open_q->rp.size()) open_q = nullptr;
			}
		}
		capture([&]() { diag_l1_close(g_dev); });
		rep::distinct(text);
		if (round == 1) rep::sample(ctx + text.substr(0, 200));
	}
}
// any file at all
static void hostile(Rng &r, long) {
	if (!mk()) return;
	Db db; bool crlf; std::string text = r.chance(60) ? build(r, db, crlf) : std::string();
	static const std::vector<std::string> bits = {"RQ", "RP", "CFG", "RQ ", "RP ", "\n", "\r\n", " ", "XXXX", "req", "req0", "req1", "req260", "req261", "req300", "req1+", "req-1", "req1x", "cks1", "sin1", "swt1", "0x", "0x100", "-1", "ffffffffff", "zz", "\xff\xfe", "0x7F", "CFG DATAONLY", "CFG", "CFG\n", "RQ 0x00\nRP", "RQ 0x00\nRP\n", "RQ 0x33\nRP 0x55", "RQ\nRP 0x01\n", "\0"};
	auto frag = [&]() { std::string s; int k = r.range(1, 30); while (k--) s += r.chance(70) ? r.pick(bits) + (r.chance(60) ? " " : "") : r.chance(50) ? std::string(r.below(30), (char)r.byte()) : std::string(r.range(1200, 1400), 'a'); if (r.chance(10)) { s += "RQ 0x00\nRP"; for (int i = r.range(255, 270); i; i--) s += " 0x11"; s += "\n"; } return s; };
	if (text.empty()) text = frag();
	else for (int k = r.range(1, 6); k; k--) switch (r.below(4)) {
		case 0: text.insert(r.below(text.size() + 1), frag()); break;
		case 1: text.erase(r.below(text.size()), r.below(40)); if (text.empty()) text = "RP"; break;
		case 2: text[r.below(text.size())] = r.byte(); break;
		case 3: text.resize(r.range(1, text.size())); break;
	}
	put(text);
	int rv; capture([&]() { rv = diag_l1_open(g_dev, r.pick({DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_RAW})); });
	rep::cover(rv ? "hostile-refused" : "hostile-opened");
	if (rv) return;
	long got = 0;
	for (int n = r.range(1, 8); n; n--) capture([&]() {
		if (r.chance(25)) { struct diag_l1_initbus_args in; memset(&in, 0, sizeof in); in.type = r.pick({(int)DIAG_L1_INITBUS_FAST, (int)DIAG_L1_INITBUS_5BAUD}); in.addr = 0x33; diag_l1_ioctl(g_dev, DIAG_IOCTL_INITBUS, &in); }
		else { Bytes q = r.chance(40) ? Bytes{0} : r.bytes(r.range(1, 260)); if (!db.rq.empty() && r.chance(60)) { q.clear(); for (int b : db.rq[r.below(db.rq.size())].b) q.push_back(b < 0 ? r.byte() : b); } diag_l1_send(g_dev, q.data(), q.size(), 0); }
		for (int k = r.below(6); k; k--) { size_t len = r.range(1, 300); uint8_t *b = (uint8_t *)malloc(len); int rv = diag_l1_recv(g_dev, b, len, 10); if (rv > 0) { got++; vt::defined(b, (size_t)rv < len ? rv : len); } free(b); vt::advance(r.below(1000) * vt::MS); }
	});
	rep::cover("hostile-answers", got);
	capture([&]() { diag_l1_close(g_dev); });
	rep::distinct(text);
}
std::vector<Mode> modes() { return {{"run", run, setup}, {"hostile", hostile, setup}}; }
