#pragma once
// A vehicle with several OBD ECUs on one of the OBD buses.
#include "l2util.h"
namespace car {
using namespace vt;
enum Proto { P9141, P14230F, P14230S, PVPW, PPWM };
static const char *pname[] = {"ISO9141", "ISO14230_FAST", "ISO14230_SLOW", "SAEJ1850-VPW", "SAEJ1850-PWM"};
inline uint8_t crc1850(const Bytes &b) { uint8_t c = 0xff; for (uint8_t x : b) { c ^= x; for (int i = 0; i < 8; i++) c = (c & 0x80) ? (c << 1) ^ 0x1d : c << 1; } return ~c; }
struct Out { uint8_t addr; Bytes d; };
struct Bus {
	Proto p; FakeL0 f; bool j1850, strips, awake = false;
	std::function<std::vector<Out>(const Bytes &)> answer;    // request payload -> responses
	std::function<ns_t(int)> gap;                              // before the i-th response
	std::vector<std::pair<ns_t, Bytes>> reqs;
	unsigned long badreq = 0;
	static int mask(Proto p) { return p == PVPW ? DIAG_L1_J1850_VPW : p == PPWM ? DIAG_L1_J1850_PWM : DIAG_L1_ISO9141 | DIAG_L1_ISO14230; }
	static uint32_t fl(Proto p, Rng &r) {
		if (p == PVPW || p == PPWM) return DIAG_L1_DOESL2FRAME | (r.chance(50) ? DIAG_L1_DOESL2CKSUM : 0) | (r.chance(50) ? DIAG_L1_STRIPSL2CKSUM : 0);
		return DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | (r.chance(50) ? DIAG_L1_HALFDUPLEX : 0);
	}
	Bus(Proto p_, Rng &r) : p(p_), f(mask(p_), fl(p_, r)) {
		j1850 = p == PVPW || p == PPWM;
		strips = f.flags & DIAG_L1_STRIPSL2CKSUM;
		awake = j1850;
		f.initbus = [this](FakeL0 &x, struct diag_l1_initbus_args *a) {
			awake = false; inv = false;
			if (a->type == DIAG_L1_INITBUS_FAST) { if (p == P14230F) wantstart = true; return 0; }
			if (a->type != DIAG_L1_INITBUS_5BAUD || a->addr != 0x33 || (p != P9141 && p != P14230S)) return (int)DIAG_ERR_TIMEOUT;
			advance(2400 * MS);
			if (p == P9141) x.push(now() + 20 * MS, Bytes{8, 8}, 10 * MS);
			else x.push(now() + 20 * MS, Bytes{0xEF, 0x8F}, 10 * MS);
			inv = true;
			return 0;
		};
		f.ecu = [this](FakeL0 &, const Bytes &b) { rx(b); };
		gap = [](int) { return 25 * MS; };
	}
	bool inv = false, wantstart = false;
	Bytes frame(const Out &o) {
		Bytes b;
		switch (p) {
		case P9141: b = {0x48, 0x6b, o.addr}; break;
		case P14230F: case P14230S: b = {(uint8_t)(0x80 | o.d.size()), 0xf1, o.addr}; if (o.d.size() > 63) { b[0] = 0x80; b.push_back(o.d.size()); } break;
		case PVPW: b = {0x48, 0x6b, o.addr}; break;
		case PPWM: b = {0x41, 0x6b, o.addr}; break;
		}
		b.insert(b.end(), o.d.begin(), o.d.end());
		if (j1850) { if (!strips) b.push_back(crc1850(b)); }
		else b.push_back(sum8(b, b.size()));
		return b;
	}
	void send(const std::vector<Out> &v, ns_t t) {
		int i = 0;
		for (auto &o : v) {
			t += gap(i++);
			Bytes b = frame(o);
			if (j1850) { f.frame(t, b); t += 500 * US; }
			else { f.push(t, b); t += f.byte_ns * b.size(); }
		}
	}
	void rx(const Bytes &b) {
		if (inv && b.size() == 1) { inv = false; awake = true; if (b[0] != (p == P9141 ? 0xf7 : 0x70)) badreq++; f.push(now() + 30 * MS, Bytes{0xcc}); return; }
		Bytes q;
		if (p == P14230F && wantstart && b.size() >= 5 && b[3] == 0x81) { wantstart = false; awake = true; send({{0x10, {0xc1, 0xef, 0x8f}}}, now()); return; }
		if (!awake) return;
		size_t h = 3, tl = 1;
		if (p == PVPW || p == PPWM) { if (f.flags & DIAG_L1_DOESL2CKSUM) tl = 0; }
		if (b.size() < h + tl + 1) { badreq++; return; }
		q.assign(b.begin() + h, b.end() - tl);
		if (!j1850 && sum8(b, b.size() - 1) != b.back()) { badreq++; return; }
		if (b[2] != 0xf1) badreq++;
		if (p == P14230F || p == P14230S) { if (b[0] != (0xc0 | q.size()) || b[1] != 0x33) badreq++; }
		else if (b[1] != 0x6a || b[0] != (p == PPWM ? 0x61 : 0x68)) badreq++;
		reqs.push_back({now(), q});
		if (answer) send(answer(q), now());
	}
};
} // namespace car
