#pragma once
// A mid-nineties Volvo: D2 ECUs at several addresses and one KWP71 ECU at 0x10,
// behind an adapter that frames blocks and does the wake-up itself.
#include "l2util.h"
namespace volvo {
using namespace vt;
struct Blk { uint8_t title; Bytes d; };
struct Car {
	FakeL0 f;
	std::set<uint8_t> d2present; bool kwppresent = true;
	uint8_t kb1 = 0xab, kb2 = 0x02;
	uint8_t cur = 0; bool kwp = false, up = false;
	uint8_t ctr = 1;
	std::vector<Blk> ident, script; size_t si = 0;
	// request payload -> answer payloads
	std::function<std::vector<Bytes>(uint8_t ecu, const Bytes &)> d2;
	std::function<std::vector<Blk>(const Blk &)> k71;
	struct Req { ns_t t; uint8_t ecu; Bytes b; };
	std::vector<Req> reqs;            // everything asked, D2: payload; KWP71: title + data
	std::vector<uint8_t> inits;
	unsigned long bad = 0; long stops = 0;
	std::function<ns_t()> delay;
	uint8_t tester = 0x13;
	Car() : f(DIAG_L1_ISO9141, DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT) {
		delay = []() { return 30 * MS; };
		f.initbus = [this](FakeL0 &x, struct diag_l1_initbus_args *a) {
			up = false; f.clear();
			if (a->type != DIAG_L1_INITBUS_5BAUD) return (int)DIAG_ERR_INIT_NOTSUPP;
			advance(2500 * MS);
			inits.push_back(a->addr);
			uint8_t ad = a->addr & 0x7f;
			if (a->addr == 0x10 && kwppresent) {
				cur = 0x10; kwp = up = true; ctr = 1;
				ns_t t = now() + 10 * MS;
				x.frame(t, Bytes{kb1}); x.frame(t + 8 * MS, Bytes{kb2});
				script = ident; si = 0; next(t + 45 * MS);
				return 0;
			}
			if (!d2present.count(ad)) return (int)DIAG_ERR_TIMEOUT;
			cur = ad; kwp = false; up = true;
			a->kb1 = 0xd3; a->kb2 = 0xb0;
			return 0;
		};
		f.ecu = [this](FakeL0 &, const Bytes &b) { rx(b); };
	}
	void block(const Blk &k, ns_t t) { Bytes c = {(uint8_t)(k.d.size() + 3), ctr++, k.title}; c.insert(c.end(), k.d.begin(), k.d.end()); c.push_back(3); f.frame(t, c); }
	void next(ns_t t) { if (si < script.size()) block(script[si++], t); else block({9, {}}, t); }
	void rx(const Bytes &b) {
		if (!up) return;
		if (kwp) {
			if (b.size() < 4 || b[0] != b.size() - 1 || b.back() != 3 || b[1] != ctr) { bad++; return; }
			ctr = b[1] + 1;
			Blk q{b[2], Bytes(b.begin() + 3, b.end() - 1)};
			if (q.title == 9 && q.d.empty()) { next(now() + delay()); return; }
			Bytes rq = {q.title}; rq.insert(rq.end(), q.d.begin(), q.d.end());
			reqs.push_back({now(), cur, rq});
			if (q.title == 6) { up = false; stops++; return; }
			script = k71 ? k71(q) : std::vector<Blk>(); si = 0;
			if (script.size() == 1 && script[0].title == 0xff && script[0].d.empty()) { si = 1; return; } // silence
			next(now() + delay());
			return;
		}
		if (b.size() < 4 || b[0] != 0x80 + b.size() - 2 || b[1] != cur || b[2] != tester) { bad++; }
		if (b.size() < 3) return;
		Bytes p(b.begin() + 3, b.end());
		reqs.push_back({now(), cur, p});
		if (p == Bytes{0xa0}) { send({0xe0}, now() + delay()); up = false; stops++; return; }
		if (p == Bytes{0xa1} && !pingall) { send({0xe1}, now() + delay()); return; }
		std::vector<Bytes> a = d2 ? d2(cur, p) : std::vector<Bytes>();
		ns_t t = now();
		for (auto &x : a) { t += delay(); send(x, t); }
	}
	bool pingall = false;   // pings go to d2() too
	void send(const Bytes &p, ns_t t) {
		Bytes o = {(uint8_t)(0x80 + p.size() + 1), tester, cur};
		o.insert(o.end(), p.begin(), p.end());
		o.push_back(sum8(o, o.size()));
		f.frame(t, o);
	}
};
} // namespace volvo
