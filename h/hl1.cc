// Layer 1 monitor: byte pacing, echo removal, capability routing.
#include "l2util.h"
using namespace vt;
static void send(Rng &r, long idx) {
	uint32_t fl = 0;
	if (r.chance(45)) fl |= DIAG_L1_HALFDUPLEX;
	if (r.chance(20)) fl |= DIAG_L1_DOESL2FRAME;
	if (r.chance(20)) fl |= DIAG_L1_DOESP4WAIT;
	if (r.chance(25)) fl |= DIAG_L1_BLOCKDUPLEX;
	if (r.chance(30)) fl |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM;
	FakeL0 f(DIAG_L1_ISO9141 | DIAG_L1_ISO14230, fl);
	f.framed = false;
	f.echo = fl & (DIAG_L1_HALFDUPLEX | DIAG_L1_BLOCKDUPLEX);
	f.byte_ns = r.pick({960 * US, 100 * US, 4000 * US});
	budget(4000 * SEC, 5000000);
	if (diag_l1_open(&f.dev, DIAG_L1_ISO9141)) { rep::violation("l1:open-refused", fmt("flags %x", fl)); return; }
	for (int k = 0; k < 5; k++) {
		size_t n = r.chance(75) ? 1 + (idx + k) % 20 : r.chance(80) ? r.range(21, 300) : r.chance(60) ? r.pick({1000, 1023, 1024}) : r.pick({1025, 1026, 2000});
		unsigned p4 = r.pick({0u, 0u, 1u, 5u, 10u, 20u});
		Bytes p = r.bytes(n);
		uint8_t *ex = (uint8_t *)malloc(n); memcpy(ex, p.data(), n);
		bool whole = (p4 == 0 && !(fl & DIAG_L1_HALFDUPLEX)) || (fl & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT)) || (p4 == 0 && (fl & DIAG_L1_BLOCKDUPLEX));
		bool echoed = whole ? (fl & DIAG_L1_BLOCKDUPLEX) : (fl & DIAG_L1_HALFDUPLEX);
		f.tx.clear(); f.clear(); f.pend.clear();
		f.echo = echoed;
		// faults
		int fault = r.below(6);     // 0,1: none 2: wrong echo byte 3: missing echo byte 4: send error 5: read error
		long at = r.below(n), cnt = 0;
		bool applied = false;
		uint8_t x = 1 + r.below(255);
		if (r.chance(30)) x = r.chance(50) ? (uint8_t)(p[at] - (uint8_t)(p[at] - 1)) : x;
		f.send_fault = nullptr; f.echo_mangle = nullptr; f.recv_fault = nullptr;
		if (fault == 2 && echoed) { applied = true; f.echo_mangle = [&](Bytes &e) { for (auto &b : e) { if (cnt == at) { uint8_t o = b; b ^= x; if (r.chance(30)) b = o - 1; } cnt++; } }; }
		if (fault == 3 && echoed) { applied = true; f.echo_mangle = [&](Bytes &e) { Bytes o; for (auto b : e) { if (cnt != at) o.push_back(b); cnt++; } e = o; }; }
		long sends = 0, sat = whole ? 0 : at;
		if (fault == 4) { applied = true; f.send_fault = [&](FakeL0 &) { return sends++ == sat ? DIAG_ERR_GENERAL : 0; }; }
		long recvs = 0;
		if (fault == 5 && echoed) { applied = true; f.recv_fault = [&](FakeL0 &) { return recvs++ == sat ? DIAG_ERR_GENERAL : 0; }; }
		ns_t t0 = now();
		f.touts.clear(); unsigned long nr0 = f.nrecv;
		int rv = diag_l1_send(&f.dev, ex, n, p4);
		ns_t t1 = now();
		bool keep = !memcmp(ex, p.data(), n);
		free(ex);
		Bytes got = f.sent();
		std::string ctx = fmt("flags=%X len=%zu p4=%u fault=%d@%ld rv=%d writes=%zu sent [%s]", fl, n, p4, applied ? fault : 0, at, rv, f.tx.size(), hex(got).substr(0, 90).c_str());
		CHECK(keep, "l1:caller-data-modified", "%s", ctx.c_str());
		if (n > MAXRBUF) { CHECK(rv < 0 && got.empty(), "l1:oversize-accepted", "%s", ctx.c_str()); rep::cover("refusals-checked"); continue; }
		if (applied) {
			CHECK(rv < 0, "l1:fault-not-reported", "%s", ctx.c_str());
			rep::cover(fmt("faults-%d", fault));
			// byte-wise: nothing more is sent on a bus known to be bad
			size_t most = whole ? n : fault == 4 ? at : at + 1;
			// a lost echo byte may be masked by the next byte only in block mode
			CHECK(got.size() <= most, "l1:sent-on-after-fault", "%s allowed %zu", ctx.c_str(), most);
			CHECK(got.size() <= p.size() && std::equal(got.begin(), got.end(), p.begin()), "l1:wrong-bytes", "%s", ctx.c_str());
			continue;
		}
		CHECK(rv == 0, "l1:send-failed", "%s", ctx.c_str());
		CHECK(got == p, "l1:wrong-bytes", "%s expected [%s]", ctx.c_str(), hex(p).c_str());
		if (whole) CHECK(f.tx.size() == 1, "l1:split-write", "%s", ctx.c_str());
		else {
			CHECK(f.tx.size() == n, "l1:not-bytewise", "%s", ctx.c_str());
			for (size_t i = 1; i < f.tx.size(); i++) {
				ns_t gap = f.tx[i].t - f.tx[i - 1].t;
				ns_t need = f.byte_ns + p4 * MS;
				if (gap < need) { rep::violation("l1:gap-too-short", ctx + fmt(" byte %zu gap %llu us", i, (unsigned long long)gap / 1000)); break; }
				if (gap > need + 3 * MS) { rep::violation("l1:gap-too-long", ctx + fmt(" byte %zu gap %llu us", i, (unsigned long long)gap / 1000)); break; }
				rep::cover("gaps-measured");
			}
		}
		CHECK(f.q.empty(), "l1:echo-left-behind", "%s: %zu echo items unread", ctx.c_str(), f.q.size());
		if (!echoed) CHECK(f.nrecv == nr0, "l1:read-without-echo", "%s", ctx.c_str());
		CHECK(t1 - t0 <= (ns_t)n * (f.byte_ns + p4 * MS) + (n + 2) * 3 * MS, "l1:took-too-long", "%s %llu ms", ctx.c_str(), (unsigned long long)((t1 - t0) / MS));
		rep::cover(whole ? (echoed ? "sends-block-echo" : "sends-whole") : (echoed ? "sends-byte-echo" : "sends-byte"));
		rep::distinct(fmt("%x %zu %u %d", fl, n, p4, applied ? fault : 0));
		rep::sample(ctx);
	}
	diag_l1_close(&f.dev);
	CHECK(f.isopen == 0, "l1:not-closed", "%d", f.isopen);
}
static void misc(Rng &r, long) {
	int mask = r.below(128);
	uint32_t fl = r.next();
	FakeL0 f(mask, fl);
	f.framed = false; f.echo = false;
	budget(4000 * SEC, 5000000);
	static const int protos[] = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_CAN, DIAG_L1_RAW};
	int p = protos[r.below(6)];
	int fail = r.chance(30) ? DIAG_ERR_GENERAL : 0;
	int asked = -1, opens = 0;
	f.open_fault = [&](FakeL0 &) { opens++; return fail; };
	(void)asked;
	int rv = diag_l1_open(&f.dev, p);
	std::string ctx = fmt("mask=%X proto=%X driver-open=%d rv=%d", mask, p, fail, rv);
	if (!(mask & p)) { CHECK(rv < 0 && opens == 0, "l1:opened-unsupported", "%s", ctx.c_str()); rep::cover("unsupported-refused"); }
	else if (fail) { CHECK(rv < 0, "l1:open-error-lost", "%s", ctx.c_str()); rep::cover("open-errors"); }
	else CHECK(rv == 0 && f.isopen == 1, "l1:open-refused", "%s", ctx.c_str());
	CHECK(diag_l1_getflags(&f.dev) == fl, "l1:flags-changed", "%x", fl);
	CHECK(diag_l1_gettype(&f.dev) == mask, "l1:type-changed", "%x", mask);
	rep::distinct(ctx);
	for (int k = 0; k < 5; k++) {
		f.clear();
		size_t n = r.range(0, 40), want = r.range(0, 40);
		unsigned tout = r.range(20, 300);
		Bytes b = r.bytes(n);
		int err = r.chance(15) ? r.pick({DIAG_ERR_GENERAL, DIAG_ERR_TIMEOUT, DIAG_ERR_BUSERROR}) : 0;
		int zero = !err && r.chance(10);
		ns_t t = now() + r.range(0, tout / 2) * MS;
		if (n) f.push(t, b, 100 * US);
		f.recv_fault = nullptr;
		if (err) f.recv_fault = [&](FakeL0 &) { return err; };
		Bytes buf(want ? want : 1, 0xAB);
		unsigned long nr = f.nrecv;
		if (zero) { f.framed = true; f.clear(); f.frame(now(), Bytes()); }
		ns_t t0 = now();
		rv = diag_l1_recv(&f.dev, buf.data(), want, tout);
		f.framed = false;
		std::string c2 = fmt("want=%zu have=%zu tout=%u err=%d zero=%d rv=%d", want, n, tout, err, zero, rv);
		if (!want) { CHECK(rv < 0 && f.nrecv == nr, "l1:zero-length-read", "%s", c2.c_str()); rep::cover("zero-length-reads"); continue; }
		if (err) { CHECK(rv == err, "l1:read-error-changed", "%s", c2.c_str()); rep::cover("read-errors"); continue; }
		if (zero || !n) { CHECK(rv == DIAG_ERR_TIMEOUT, "l1:silence-not-timeout", "%s", c2.c_str()); rep::cover("timeouts"); continue; }
		size_t k2 = std::min(n, want);
		CHECK(rv == (int)k2 && std::equal(b.begin(), b.begin() + k2, buf.begin()), "l1:wrong-data", "%s got [%s] expected [%s]", c2.c_str(), hex(buf).c_str(), hex(b).c_str());
		CHECK(f.touts.back() == tout, "l1:timeout-changed", "%s", c2.c_str());
		(void)t0;
		rep::cover("reads");
	}
	if (f.isopen) diag_l1_close(&f.dev);
	CHECK(f.isopen == 0, "l1:not-closed", "%s", ctx.c_str());
}
std::vector<Mode> modes() { return {{"send", send, stack_init}, {"misc", misc, stack_init}}; }
