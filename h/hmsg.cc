// Messages as objects (allocate, copy, chain, free, print, checksum), error
// codes and lists; and the words used for ISO 14230, VAG messages and DTCs.
#include "l2util.h"
#include <climits>
extern "C" {
#include "diag_l3.h"
#include "diag_dtc.h"
#include "diag_l3_iso14230.h"
#include "diag_l3_vag.h"
}
using namespace vt;

// ---------------------------------------------------------------- texts
static const std::map<int, std::string> SID = {
	{0x10, "startDiagnosticSession"}, {0x11, "ecuReset"}, {0x12, "readFreezeFrameData"}, {0x13, "readDiagnosticTroubleCodes"},
	{0x14, "clearDiagnosticInformation"}, {0x17, "readStatusOfDiagnosticTroubleCodes"}, {0x18, "readDiagnosticTroubleCodesByStatus"},
	{0x1a, "readEcuId"}, {0x20, "stopDiagnosticSession"}, {0x21, "readDataByLocalId"}, {0x22, "readDataByCommonId"},
	{0x23, "readMemoryByAddress"}, {0x25, "stopRepeatedDataTransmission"}, {0x26, "setDataRates"}, {0x27, "securityAccess"},
	{0x2c, "dynamicallyDefineLocalId"}, {0x2e, "writeDataByCommonId"}, {0x2f, "inputOutputControlByCommonId"},
	{0x30, "inputOutputControlByLocalId"}, {0x31, "startRoutineByLocalID"}, {0x32, "stopRoutineByLocalID"},
	{0x33, "requestRoutineResultsByLocalId"}, {0x34, "requestDownload"}, {0x35, "requestUpload"}, {0x36, "transfer data"},
	{0x37, "request transfer exit"}, {0x38, "startRoutineByAddress"}, {0x39, "stopRoutineByAddress"},
	{0x3a, "requestRoutineResultsByAddress"}, {0x3b, "writeDataByLocalId"}, {0x3d, "writeMemoryByAddress"}, {0x3e, "testerPresent"},
	{0x80, "EscCode"}, {0x81, "startCommunication"}, {0x82, "stopCommunication"}, {0x83, "accessTimingParameters"}};
static const std::map<int, std::string> NEG = {
	{0x10, "generalReject"}, {0x11, "serviceNotSupported"}, {0x12, "subFunctionNotSupported-Invalid Format"}, {0x21, "busy-repeatRequest"},
	{0x22, "conditionsNoteCorrectOrRequestSequenceError"}, {0x23, "routineNotCompleteOrServiceInProgress"}, {0x31, "requestOutOfRange"},
	{0x33, "securityAccessDenied-securityAccessRequested"}, {0x35, "invalidKey"}, {0x36, "exceedNumberOfAttempts"},
	{0x37, "requiredTimeDelayNotExpired"}, {0x40, "downloadNotAccepted"}, {0x41, "improperDownloadType"},
	{0x42, "canNotDownloadToSpecifiedAddress"}, {0x43, "canNotDownloadNumberOfBytesRequested"}, {0x50, "uploadNotAccepted"},
	{0x51, "improperUploadType"}, {0x52, "canNotUploadFromSpecifiedAddress"}, {0x53, "canNotUploadNumberOfBytesRequested"},
	{0x71, "transferSuspended"}, {0x72, "transferAborted"}, {0x74, "illegalAddressInBlockTransfer"}, {0x75, "illegalByteCountInBlockTransfer"},
	{0x76, "illegalBlockTrasnferType"}, {0x77, "blockTransferDataChecksumError"}, {0x78, "requestCorrectyRcvd-RspPending"},
	{0x79, "incorrectByteCountDuringBlockTransfer"}, {0x80, "serviceNotSupportedInActiveDiagnosticMode//Mfg-Specific"}};
static std::string sid(int n) { auto i = SID.find(n); return i == SID.end() ? "Unknown SID" : i->second; }
static std::string neg(int n) { auto i = NEG.find(n); return i == NEG.end() ? fmt("Unknown Response code 0x%02X", n) : i->second; }
static std::string t_resp(const Bytes &m) {
	if (m.empty()) return "Empty_response";
	switch (m[0]) {
	case 0xc1: return "StartCommunications_OK";
	case 0xc2: return "StopCommunications_OK";
	case 0xc3: return "AccessTimingParameters_OK";
	case 0x7f: return m.size() < 3 ? "General_Error, no response code" : "General_Error, Requested_SID_" + sid(m[1]) + " Error_" + neg(m[2]);
	}
	if (!(m[0] & 0x40)) return fmt("Unknown_response_code 0x%02X", m[0]);
	std::string o = "Positive response, " + sid(m[0] & ~0x40) + " ";
	if (m.size() > 1 && m[0] == 0x5a) o += fmt("identOption 0x%02X", m[1]);
	if (m.size() > 1 && m[0] == 0x61) o += fmt("RLOCID 0x%02X", m[1]);
	return o;
}
static std::string t_kw(const Bytes &m) { return m.empty() ? "ISO14230 empty message " : m[0] & 0x40 ? "ISO14230 response " : "ISO14230 request "; }
static std::string t_vag(uint8_t type, const Bytes &m) {
	static const std::map<int, std::string> C = {{5, "Clear DTCs"}, {6, "End Comms"}, {7, "Request DTCs"}, {8, "Read Data (single)"}, {0xf6, "ASCII Data"}, {0xfc, "Hex Data"}};
	auto i = C.find(type);
	std::string o = "Command: " + (i == C.end() ? fmt("0x%X", type) : i->second) + ": Data : ";
	for (auto b : m) o += fmt("0x%X ", b);
	return o + "\n";
}
static std::string t_dtc(const Bytes &m, int proto) {
	if (proto == dtc_proto_j2012) return m.size() != 2 ? "DTC too short for J1850 decode\n" : fmt("%c%02X%02X ", "PCBU"[m[0] >> 6], m[0] & 0x3f, m[1]);
	return fmt(proto >= 2 && proto <= 5 ? "Unimplemented Protocol %d\n" : "Unknown Protocol %d\n", proto);
}
static void texts(Rng &r, long idx) {
	struct diag_l3_conn kw, vag; memset(&kw, 0, sizeof kw); memset(&vag, 0, sizeof vag);
	for (int i = 0; diag_l3_protocols[i]; i++) {
		if (!strcasecmp(diag_l3_protocols[i]->proto_name, "ISO14230")) kw.d_l3_proto = diag_l3_protocols[i];
		if (!strcasecmp(diag_l3_protocols[i]->proto_name, "VAG")) vag.d_l3_proto = diag_l3_protocols[i];
	}
	long live0 = mem().live;
	for (int k = 0; k < 30; k++) {
		Bytes m = r.bytes(r.chance(70) ? r.below(8) : r.chance(80) ? r.below(60) : r.below(256));
		if (!m.empty()) switch (r.below(5)) {
		case 0: m[0] = 0x7f; break;
		case 1: m[0] = 0x40 | r.byte(); break;
		case 2: m[0] = r.pick({0x5a, 0x61, 0xc1, 0xc2, 0xc3, 0xc0, 0x7e}); break;
		}
		// walk all service and refusal codes
		if (m.size() > 2 && m[0] == 0x7f) { m[1] = (uint8_t)(idx * 30 + k); m[2] = (uint8_t)(idx * 7 + k * 3); }
		size_t bs = r.chance(30) ? r.range(1, 45) : r.chance(50) ? r.range(46, 200) : r.range(200, 2000);
		TMsg t(m, r.byte(), r.byte());
		t.m.type = r.chance(50) ? r.pick({5, 6, 7, 8, 0xf6, 0xfc}) : r.byte();
		char *p = (char *)malloc(bs); memset(p, 0x5a, bs);
		int what = r.below(4), proto = r.chance(60) ? 1 : r.chance(60) ? r.range(2, 5) : r.chance(80) ? r.range(0, 12) : (int)r.below(1000000);
		if (what == 3 && r.chance(70)) { m = r.bytes(2); }
		uint8_t *ex = (uint8_t *)malloc(m.size() ? m.size() : 1); if (m.size()) memcpy(ex, m.data(), m.size());
		std::string w, name; const char *ret = p;
		capture([&]() {
			switch (what) {
			case 0: ret = diag_l3_iso14230_decode_response(&t.m, p, bs); w = t_resp(m); name = "kw-response"; break;
			case 1: diag_l3_decode(&kw, &t.m, p, bs); w = t_kw(m); name = "kw-message"; break;
			case 2: diag_l3_decode(&vag, &t.m, p, bs); w = t_vag(t.m.type, m); name = "vag"; break;
			case 3: ret = diag_dtc_decode(ex, m.size(), r.chance(50) ? "car" : nullptr, r.chance(50) ? "ecu" : nullptr, (enum diag_dtc_protocol)proto, p, bs); w = t_dtc(m, proto); name = "dtc"; break;
			}
		});
		size_t n = strnlen(p, bs);
		std::string g(p, n), full = w;
		if (w.size() > bs - 1) { w.resize(bs - 1); rep::cover("text-truncated"); }
		CHECK(n < bs, "msg:text-unterminated", "%s of [%s] into %zu bytes", name.c_str(), hex(m).c_str(), bs);
		CHECK(g == w, "msg:text-" + name, "[%s] (type %02X, proto %d, buffer %zu): [%s] wanted [%s]", hex(m).c_str(), t.m.type, proto, bs, g.c_str(), w.c_str());
		CHECK(ret == p, "msg:text-" + name, "returned another buffer");
		bool same = what == 3 ? m.empty() || !memcmp(ex, m.data(), m.size()) : m.empty() || !memcmp(t.m.data, m.data(), m.size());
		CHECK(same, "msg:text-changed-message", "%s [%s]", name.c_str(), hex(m).c_str());
		free(p); free(ex);
		rep::cover("texts-" + name); rep::distinct(name + full.substr(0, 60));
	}
	CHECK(mem().live == live0, "msg:leak", "explaining messages left %ld allocations", mem().live - live0);
}

// ---- the ISO 14230 L3 on a running link: nothing lost, each message explained
static void l3kw(Rng &r, long) {
	long live0 = mem().live;
	{
		FakeL0 f(DIAG_L1_ISO14230, DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_HALFDUPLEX);
		f.echo = true;
		Session s(f); struct diag_l3_conn *l3 = nullptr;
		uint8_t ecu = r.byte(), me = r.byte();
		f.initbus = [](FakeL0 &, struct diag_l1_initbus_args *) { return 0; };
		std::function<void(FakeL0 &, const Bytes &)> reply = [&](FakeL0 &x, const Bytes &b) { if (b.size() > 4 && b[b.size() - 2] == 0x81) { Bytes a{0x83, me, ecu, 0xc1, 0x6b, 0x8f}; a.push_back(sum8(a, a.size())); x.push(now() + 30 * MS, a, 960 * US); } };
		f.ecu = reply;
		bool ok = false;
		std::string o = capture([&]() { ok = s.open(DIAG_L1_ISO14230) == 0 && s.start(DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT, 10400, ecu, me); if (ok) l3 = diag_l3_start(r.chance(50) ? "ISO14230" : "iso14230", s.c); });
		if (!l3) { CHECK(false, "msg:kw-l3-refused", "%s", o.substr(0, 300).c_str()); return; }
		f.ecu = nullptr;
		for (int k = 0; k < 4; k++) {
			f.clear(); f.tx.clear();
			// send
			Bytes p = r.bytes(r.range(1, 40)); TMsg t(p, ecu, me);
			int rv = -1;
			int n = r.chance(30) ? r.range(2, 4) : 1;
			std::vector<Bytes> ans; for (int i = 0; i < n; i++) { Bytes a = r.bytes(r.range(1, 30)); if (a[0] == 0x7f && a.size() > 2 && (a[2] == 0x78 || a[2] == 0x21)) a[2] = 0x11; ans.push_back(a); }
			bool use_req = r.chance(40);
			if (use_req) { ans.resize(1); ans[0][0] |= 0x40; if (ans[0][0] == 0x7f) ans[0][0] = 0x7e; }
			auto feed = [&](FakeL0 &x) { ns_t at = now() + 30 * MS; for (auto &a : ans) { Bytes fr{(uint8_t)(0x80 | a.size()), me, ecu}; fr.insert(fr.end(), a.begin(), a.end()); fr.push_back(sum8(fr, fr.size())); x.push(at, fr, 960 * US); at += (fr.size() * 960) * US + 30 * MS; } };
			f.ecu = [&](FakeL0 &x, const Bytes &) { if (use_req) { feed(x); } };
			if (use_req) {
				struct diag_msg *m = nullptr; int e = 0;
				capture([&]() { m = diag_l3_request(l3, &t.m, &e); });
				auto c = chain(m);
				CHECK(m && c.size() >= 1 && c[0].d == ans[0], "msg:kw-l3-request", "request [%s]: answer [%s], ECU said [%s], error %d", hex(p).c_str(), show(c).c_str(), hex(ans[0]).c_str(), e);
				if (m) diag_freemsg(m);
				rep::cover("kw-requests");
			} else {
				capture([&]() { rv = diag_l3_send(l3, &t.m); });
				CHECK(rv == 0, "msg:kw-l3-send", "send [%s]: %d", hex(p).c_str(), rv);
				feed(f);
				struct Sink { std::vector<Msg> m; } sk;
				std::string err;
				capture([&]() { rv = diag_l3_recv(l3, 500, [](void *h, struct diag_msg *m) { auto c = chain(m); ((Sink *)h)->m.insert(((Sink *)h)->m.end(), c.begin(), c.end()); }, &sk); }, err);
				bool same = sk.m.size() == ans.size();
				for (size_t i = 0; same && i < ans.size(); i++) same = sk.m[i].d == ans[i] && sk.m[i].src == ecu && sk.m[i].dest == me;
				CHECK(rv >= 0 && same, "msg:kw-l3-receive", "ECU sent %zu, delivered %s (rv %d)", ans.size(), show(sk.m).c_str(), rv);
				std::string want = "DECODED: " + t_resp(ans[0]);
				CHECK(err.find(want) != err.npos, "msg:kw-l3-text", "[%s] explained as [%s], wanted [%s]", hex(ans[0]).c_str(), err.substr(0, 200).c_str(), want.c_str());
				rep::cover("kw-messages", ans.size());
			}
			// what went out
			Bytes g = f.sent(), w;
			if (p.size()) { w = {(uint8_t)(0x80 | p.size()), ecu, me}; w.insert(w.end(), p.begin(), p.end()); w.push_back(sum8(w, w.size())); }
			CHECK(g.size() >= w.size() && std::equal(p.begin(), p.end(), g.end() - p.size() - 1), "msg:kw-l3-sent", "sent [%s] for [%s]", hex(g).c_str(), hex(p).c_str());
			advance(400 * MS);
			rep::distinct(hex(p));
		}
		f.ecu = nullptr;
		capture([&]() { diag_l3_stop(l3); s.close(); });
	}
	CHECK(mem().live == live0, "msg:leak", "ISO14230 L3 left %ld allocations", mem().live - live0);
}

// ---------------------------------------------------------------- objects
struct M { Bytes d; uint8_t fm, ty, de, sr; unsigned long t; };
static bool eq(struct diag_msg *m, const M &w) { return m->len == w.d.size() && (w.d.empty() || (m->data && !memcmp(m->data, w.d.data(), w.d.size()))) && m->fmt == w.fm && m->type == w.ty && m->dest == w.de && m->src == w.sr && m->rxtime == w.t; }
static std::string txt(struct diag_msg *m) { return fmt("len %u fmt %02X type %02X dest %02X src %02X time %lu [%s]", m->len, m->fmt, m->type, m->dest, m->src, m->rxtime, m->data && m->len ? hex(m->data, std::min(m->len, 40u)).c_str() : ""); }
static void msgs(Rng &r) {
	long live0 = mem().live;
	int n = r.chance(40) ? 1 : r.chance(80) ? r.range(2, 6) : r.range(7, 60);
	std::vector<M> want; struct diag_msg *head = nullptr, *tail = nullptr;
	for (int i = 0; i < n; i++) {
		size_t len = r.chance(70) ? r.below(12) : r.chance(70) ? r.below(300) : r.range(4190, 4200);
		struct diag_msg *m = nullptr;
		capture([&]() { m = diag_allocmsg(len); });
		if (!m) { rep::violation("msg:alloc-refused", fmt("%zu bytes", len)); break; }
		CHECK(m->len == len && m->next == nullptr && (len == 0 || m->data), "msg:alloc-fields", "%s", txt(m).c_str());
		bool zero = true; for (size_t j = 0; j < len; j++) zero &= m->data[j] == 0;
		CHECK(zero && !m->fmt && !m->type && !m->dest && !m->src, "msg:alloc-not-blank", "%s", txt(m).c_str());
		M w{r.bytes(len), r.byte(), r.byte(), r.byte(), r.byte(), (unsigned long)r.next()};
		if (len) memcpy(m->data, w.d.data(), len);
		m->fmt = w.fm; m->type = w.ty; m->dest = w.de; m->src = w.sr; m->rxtime = w.t;
		if (len && r.chance(30)) { size_t sk = r.below(len + 1); m->data += sk; m->len -= sk; w.d.erase(w.d.begin(), w.d.begin() + sk); rep::cover("messages-headers-skipped"); }
		want.push_back(w);
		if (tail) tail->next = m; else head = m;
		tail = m; rep::cover("messages");
	}
	if (!head) return;
	long one = mem().live - live0;
	// copies are equal, complete and independent
	long fail = r.chance(40) ? r.range(0, 2 * n) : -1;
	struct diag_msg *c = nullptr; bool chained = r.chance(70);
	long before = mem().live;
	capture([&]() { fail_alloc_in = fail; c = chained ? diag_dupmsg(head) : diag_dupsinglemsg(head); });
	bool failed = fail >= 0 && fail_alloc_in < 0; fail_alloc_in = -1;
	if (failed) {
		CHECK(!c, "msg:copy-after-no-memory", "allocation %ld failed, but a copy was returned", fail);
		CHECK(mem().live == before, "msg:copy-leak", "failed copy left %ld allocations", mem().live - before);
		CHECK(diag_geterr() == DIAG_ERR_NOMEM, "msg:copy-error-code", "out of memory not reported");
		rep::cover("copies-out-of-memory");
	} else {
		size_t k = 0; bool ok = c != nullptr;
		for (struct diag_msg *m = c; m; m = m->next) { if (k >= want.size() || !eq(m, want[k])) { ok = false; CHECK(false, "msg:copy-differs", "message %zu: %s", k, txt(m).c_str()); break; } k++; }
		CHECK(ok && k == (chained ? want.size() : 1), "msg:copy-incomplete", "%zu of %zu messages copied", k, want.size());
		CHECK(chained || !c || !c->next, "msg:copy-follows-chain", "single copy is chained");
		// independence
		for (struct diag_msg *m = c; m; m = m->next) if (m->len) memset(m->data, 0xEE, m->len);
		k = 0; for (struct diag_msg *m = head; m; m = m->next, k++) CHECK(eq(m, want[k]), "msg:copy-shares-data", "message %zu changed with its copy: %s", k, txt(m).c_str());
		rep::cover("copies");
	}
	// printing
	{
		bool ts = r.chance(50); char *mb = nullptr; size_t ml = 0; FILE *fp = open_memstream(&mb, &ml);
		diag_printmsg(fp, head, ts); fclose(fp);
		std::string w; int i = 0;
		for (auto &x : want) { if (ts) w += fmt("%lu.%03lu: ", x.t / 1000, x.t % 1000); w += fmt("msg %02d src=0x%02X dest=0x%02X\nmsg %02d data: ", i, x.sr, x.de, i); for (auto b : x.d) w += fmt("0x%02X ", b); w += x.fm & DIAG_FMT_BADCS ? " [BAD CKS]\n" : "\n"; i++; }
		std::string g(mb, ml); free(mb);
		CHECK(g == w, "msg:printed", "printed\n%s\nwanted\n%s", g.substr(0, 300).c_str(), w.substr(0, 300).c_str());
		rep::cover("messages-printed", want.size());
	}
	long cl = mem().live;
	(void)cl;
	std::string err;
	capture([&]() { diag_freemsg(c); }, err);
	CHECK(mem().live == live0 + one, "msg:free", "freeing the copy left %ld allocations", mem().live - live0 - one);
	size_t k = 0; for (struct diag_msg *m = head; m; m = m->next, k++) CHECK(eq(m, want[k]), "msg:copy-shares-data", "message %zu changed when its copy was freed", k);
	capture([&]() { diag_freemsg(head); diag_freemsg(nullptr); }, err);
	CHECK(mem().live == live0, "msg:free", "freeing left %ld allocations", mem().live - live0);
	rep::distinct(fmt("m%d", n) + hex(want[0].d).substr(0, 20));
	// oversize and out of memory
	size_t big = r.pick({(size_t)4201, (size_t)5000, (size_t)1 << 20, SIZE_MAX, SIZE_MAX / 2});
	struct diag_msg *m = nullptr; capture([&]() { m = diag_allocmsg(big); });
	CHECK(!m, "msg:oversize-accepted", "%zu bytes", big);
	CHECK(diag_geterr() == DIAG_ERR_BADLEN, "msg:oversize-code", "oversize message not reported as such");
	if (m) diag_freemsg(m);
	int nth = r.range(0, 1);
	capture([&]() { fail_alloc_in = nth; m = diag_allocmsg(10); fail_alloc_in = -1; });
	CHECK(!m && mem().live == live0, "msg:alloc-no-memory", "allocation %d failed: %p, %ld left", nth, (void *)m, mem().live - live0);
	diag_geterr();
	rep::cover("refusals");
}
static void misc(Rng &r) {
	// checksum, dump
	{
		Bytes b = r.bytes(r.below(400)); uint8_t *p = (uint8_t *)malloc(b.size() ? b.size() : 1); if (b.size()) memcpy(p, b.data(), b.size());
		uint8_t s = diag_cks1(p, b.size());
		CHECK(s == sum8(b, b.size()), "msg:checksum", "[%s]: %02X", hex(b).c_str(), s);
		char *mb; size_t ml; FILE *fp = open_memstream(&mb, &ml); diag_data_dump(fp, p, b.size()); fclose(fp);
		std::string w; for (auto x : b) w += fmt("0x%02X ", x);
		CHECK(w == std::string(mb, ml), "msg:dump", "[%s]: %s", hex(b).c_str(), mb);
		free(mb); free(p); rep::cover("checksums");
	}
	// appending to a bounded string
	{
		size_t s1 = r.range(1, 60), have = r.below(s1); char *p = (char *)malloc(s1); memset(p, 'a', have); p[have] = 0;
		std::string add(r.below(80), 'b'), w = std::string(have, 'a') + add; if (w.size() > s1 - 1) w.resize(s1 - 1);
		smartcat(p, s1, add.c_str());
		CHECK(w == std::string(p, strnlen(p, s1)), "msg:append", "buffer %zu, had %zu, appended %zu: has %zu", s1, have, add.size(), strnlen(p, s1));
		free(p); rep::cover("appends");
	}
	// allocation
	{
		void *p = (void *)8; size_t n = r.pick({(size_t)0, (size_t)1, (size_t)7, (size_t)1000, SIZE_MAX, SIZE_MAX / 2 + 1}), s = r.pick({(size_t)0, (size_t)1, (size_t)2, (size_t)24, SIZE_MAX / 2 + 1});
		bool c = r.chance(50), bad = !n || !s || SIZE_MAX / s < n || n * s > (1u << 20); int rv = 0; long live0 = mem().live;
		bool nomem = !bad && r.chance(30);
		diag_geterr();
		if (!(bad && n && s && SIZE_MAX / s >= n)) {      // leave absurd but representable sizes to the C library
			capture([&]() { if (nomem) fail_alloc_in = 0; rv = diag_fl_alloc("x.c", 1, &p, n, s, c); fail_alloc_in = -1; });
			if (bad || nomem) { CHECK(rv == (bad ? DIAG_ERR_BADVAL : DIAG_ERR_NOMEM) && p == nullptr && diag_geterr() == rv, "msg:allocator", "%zu x %zu: %d %p", n, s, rv, p); rep::cover("allocations-refused"); }
			else {
				CHECK(rv == 0 && p, "msg:allocator", "%zu x %zu: %d %p", n, s, rv, p);
				if (p && c) { bool z = true; for (size_t i = 0; i < n * s; i++) z &= !((char *)p)[i]; CHECK(z, "msg:allocator-not-cleared", "%zu x %zu", n, s); }
				if (p) memset(p, 1, n * s);
				free(p); rep::cover("allocations");
			}
			CHECK(mem().live == live0, "msg:allocator-leak", "%zu x %zu: %ld", n, s, mem().live - live0);
		}
	}
	// string lists
	{
		long live0 = mem().live; char **l = nullptr; std::vector<std::string> w; int n = r.below(20);
		for (int i = 0; i < n; i++) {
			std::string s; for (int k = r.below(30); k > 0; k--) s += (char)r.range(1, 255);
			long fail = r.chance(20) ? r.range(0, 1) : -1; char **nl = nullptr;
			capture([&]() { fail_alloc_in = fail; nl = strlist_add(l, s.c_str(), (int)w.size()); fail_alloc_in = -1; });
			if (!nl) { CHECK(fail >= 0, "msg:list-refused", "\"%s\" refused", s.c_str()); rep::cover("lists-out-of-memory"); diag_geterr(); continue; }
			CHECK(fail < 0, "msg:list-no-memory", "succeeded without memory");
			l = nl; w.push_back(s);
		}
		bool ok = true; for (size_t i = 0; i < w.size(); i++) ok &= w[i] == l[i];
		CHECK(ok, "msg:list-contents", "%zu strings", w.size());
		strlist_free(l, (int)w.size());
		CHECK(mem().live == live0, "msg:list-leak", "%ld left", mem().live - live0);
		rep::cover("lists");
	}
	// error codes: the first one is kept until asked for; texts
	{
		static const std::map<int, std::string> E = {{-1, "Unspecified Error"}, {-2, "Invalid FileDescriptor passed to routine"}, {-3, "Malloc/Calloc/Strdup/etc failed - ran out of memory"},
			{-4, "Initbus type not supported by H/W"}, {-5, "Protocol not supported by H/W"}, {-6, "Ioctl type not supported"}, {-7, "L0 adapter comms failed"}, {-8, "Read/Write timeout"},
			{-16, "We detected write error on diag bus"}, {-17, "Bad length for this i/f"}, {-18, "Cant decode msg (ever)"}, {-19, "Bad checksum in recvd message"}, {-20, "Incomplete data, need to receive more"},
			{-21, "Wrong KeyBytes received"}, {-22, "Bit rate specified doesn't match ECU"}, {-32, "Ecu returned negative"}, {-40, "Trouble loading .rc or .ini file"}, {-41, "Trouble with sourcing commands"},
			{-43, "Invalid value passed to routine"}, {-44, "Bad config/param"}};
		diag_geterr(); int first = 0, n = r.below(6);
		for (int i = 0; i < n; i++) {
			int code = r.chance(90) ? std::next(E.begin(), r.below(E.size()))->first : (int)r.next(); int kind = r.below(4);
			if (!code) code = 1;
			std::string err; int iv = code; void *pv = nullptr;
			capture([&]() { switch (kind) { case 0: iv = diag_p_iseterr("q.c", 5, code); break; case 1: pv = diag_p_pseterr("q.c", 5, code); break; case 2: iv = diag_p_ifwderr("q.c", 5, code); break; default: pv = diag_p_pfwderr("q.c", 5, code); } }, err);
			CHECK(iv == code && pv == nullptr, "msg:error-value", "code %d came back as %d", code, iv);
			std::string t = E.count(code) ? E.at(code) : fmt("Illegal error code: 0x%.2X\n", code);
			CHECK(t == diag_errlookup(code), "msg:error-text", "%d: %s", code, diag_errlookup(code));
			if (kind < 2) { CHECK(err == fmt("q.c:5: %s.\n", t.c_str()), "msg:error-shown", "%d: %s", code, err.c_str()); if (!first) first = code; }
			rep::cover("errors");
		}
		int g = diag_geterr();
		CHECK(g == first, "msg:error-latched", "first error %d, reported %d", first, g);
		CHECK(diag_geterr() == 0, "msg:error-latched", "error not cleared when read");
	}
	// values shared between threads
	{
		diag_atomic_bool b; diag_atomic_int i; diag_atomic_init(&b); diag_atomic_init(&i);
		for (int k = 0; k < 5; k++) { bool x = r.chance(50); int y = (int)r.next(); diag_atomic_store_bool(&b, x); diag_atomic_store_int(&i, y); CHECK(diag_atomic_load_bool(&b) == x && diag_atomic_load_int(&i) == y, "msg:shared-value", "stored %d %d", x, y); }
		diag_atomic_del(&b); diag_atomic_del(&i);
	}
}
static void objects(Rng &r, long) { msgs(r); for (int k = 0; k < 4; k++) misc(r); }
std::vector<Mode> modes() { return {{"texts", texts, stack_init}, {"l3kw", l3kw, stack_init}, {"objects", objects, stack_init}}; }
