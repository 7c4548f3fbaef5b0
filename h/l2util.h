#pragma once
#include "fakel0.h"
// Open a link + start a connection; nullptr when refused.
struct Session {
	FakeL0 &f;
	struct diag_l2_conn *c = nullptr;
	bool linked = false;
	Session(FakeL0 &f_) : f(f_) {}
	int open(int l1proto) { int rv = diag_l2_open(&f.dev, l1proto); linked = rv == 0; return rv; }
	bool start(int l2proto, unsigned flags, unsigned bitrate, uint8_t target, uint8_t source) {
		c = diag_l2_StartCommunications(&f.dev, l2proto, flags, bitrate, target, source);
		return c != nullptr;
	}
	void stop() { if (c) diag_l2_StopCommunications(c); c = nullptr; }
	void close() { stop(); if (linked) diag_l2_close(&f.dev); linked = false; }
	~Session() { close(); }
};
inline bool is_err(int rv) { return rv < 0; }
