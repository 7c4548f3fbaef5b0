// A scriptable layer-0 device: the adapter + bus + ECU as the stack sees them.
#pragma once
#include "h.h"
extern "C" {
#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_tty.h"
#include "diag_iso14230.h"
}
struct TxEv { vt::ns_t t; Bytes b; };
struct FakeL0 {
	struct diag_l0 drv;
	struct diag_l0_device dev;
	uint32_t flags = 0;
	bool framed = false;              // recv returns one queued frame per call
	struct Item { vt::ns_t t; Bytes b; int err; bool echo; };
	std::deque<Item> q;               // sorted by time
	std::vector<TxEv> tx;             // everything the tester put on the bus
	Bytes pend;                       // tester bytes not yet seen by the ECU model
	vt::ns_t pend_t = 0;
	std::function<void(FakeL0 &, const Bytes &)> ecu;   // called with a complete tester burst
	std::function<void(FakeL0 &, uint8_t)> ecu_byte;    // called for every tester byte
	std::function<int(FakeL0 &, struct diag_l1_initbus_args *)> initbus;
	std::function<int(FakeL0 &, unsigned, void *)> ioctl_hook;
	std::function<int(FakeL0 &)> send_fault, recv_fault, open_fault;
	bool echo = false;                // half-duplex K line
	std::function<void(Bytes &)> echo_mangle;
	vt::ns_t byte_ns = 960 * vt::US;
	int opens = 0, closes = 0, isopen = 0, last_proto = -1;
	unsigned long nsend = 0, nrecv = 0, nioctl = 0;
	std::vector<std::pair<unsigned, Bytes>> wm;  // SETWM messages
	std::vector<struct diag_serial_settings> speeds;
	unsigned long recv_asked = 0;
	std::vector<unsigned> touts;
	vt::ns_t last_rx = 0;

	FakeL0(int l1mask = 0xff, uint32_t fl = 0);
	void push(vt::ns_t t, const Bytes &b, vt::ns_t gap = 0); // byte stream
	void frame(vt::ns_t t, const Bytes &b);                 // framed device
	void error(vt::ns_t t, int e);
	void clear() { q.clear(); pend.clear(); }
	Bytes sent() const { Bytes r; for (auto &e : tx) r.insert(r.end(), e.b.begin(), e.b.end()); return r; }
};
struct Msg { Bytes d; uint8_t src, dest, fmt, type; };
std::vector<Msg> chain(struct diag_msg *m);
std::string show(const std::vector<Msg> &v);
// message whose payload lives in an exact-size heap block (so that over-reads
// are caught), as an API client would pass it
struct TMsg {
	struct diag_msg m;
	TMsg(const Bytes &b, uint8_t dest = 0, uint8_t src = 0);
	~TMsg();
	TMsg(const TMsg &) = delete;
};
uint8_t sum8(const Bytes &b, size_t n);
void stack_init();  // diag_init() once
struct RecvSink { std::vector<std::vector<Msg>> got; };
extern "C" void sink_cb(void *h, struct diag_msg *m);
