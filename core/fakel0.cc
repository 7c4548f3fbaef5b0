#include "fakel0.h"
using namespace vt;
static FakeL0 *of(struct diag_l0_device *d) { return (FakeL0 *)d->l0_int; }
static int f_open(struct diag_l0_device *d, int proto) {
	FakeL0 *f = of(d);
	f->last_proto = proto;
	tr('o', proto);
	if (f->open_fault) { int e = f->open_fault(*f); if (e) return e; }
	f->opens++; f->isopen++;
	return 0;
}
static void f_close(struct diag_l0_device *d) { FakeL0 *f = of(d); tr('x', 0); f->closes++; f->isopen--; }
static uint32_t f_flags(struct diag_l0_device *d) { return of(d)->flags; }
static void deliver(FakeL0 *f) {
	if (f->pend.empty() || !f->ecu) return;
	for (auto &i : f->q) if (i.echo) return;
	Bytes b; b.swap(f->pend);
	f->ecu(*f, b);
}
static int f_recv(struct diag_l0_device *d, void *data, size_t len, unsigned int timeout) {
	FakeL0 *f = of(d);
	advance(20 * US);
	tr('r', (uint64_t)len << 32 | timeout);
	f->nrecv++; f->recv_asked = len; f->touts.push_back(timeout);
	if (f->touts.size() > 100000) f->touts.clear();
	// an adapter may write anywhere in the buffer it was given: touch it all
	memset(data, 0xEE, 0);
	if (len) { volatile uint8_t *p = (volatile uint8_t *)data; uint8_t a = p[0], b = p[len - 1]; p[0] = a; p[len - 1] = b; }
	if (f->recv_fault) { int e = f->recv_fault(*f); if (e) return e; }
	deliver(f);
	ns_t dl = now() + (ns_t)timeout * MS;
	uint8_t *p = (uint8_t *)data;
	size_t n = 0;
	while (!f->q.empty()) {
		auto &it = f->q.front();
		if (it.t > dl) break;
		if (it.err) { if (n) break; int e = it.err; if (it.t > now()) advance_to(it.t); f->q.pop_front(); return e; }
		if (it.t > now()) advance_to(it.t);
		if (f->framed && !it.echo) {
			size_t k = it.b.size() < len ? it.b.size() : len;
			if (k) memcpy(p, it.b.data(), k);
			f->q.pop_front(); f->last_rx = now();
			return (int)k;
		}
		while (n < len && !it.b.empty()) { p[n++] = it.b[0]; it.b.erase(it.b.begin()); }
		if (it.b.empty()) f->q.pop_front();
		f->last_rx = now();
		if (n == len) return (int)n;
	}
	if (n == len && len) return (int)n;
	advance_to(dl);
	if (n) return (int)n;
	return DIAG_ERR_TIMEOUT;
}
static int f_send(struct diag_l0_device *d, const void *data, size_t len) {
	FakeL0 *f = of(d);
	f->nsend++;
	if (f->send_fault) { int e = f->send_fault(*f); if (e) return e; }
	const uint8_t *p = (const uint8_t *)data;
	defined(data, len);
	Bytes b(p, p + len);
	for (uint8_t x : b) tr('w', x);
	f->tx.push_back({now(), b});
	advance(f->byte_ns * len);
	f->pend.insert(f->pend.end(), b.begin(), b.end());
	f->pend_t = now();
	if (f->echo) {
		Bytes e = b;
		if (f->echo_mangle) f->echo_mangle(e);
		if (!e.empty()) f->q.push_front({now(), e, 0, true});
		// keep echo order if several are outstanding
		if (f->q.size() > 1 && f->q[1].echo) { auto x = f->q[0]; f->q.pop_front(); size_t i = 0; while (i < f->q.size() && f->q[i].echo) i++; f->q.insert(f->q.begin() + i, x); }
	}
	if (f->ecu_byte) for (uint8_t x : b) f->ecu_byte(*f, x);
	return 0;
}
static int f_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	FakeL0 *f = of(d);
	f->nioctl++;
	tr('i', cmd);
	if (f->ioctl_hook) { int e = f->ioctl_hook(*f, cmd, data); if (e) return e; }
	switch (cmd) {
	case DIAG_IOCTL_SETSPEED: f->speeds.push_back(*(const struct diag_serial_settings *)data); return 0;
	case DIAG_IOCTL_IFLUSH: while (!f->q.empty() && f->q.front().t <= now()) f->q.pop_front(); return 0;
	case DIAG_IOCTL_INITBUS:
		f->pend.clear();
		if (f->initbus) return f->initbus(*f, (struct diag_l1_initbus_args *)data);
		return 0;
	case DIAG_IOCTL_SETWM: { struct diag_msg *m = (struct diag_msg *)data; f->wm.push_back({m->len, Bytes(m->data, m->data + m->len)}); return 0; }
	}
	return DIAG_ERR_IOCTL_NOTSUPP;
}
FakeL0::FakeL0(int mask, uint32_t fl) : flags(fl) {
	memset(&drv, 0, sizeof drv);
	memset(&dev, 0, sizeof dev);
	drv.longname = "fake"; drv.shortname = "FAKE"; drv.l1proto_mask = mask;
	drv._open = f_open; drv._close = f_close; drv._getflags = f_flags;
	drv._recv = f_recv; drv._send = f_send; drv._ioctl = f_ioctl;
	dev.dl0 = &drv; dev.l0_int = this;
	framed = fl & DIAG_L1_DOESL2FRAME;
	echo = fl & DIAG_L1_HALFDUPLEX;
}
static void ins(std::deque<FakeL0::Item> &q, const FakeL0::Item &i) {
	auto it = q.end();
	while (it != q.begin() && std::prev(it)->t > i.t && !std::prev(it)->echo) --it;
	q.insert(it, i);
}
void FakeL0::push(ns_t t, const Bytes &b, ns_t gap) {
	if (!gap) gap = byte_ns;
	for (uint8_t x : b) { ins(q, {t, Bytes{x}, 0, false}); t += gap; }
}
void FakeL0::frame(ns_t t, const Bytes &b) { ins(q, {t, b, 0, false}); }
void FakeL0::error(ns_t t, int e) { ins(q, {t, Bytes(), e, false}); }

std::vector<Msg> chain(struct diag_msg *m) {
	std::vector<Msg> v;
	for (int i = 0; m && i < 10000; m = m->next, i++) {
		defined(&m->src, 1); defined(&m->dest, 1); defined(m->data, m->len);
		Msg x; x.src = m->src; x.dest = m->dest; x.fmt = m->fmt; x.type = m->type;
		if (m->len) x.d.assign(m->data, m->data + m->len);
		v.push_back(x);
	}
	return v;
}
std::string show(const std::vector<Msg> &v) {
	std::string s;
	for (auto &m : v) s += fmt("{src %02X dst %02X fmt %02X len %zu: %s} ", m.src, m.dest, m.fmt, m.d.size(), hex(m.d).c_str());
	return s.empty() ? "(none)" : s;
}
TMsg::TMsg(const Bytes &b, uint8_t dest, uint8_t src) {
	memset(&m, 0, sizeof m);
	m.len = b.size(); m.dest = dest; m.src = src;
	m.data = (uint8_t *)malloc(b.size() ? b.size() : 1);
	if (b.size()) memcpy(m.data, b.data(), b.size());
}
TMsg::~TMsg() { free(m.data); }
uint8_t sum8(const Bytes &b, size_t n) { unsigned s = 0; for (size_t i = 0; i < n; i++) s += b[i]; return (uint8_t)s; }
void stack_init() { static bool done = false; if (!done) { diag_init(); done = true; } }
extern "C" void sink_cb(void *h, struct diag_msg *m) { ((RecvSink *)h)->got.push_back(chain(m)); }
