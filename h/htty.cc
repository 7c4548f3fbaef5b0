// Serial port monitor: settings, control lines, transfers and breaks as seen
// by the (virtual) port itself.
#include "l2util.h"
#include <cerrno>
#include <fcntl.h>
#include <dirent.h>
using namespace vt;
struct P : Tty {
	P() : Tty("/dev/ttyVT0") {}
};
static int nfd() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
struct Orig { unsigned i, o, c, l, is, os; int mcr, sf, sd; unsigned char cc[19]; };
static Orig snap(P &p) { Orig x; memset(&x, 0, sizeof x); x.i = p.iflag; x.o = p.oflag; x.c = p.cflag & ~0x100fu; x.l = p.lflag; x.is = p.ispeed; x.os = p.ospeed; x.mcr = p.mcr; x.sf = p.ss_flags; x.sd = p.ss_div; memcpy(x.cc, p.cc, 19); return x; }
static void randomize(Rng &r, P &p) {
	if (r.chance(80)) {
		p.iflag = r.next() & 0x7fff; p.oflag = r.next() & 0xff; p.lflag = r.next() & 0xffff;
		p.cflag = (r.next() & 0x80000ff0u & ~0x100fu);
		p.ispeed = p.ospeed = r.pick({50u, 300u, 9600u, 10400u, 115200u, 250000u});
		p.mcr = r.next() & 6;
		p.cc[6] = r.byte(); p.cc[5] = r.byte();
	}
	p.ss_ok = r.chance(80);
}
static struct diag_serial_settings rset(Rng &r) {
	struct diag_serial_settings s;
	s.speed = r.chance(50) ? r.pick({5u, 360u, 4800u, 9600u, 10400u, 38400u, 115200u}) : r.range(1, 250000);
	s.databits = (enum diag_databits)r.range(5, 8);
	s.stopbits = (enum diag_stopbits)r.range(1, 2);
	s.parflag = (enum diag_parity)r.range(1, 3);
	return s;
}
static void poke(void *p, int v) { memcpy(p, &v, sizeof v); }
static int peek(const void *p) { int v; memcpy(&v, p, sizeof v); return v; }
static void settings(Rng &r, long) {
	P p; randomize(r, p);
	Orig o = snap(p);
	budget(400 * SEC, 400000);
	long live = mem().live; int fd0 = nfd();
	bool fault = r.chance(25);
	long nio = 0, at = fault ? r.below(14) : -1; bool sticky = r.chance(30);
	unsigned long only = r.pick({0ul, 0ul, 0x5401ul, 0x5415ul, 0x402c542bul, 0x802c542aul, 0x5418ul});
	bool hit = false;
	ttyp *t = nullptr;
	p.ioctl_fault = [&](unsigned long q) { if (at < 0 || q == 0x541e || q == 0x541f) return 0; if (only && q != only) return 0; long k = nio++; if (k == at || (sticky && k > at)) { hit = true; return EIO; } return 0; };
	std::string ctx = fmt("fault=%ld only=%lx sticky=%d", at, only, sticky);
	if (r.chance(5)) p.present = false;
	t = diag_tty_open("/dev/ttyVT0");
	if (!p.present) { CHECK(!t, "tty:opened-missing-port", "x"); rep::cover("missing-ports"); goto out; }
	if (!t) { CHECK(hit, "tty:open-refused", "%s", ctx.c_str()); rep::cover("open-failures"); p.ioctl_fault = nullptr; goto untouched; }
	if (hit) { CHECK(false, "tty:open-error-lost", "%s", ctx.c_str()); }
	CHECK(!(p.lflag & (2 | 1 | 8 | 0x8000)), "tty:not-raw-lflag", "%x", p.lflag);
	CHECK(!(p.iflag & (1 | 2 | 4 | 8 | 0x10 | 0x20 | 0x40 | 0x80 | 0x100 | 0x200 | 0x400 | 0x800 | 0x1000 | 0x2000)), "tty:not-raw-iflag", "%x", p.iflag);
	CHECK(!(p.oflag & 1), "tty:not-raw-oflag", "%x", p.oflag);
	CHECK((p.cflag & 0x880) == 0x880 && !(p.cflag & 0x80000000u), "tty:not-raw-cflag", "%x", p.cflag);
	CHECK(p.cc[6] == 1, "tty:vmin", "%d", p.cc[6]);
	{
		bool anyset = false; struct diag_serial_settings cur; memset(&cur, 0, sizeof cur);
		for (int k = 0; k < 6; k++) {
			bool h0 = hit; hit = false;
			if (r.chance(60)) {
				struct diag_serial_settings s = rset(r);
				bool bad = r.chance(12);
				if (bad) switch (r.below(4)) { case 0: s.speed = 0; break; case 1: poke(&s.databits, r.pick({0, 4, 9})); break; case 2: poke(&s.stopbits, r.pick({0, 3})); break; default: poke(&s.parflag, r.pick({0, 4})); }
				UartCfg before = p.uart();
				int rv = diag_tty_setup(t, &s);
				UartCfg u = p.uart();
				std::string c2 = ctx + fmt(" setup %u bps %d%c%d: rv=%d port %u bps %d%c%d", s.speed, peek(&s.databits), "?EON"[peek(&s.parflag) & 3], peek(&s.stopbits), rv, u.speed, u.databits, u.parity, u.stopbits);
				if (bad) { CHECK(rv < 0, "tty:bad-setting-accepted", "%s", c2.c_str()); CHECK(u.speed == before.speed && u.databits == before.databits && u.parity == before.parity && u.stopbits == before.stopbits, "tty:bad-setting-applied", "%s", c2.c_str()); rep::cover("bad-settings"); }
				else if (hit) { CHECK(rv < 0, "tty:setup-error-lost", "%s", c2.c_str()); rep::cover("setup-failures"); break; }
				else {
					CHECK(rv == 0, "tty:setup-refused", "%s", c2.c_str());
					CHECK(rv || (u.speed == s.speed && u.databits == (int)s.databits && u.stopbits == (int)s.stopbits && u.parity == "?EON"[s.parflag]), "tty:wrong-settings", "%s", c2.c_str());
					CHECK(!(p.lflag & 11) && !(p.iflag & 0x15fb & ~0x800u) && p.cc[6] == 1, "tty:left-raw-mode", "%s l=%x i=%x", c2.c_str(), p.lflag, p.iflag);
					rep::cover("settings-checked"); rep::distinct(c2); rep::sample(c2);
					anyset = true;
				}
			} else {
				unsigned d = r.pick({0u, 1u, 5u}), s = r.pick({0u, 1u, 0x10u});
				int m0 = p.mcr;
				int rv = diag_tty_control(t, d, s);
				if (hit) { CHECK(rv < 0, "tty:control-error-lost", "%s", ctx.c_str()); }
				else {
					CHECK(rv == 0 && !!(p.mcr & 2) == !!d && !!(p.mcr & 4) == !!s && (p.mcr & ~6) == (m0 & ~6), "tty:control-lines", "dtr=%u rts=%u rv=%d lines before %x after %x", d, s, rv, m0, p.mcr);
					rep::cover("control-lines-checked");
					rep::distinct(fmt("mcr %x %u %u", m0, d, s));
				}
			}
			hit = hit || h0;
		}
		(void)anyset; (void)cur;
	}
	p.ioctl_fault = nullptr;
	diag_tty_close(t);
untouched:
	{
		Orig n = snap(p);
		if (!(fault && hit && !t)) CHECK(!memcmp(&n, &o, sizeof o), "tty:not-restored", "%s: before i=%x o=%x c=%x l=%x %u/%u mcr=%x ss=%x/%d, after i=%x o=%x c=%x l=%x %u/%u mcr=%x ss=%x/%d", ctx.c_str(), o.i, o.o, o.c, o.l, o.is, o.os, o.mcr, o.sf, o.sd, n.i, n.o, n.c, n.l, n.is, n.os, n.mcr, n.sf, n.sd);
		else CHECK(n.os != 0 || o.os == 0, "tty:left-at-0-baud", "%s", ctx.c_str());
		rep::cover("closes-checked");
	}
out:
	CHECK(p.nopen == 0 && nfd() == fd0, "tty:fd-leak", "%s: %d open", ctx.c_str(), p.nopen);
	CHECK(mem().live == live, "tty:leak", "%s: %ld blocks", ctx.c_str(), mem().live - live);
}
static void io(Rng &r, long) {
	P p; budget(4000 * SEC, 4000000);
	ttyp *t = diag_tty_open("/dev/ttyVT0");
	struct diag_serial_settings s = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	s.speed = r.pick({1200u, 4800u, 10400u, 38400u});
	s.databits = (enum diag_databits)r.range(5, 8); s.stopbits = (enum diag_stopbits)r.range(1, 2); s.parflag = (enum diag_parity)r.range(1, 3);
	if (!t || diag_tty_setup(t, &s)) { rep::violation("tty:open-refused", "io"); return; }
	for (int k = 0; k < 6; k++) {
		if (r.chance(45)) {
			size_t n = r.chance(80) ? r.range(1, 40) : r.range(41, 400);
			Bytes b = r.bytes(n);
			int mode = r.below(7);   // 0,1 ok 2 partial 3 EINTR mix 4 error at 5 stall 6 takes bytes at the wire's rate only
			long c = 0, at = r.below(4);
			p.wr_limit = nullptr;
			size_t upto = r.below(n);
			if (mode == 2) p.wr_limit = [&](size_t m) { return (int)(1 + r.below(m)); };
			if (mode == 3) p.wr_limit = [&](size_t m) { return r.chance(40) ? -EINTR : (int)(1 + r.below(m)); };
			if (mode == 4) p.wr_limit = [&](size_t m) { return c++ == at ? -EIO : (int)(1 + r.below(m < 4 ? m : (m + 3) / 4)); };
			p.txall.clear(); 
			if (mode == 5) p.wr_limit = [&](size_t m) { size_t left = upto - p.txall.size(); advance(200 * US); return (int)std::min(m, left); };
			if (mode == 6) { p.wr_limit = [&](size_t) { advance(p.byte_ns()); return 1; }; rep::cover("writes-at-wire-rate"); }
			ns_t t0 = now();
			ssize_t rv = diag_tty_write(t, b.data(), n);
			p.wr_limit = nullptr;
			std::string ctx = fmt("write len=%zu mode=%d at=%ld upto=%zu rv=%zd put %zu took %llu us", n, mode, at, upto, rv, p.txall.size(), (unsigned long long)((now() - t0) / US));
			CHECK(p.txall.size() <= n && std::equal(p.txall.begin(), p.txall.end(), b.begin()), "tty:wrong-bytes", "%s [%s] for [%s]", ctx.c_str(), hex(p.txall).c_str(), hex(b).c_str());
			if (mode == 4 && c > at) { CHECK(rv < 0, "tty:write-error-lost", "%s", ctx.c_str()); rep::cover("write-errors"); }
			else {
				CHECK(rv == (ssize_t)p.txall.size(), "tty:write-count", "%s", ctx.c_str());
				if (mode != 5) CHECK(rv == (ssize_t)n, "tty:short-write", "%s", ctx.c_str());
				if (mode == 5) rep::cover("write-stalls");
				CHECK(!rv || now() >= p.tx_free, "tty:returned-before-sent", "%s (%lld us early)", ctx.c_str(), (long long)(p.tx_free - now()) / 1000);
				CHECK(now() - t0 <= n * p.byte_ns() * 2 + 40 * MS, "tty:write-too-slow", "%s", ctx.c_str());
				rep::cover("writes-checked"); rep::distinct(fmt("w %zu %d %ld %zu", n, mode, at, upto)); rep::sample(ctx);
			}
			advance_to(p.tx_free);
		} else {
			p.rx.clear();
			size_t have = r.chance(15) ? 0 : r.range(1, 30), want = r.range(1, 30);
			unsigned tout = r.chance(70) ? r.range(1, 200) : r.range(200, 3000);
			ns_t t0 = now(), tt = t0 + (r.chance(30) ? 0 : r.below(tout * 1200) * US);
			Bytes b; ns_t dl = t0 + tout * MS; ns_t lastt = 0; size_t near = 0;
			for (size_t i = 0; i < have; i++) { uint8_t x = r.byte(); p.Tty::push(tt, x); b.push_back(x); tt += r.chance(80) ? p.byte_ns() : r.below(tout * 300) * US; }
			size_t k2 = 0;
			for (auto &e : p.rx) { if (k2 < want && e.first <= dl - 100 * US) { k2++; lastt = e.first; } if (e.first > dl - 100 * US && e.first < dl + 2 * MS) near++; }
			int mode = r.below(6); long c = 0, at = r.below(3); bool did = false;
			p.rd_fault = nullptr; p.sel_fault = nullptr;
			if (mode == 1) p.rd_fault = [&]() { return r.chance(40) ? EINTR : 0; };
			if (mode == 2) p.sel_fault = [&]() { return r.chance(40) ? EINTR : 0; };
			if (mode == 3) p.rd_fault = [&]() { if (c++ == at) { did = true; return EIO; } return 0; };
			if (mode == 4) p.sel_fault = [&]() { if (c++ == at) { did = true; return EBADF; } return 0; };
			uint8_t *buf = (uint8_t *)malloc(want);
			ssize_t rv = diag_tty_read(t, buf, want, tout);
			Bytes got(buf, buf + (rv > 0 ? std::min<size_t>(rv, want) : 0)); free(buf);
			ns_t t1 = now();
			p.rd_fault = nullptr; p.sel_fault = nullptr;
			std::string ctx = fmt("read want=%zu tout=%u have=%zu (%zu in time) mode=%d@%ld rv=%zd after %llu us", want, tout, have, k2, mode, at, rv, (unsigned long long)(t1 - t0) / 1000);
			CHECK(t1 <= dl + 5 * MS, "tty:read-late", "%s", ctx.c_str());
			if (did) { CHECK(rv < 0 && rv != DIAG_ERR_TIMEOUT, "tty:read-error-lost", "%s", ctx.c_str()); rep::cover("read-errors"); }
			else if (k2 == want) {
				CHECK(rv == (ssize_t)want && std::equal(got.begin(), got.end(), b.begin()), "tty:wrong-data", "%s got [%s] expected [%s]", ctx.c_str(), hex(got).c_str(), hex(b).c_str());
				CHECK(t1 <= std::max(lastt, t0) + 3 * MS, "tty:read-waited-on", "%s last byte at %llu", ctx.c_str(), (unsigned long long)(lastt - t0) / 1000);
				rep::cover("reads-full");
			} else {
				if (rv > 0) CHECK(std::equal(got.begin(), got.end(), b.begin()), "tty:wrong-data", "%s got [%s] expected [%s]", ctx.c_str(), hex(got).c_str(), hex(b).c_str());
				if (!near) { CHECK(k2 ? rv == (ssize_t)k2 : rv == DIAG_ERR_TIMEOUT, "tty:wrong-count", "%s", ctx.c_str()); }
				else CHECK(rv == DIAG_ERR_TIMEOUT ? k2 == 0 : rv >= (ssize_t)k2 && rv <= (ssize_t)std::min(want, k2 + near), "tty:wrong-count", "%s near=%zu", ctx.c_str(), near);
				if (rv != (ssize_t)want) CHECK(t1 >= dl - 1 * MS, "tty:read-gave-up-early", "%s", ctx.c_str());
				rep::cover(k2 ? "reads-partial" : "reads-timeout");
			}
			rep::distinct(fmt("r %zu %u %zu %zu %d", want, tout, have, k2, mode));
		}
	}
	diag_tty_close(t);
}
static void line(Rng &r, long) {
	P p; budget(4000 * SEC, 4000000);
	ttyp *t = diag_tty_open("/dev/ttyVT0");
	struct diag_serial_settings s = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	if (!t || diag_tty_setup(t, &s)) { rep::violation("tty:open-refused", "line"); return; }
	for (int k = 0; k < 4; k++) {
		p.log.clear(); p.rx.clear();
		int op = r.below(3);
		ns_t t0 = now();
		if (op == 0) {
			unsigned ms = r.range(1, 400);
			if (r.chance(40)) { Bytes b = r.bytes(r.range(1, 4)); p.wr_limit = nullptr; for (auto x : b) { p.log.push_back({now(), 'T', x, p.uart()}); p.tx_free = std::max(p.tx_free, now()) + p.byte_ns(); } }
			ns_t pend = p.tx_free;
			bool f = r.chance(15); unsigned long fq = r.pick({0x5427ul, 0x5428ul});
			if (f) p.ioctl_fault = [&](unsigned long q) { return q == fq ? EIO : 0; };
			int rv = diag_tty_break(t, ms);
			p.ioctl_fault = nullptr;
			ns_t on = 0, off = 0; int nb = 0;
			for (auto &e : p.log) { if (e.kind == 'B') { on = e.t; nb++; } if (e.kind == 'b') off = e.t; }
			std::string ctx = fmt("break %u ms rv=%d: on +%llu us for %llu us", ms, rv, (unsigned long long)(on - t0) / 1000, (unsigned long long)(off - on) / 1000);
			if (f) { CHECK(rv < 0, "tty:break-error-lost", "%s", ctx.c_str()); p.brk = false; rep::cover("break-errors"); continue; }
			CHECK(rv == 0 && nb == 1 && !p.brk, "tty:break", "%s n=%d", ctx.c_str(), nb);
			CHECK(on >= pend, "tty:break-cuts-data", "%s: data until +%llu us", ctx.c_str(), (unsigned long long)(pend - t0) / 1000);
			CHECK(off - on >= ms * MS && off - on <= ms * MS + 2 * MS, "tty:break-length", "%s", ctx.c_str());
			CHECK(now() - off < 1 * MS, "tty:break-returns-late", "%s", ctx.c_str());
			rep::cover("breaks-checked"); rep::distinct(fmt("b %u %d", ms, pend > t0)); rep::sample(ctx);
		} else if (op == 1) {
			size_t n = r.below(40), m = r.below(10);
			Bytes b;
			for (size_t i = 0; i < n; i++) p.Tty::push(t0 - i, r.byte());
			for (size_t i = 0; i < m; i++) p.Tty::push(t0 + r.below(27000) * US, r.byte());
			size_t late = r.below(4);
			for (size_t i = 0; i < late; i++) p.Tty::push(t0 + 45 * MS + i * MS, i + 1);
			int rv = diag_tty_iflush(t);
			CHECK(rv == 0, "tty:iflush", "rv=%d", rv);
			CHECK(p.rx.size() == late, "tty:iflush-content", "old %zu, in window %zu, later %zu; left %zu", n, m, late, p.rx.size());
			CHECK(now() - t0 <= 40 * MS, "tty:iflush-slow", "%llu us", (unsigned long long)(now() - t0) / 1000);
			rep::cover("flushes-checked"); rep::distinct(fmt("f %zu %zu %zu", n, m, late));
		} else {
			unsigned ms = r.chance(10) ? r.below(25) : r.range(25, 80);
			p.echo = r.chance(85);
			int rv = diag_tty_fastbreak(t, ms);
			ns_t st = 0; unsigned sp = 0, v = 1; int nt = 0;
			for (auto &e : p.log) if (e.kind == 'T') { st = e.t; sp = e.u.speed; v = e.v; nt++; }
			std::string ctx = fmt("fastbreak %u echo=%d rv=%d: %d bytes, %u at %u bps, total %llu us", ms, p.echo, rv, nt, v, sp, (unsigned long long)(now() - st) / 1000);
			if (ms < 25) { CHECK(rv < 0 && !nt, "tty:fastbreak-impossible", "%s", ctx.c_str()); p.echo = false; rep::cover("fastbreak-refused"); continue; }
			CHECK(nt == 1 && v == 0 && sp == 360, "tty:fastbreak", "%s", ctx.c_str());
			if (!p.echo) CHECK(rv < 0, "tty:fastbreak-no-echo", "%s", ctx.c_str());
			else {
				UartCfg u = p.uart();
				CHECK(rv == 0, "tty:fastbreak-failed", "%s", ctx.c_str());
				CHECK(u.speed == 10400 && u.databits == 8 && u.stopbits == 1 && u.parity == 'N', "tty:fastbreak-settings", "%s then %u", ctx.c_str(), u.speed);
				ns_t d = now() - st, lo = std::max<ns_t>(ms * MS, 27777 * US);
				CHECK(d + 1 * MS >= lo && d <= lo + 3 * MS, "tty:fastbreak-length", "%s", ctx.c_str());
			}
			if (!p.echo) diag_tty_setup(t, &s);
			p.echo = false;
			rep::cover("fastbreaks-checked"); rep::distinct(fmt("fb %u %d", ms, rv));
		}
	}
	diag_tty_close(t);
}
std::vector<Mode> modes() { return {{"settings", settings, stack_init}, {"io", io, stack_init}, {"line", line, stack_init}}; }
