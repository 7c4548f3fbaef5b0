// Virtual time / virtual serial port layer.  Linked in front of the code under
// test with ld --wrap: every clock, sleep, timer, select, and every operation
// on a registered fake tty goes through here, so runs are deterministic, take
// no wall time, and every externally visible action has an exact timestamp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace vt {
typedef uint64_t ns_t;
constexpr ns_t US = 1000ULL, MS = 1000000ULL, SEC = 1000000000ULL;

ns_t now();
void advance(ns_t d);
void advance_to(ns_t t);
void reset_clock(ns_t t);

// A run that consumes more virtual time, or more hooked calls, than this
// without the harness renewing the budget is reported as a hang.
void budget(ns_t virt, uint64_t calls);
extern std::function<void(const char *)> on_hang;

// SIGEV_THREAD timers armed by the code under test.
// idle(): let d nanoseconds pass, firing expired timers (inline, in order).
void idle(ns_t d);
extern bool async_timers;      // fire during sleeps as well (same thread)
int armed_timers();

// every externally visible action of the code under test, while set
extern void (*tracer)(char kind, uint64_t v);
inline void tr(char kind, uint64_t v) { if (tracer) tracer(kind, v); }
// what the system's clocks are like: which exist, where each started and how finely it counts,
// when sleeps are interrupted or last longer, and whether timers can be had
struct Clocks {
	std::function<int(int)> gettime_err, sleep_err;   // errno for a clock id (0: it works)
	std::function<long long(int)> offset;             // ns to add
	ns_t grain = 1;
	std::function<ns_t(ns_t)> cut;                    // of a sleep of so long: how long until a signal (~0: none)
	std::function<ns_t(ns_t)> late;                   // how much longer than asked for
	int create_err = 0, settime_err = 0;
	unsigned long ncuts = 0;
};
extern Clocks clocks;
int used_timers();
extern unsigned long g_defined;	// bytes checked so far
void defined(const void *p, size_t n);
extern ns_t clock_cost;        // what reading a clock takes

// allocation accounting for the code under test
struct MemStat { long live; long bytes; unsigned long total; };
MemStat mem();
extern long fail_alloc_in;      // -1: never; n: the n-th next allocation fails
std::vector<std::pair<const void *, size_t>> live_since(unsigned long serial);
unsigned long alloc_serial();

// virtual directories (for port enumeration): name -> entries
extern std::map<std::string, std::vector<std::string>> vdirs;
extern int open_dirs;

// the user at the keyboard: called when the code under test polls, or reads, stdin
extern std::function<void()> on_poll, on_stdin;

struct UartCfg { unsigned speed; int databits, stopbits; char parity; };

// A fake serial port.
class Tty {
public:
	std::string path;
	bool present = true, istty = true;
	unsigned iflag = 0x500, oflag = 5, cflag = 0xcbd, lflag = 0x8a3b;
	unsigned char cc[19] = {3, 28, 127, 21, 4, 0, 1, 0, 17, 19, 26};
	unsigned ispeed = 9600, ospeed = 9600;
	int mcr = 0x6;                  // TIOCM_DTR | TIOCM_RTS
	int ss_flags = 0, ss_div = 0;   // serial_struct
	bool ss_ok = true;
	bool brk = false;
	int nopen = 0;
	bool echo = false;              // K-line: tester hears itself
	struct Ev { ns_t t; char kind; unsigned v; UartCfg u; };
	std::vector<Ev> log;            // 'T' byte tx start,'B'/'b' break on/off,'M' mcr,'C' config,'F' iflush,'O' open,'X' close
	std::deque<std::pair<ns_t, uint8_t>> rx;
	std::vector<uint8_t> txall;
	ns_t tx_free = 0;
	// fault injection
	std::function<int(size_t)> wr_limit;     // bytes accepted by this write() (<=n), or -errno
	std::function<int()> rd_fault;           // 0 ok, else errno
	std::function<int()> sel_fault;          // 0 ok, else errno
	std::function<int(unsigned long)> ioctl_fault;
	unsigned long nread = 0, nwrite = 0, nselect = 0;

	Tty(const std::string &p);
	virtual ~Tty();
	UartCfg uart() const;
	ns_t byte_ns() const;
	void push(ns_t t, uint8_t b);
	void push(ns_t t, const std::vector<uint8_t> &v, ns_t gap = 0);
	virtual void on_tx(ns_t t_done, uint8_t b) { (void)t_done; (void)b; }
	virtual void on_break(ns_t t, bool on) { (void)t; (void)on; }
	virtual void on_mcr(ns_t t, int m) { (void)t; (void)m; }
	virtual void on_wait(ns_t until) { (void)until; }  // tester is about to wait
};
} // namespace vt
