"""Runs harness cases in parallel, turns crashes into violations, matches
known findings, writes evidence."""
import json, os, re, subprocess, sys, tempfile, threading, time, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC = min(8, os.cpu_count() or 8)


VALGRIND = ["valgrind", "-q", "--tool=memcheck", "--error-exitcode=77", "--exit-on-first-error=yes", "--undef-value-errors=yes",
            "--leak-check=no", "--num-callers=14", "--track-fds=no", "--child-silent-after-fork=yes", "--malloc-fill=0xbe", "--free-fill=0xce"]


class HarnessError(Exception):
    pass


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


ASAN = ("abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:"
        "detect_stack_use_after_return=0:max_malloc_fill_size=4096:malloc_fill_byte=190:log_path=%s")
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=77:log_path=%s"


def san_env(logp):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ASAN % logp
    e["UBSAN_OPTIONS"] = UBSAN % logp
    e["TSAN_OPTIONS"] = ("halt_on_error=1:exitcode=66:log_path=%s:second_deadlock_stack=1:history_size=4:suppressions=%s"
                         % (logp, os.path.join(VERIF, "h", "tsan.supp")))
    e["LC_ALL"] = "C.UTF-8"
    e["TZ"] = "UTC"
    return e


SKIP = re.compile(r"^(__interceptor_|__asan|__ubsan|__wrap_|__real_|_IO_|__vfprintf|vfprintf|mem(cpy|move|set|cmp)|str|printf|abort|__assert|raise|__GI_|__pthread|pthread_kill|f_recv|f_send|f_ioctl|operator|std::|TMsg|chain|sink_cb|deliver|main$|__libc|_start)")


def tsan_key(text):
    """Kind of report and, order-independent, the innermost repository functions of its stacks."""
    m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", text)
    kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    fns = []
    for blk in re.split(r"\n\s*\n", text[m.end():])[:4]:
        if re.match(r"\s*(Thread T|SUMMARY|Location)", blk):
            continue
        for f in re.finditer(r"#\d+ (\S+) ([^\n]*)", blk):
            if "/verif/" in f.group(2) or SKIP.match(f.group(1)) or "libtsan" in f.group(2) or "<null>" in f.group(2):
                continue
            fns.append(f.group(1))
            break
    return kind + ":" + "+".join(sorted(set(fns[:2]))), text[:3500]


def memcheck_key(text):
    """Kind of memcheck report and the innermost repository function involved."""
    body = re.sub(r"^==\d+== ?", "", text, flags=re.M)
    m = re.search(r"^(Conditional jump|Use of uninitialised|Syscall param \S+|Uninitialised byte\(s\) found|Invalid read|Invalid write|Invalid free|Mismatched free|Source and destination overlap|Argument \S+ of function|Process terminating|Jump to the invalid|\S*realloc\(\) with size 0)", body, re.M)
    kind = m.group(1) if m else "report"
    fn = "?"
    for f in re.finditer(r"(?:at|by) 0x[0-9A-F]+: ([^\n(]+) ?\(([^\n]*)\)", body[m.start():] if m else body):
        name = f.group(1).strip()
        if SKIP.match(name) or name.startswith(("vt::", "rep::", "std::", "__gnu", "capture", "hex", "fmt", "__do_", "??? ")) or re.search(r"\.so|vt\.cc|h\.cc|fakel0", f.group(2)):
            continue
        fn = re.sub(r"\..*", "", name)
        break
    return "memcheck:" + kind.replace(" ", "-") + ":" + fn, body[m.start() if m else 0:][:3000]


def crash_key(text):
    if re.search(r"^==\d+== ", text, re.M) and "Sanitizer" not in text:
        return memcheck_key(text)
    if "WARNING: ThreadSanitizer" in text:
        return tsan_key(text)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = None
    if m:
        kind = "asan:" + m.group(1)
        if m.group(1) == "ABRT" or "ABRT" in text[:400]:
            kind = "abort"
        body = text[m.start():]
        if kind.endswith("attempting"):
            kind = "asan:bad-free"
    m2 = re.search(r"runtime error: (.*)", text)
    if m2 and (not m or m2.start() < m.start()):
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m2.group(1))
        msg = re.sub(r"'[^']*'", "T", msg)
        kind = "ubsan:" + msg[:60].strip()
        body = text[m2.start():]
    if not kind:
        return "crash:unknown", text[-500:]
    fn = "?"
    for f in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+)([^\n]*)", body):
        name = f.group(1)
        if SKIP.match(name) or "/verif/" in f.group(2) and "/h/" in f.group(2):
            continue
        if "libsanitizer" in f.group(2) or "/lib/" in f.group(2):
            continue
        fn = name
        break
    return kind + ":" + fn, text[:2500]


class Result:
    def __init__(self):
        self.cases = 0
        self.counters = {}
        self.samples = []
        self.sigs = set()
        self.viol = []          # dicts key, detail, replay-args
        self.notes = []

    def merge(self, o):
        self.cases += o.cases
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.samples += o.samples
        self.sigs |= o.sigs
        self.viol += o.viol
        self.notes += o.notes


def run_shard(binary, mode, sd, frm, to, step, wall, tmp, extra, res, wrapper=()):
    tag = "%s-%s-%d" % (os.path.basename(binary), mode, frm)
    outp, prog = os.path.join(tmp, tag + ".out"), os.path.join(tmp, tag + ".prog")
    logp = os.path.join(tmp, tag + ".san")
    if wrapper and wrapper[0] == "valgrind":
        wrapper = list(wrapper) + ["--log-file=" + logp + ".vg"]
    cur = frm
    crashes = 0
    retried = set()
    t_end = time.time() + wall
    while cur < to:
        for p in (outp, prog):
            if os.path.exists(p):
                os.unlink(p)
        for f in os.listdir(tmp):
            if f.startswith(os.path.basename(logp) + "."):
                os.unlink(os.path.join(tmp, f))
        cmd = list(wrapper) + [binary, mode, "--seed", str(sd), "--from", str(cur), "--to", str(to), "--step", str(step),
                               "--out", outp, "--progress", prog] + list(extra)
        timed = False
        errp, cerr = os.path.join(tmp, tag + ".err"), os.path.join(tmp, tag + ".cerr")
        cmd += ["--err", cerr]
        for p in (cerr, cerr + ".cap"):
            if os.path.exists(p):
                os.unlink(p)
        with open(errp, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=ef,
                                 env=dict(san_env(logp), SCRATCH=tmp), cwd=tmp)
            try:
                rc = p.wait(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc, timed = -9, True
        idx = None
        if os.path.exists(prog):
            with open(prog, "rb") as f:
                b = f.read(8)
                if len(b) == 8:
                    idx = int.from_bytes(b, "little", signed=True)
        if os.path.exists(outp):
            for line in open(outp, errors="replace"):
                try:
                    j = json.loads(line)
                except ValueError:
                    continue
                if j["t"] == "viol":
                    res.viol.append(dict(key=j["key"], detail=j["detail"], mode=mode, case=j["case"], seed=sd, binary=os.path.basename(binary)))
                elif j["t"] == "done":
                    res.cases += j["cases"]
                    for k, v in j["counters"].items():
                        res.counters[k] = res.counters.get(k, 0) + v
                    res.samples += j["samples"]
                    res.sigs.update(j["sigs"])
        if idx == -2 and rc == 0:
            return
        if timed:
            res.notes.append("shard %s stopped by the wall-clock watchdog at case %s" % (tag, idx))
            return
        if idx is None or idx < 0:
            raise HarnessError("harness %s did not start (rc %s): %s" % (tag, rc, open(errp, errors="replace").read()[-1500:]))
        text = ""
        for f in sorted(os.listdir(tmp)):
            if f.startswith(os.path.basename(logp) + "."):
                text += open(os.path.join(tmp, f), errors="replace").read()
        for f in (cerr, cerr + ".cap", errp):
            if not text and os.path.exists(f):
                s = open(f, errors="replace").read()
                if "runtime error:" in s or "ERROR: AddressSanitizer" in s or "Assertion" in s or "ThreadSanitizer" in s:
                    m = re.search(r"^.*(runtime error:|ERROR: AddressSanitizer|Assertion|WARNING: ThreadSanitizer)", s, re.M)
                    text = s[m.start():]
        if rc in (97, 98):
            # a hang verdict: the harness wrote the violation itself; confirm a CPU hang once
            if rc == 98 and idx not in retried:
                retried.add(idx)
                res.viol = [v for v in res.viol if not (v["case"] == idx and v["key"] == "hang:cpu")]
                cur = idx
                continue
        else:
            if not text and rc == -9 and idx not in retried:
                retried.add(idx)          # killed from outside (memory): not a verdict
                cur = idx
                continue
            key, det = crash_key(text) if text else ("crash:rc%d" % rc, open(errp, errors="replace").read()[-800:])
            res.viol.append(dict(key=key, detail=det, mode=mode, case=idx, seed=sd, binary=os.path.basename(binary)))
        res.cases += max(0, (idx - cur) // step + 1)
        crashes += 1
        cur = idx + step
        if crashes >= 12:
            res.notes.append("shard %s stopped after %d crashing cases" % (tag, crashes))
            return


def run_cases(binary, mode, n, wall=600, extra=(), procs=NPROC, wrapper=(), sd=None, only=None):
    tmp = tempfile.mkdtemp(prefix="vrun-")
    try:
        rs, ths, errs = [], [], []
        if only is not None:
            r = Result()
            run_shard(binary, mode, seed() if sd is None else sd, only, only + 1, 1, wall, tmp, extra, r, wrapper)
            return r
        for k in range(min(procs, n)):
            r = Result()
            rs.append(r)

            def go(k=k, r=r):
                try:
                    run_shard(binary, mode, seed() if sd is None else sd, k, n, min(procs, n), wall, tmp, extra, r, wrapper)
                except Exception as e:  # noqa
                    errs.append(e)
            t = threading.Thread(target=go)
            t.start()
            ths.append(t)
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        tot = Result()
        for r in rs:
            tot.merge(r)
        return tot
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def norm(key):
    return re.sub(r"\s+", "_", key)
