"""C24: start, workers, signals and shutdown of real milter-manager processes with sessions in progress."""
import asyncio, grp, json, os, random, re, signal, socket, stat, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import life, manager
from milterproto import *
import milterproto as P

RULE = ("seed -> start configurations (address, socket mode and group, PID file, stale socket, daemon, workers, back end) x sessions at random "
        "progress x SIGHUP/SIGUSR1 storms x the moment and kind of the shutdown signal; plus starts that must fail")


def stat_of(pid):
    try:
        r = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return r[0], int(r[1]), int(r[2]), int(r[3])
    except (OSError, IndexError, ValueError):
        return None


def alive(pid):
    s = stat_of(pid)
    return s is not None and s[0] not in "ZX"


def descendants(pid):
    out = []
    for c in life.children_of(pid):
        out += [c] + descendants(c)
    return out


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


async def wait_for(f, timeout=30):
    t = time.time()
    while time.time() - t < timeout:
        v = f()
        if v:
            return v
        await asyncio.sleep(.02)
    return f()


def connectable(spec):
    try:
        if spec[0] == "unix":
            s = socket.socket(socket.AF_UNIX)
            s.connect(spec[1])
        else:
            s = socket.socket(socket.AF_INET6 if ":" in spec[1] else socket.AF_INET)
            s.settimeout(2)
            s.connect((spec[1], spec[2]))
        s.close()
        return True
    except OSError:
        return False


async def shutdown_round(ck, seed, label):
    rng = random.Random(seed)
    m = manager.Manager()
    child = life.Child(m.child_sock("c1"))
    await child.start()
    cfg = dict(workers=rng.choice([0, 0, 1, 2, 3]) if label != "workers" else rng.choice([1, 2, 4]),
               backend=rng.choice(["glib", "libev"]), inet=rng.random() < .25, mode=rng.choice([0o600, 0o660, 0o666, 0o777, 0o620]),
               pidfile=rng.random() < .8, rm_close=rng.random() < .7, rm_create=rng.random() < .8, daemon=label == "daemon",
               group=rng.choice([None, None, "nogroup", "daemon"]), stale=rng.random() < .4, log=rng.random() < .5, vanish=rng.random() < .2)
    if cfg["stale"] and not cfg["rm_create"]:
        cfg["stale"] = False
    what = "%r seed=%r" % (cfg, seed)
    problems = []

    def bad(k, t):
        problems.append((k, t + " [" + what + "]"))
    port = free_port()
    spec = ("inet", "127.0.0.1", port) if cfg["inet"] else ("unix", m.sock)
    logfile = os.path.join(m.dir, "log")
    text = ['manager.connection_spec = "%s"' % ("inet:%d@127.0.0.1" % port if cfg["inet"] else "unix:" + m.sock),
            'manager.unix_socket_mode = %s' % oct(cfg["mode"]).replace("0o", "0"),
            'manager.unix_socket_group = "%s"' % cfg["group"] if cfg["group"] else "",
            'manager.remove_unix_socket_on_close = %s' % str(cfg["rm_close"]).lower(),
            'manager.remove_unix_socket_on_create = %s' % str(cfg["rm_create"]).lower(),
            'manager.pid_file = %s' % (json.dumps(m.pid) if cfg["pidfile"] else "nil"),
            'manager.n_workers = %d' % cfg["workers"], 'manager.event_loop_backend = "%s"' % cfg["backend"],
            'manager.max_pending_finished_sessions = %d' % rng.choice([0, 0, 3]),
            'log.path = %s\nlog.level = "default|info"' % json.dumps(logfile) if cfg["log"] else "",
            'define_milter("c1") do |milter|\n  milter.connection_spec = "unix:%s"\nend' % child.path]
    with open(os.path.join(m.dir, "milter-manager.conf"), "w") as f:
        f.write("\n".join(text) + "\n")
    if cfg["log"]:
        # the process opens it again after it gave up root
        open(logfile, "w").close()
        os.chmod(logfile, 0o666)
    if cfg["stale"] and not cfg["inet"]:
        s = socket.socket(socket.AF_UNIX)
        s.bind(m.sock)
        s.close()
    procs = []
    try:
        m.start(args=["--daemon"] if cfg["daemon"] else [], wait=False,
                env={"ASAN_OPTIONS": manager.san_env()["ASAN_OPTIONS"] + ":log_path=" + os.path.join(m.dir, "tmp", "asan"),
                     "UBSAN_OPTIONS": manager.san_env().get("UBSAN_OPTIONS", "") + ":log_path=" + os.path.join(m.dir, "tmp", "ubsan")} if cfg["daemon"] else None)
        if cfg["daemon"]:
            rc = await wait_for(lambda: m.proc.poll() is not None and [m.proc.returncode], 30)
            if rc != [0]:
                bad("daemon-start", "the starting process of a daemon ended with %r" % (rc,))
                return problems
        ok = await wait_for(lambda: connectable(spec) or (not cfg["daemon"] and m.proc.poll() is not None), 60)
        if not connectable(spec):
            bad("start", "not listening on %r: exit %r: %s" % (spec, m.proc.poll(), m.errors()[-1500:]))
            return problems
        # ---- after the start
        if cfg["pidfile"]:
            await wait_for(lambda: os.path.exists(m.pid), 10)
            try:
                t = open(m.pid).read()
            except OSError as e:
                t = repr(e)
            mo = re.fullmatch(r"(\d+)\n", t)
            if not mo:
                bad("pid-file", "the PID file has %r" % t)
                return problems
            master = int(mo.group(1))
            if not cfg["daemon"] and master != m.proc.pid:
                bad("pid-file", "the PID file has %d but the process is %d" % (master, m.proc.pid))
            if not alive(master):
                bad("pid-file", "the process %d of the PID file does not exist" % master)
                return problems
            md = os.stat(m.pid).st_mode & 0o777
            if md & 0o022:
                bad("pid-file", "the PID file can be written by others: %o" % md)
        elif cfg["daemon"]:
            pids = [int(d) for d in os.listdir("/proc") if d.isdigit() and int(d) != os.getpid()]
            mine = []
            for d in pids:
                try:
                    if m.dir.encode() in open("/proc/%d/cmdline" % d, "rb").read() and alive(d):
                        mine.append(d)
                except OSError:
                    pass
            tops = [d for d in mine if stat_of(d) and stat_of(d)[1] not in mine]
            if not tops:
                bad("daemon-start", "no daemon process is running")
                return problems
            master = min(tops)
        else:
            master = m.proc.pid
        if cfg["daemon"]:
            st = stat_of(master)
            if st and st[2] == os.getpgid(0):
                bad("daemon-start", "the daemon is still in the process group of its starter")
            try:
                cwd = os.readlink("/proc/%d/cwd" % master)
            except PermissionError:
                cwd = "/"       # not visible without the ptrace privilege
            if cwd != "/":
                bad("daemon-start", "the daemon's working directory is %r" % cwd)
            for fd in (0, 1, 2):
                try:
                    l = os.readlink("/proc/%d/fd/%d" % (master, fd))
                    if l.startswith(m.dir):
                        bad("daemon-start", "the daemon keeps descriptor %d of its starter: %s" % (fd, l))
                except OSError:
                    pass
        n = await wait_for(lambda: len(life.children_of(master)) == cfg["workers"] and cfg["workers"] + 1, 10)
        if not n:
            # a launcher process may exist besides the workers
            bad("workers", "%d processes instead of %d workers" % (len(life.children_of(master)), cfg["workers"]))
        workers = life.children_of(master)
        procs = [master] + workers
        if not cfg["inet"]:
            st = os.stat(m.sock)
            if not stat.S_ISSOCK(st.st_mode) or st.st_mode & 0o777 != cfg["mode"]:
                bad("socket-mode", "the socket has mode %o instead of %o" % (st.st_mode & 0o777, cfg["mode"]))
            if cfg["group"] and grp.getgrgid(st.st_gid).gr_name != cfg["group"]:
                bad("socket-group", "the socket has group %d instead of %s" % (st.st_gid, cfg["group"]))
        else:
            if connectable(("inet", "127.0.0.2", port)) or connectable(("inet", "::1", port)):
                bad("address", "inet:%d@127.0.0.1 is reachable under another address" % port)
        uid = os.stat("/proc/%d" % master).st_uid
        if uid == 0:
            bad("privilege", "the process still runs as root")
        # ---- sessions and the moment of shutdown
        hit = {}
        sig_at = time.time() + rng.choice([0, .05, .2, .6, 1.0])
        nses = rng.randint(3, 10)
        sessions = []

        async def one(i):
            await asyncio.sleep(rng.random() * rng.choice([.05, .8]))
            s = await life.session(spec, "t%d" % i, think=rng.choice([0, .01, .05, .2]), wait=25, messages=rng.choice([1, 2]), quit=rng.random() < .8)
            sessions.append(s)
        tasks = [asyncio.ensure_future(one(i)) for i in range(nses)]
        storm = rng.random() < .6
        hups = 0
        reopened = False
        while time.time() < sig_at:
            if storm and rng.random() < .7:
                try:
                    for p in ([master] if rng.random() < .7 else procs):
                        os.kill(p, rng.choice([signal.SIGHUP, signal.SIGUSR1]))
                        hups += 1
                except ProcessLookupError:
                    break
            await asyncio.sleep(rng.random() * .06)
        if cfg["log"] and rng.random() < .7 and alive(master):
            os.rename(logfile, logfile + ".1")
            os.kill(master, signal.SIGUSR1)
            reopened = True
            if not await wait_for(lambda: os.path.exists(logfile), 10):
                bad("log-reopen", "no log file at its path 10 s after SIGUSR1")
        if not all(alive(p) for p in procs):
            bad("died", "a process ended before the shutdown: %r; %s" % ([p for p in procs if not alive(p)], m.errors()[-1500:]))
            return problems
        if cfg["vanish"] and not cfg["inet"]:
            os.unlink(m.sock)       # as an administrator or another server may do
        sig = rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT])
        group = rng.random() < .25 and not cfg["daemon"]
        t0 = time.time()
        if group:
            for p in procs:
                os.kill(p, sig)
        else:
            os.kill(master, sig)
        # new connections after the request must not be served while the others finish
        late = []

        async def late_one(i):
            await asyncio.sleep(.7 + i * .4)
            if connectable(spec):
                t = time.time()
                s = await life.session(spec, "late%d" % i, wait=3)
                late.append((t - t0, s))
        lates = [asyncio.ensure_future(late_one(i)) for i in range(2)]
        await asyncio.gather(*tasks)
        last = max([s["end"] for s in sessions if s["served"]] + [t0])
        gone = await wait_for(lambda: not any(alive(p) for p in procs), 20)
        took = time.time() - max(last, t0)
        if not gone:
            bad("not-terminated", "%r still run %.0f s after the last session (signal %s)" % ([p for p in procs if alive(p)], took, sig.name))
        await asyncio.gather(*lates)
        if not cfg["daemon"]:
            await wait_for(lambda: m.proc.poll() is not None, 5)
            # an end that could not remove the socket may be reported
            if m.proc.poll() not in (0, None) and not (cfg["vanish"] and cfg["rm_close"] and 0 < m.proc.poll() < 99):
                bad("exit-status", "exit status %r after %s; %s" % (m.proc.poll(), sig.name, m.errors()[-1500:]))
        kinds = {"before": 0, "during": 0, "refused": 0}
        for s in sessions:
            if s["served"] and s["served"] < t0 + .0:
                kinds["during" if s["end"] > t0 else "before"] += 1
            elif not s["served"]:
                kinds["refused"] += 1
            if s["served"] and s["error"]:
                key = "lost-session" if s["end"] >= t0 - .01 else "broken-session"
                bad(key, "a session served %+.3f s relative to the signal was broken at %+.3f s: %s" % (s["served"] - t0, s["end"] - t0, s["error"]))
            elif s["error"] and s["end"] < t0 - .5:
                bad("broken-session", "a session failed before the shutdown (%+.3f s): %s" % (s["end"] - t0, s["error"]))
            if not cfg["inet"] and s["served"]:
                pids = child.sessions.get(s["tok"], [])
                if len(pids) > 1:
                    bad("served-twice", "session %s was served by %r" % (s["tok"], pids))
                if pids and pids[0] not in (workers or [master]):
                    bad("served-by", "session %s was served by %d, not by one of %r" % (s["tok"], pids[0], workers or [master]))
                hit[pids[0] if pids else None] = 1
        for dt, s in late:
            if s["served"]:
                bad("served-late", "a connection made %.1f s after the shutdown request was served" % dt)
        if not cfg["inet"]:
            there = os.path.exists(m.sock)
            if there == (cfg["rm_close"] or cfg["vanish"]):
                bad("socket-left" if there else "socket-removed", "after the end the socket %s" % ("exists" if there else "does not exist"))
        if os.path.exists(m.pid):
            bad("pid-file-left", "the PID file still exists after the end")
        ck.count("sessions", len(sessions))
        for k, v in kinds.items():
            ck.count("sessions_" + {"before": "finished_before_shutdown", "during": "in_progress_at_shutdown", "refused": "refused_by_shutdown"}[k], v)
        ck.count("signals_during_service", hups)
        ck.count("late_connections", len(late))
        ck.case((cfg["workers"], cfg["backend"], cfg["inet"], cfg["daemon"], cfg["rm_close"], min(kinds["during"], 3), sig.name, group, storm, reopened),
                dict(cfg, **kinds))
    except (OSError, RuntimeError) as e:
        bad("error", "%r %s" % (e, m.errors()[-1000:]))
    finally:
        await child.stop()
        logs = m.errors()
        for f in os.listdir(os.path.join(m.dir, "tmp")):
            if f.startswith(("asan", "ubsan")):
                logs += open(os.path.join(m.dir, "tmp", f), errors="replace").read()
        for k, t in manager.diagnostics(logs):
            problems.insert(0, (k, t + "\n" + what))
        for p in procs:
            if alive(p):
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
        m.cleanup()
    return problems


async def failing_start(ck, kind, seed):
    """a start that cannot succeed must be reported and end unsuccessfully"""
    rng = random.Random(seed)
    m = manager.Manager()
    problems = []
    keep = []
    args, text = [], ""
    try:
        if kind == "bad-directory":
            text = 'manager.connection_spec = "unix:%s/none/m.sock"\n' % m.dir
        elif kind == "bad-spec-argument":
            args = ["-s", rng.choice(["bogus:1", "inet:99999999", "unix", "inet6:", "inet:port@host"])]
        elif kind == "port-in-use":
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            s.listen(1)
            keep.append(s)
            text = 'manager.connection_spec = "inet:%d@127.0.0.1"\n' % s.getsockname()[1]
        elif kind == "socket-in-use":
            s = socket.socket(socket.AF_UNIX)
            s.bind(m.sock)
            s.listen(5)
            keep.append(s)
            text = 'manager.connection_spec = "unix:%s"\nmanager.remove_unix_socket_on_create = false\n' % m.sock
        elif kind == "not-a-socket":
            with open(m.sock, "w") as f:
                f.write("precious")
            text = 'manager.connection_spec = "unix:%s"\nmanager.remove_unix_socket_on_create = false\n' % m.sock
        elif kind == "pid-file":
            text = 'manager.connection_spec = "unix:%s"\nmanager.pid_file = "%s/none/pid"\n' % (m.sock, m.dir)
        elif kind == "user":
            text = 'manager.connection_spec = "unix:%s"\nsecurity.effective_user = "no-such-user-here"\n' % m.sock
        elif kind == "unknown-option":
            args = ["--no-such-option"]
        if kind != "pid-file":
            text += 'manager.pid_file = "%s"\n' % m.pid
        text += 'manager.n_workers = %d\nmanager.event_loop_backend = "%s"\n' % (rng.choice([0, 0, 2]), rng.choice(["glib", "libev"]))
        with open(os.path.join(m.dir, "milter-manager.conf"), "w") as f:
            f.write(text)
        m.start(args=args, wait=False)
        rc = await wait_for(lambda: m.proc.poll() is not None and [m.proc.returncode], 20)
        out = m.errors()
        if not rc:
            problems.append(("failing-start-runs:" + kind, "milter-manager keeps running: %s" % out[-800:]))
        elif rc[0] == 0:
            problems.append(("failing-start-status:" + kind, "milter-manager ended with 0: %s" % out[-800:]))
        if not out.strip():
            problems.append(("failing-start-silent:" + kind, "nothing was reported: %r" % out[-500:]))
        if rc and life.group_of(m.proc.pid):
            problems.append(("failing-start-processes:" + kind, "processes are left: %r" % life.group_of(m.proc.pid)))
        if kind == "socket-in-use" and not connectable(("unix", m.sock)):
            problems.append(("failing-start-socket", "the socket of another server was removed"))
        if kind == "not-a-socket" and (not os.path.isfile(m.sock) or open(m.sock).read() != "precious"):
            problems.append(("failing-start-file", "a file that isn't a socket was removed"))
        if os.path.exists(m.pid):
            problems.append(("failing-start-pid:" + kind, "a PID file is left"))
        for k, t in manager.diagnostics(out):
            problems.insert(0, (k, kind + ": " + t))
        ck.case(("failing", kind))
        ck.count("failing_starts")
    finally:
        for s in keep:
            s.close()
        m.cleanup()
    return [(k, t + "\nconfiguration: %s args: %r" % (text, args)) for k, t in problems]


def run():
    ck = Check("C24", RULE)
    ck.assumptions += ["a session is in progress when its negotiation was answered before the signal; connections that were not yet answered may be dropped",
                       "with workers the master may end before its workers",
                       "a milter-manager that fails to start may leave its own unused socket behind"]

    async def all_rounds():
        sem = asyncio.Semaphore(7)

        async def one(label, i):
            async with sem:
                p = await shutdown_round(ck, ck.rng(label, i).random(), label)
            if any(k in ("lost-session", "broken-session", "not-terminated", "start", "workers", "log-reopen") for k, _ in p):
                # decided only when it happens again: timing on a loaded machine
                async with sem:
                    p2 = await shutdown_round(ck, ck.rng(label, i).random(), label)
                    p3 = await shutdown_round(ck, ck.rng(label, i).random(), label) if not p2 else []
                ck.count("repeated")
                slow = [x for x in p if "no reply within" in x[1] or x[0] in ("not-terminated", "start", "workers", "log-reopen")]
                p = [x for x in p if x not in slow] + p2 + p3
            for k, t in p:
                ck.violation(k, t)

        async def fail(kind, i):
            async with sem:
                for k, t in await failing_start(ck, kind, ck.rng(kind, i).random()):
                    ck.violation(k, t)
        jobs = []
        for label, q, th in (("any", 24, 250), ("workers", 14, 120), ("daemon", 8, 60)):
            jobs += [one(label, i) for i in range(ck.n(q, th))]
        for kind in ("bad-directory", "bad-spec-argument", "port-in-use", "socket-in-use", "not-a-socket", "pid-file", "user", "unknown-option"):
            jobs += [fail(kind, i) for i in range(ck.n(1, 4))]
        await asyncio.gather(*jobs)
    asyncio.run(all_rounds())
    return ck.finish()


main(run)
