"""C28: milters that aren't running are started by a real milter-manager in privilege mode.

The programs it starts are small milters of this check.  They record how they were started (command line, user, groups,
time) and which sessions reached them; an offline checker compares these records with what was configured and with the
sessions played against the manager."""
import asyncio, grp, json, os, pwd, random, shlex, signal, socket, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import life, manager
from milterproto import *
import milterproto as P

RULE = ("seed -> (milters: not running, running, failing, slow, without command, with user; fallback; workers; back end; privilege mode) "
        "x sessions before, while and after the milters are started x milters that end and are needed again")

SCRIPT = r'''
import os, socket, struct, sys, threading, time, json
log, path, delay, life = sys.argv[1], sys.argv[-1], float(sys.argv[2]), float(sys.argv[3])
lock = threading.Lock()


def note(**kw):
    with lock:
        fd = os.open(log, os.O_WRONLY | os.O_APPEND)
        os.write(fd, (json.dumps(dict(kw, pid=os.getpid(), t=time.time())) + "\n").encode())
        os.close(fd)


note(ev="start", argv=sys.argv, uid=os.getuid(), euid=os.geteuid(), gid=os.getgid(), groups=sorted(os.getgroups()), ppid=os.getppid())
if life < 0:
    sys.exit(3)
time.sleep(delay)
try:
    os.unlink(path)
except OSError:
    pass
s = socket.socket(socket.AF_UNIX)
s.bind(path)
os.chmod(path, 0o777)
s.listen(64)
note(ev="listen")
print("listening")
sys.stdout.flush()
sys.stderr.write("x" * 70000 + "\n")
sys.stderr.flush()


def serve(c):
    f = c.makefile("rb")
    while True:
        h = f.read(4)
        if len(h) < 4:
            break
        b = f.read(struct.unpack("!I", h)[0])
        k = b[:1]
        if k == b"O":
            c.sendall(struct.pack("!IcIII", 13, b"O", 6, 0x1ff, 0))
            continue
        if k == b"C":
            note(ev="session", tok=b[1:].split(b"\0")[0].decode())
        if k in b"DAQ":
            continue
        c.sendall(b"\0\0\0\1c")


def accept():
    while True:
        threading.Thread(target=serve, args=(s.accept()[0],), daemon=True).start()


threading.Thread(target=accept, daemon=True).start()
time.sleep(life)
note(ev="end")
'''


def alive(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] not in "ZX"
    except OSError:
        return False


def quote(rng, s):
    k = rng.randrange(3)
    if k == 0:
        return shlex.quote(s)
    if k == 1:
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("$", "\\$").replace("`", "\\`") + '"'
    return "".join(c if c.isalnum() or c in "/._-" else "\\" + c for c in s) or "''"


ARGS = ["plain", "two words", "a'b", 'a"b', "$HOME", "*", "back\\slash", "a;b", "a|b>c", "#x", "--opt=1", "t\tb", "", "`id`", "\u00e9"]


async def play(ck, seed):
    rng = random.Random(seed)
    m = manager.Manager()
    log = os.path.join(m.dir, "launched")
    open(log, "w").close()
    os.chmod(log, 0o666)
    script = os.path.join(m.dir, "milter.py")
    with open(script, "w") as f:
        f.write(SCRIPT)
    os.chmod(script, 0o755)
    python = os.path.realpath("/usr/bin/python3")
    privilege = rng.random() < .85
    workers = rng.choice([0, 0, 0, 2])
    backend = rng.choice(["glib", "libev"])
    problems = []
    kids, servers, procs = [], [], set()
    text = ["security.privilege_mode = %s" % str(privilege).lower(), "manager.n_workers = %d" % workers, 'manager.event_loop_backend = "%s"' % backend]
    for i in range(rng.choice([1, 2, 2, 3])):
        k = dict(name="c%d" % i, path=m.child_sock("c%d" % i),
                 kind=rng.choice(["ok", "ok", "ok", "ok", "short", "slow", "dies", "missing", "no-command", "running", "bad-user", "bad-quote"]),
                 user=rng.choice([None, "nobody", "daemon", "bin"]), fallback=rng.choice(["accept", "accept", "reject", "temporary-failure"]))
        k["delay"] = rng.choice([0, .3, 1.5]) if k["kind"] != "slow" else 7
        k["life"] = {"short": 8, "dies": -1}.get(k["kind"], 120)
        k["args"] = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        # the command line of one milter may be the beginning of another's
        if i and kids[0]["kind"] == "ok" and rng.random() < .5:
            k.update({n: kids[0][n] for n in ("kind", "delay", "life", "args", "words")}, path=kids[0]["path"][:-i] if kids[0]["path"].endswith("12") else kids[0]["path"] + str(i))
        else:
            if rng.random() < .3:
                k["path"] += "12"
            k["words"] = " ".join(quote(rng, a) for a in [script, log, str(k["delay"]), str(k["life"])] + k["args"])
        k["argv"] = [script, log, str(k["delay"]), str(k["life"])] + k["args"] + [k["path"]]
        words = k["words"] + " " + k["path"]
        if k["kind"] == "bad-user":
            k["user"] = "no-such-user-of-c28"
        if k["kind"] == "bad-quote":
            words += " 'unterminated"
        text.append('define_milter("%s") do |milter|' % k["name"])
        text.append('  milter.connection_spec = "unix:%s"' % k["path"])
        text.append('  milter.fallback_status = "%s"' % k["fallback"])
        if k["kind"] != "no-command":
            text.append("  milter.command = %s" % json.dumps(python if k["kind"] != "missing" else m.dir + "/none"))
            text.append("  milter.command_options = %s" % json.dumps(words, ensure_ascii=False).replace("#", "\\#"))
        if k["user"]:
            text.append('  milter.user_name = "%s"' % k["user"])
        text.append("end")
        if k["kind"] == "running":
            c = life.Child(k["path"])
            await c.start()
            servers.append(c)
            k["child"] = c
        kids.append(k)
    m.write_config("\n".join(text) + "\n")
    what = "%r privilege=%r workers=%d %s seed=%r" % ([(k["name"], k["kind"], k["user"], k["delay"], k["fallback"]) for k in kids], privilege, workers, backend, seed)

    def bad(key, t):
        problems.append((key, t + " [" + what + "]"))

    def records():
        out = []
        for l in open(log):
            try:
                out.append(json.loads(l))
            except ValueError:
                pass
        for r in out:
            if r["ev"] == "start":
                procs.add(r["pid"])
        return out

    def of(recs, k):
        """the starts of a milter and the sessions it saw"""
        st = [r for r in recs if r["ev"] == "start" and r["argv"][-1] == k["path"]]
        pids = {r["pid"] for r in st}
        return st, [r for r in recs if r["pid"] in pids]

    async def sess(tok):
        """-> (reply to connect or None, time of the negotiation's answer, seconds it took)"""
        t = time.time()
        try:
            r, w = await life.connect(("unix", m.sock))
            buf = b""

            async def ask(data):
                nonlocal buf
                w.write(data)
                while True:
                    pk, buf = P.split_packets(buf)
                    if pk:
                        return chr(pk[0][0])
                    d = await asyncio.wait_for(r.read(65536), 40)
                    if not d:
                        raise ConnectionError("closed")
                    buf += d
            n = await ask(P.c_negotiate(6, A_ALL, P_ALL))
            took = time.time() - t
            if n != "O":
                bad("session", "the negotiation of %s was answered %r" % (tok, n))
            c = await ask(P.c_connect(tok, "4", 25, "192.0.2.1"))
            if c in "c":
                h = await ask(P.c_helo("helo"))
                if h not in "ca":
                    bad("session", "HELO of %s was answered %r" % (tok, h))
            w.write(P.pkt(QUIT))
            try:
                await asyncio.wait_for(r.read(100), 20)
            finally:
                w.close()
            return c, t + took, took
        except (OSError, asyncio.TimeoutError) as e:
            bad("session", "session %s was not served: %r" % (tok, e))
            return None

    async def expect(toks):
        """plays these sessions at the same time and judges them by the state of the milters before and after"""
        running = {k["name"]: life_of(k) for k in kids}
        t0 = time.time()
        res = await asyncio.gather(*[sess(t) for t in toks])
        await asyncio.sleep(.2)
        recs = records()
        for tok, r in zip(toks, res):
            if r is None:
                continue
            reply, tn, took = r
            statuses, unsure = [], False
            for k in kids:
                st, all_ = of(recs, k)
                got = any(x["ev"] == "session" and x["tok"] == tok for x in all_)
                if k["kind"] == "running":
                    if tok not in k["child"].sessions and not rejected(kids):
                        bad("not-taking-part", "the running milter %s did not see session %s" % (k["name"], tok))
                    continue
                lst = [x["t"] for x in all_ if x["ev"] == "listen"]
                ends = [x["t"] for x in all_ if x["ev"] == "end"] + k.get("killed", [])
                # listening the whole time from before the (first or second) attempt until the answer
                up = [x for x in lst if not any(x < e < tn + .3 for e in ends)]
                will = [x for x in up if x < t0 - .05] or (privilege and k["kind"] in ("ok", "short") and k["delay"] <= 3 and
                                                           [x for x in up if x < t0 + 4.0])
                never = not lst or not [x for x in lst if x < tn] or (
                    not [x for x in lst if x < tn and not any(x < e < t0 - .1 for e in ends)])
                if will and not got and reply in "c":
                    bad("not-taking-part", "the milter %s was listening in time but did not see session %s (connect was answered %r after %.1f s)" % (
                        k["name"], tok, reply, took))
                if privilege and k["kind"] in ("ok", "short") and k["delay"] <= 3 and not lst:
                    bad("not-started", "the milter %s isn't running and was not started for session %s" % (k["name"], tok))
                if never:
                    statuses.append(k["fallback"])
                elif not will:
                    unsure = True
                ck.count("sessions_with_a_started_milter" if got else "sessions_without_the_milter")
            want = {"reject": "r", "temporary-failure": "t"}
            hard = [want[s] for s in statuses if s in want]
            if not unsure:
                if hard and reply not in hard:
                    bad("fallback", "connect of %s was answered %r although milters with the fallback %r were absent" % (tok, reply, statuses))
                if not hard and reply not in "ca":
                    bad("fallback", "connect of %s was answered %r although no absent milter has such a fallback (%r)" % (tok, reply, statuses))
            ck.count("sessions")

    def life_of(k):
        return None

    def rejected(ks):
        return any(k["fallback"] != "accept" for k in ks)

    try:
        m.start()
        masters = life.children_of(m.proc.pid)
        await expect(["a%d" % i for i in range(rng.choice([1, 1, 2, 5]))])
        await asyncio.sleep(rng.choice([0, .5, 2]))
        await expect(["b%d" % i for i in range(rng.choice([1, 2]))])
        # milters that end are needed again
        victims = []
        for k in kids:
            st, all_ = of(records(), k)
            if k["kind"] == "ok" and st and rng.random() < .6:
                sig = rng.choice([signal.SIGKILL, signal.SIGTERM])
                for r in st:
                    if alive(r["pid"]):
                        os.kill(r["pid"], sig)
                k.setdefault("killed", []).append(time.time())
                victims.append(k)
        if any(k["kind"] == "short" for k in kids):
            await asyncio.sleep(7)
        if victims:
            ck.count("milters_ended", len(victims))
            await asyncio.sleep(.5)
        if rng.random() < .7:
            await expect(["c%d" % i for i in range(rng.choice([1, 3]))])
        await asyncio.sleep(.3)
        if not m.alive():
            bad("died", "milter-manager ended with %r: %s" % (m.proc.returncode, m.errors()[-1500:]))
        # ---- how they were started
        recs = records()
        ours = 0
        for k in kids:
            st, all_ = of(recs, k)
            ours += len(st)
            if st and (not privilege or k["kind"] in ("missing", "no-command", "running", "bad-user", "bad-quote")):
                bad("started", "the milter %s (%s) was started" % (k["name"], k["kind"]))
            for r in st:
                if r["argv"] != k["argv"]:
                    bad("command-line", "the milter %s was started as %r, configured is %r" % (k["name"], r["argv"], k["argv"]))
                if k["user"]:
                    p = pwd.getpwnam(k["user"])
                    groups = sorted(set([p.pw_gid] + [g.gr_gid for g in grp.getgrall() if k["user"] in g.gr_mem]))
                    if (r["uid"], r["euid"], r["gid"]) != (p.pw_uid, p.pw_uid, p.pw_gid) or sorted(set(r["groups"]) | {p.pw_gid}) != groups:
                        bad("user", "the milter %s of user %s runs as uid %d/%d gid %d groups %r" % (k["name"], k["user"], r["uid"], r["euid"], r["gid"], r["groups"]))
                elif r["uid"] != 0:
                    bad("user", "the milter %s without user name runs as uid %d" % (k["name"], r["uid"]))
            # never twice at the same time
            ends = {x["pid"]: x["t"] for x in all_ if x["ev"] == "end"}
            for a, b in zip(st, st[1:]):
                e = ends.get(a["pid"]) or (min([t for t in k.get("killed", []) if t > a["t"]], default=None))
                if k["life"] >= 0 and (e is None or e > b["t"] + .05):
                    bad("started-twice", "the milter %s was started at %.2f although the process started at %.2f still ran" % (k["name"], b["t"], a["t"]))
            ck.count("milters_started", len(st))
        if ours != len([r for r in recs if r["ev"] == "start"]):
            bad("command-line", "a milter was started with another command line: %r" % [r["argv"] for r in recs if r["ev"] == "start"])
        # the process that starts milters reaps them, and ends with the manager
        launchers = life.children_of(m.proc.pid)
        zombies = []
        for p in launchers:
            for d in os.listdir("/proc"):
                if d.isdigit():
                    try:
                        r = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                    except OSError:
                        continue
                    if r[1] == str(p) and r[0] == "Z":
                        zombies.append(int(d))
        if zombies:
            await asyncio.sleep(1)
            if any(os.path.exists("/proc/%d" % z) for z in zombies):
                bad("zombies", "ended milters were not reaped: %r" % zombies)
        rc = await asyncio.get_running_loop().run_in_executor(None, m.stop)
        if rc != 0:
            bad("shutdown", "exit status %r after SIGTERM" % rc)
        t = time.time()
        while any(alive(p) for p in launchers) and time.time() - t < 10:
            await asyncio.sleep(.05)
        if any(alive(p) for p in launchers):
            bad("shutdown", "processes of milter-manager still run 10 s after its end: %r" % [p for p in launchers if alive(p)])
        ck.case((tuple(sorted((k["kind"], bool(k["user"]), k["fallback"]) for k in kids)), privilege, workers, backend), what)
        for key, t in manager.diagnostics(m.errors()):
            problems.insert(0, (key, t + "\n" + what))
    except (OSError, RuntimeError) as e:
        bad("error", "%r %s" % (e, m.errors()[-1000:]))
    finally:
        for c in servers:
            await c.stop()
        records()
        for p in procs:
            try:
                if script.encode() in open("/proc/%d/cmdline" % p, "rb").read():
                    os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        m.cleanup()
    return problems


def run():
    ck = Check("C28", RULE)
    ck.assumptions += ["the manager is started as root, as privilege mode needs",
                       "a milter listening within 4 s of the start of a session takes part in it (the manager tries again after 5 s)"]

    async def all_rounds():
        sem = asyncio.Semaphore(30)

        async def one(i):
            seed = "C28/%d/%d" % (ck.seed, i)
            for attempt in range(2):
                lag = [0.0]

                async def meter():
                    while True:
                        t = time.time()
                        await asyncio.sleep(.05)
                        lag[0] = max(lag[0], time.time() - t - .05)
                async with sem:
                    mt = asyncio.ensure_future(meter())
                    p = await play(ck, seed)
                    mt.cancel()
                if not p or (lag[0] < .5 and not all(k in ("session", "error") for k, _ in p)):
                    break
                ck.count("repeated")
            for k, t in p:
                if lag[0] > 1 and k in ("session", "not-taking-part", "not-started", "fallback", "error"):
                    ck.count("dropped_on_slow_machine")
                    continue
                ck.violation(k, t)
        await asyncio.gather(*[one(i) for i in range(ck.n(60, 700))])
    asyncio.run(all_rounds())
    return ck.finish()


main(run)
