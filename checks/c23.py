"""C23: random and hostile requests on the control socket of a real milter-manager while mail sessions run.

The oracle is a model of the configuration (file, custom XML, moment of the last reload): every answer is compared
with it, the stored custom file byte by byte; the process, its descriptors and the mail sessions are watched."""
import asyncio, os, random, struct, sys, time
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import life, manager

RULE = ("seed -> configurations x request streams (get/set/reload/status, malformed, oversized, cut off, pipelined, fragmented, "
        "several connections at once); a model of file + custom configuration decides every answer")
FALLBACK = ["accept", "reject", "temporary-failure", "discard"]
WORDS = ["plain", "a b", "<x>", "a&b", "it's", 'qu"ote', "日本", "é<&>", "x]]>y", "0", "-", "semi;colon", "#hash", "sl/ash"]
ESCAPES = {'"': '\\"', "\\": "\\\\", "#": "\\#"}


def rb(s):
    return '"' + "".join(ESCAPES.get(c, c) for c in s) + '"'


def pk(b):
    return struct.pack("!I", len(b)) + b


def make_config(rng, m, serial):
    """-> (text, model)"""
    out, conds, eggs = [], [], []
    for i in range(rng.randint(0, 3)):
        c = dict(name="cond%d-%s" % (i, rng.choice(WORDS)), description=rng.choice([None] + WORDS))
        conds.append(c)
        out.append("define_applicable_condition(%s) do |condition|" % rb(c["name"]))
        if c["description"] is not None:
            out.append("  condition.description = %s" % rb(c["description"]))
        out.append("end")
    for i in range(rng.randint(1, 4)):
        e = {"name": "m%d-%d-%s" % (serial, i, rng.choice(WORDS)), "description": rng.choice([None] + WORDS),
             "enabled": rng.random() < .8, "fallback-status": rng.choice(FALLBACK),
             "evaluation-mode": rng.random() < .3, "connection-spec": "unix:" + m.child_sock("c1"),
             "command": None, "command-options": None,
             "applicable-conditions": [c["name"] for c in conds if rng.random() < .5]}
        if rng.random() < .2:
            e["command"], e["command-options"] = "/bin/" + rng.choice(WORDS), rng.choice(WORDS)
        eggs.append(e)
        out.append("define_milter(%s) do |milter|" % rb(e["name"]))
        for k in ("connection-spec", "description", "fallback-status", "command", "command-options"):
            if e[k] is not None:
                out.append("  milter.%s = %s" % (k.replace("-", "_"), rb(e[k])))
        if not e["enabled"] or rng.random() < .5:
            out.append("  milter.enabled = %s" % str(e["enabled"]).lower())
        if e["evaluation-mode"] or rng.random() < .5:
            out.append("  milter.evaluation_mode = %s" % str(e["evaluation-mode"]).lower())
        if e["applicable-conditions"]:
            out.append("  milter.applicable_conditions = [%s]" % ", ".join(rb(x) for x in e["applicable-conditions"]))
        out.append("end")
    return "\n".join(out) + "\n", dict(conds=conds, eggs=eggs)


def make_custom(rng, model):
    """-> (bytes, function model -> model or None when its effect is left open)"""
    kind = rng.randrange(6)
    if kind == 0:
        return bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 10, 3000]))).lstrip(b" \t\r\n\v\f<") , lambda md: md
    if kind == 1:
        n = rng.choice([20000, 70000, 300000])
        return b"# -*- comment -*-\n" + rng.randbytes(n), lambda md: md
    if kind == 2:
        return b"<configuration><milters><milter>" + rng.randbytes(30), lambda md: None
    names = [e["name"] for e in model["eggs"]] + ["new-" + rng.choice(WORDS)]
    mods = []
    for nm in rng.sample(names, rng.randint(1, len(names))):
        mods.append({"name": nm, "enabled": rng.random() < .5, "description": rng.choice(WORDS),
                     "fallback-status": rng.choice(FALLBACK), "evaluation-mode": rng.random() < .5,
                     "applicable-conditions": [c["name"] for c in model["conds"] if rng.random() < .5]})
    x = ["<configuration>", " <milters>"]
    for d in mods:
        x.append("  <milter>")
        for k in ("name", "description", "fallback-status"):
            x.append("   <%s>%s</%s>" % (k, escape(d[k]), k))
        for k in ("enabled", "evaluation-mode"):
            x.append("   <%s>%s</%s>" % (k, str(d[k]).lower(), k))
        x.append("   <applicable-conditions>%s</applicable-conditions>" % "".join(
            "<applicable-condition>%s</applicable-condition>" % escape(n) for n in d["applicable-conditions"]))
        x.append("  </milter>")
    x += [" </milters>", "</configuration>"]

    def apply(md):
        if any(n not in {c["name"] for c in md["conds"]} for d in mods for n in d["applicable-conditions"]):
            return None
        return dict(md, loose=True, eggs=merge(md, mods))
    return "\n".join(x).encode() + b"\n", apply


def merge(md, mods):
    out = []
    for e in md["eggs"]:
        e = dict(e)
        for d in mods:
            if d["name"] == e["name"]:
                e.update(d)
        out.append(e)
    for d in mods:
        if d["name"] not in {e["name"] for e in out}:
            out.append(dict(d, command=None, **{"connection-spec": None, "command-options": None}))
    return out


def compare(xml, md):
    """differences between the configuration in an answer and the model"""
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        return "the XML isn't well-formed: %s: %r" % (e, xml[:300])
    if md is None:
        return None

    def val(node, k):
        n = node.find(k)
        return None if n is None else (n.text or "")
    conds = [(val(c, "name"), val(c, "description")) for c in root.findall("applicable-conditions/applicable-condition")]
    want = [(c["name"], c["description"]) for c in md["conds"]]
    if sorted(conds, key=str) != sorted(want, key=str):
        return "applicable conditions %r instead of %r" % (conds, want)
    eggs = root.findall("milters/milter")
    got = [val(e, "name") for e in eggs]
    if sorted(map(str, got)) != sorted(e["name"] for e in md["eggs"]) or (
            not md.get("loose") and got != [e["name"] for e in md["eggs"]]):
        return "milters %r instead of %r" % (got, [e["name"] for e in md["eggs"]])
    by = {e["name"]: e for e in md["eggs"]}
    for node in eggs:
        e = by[val(node, "name")]
        for k in ("description", "connection-spec", "command", "command-options", "fallback-status"):
            a, b = val(node, k), e[k]
            if a is not None and k == "fallback-status":
                a = a.replace("-", "")
                b = b.replace("-", "")
            if a != b and not (a == "" and b == ""):
                return "milter %r: %s is %r instead of %r" % (e["name"], k, val(node, k), e[k])
        for k in ("enabled", "evaluation-mode"):
            if val(node, k) != str(e[k]).lower():
                return "milter %r: %s is %r instead of %r" % (e["name"], k, val(node, k), e[k])
        a = [c.text for c in node.findall("applicable-conditions/applicable-condition")]
        if a != e["applicable-conditions"]:
            return "milter %r: applicable conditions %r instead of %r" % (e["name"], a, e["applicable-conditions"])
    return None


def bad_request(rng):
    """bytes that must not be obeyed"""
    k = rng.randrange(13)
    if k == 0:
        return pk(rng.choice([b"bogus\0", b"Reload\0", b"reload \0", b"get-statu\0", b"stop-child\0c1\0", b"success\0", b"get-status-\0", b"re\0load\0"]))
    if k == 1:
        return pk(rng.choice([b"reload", b"get-status", b"get-configuration", b"set-configuration"]))
    if k == 2:
        return pk(rng.choice([b"reload\0", b"get-status\0", b"get-configuration\0"]) + rng.randbytes(rng.choice([1, 2, 300])))
    if k == 3:
        return pk(b"")
    if k == 4:
        return struct.pack("!I", rng.choice([0xffffffff, 0x80000000, 0x7fffffff])) + b"reload\0"
    if k == 5:
        return pk(b"\0" + rng.choice([b"", b"reload\0"]))
    if k == 6:
        return rng.randbytes(rng.choice([1, 3, 4, 5, 100]))[:1].replace(b"\0", b"\1") + rng.randbytes(rng.choice([3, 50, 5000]))
    if k == 7:
        return struct.pack("!I", 7) + b"reloa"          # cut off
    if k == 8:
        return struct.pack("!I", 5000) + b"set-configuration\0<configuration>"   # cut off
    if k == 9:
        return b"\0\0"                                    # cut off
    if k == 10:
        return pk(b"reload\n")
    if k == 11:
        return pk(rng.randbytes(rng.choice([1, 20, 70000])).replace(b"\0", b"x"))
    return struct.pack("!i", 6) + b"reload\0"            # shorter than its content


class Ctl:
    def __init__(self, rng, path):
        self.rng, self.path, self.buf = rng, path, b""

    async def open(self):
        self.r, self.w = await asyncio.open_unix_connection(self.path, limit=1 << 24)
        return self

    async def send(self, data):
        rng = self.rng
        while data:
            n = len(data) if rng.random() < .6 else rng.choice([1, 2, 4, 7, 100, 5000])
            self.w.write(data[:n])
            data = data[n:]
            await self.w.drain()
            if data and rng.random() < .3:
                await asyncio.sleep(rng.random() * .004)

    async def packet(self, timeout):
        """next answer, b'' at end of file, None after timeout"""
        end = time.time() + timeout
        while True:
            if len(self.buf) >= 4:
                n = struct.unpack("!I", self.buf[:4])[0]
                if len(self.buf) >= 4 + n:
                    p, self.buf = self.buf[4:4 + n], self.buf[4 + n:]
                    return p
            try:
                d = await asyncio.wait_for(self.r.read(1 << 20), max(0.001, end - time.time()))
            except asyncio.TimeoutError:
                return None
            except ConnectionError:
                return b""
            if not d:
                return b""
            self.buf += d

    def close(self):
        self.w.close()


async def play(ck, serial, seed):
    rng = random.Random(seed)
    m = manager.Manager()
    child = life.Child(m.child_sock("c1"))
    await child.start()
    workers = rng.choice([0, 0, 0, 2])
    mode = rng.choice(["0660", "0600", "0666"])
    custom_dir = m.dir
    base = ('controller.connection_spec = "unix:%s"\ncontroller.unix_socket_mode = %s\nmanager.n_workers = %d\n'
            'manager.event_loop_backend = "%s"\n' % (m.ctl, mode, workers, rng.choice(["glib", "libev"])))
    conf, file_model = make_config(rng, m, serial * 100)
    m.write_config(base + conf)
    log, problems = [], []

    def bad(key, text):
        problems.append((key, text + "\nrequests so far: %r" % (log[-12:],)))
    stop = False
    try:
        m.start()
        for _ in range(500):          # with workers the control socket appears after the workers
            if os.path.exists(m.ctl):
                break
            await asyncio.sleep(.02)
        if not os.path.exists(m.ctl):
            bad("no-socket", "the control socket does not exist 10 s after the start: %s" % m.errors()[-1500:])
            return problems
        got = os.stat(m.ctl).st_mode & 0o777
        if got != int(mode, 8):
            bad("socket-mode", "the control socket has mode %o instead of %s" % (got, mode))

        sessions = []

        async def mail(k):
            n = 0
            while not stop:
                s = await life.session(("unix", m.sock), "w%d-%d" % (k, n), think=.005, wait=30)
                n += 1
                sessions.append(s)
                if s["error"]:
                    bad("session", "a mail session failed while the control socket was used: %s" % s["error"])
                    return
        tasks = [asyncio.ensure_future(mail(k)) for k in range(3)]
        await asyncio.sleep(.1)
        await asyncio.sleep(.3)
        fds0 = None
        model, stored, custom_effect = file_model, None, (lambda md: md)
        cfile = os.path.join(m.dir, "milter-manager.custom.conf")

        for step in range(40 if not ck.thorough else 120):
            if problems or not m.alive():
                break
            kind = rng.choice(["get", "get", "status", "set", "set", "reload", "rewrite", "bad", "bad", "bad", "parallel", "hang"])
            log.append(kind)
            ck.count("requests:" + kind)
            c = await Ctl(rng, m.ctl).open()
            try:
                if kind in ("get", "status", "reload", "rewrite", "set"):
                    n = rng.choice([1, 1, 1, 2, 5])
                    data, want = b"", []
                    for _ in range(n):
                        k = kind if _ == 0 else rng.choice(["get", "status", "set", "reload"])
                        if k == "rewrite":
                            conf, file_model = make_config(rng, m, serial * 100 + step + 1)
                            m.write_config(base + conf)
                            k = "reload"
                        if k == "get":
                            data += pk(b"get-configuration\0")
                            want.append(("configuration", model))
                        elif k == "status":
                            data += pk(b"get-status\0")
                            want.append(("status", None))
                        elif k == "set":
                            body, custom_effect = make_custom(rng, file_model)
                            data += pk(b"set-configuration\0" + body)
                            want.append(("success", None))
                            stored = body
                        else:
                            data += pk(b"reload\0")
                            want.append(("success", None))
                            model = custom_effect(file_model)
                    await c.send(data)
                    for name, md in want:
                        p = await c.packet(30)
                        if not p:
                            bad("unanswered", "%s was answered %s" % (name, "with end of file" if p == b"" else "never (30 s)"))
                            break
                        head, _, body = p.partition(b"\0")
                        if head != name.encode():
                            bad("answer:" + name, "expected a %s answer, got %r" % (name, p[:300]))
                            break
                        ck.case("answer:" + name)
                        if name == "configuration":
                            d = compare(body, md)
                            if d:
                                bad("configuration", d)
                                break
                    else:
                        if stored is not None:
                            try:
                                on_disk = open(cfile, "rb").read()
                            except OSError as e:
                                on_disk = repr(e).encode()
                            if on_disk != stored:
                                bad("stored", "set-configuration answered success, but the file has %d bytes %r instead of %d bytes %r" %
                                    (len(on_disk), on_disk[:200], len(stored), stored[:200]))
                            ck.count("stored_bytes", len(stored))
                        extra = await c.packet(.02)
                        if extra:
                            bad("unsolicited", "an answer too many: %r" % extra[:300])
                elif kind == "bad":
                    b = bad_request(rng)
                    log[-1] = "bad %r" % b[:60]
                    await c.send(b)
                    if rng.random() < .7:
                        try:
                            c.w.write_eof()
                        except OSError:
                            pass
                    p = await c.packet(.15)
                    if p and not p.startswith((b"error", b"failure")):
                        bad("obeyed", "the request %r was answered %r" % (b[:100], p[:300]))
                    ck.case("bad")
                elif kind == "hang":
                    # leaves a connection half way and open for a while
                    await c.send(rng.choice([b"\0\0\0\x07rel", pk(b"get-configuration\0")[:9], b"", struct.pack("!I", 1 << 20) + b"set-configuration\0" + b"x" * 100000]))
                    h = c

                    async def later(h=h):
                        await asyncio.sleep(rng.random() * .5)
                        h.close()
                    tasks.append(asyncio.ensure_future(later()))
                    c = None
                else:
                    # many connections at once; those that read must get the present configuration
                    async def one(k):
                        x = await Ctl(rng, m.ctl).open()
                        try:
                            if k % 3 == 0:
                                await x.send(bad_request(rng))
                                if rng.random() < .5:
                                    await x.packet(.05)
                            elif k % 3 == 1:
                                await x.send(pk(b"get-configuration\0"))
                                p = await x.packet(30)
                                if not p or not p.startswith(b"configuration\0"):
                                    bad("unanswered", "get-configuration (concurrent) was answered %r" % (p and p[:200],))
                                else:
                                    d = compare(p[14:], model)
                                    if d:
                                        bad("configuration", d)
                            else:
                                # large answers whose reader goes away
                                await x.send(pk(b"get-configuration\0") * rng.choice([1, 300]))
                        except ConnectionError:
                            pass
                        finally:
                            x.close()
                    await asyncio.gather(*[one(k) for k in range(rng.choice([4, 12]))])
                    ck.case("parallel")
            finally:
                if c is not None:
                    c.close()
            if step == 4:
                await asyncio.sleep(.1)
        stop = True
        await asyncio.gather(*tasks)
        if sessions and not problems:
            ck.count("mail_sessions", len(sessions))
            slow = max((l for s in sessions for _, _, l in s["replies"]), default=0)
            ck.count("rounds_with_every_mail_reply_within_%ds" % (1 if slow < 1 else 5 if slow < 5 else 30))
        # every control connection is closed now: the manager must not keep any of them
        for _ in range(100):
            fds = [f for f in m.fds() or [] if f.startswith("socket:")]
            if fds0 is None:
                fds0 = 3 if not workers else 2
            if len(fds) <= fds0 + 1:
                break
            await asyncio.sleep(.05)
        else:
            bad("descriptors", "%d sockets are open after every connection was closed: %r" % (len(fds), m.fds()))
        if m.proc.poll() is not None:
            bad("died", "milter-manager ended with %r" % m.proc.returncode)
        else:
            rc = m.stop()
            if rc != 0:
                bad("exit", "milter-manager ended with %r after SIGTERM" % rc)
            if os.path.exists(m.ctl):
                bad("left-socket", "the control socket still exists after the end")
    except (OSError, RuntimeError) as e:
        bad("died" if not m.alive() else "refused", "%r" % e)
    finally:
        stop = True
        await child.stop()
        for k, t in manager.diagnostics(m.errors()):
            problems.insert(0, (k, t + "\nrequests: %r" % (log[-12:],)))
        m.cleanup()
    return problems


def run():
    ck = Check("C23", RULE)
    ck.assumptions += ["names and descriptions have no control characters (they have no XML 1.0 representation)",
                       "a request that isn't understood may be answered with error, with end of file or not at all",
                       "the effect of a malformed custom XML file or of one that names unknown conditions is left open",
                       "custom XML may change the order of the milters"]
    sem = None

    async def all_rounds():
        sem = asyncio.Semaphore(6)

        async def one(i):
            async with sem:
                for k, t in await play(ck, i, ck.rng("round", i).random()):
                    ck.violation(k, t)
                ck.case("round", i)
        await asyncio.gather(*[one(i) for i in range(ck.n(18, 150))])
    asyncio.run(all_rounds())
    return ck.finish()


main(run)
