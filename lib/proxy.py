"""Drives a real milter-manager: MTA simulators on one side, child milter
simulators on the other, every packet recorded with a global sequence number.

A session plan (see plan()) is plain data, so that a session can be replayed;
a child's behaviour is a function of the plan's seed, the child and the
ordinal of the event it answers, not of timing."""
import asyncio, os, random, socket, struct, time
import milterproto as P
from milterproto import *

HANG = 12.0        # seconds without a reply before a session counts as hung


class Conn:
    """record of one child connection"""
    def __init__(self, child):
        self.child = child
        self.sess = None
        self.entries = []       # dicts: cmd, macros, replies, seq, fault
        self.offer = None       # negotiation packet received
        self.answer = None      # negotiation reply sent
        self.negotiated = False
        self.pending_macros = []
        self.closed_by = None
        self.end_seq = None
        self.error = None
        self.mods_ok = 0


class World:
    def __init__(self, mgr, cfg):
        self.mgr = mgr
        self.cfg = cfg                    # see scenario.config()
        self.seq = 0
        self.current = None
        self.neg_lock = None
        self.sessions = {}
        self.servers = []
        self.conns = []
        self.stray = []
        self.events = 0
        self.by_host = {}

    def tick(self):
        self.seq += 1
        self.events += 1
        return self.seq

    async def start(self):
        self.neg_lock = asyncio.Lock()
        for ch in self.cfg["children"]:
            if ch.get("absent"):
                continue
            p = self.mgr.child_sock(ch["name"])
            if os.path.exists(p):
                os.unlink(p)
            s = await asyncio.start_unix_server(lambda r, w, ch=ch: self.child(ch, r, w), p, limit=1 << 24)
            os.chmod(p, 0o777)
            self.servers.append(s)

    async def stop(self):
        for s in self.servers:
            s.close()

    # ---- child side ------------------------------------------------------
    async def child(self, ch, r, w):
        c = Conn(ch["name"])
        c.sess = self.current
        self.conns.append(c)
        if c.sess is None:
            self.stray.append(c)
            plan = dict(seed=0, opt=(6, A_ALL, 0), macros={})
        else:
            c.sess["conns"].append(c)
            plan = c.sess["plan"]["children"].get(ch["name"]) or dict(seed=0, opt=(6, A_ALL, 0), macros={})
        buf = bytearray()
        st = dict(n=0, skip=False, ch=ch, plan=plan, conn=c)
        try:
            while True:
                try:
                    raw = await next_packet(r, buf)
                except (ConnectionError, asyncio.IncompleteReadError):
                    break
                if raw is None:
                    break
                try:
                    cmd = P.parse_command(raw)
                except Exception as e:
                    c.error = "unparsable packet %r: %r" % (bytes(raw[:80]), e)
                    break
                seq = self.tick()
                if cmd[0] == MACRO:
                    c.pending_macros.append((cmd[1], cmd[2]))
                    continue
                if cmd[0] == NEG:
                    c.offer = cmd[1:]
                    c.offer_seq = seq
                    if not await self.child_negotiate(c, st, w):
                        break
                    continue
                e = dict(cmd=cmd, macros=c.pending_macros, seq=seq, replies=[], final=None, fault=None)
                c.pending_macros = []
                c.entries.append(e)
                if cmd[0] == QUIT:
                    c.closed_by = "quit"
                    break
                if cmd[0] in (ABORT, QUIT_NC):
                    continue
                if not await self.child_answer(c, st, e, w):
                    break
        finally:
            c.end_seq = self.tick()
            if c.closed_by is None:
                c.closed_by = "peer"
            w.close()

    async def child_negotiate(self, c, st, w):
        plan, ch = st["plan"], st["ch"]
        f = plan.get("neg_fault")
        ver, act, steps = plan["opt"]
        over, oact, osteps = c.offer
        ans = (min(ver, over), act & oact, steps & osteps)
        if plan.get("delay"):
            await asyncio.sleep(plan["delay"])
        if f == "close":
            c.closed_by = "fault"
            return False
        if f == "silent":
            c.closed_by = "fault"
            await asyncio.sleep(60)
            return False
        if f == "garbage":
            c.closed_by = "fault"
            w.write(b"\0\0\0\x05?abcd\0\0\0\x02zz")
            await drain(w)
            return True
        if f == "reject":
            w.write(P.r_simple(R_REJECT))
            c.closed_by = "fault"
            await drain(w)
            return True
        c.answer = ans
        c.macros = plan.get("macros") or {}
        w.write(P.r_negotiate(ans[0], ans[1], ans[2], c.macros if ans[1] & A_SETSYMLIST else None))
        c.negotiated = True
        await drain(w)
        return True

    async def child_answer(self, c, st, e, w):
        plan = st["plan"]
        n = st["n"]
        st["n"] += 1
        rng = random.Random("%r/%r/%r" % (plan["seed"], c.child, n))
        cmd = e["cmd"]
        ops = child_ops(rng, plan, c, st, cmd)
        frag = plan.get("frag", 0)
        out = b""
        for op in ops:
            if op[0] == "send":
                e["replies"].append((self.tick(), op[2]))
                if op[2][0] in FINAL:
                    e["final"] = op[2]
                out += op[1]
            elif op[0] == "raw":
                e["fault"] = e["fault"] or "raw"
                out += op[1]
            elif op[0] == "sleep":
                if out:
                    await put(w, out, frag, rng)
                    out = b""
                await asyncio.sleep(op[1])
            elif op[0] == "close":
                e["fault"] = op[1]
                c.closed_by = "fault"
                if out:
                    await put(w, out, 0, rng)
                return False
            elif op[0] == "silent":
                e["fault"] = "silent"
                c.closed_by = "fault"
                await asyncio.sleep(op[1])
                return False
        if out:
            await put(w, out, frag, rng)
        return True

    # ---- MTA side ----------------------------------------------------------
    async def mta(self, plan):
        s = dict(plan=plan, log=[], conns=[], problems=[], neg=None, closed=None)
        self.sessions[plan["id"]] = s
        try:
            r, w = await asyncio.open_unix_connection(self.mgr.sock, limit=1 << 24)
        except OSError as e:
            s["problems"].append(("connect", "cannot connect to milter-manager: %r" % e))
            return s
        m = Mta(self, s, r, w)
        try:
            await m.run()
        except Stop:
            pass
        finally:
            m.stop()
        # the children's connections have to end, too
        t = time.time()
        while time.time() - t < HANG and any(c.end_seq is None for c in s["conns"]):
            await asyncio.sleep(.005)
        for c in s["conns"]:
            if c.end_seq is None and c.closed_by != "fault":
                s["problems"].append(("child-left-open", "connection of child %s was not closed after the session"
                                      % c.child))
        return s


class Stop(Exception):
    pass


async def drain(w):
    try:
        await w.drain()
    except ConnectionError:
        pass


async def put(w, data, frag, rng):
    try:
        if not frag or len(data) > 20000:
            w.write(data)
            await w.drain()
            return
        i = 0
        while i < len(data):
            k = rng.choice([1, 2, 3, 4, 5, 7, 17, 64, len(data)])
            w.write(data[i:i + k])
            await w.drain()
            i += k
            if i < len(data):
                await asyncio.sleep(0 if rng.random() < .7 else .001)
    except ConnectionError:
        pass


async def next_packet(r, buf):
    while True:
        if len(buf) >= 4:
            n = struct.unpack("!I", buf[:4])[0]
            if len(buf) >= 4 + n:
                raw = bytes(buf[4:4 + n])
                del buf[:4 + n]
                return raw
        d = await r.read(1 << 18)
        if not d:
            return None
        buf += d


class Mta:
    def __init__(self, world, sess, r, w):
        self.world, self.s, self.r, self.w = world, sess, r, w
        self.plan = sess["plan"]
        self.q = asyncio.Queue()
        self.eof = False
        self.rng = random.Random("mta/%r" % (self.plan["seed"],))
        self.task = asyncio.ensure_future(self.reader())
        self.out = b""
        self.opt = None

    def stop(self):
        self.task.cancel()
        self.w.close()

    async def reader(self):
        buf = bytearray()
        try:
            while True:
                raw = await next_packet(self.r, buf)
                if raw is None:
                    break
                seq = self.world.tick()
                try:
                    self.q.put_nowait((seq, P.parse_reply(raw)))
                except Exception as e:
                    self.q.put_nowait((seq, ("bad", bytes(raw[:200]), repr(e))))
        except (ConnectionError, asyncio.CancelledError):
            pass
        self.eof = True
        if buf:
            self.q.put_nowait((self.world.tick(), ("bad", bytes(buf[:200]), "incomplete packet at end")))
        self.q.put_nowait((self.world.tick(), ("eof",)))

    def problem(self, kind, text):
        self.s["problems"].append((kind, text))
        raise Stop

    def queue(self, data):
        self.out += data

    async def flush(self):
        d, self.out = self.out, b""
        await put(self.w, d, self.plan.get("frag", 0), self.rng)

    async def command(self, cmd, data, reply=True, macros=None, batch=False):
        """sends one command and waits for its final reply -> final reply tuple or None"""
        if self.plan.get("gap"):
            await asyncio.sleep(self.plan["gap"] * self.rng.random())
        while not self.q.empty():
            seq, p = self.q.get_nowait()
            if p == ("eof",):
                self.problem("closed", "milter-manager closed the connection before %s" % (cmd[0],))
            self.problem("unsolicited", "unsolicited packet %r before command %r (after %r)" %
                         (p, cmd[0], self.s["log"][-1]["cmd"][0] if self.s["log"] else None))
        cmd = P.parse_command(data[4:])
        e = dict(cmd=cmd, macros=[], replies=[], final=None, seq=0, want=reply, t=0)
        if macros is not None:
            mp = P.c_macro(cmd[0], macros)
            e["macros"].append(P.parse_command(mp[4:])[1:])
            self.queue(mp)
        self.queue(data)
        e["seq"] = self.world.tick()
        self.s["log"].append(e)
        if self.plan.get("cut") == len(self.s["log"]):
            # the MTA goes away in the middle of a command or without waiting for the reply
            if self.rng.random() < .5:
                self.out = self.out[:self.rng.randrange(len(self.out))]
            await self.flush()
            if self.rng.random() < .5:
                await asyncio.sleep(.002 * self.rng.random())
            self.w.close()
            raise Stop
        if batch and not reply:
            return None
        await self.flush()
        if not reply:
            return None
        t0 = time.time()
        while True:
            try:
                seq, p = await asyncio.wait_for(self.q.get(), self.plan.get("hang", HANG))
            except asyncio.TimeoutError:
                self.problem("no-reply", "no final reply to %s within %g s (replies so far: %r)" %
                             (describe(cmd), self.plan.get("hang", HANG), [x[1][0] for x in e["replies"]]))
            e["replies"].append((seq, p))
            if p == ("eof",):
                self.problem("closed", "milter-manager closed the connection instead of answering %s" % describe(cmd))
            if p[0] == "bad":
                self.problem("bad-packet", "malformed packet in answer to %s: %r" % (describe(cmd), p))
            if p[0] == R_PROGRESS:
                continue
            if p[0] in MODS:
                if cmd[0] != EOM:
                    self.problem("mod-outside-eom", "modification %r in answer to %s" % (p, describe(cmd)))
                continue
            if p[0] == NEG and cmd[0] != NEG:
                self.problem("bad-packet", "negotiation packet in answer to %s" % describe(cmd))
            e["final"] = p
            e["t"] = time.time() - t0
            return p

    def wants(self, code):
        v, a, st = self.opt
        if st & NOSTEP.get(code, 0):
            return False
        if code == DATA and v < 4 or code == UNKNOWN and v < 3:
            return False
        return True

    def replies(self, code):
        return not self.opt[2] & NRSTEP.get(code, 0)

    async def send(self, cmd, data, macros=None, batch=False):
        if not self.wants(cmd[0]):
            return (R_CONTINUE,)
        r = self.replies(cmd[0])
        p = await self.command(cmd, data, r, macros, batch)
        if not r:
            return (R_CONTINUE,)
        if p[0] in (R_CONNFAIL, R_SHUTDOWN):
            self.problem("bad-packet", "%r in answer to %s" % (p, describe(cmd)))
        return p

    async def run(self):
        pl = self.plan
        w = self.world
        async with w.neg_lock:
            w.current = self.s
            try:
                ver, act, steps = pl["opt"]
                p = await self.command((NEG, ver, act, steps), P.c_negotiate(ver, act, steps))
            except Stop:
                t = time.time()
                while pl.get("loose") and time.time() - t < 1.5 and \
                        len(self.s["conns"]) < len([c for c in w.cfg["children"] if not c.get("absent")]):
                    await asyncio.sleep(.01)
                raise
            finally:
                w.current = None
        self.s["neg"] = p
        if p[0] != NEG:
            # the filter cannot be used
            return
        self.opt = p[1:4]
        await self.session()

    def mac(self, where, key):
        return where.get("macros", {}).get(key)

    async def finish(self, how):
        if how == "quit":
            await self.command((QUIT,), P.pkt(QUIT), reply=False)
            t = time.time()
            while not self.eof and time.time() - t < HANG:
                await asyncio.sleep(.003)
            if not self.eof:
                self.problem("not-closed", "milter-manager did not close the connection after QUIT")
        elif how == "hostile":
            d = b""
            for _ in range(self.rng.randint(1, 6)):
                d += hostile_packet(self.rng)
            self.queue(d)
            await self.flush()
            t = time.time()
            while not self.eof and time.time() - t < .3:
                await asyncio.sleep(.003)
            self.w.close()
            raise Stop
        elif how == "partial":
            self.w.write(b"\0\0\0\x20LSubj")
            await drain(self.w)
            self.w.close()
        else:
            self.w.close()
        while not self.q.empty():
            seq, p = self.q.get_nowait()
            if p != ("eof",):
                self.problem("unsolicited", "unsolicited packet %r at the end" % (p,))
        raise Stop

    async def session(self):
        pl = self.plan
        end = pl.get("end", "quit")
        c = pl["connect"]
        p = await self.send((CONN,) + tuple(c), P.c_connect(*c), self.mac(pl, CONN))
        if p[0] in (R_REJECT, R_TEMPFAIL, R_REPLYCODE, R_ACCEPT, R_DISCARD):
            await self.finish(end)
        for h in pl["helo"]:
            p = await self.send((HELO, h), P.c_helo(h), self.mac(pl, HELO))
            if p[0] in (R_ACCEPT,):
                await self.finish(end)
            if p[0] in (R_REJECT, R_TEMPFAIL, R_REPLYCODE, R_DISCARD):
                await self.finish(end)
        for m in pl["messages"]:
            await self.message(m)
        await self.finish(end)

    async def message(self, m):
        self.s["log"].append(dict(cmd=("message", m), macros=[], replies=[], final=None, seq=self.world.tick(),
                                  want=False))
        for u in m.get("unknown", ()):
            await self.send((UNKNOWN, u), P.c_unknown(u))
        p = await self.send((MAIL, (m["from"],) + tuple(m.get("from_args", ()))),
                            P.c_mail(m["from"], *m.get("from_args", ())), self.mac(m, MAIL))
        if p[0] in (R_REJECT, R_TEMPFAIL, R_REPLYCODE):
            return await self.abort(m, "mail")
        if p[0] in (R_ACCEPT, R_DISCARD):
            return await self.abort(m, "mail-" + p[0])
        ok = 0
        for i, rc in enumerate(m["rcpts"]):
            if m.get("stop") == ("rcpt", i):
                return await self.abort(m, "early", True)
            p = await self.send((RCPT, (rc,) + tuple(m.get("rcpt_args", ()))),
                                P.c_rcpt(rc, *m.get("rcpt_args", ())),
                                m.get("rcpt_macros", {}).get(i))
            if p[0] == R_ACCEPT or p[0] == R_DISCARD:
                return await self.abort(m, "rcpt-" + p[0])
            if p[0] in (R_CONTINUE, R_SKIP):
                ok += 1
        if not ok:
            return await self.abort(m, "no-rcpt", True)
        if m.get("stop") == ("data", 0):
            return await self.abort(m, "early", True)
        p = await self.send((DATA,), P.pkt(DATA), self.mac(m, DATA))
        if p[0] != R_CONTINUE:
            return await self.abort(m, "data-" + p[0])
        for i, (n, v) in enumerate(m["headers"]):
            if m.get("stop") == ("header", i):
                return await self.abort(m, "early", True)
            p = await self.send((HDR, n, v), P.c_header(n, v), self.mac(m, HDR) if i == 0 else None)
            if p[0] != R_CONTINUE:
                return await self.abort(m, "header-" + p[0])
        p = await self.send((EOH,), P.pkt(EOH), self.mac(m, EOH))
        if p[0] != R_CONTINUE:
            return await self.abort(m, "eoh-" + p[0])
        skip = False
        for i, b in enumerate(m["body"]):
            if m.get("stop") == ("body", i):
                return await self.abort(m, "early", True)
            if skip:
                break
            p = await self.send((BODY, b), P.c_body(b), self.mac(m, BODY) if i == 0 else None)
            if p[0] == R_SKIP:
                skip = True
            elif p[0] != R_CONTINUE:
                return await self.abort(m, "body-" + p[0])
        p = await self.send((EOM, b"" if skip else m.get("eom", b"")), P.c_eom(b"" if skip else m.get("eom", b"")),
                            self.mac(m, EOM))
        if m.get("abort_after"):
            await self.command((ABORT,), P.pkt(ABORT), reply=False)

    async def abort(self, m, why, must=False):
        """after a verdict in the middle an MTA aborts the message; some just start the next one"""
        if must or not m.get("no_abort"):
            await self.command((ABORT,), P.pkt(ABORT), reply=False, batch=bool(m.get("batch_abort")))


def hostile_packet(rng):
    n = rng.choice([0, 1, 2, 5, 40, 300])
    k = rng.random()
    if k < .3:
        return struct.pack("!I", n) + bytes([rng.choice(b"CDHMRTLNBEAUQKacdrtyghbmi2+-eqpsf")]) * min(n, 1) + \
            rng.randbytes(max(0, n - 1))
    if k < .6:
        return P.pkt(rng.choice("CDHMRTLNBEAUQK"), rng.choice([b"", b"\0", b"a", b"a\0", b"a\0b\0", b"a\0b\0c", b"\0\0\0\6",
                                                                b"C{a}\0b", b"<x@y>\0SIZE=1\0", rng.randbytes(n)]))
    if k < .8:
        return rng.choice([P.c_mail(b"<h@example.net>"), P.c_rcpt(b"<h@example.net>"), P.c_header(b"H", b"v"), P.pkt(EOH),
                           P.c_body(b"hostile"), P.c_eom(b""), P.pkt(DATA), P.pkt(ABORT), P.c_helo(b"h"),
                           P.pkt("O", rng.randbytes(11)), P.c_negotiate(6, A_ALL, P_ALL), P.c_unknown(b"x"), P.pkt(QUIT),
                           P.c_connect(b"h", "U")])
    return rng.choice([b"\xff\xff\xff\xffQ", b"\0\0\0\0", b"\x7f\xff\xff\xffB", b"\0\0" + rng.randbytes(n)])


def rogue_packets(rng):
    out = b""
    for _ in range(rng.choice([1, 1, 2, 4])):
        out += rng.choice([
            P.r_simple(rng.choice([R_CONTINUE, R_ACCEPT, R_REJECT, R_TEMPFAIL, R_DISCARD, R_SKIP, R_PROGRESS, R_CONNFAIL,
                               R_SHUTDOWN])),
            P.r_negotiate(6, A_ALL, rng.choice([0, P_ALL, rng.getrandbits(21)]), None),
            P.r_addhdr("X-Rogue", "v"), P.r_replbody(rng.randbytes(rng.choice([0, 5, 4000]))), P.r_addrcpt("<rogue@example.com>"),
            P.r_delrcpt("<rogue@example.com>"), P.r_chgfrom("<rogue@example.com>"), P.r_quarantine("rogue"),
            P.pkt(R_REPLYCODE, rng.choice([b"550 x\0", b"451\0", b"999 zz\0", b"550 5.7.1 a\r\n550-b\0", b"550 x", b""])),
            hostile_packet(rng)])
    return out


def describe(cmd):
    return repr(cmd)[:120]


# ---- behaviour of a child -------------------------------------------------
def pick(rng, weights):
    t = rng.random() * sum(w for _, w in weights)
    for k, w in weights:
        t -= w
        if t < 0:
            return k
    return weights[-1][0]


REPLY_TEXTS = [b"550 5.7.1 no", b"554 5.7.0 policy\r\n554 5.7.0 second line", b"451 4.7.1 later", b"421 4.2.0 slow",
               b"550 plain text", b"451 plain", b"550 5.1.1 100%% sure\r\n550 5.1.1 \r\n550 5.1.1 end"]


def reply_text(rng, tok):
    cls = rng.choice("45")
    n = rng.choice([1, 1, 1, 2, 3, 5])
    code = cls + rng.choice(["50", "51", "54", "21", "52"])
    ext = rng.choice([" %s.%d.%d" % (cls, rng.randint(0, 7), rng.choice([0, 1, 20, 111]))] * 3 + [""])
    lines = []
    for i in range(n):
        t = rng.choice(["no", "policy says no", tok, tok + " 100% x", "a" * rng.choice([1, 40, 300])])
        lines.append("%s%s %s" % (code, ext, t))
    return "\r\n".join(lines).encode()


def child_ops(rng, plan, c, st, cmd):
    v, a, steps = c.answer or (6, A_ALL, 0)
    prof = plan["prof"] if "prof" in plan else {}
    code = cmd[0]
    ops = []
    d = prof.get("delay", 0)
    if d and rng.random() < .3:
        ops.append(("sleep", d * rng.random()))
    if code == CONN or code == HELO and st.get("tok") is None:
        st["tok"] = plan.get("tok", "t")
    # a child that doesn't care about the protocol at all
    f = plan.get("rogue", 0)
    if f and rng.random() < f:
        raw = ("raw", rogue_packets(rng))
        k = rng.random()
        if k < .3:
            return ops + [raw] + final_ops(rng, plan, c, st, cmd, prof)
        if k < .6:
            return ops + final_ops(rng, plan, c, st, cmd, prof) + [raw]
        return ops + [raw] + ([("close", "rogue")] if k < .8 else [])
    # faults
    f = prof.get("fault", 0)
    if prof.get("fault_stages") and STAGEKEY.get(code) not in prof["fault_stages"]:
        f = 0
    if f and rng.random() < f and st["ch"]["name"] in plan.get("faulty", ()):
        k = rng.choice(prof.get("faults", ["close", "garbage", "oop", "close-after", "silent"]))
        if code == EOM and k in ("close", "silent", "connfail") and rng.random() < .4:
            # in the middle of its modifications
            for m in modifications(rng, plan, c, st, prof):
                ops.append(("send",) + m)
        if k == "close":
            return ops + [("close", "close")]
        if k == "silent":
            return ops + [("silent", 30)]
        if k == "garbage":
            return ops + [("raw", rng.choice([b"\0\0\0\x01?", b"\0\0\0\0", b"\xff\xff\xff\xffzz", b"\0\0\0\x02y5",
                                              b"\0\0\0\x01\0\0\0\0\x01c"])), ("close", "garbage-close")] \
                if rng.random() < .5 else ops + [("raw", b"\0\0\0\x01?"), ("silent", 30)]
        if k == "oop" and code != EOM:
            return ops + [("raw", rng.choice([P.r_addhdr("X-Out", "of place"), P.r_replbody(b"xx"),
                                              P.r_addrcpt("<oop@example.com>"), P.r_quarantine("oop"),
                                              P.r_delrcpt("<oop@example.com>"), P.r_chgfrom("<oop@example.com>")])),
                          ("oop-mark",)] + final_ops(rng, plan, c, st, cmd, prof)
        if k == "connfail":
            return ops + [("raw", P.r_simple(rng.choice([R_CONNFAIL, R_SHUTDOWN]))), ("silent", 30)]
        if k == "close-after":
            return ops + final_ops(rng, plan, c, st, cmd, prof) + [("close", "close-after")]
    if code in NRSTEP and steps & NRSTEP[code]:
        return ops
    if code == EOM and prof.get("progress") and rng.random() < prof["progress"]:
        for _ in range(rng.randint(1, 2)):
            ops.append(("send", P.r_simple(R_PROGRESS), (R_PROGRESS,)))
            if rng.random() < .5:
                ops.append(("sleep", .002))
    if code == EOM:
        for m in modifications(rng, plan, c, st, prof):
            ops.append(("send",) + m)
            if rng.random() < .1:
                ops.append(("sleep", .001))
    return ops + final_ops(rng, plan, c, st, cmd, prof)


STAGEKEY = {CONN: "connect", HELO: "helo", MAIL: "mail", RCPT: "rcpt", DATA: "data", HDR: "header", EOH: "eoh",
            BODY: "body", EOM: "eom", UNKNOWN: "unknown"}


def final_ops(rng, plan, c, st, cmd, prof):
    v, a, steps = c.answer or (6, A_ALL, 0)
    code = cmd[0]
    k = STAGEKEY[code]
    w = prof.get("verdicts", {}).get(k, [(R_CONTINUE, 1)])
    f = pick(rng, w)
    if f == R_SKIP and (code != BODY or not steps & P_SKIP):
        f = R_CONTINUE
    if f == R_REPLYCODE:
        t = reply_text(rng, "%s %s %s" % (plan.get("tok", "t"), c.child, k))
        return [("send", P.r_replycode(t), (R_REPLYCODE, t))]
    return [("send", P.r_simple(f), (f,))]


def modifications(rng, plan, c, st, prof):
    """-> list of (bytes, parsed)"""
    out = []
    p = prof.get("mods", 0)
    if not p or rng.random() > p:
        return out
    v, a, steps = c.answer or (6, A_ALL, 0)
    tok = plan.get("tok", "t")
    names = prof.get("mod_names", ["X-A", "x-b", "Subject", "Received", "X-New", "To"])

    def val():
        lead = " " if steps & P_HDR_LEADSPC and rng.random() < .8 else ""
        return (lead + rng.choice(["v%d %s %s" % (rng.randint(0, 99), c.child, tok), "%s" % rng.randint(0, 3), "x"])).encode()
    for _ in range(rng.choice([1, 1, 2, 3, 5, 9])):
        kinds = []
        if a & A_ADDHDRS:
            kinds += ["add", "add", "insert", "insert"]
        if a & A_CHGHDRS:
            kinds += ["change", "change", "delete"]
        if a & A_CHGBODY:
            kinds += ["body"]
        if a & A_ADDRCPT:
            kinds += ["addrcpt"]
        if a & A_ADDRCPT_PAR:
            kinds += ["addpar"]
        if a & A_DELRCPT:
            kinds += ["delrcpt"]
        if a & A_QUARANTINE:
            kinds += ["quarantine"]
        if a & A_CHGFROM:
            kinds += ["from"]
        only = prof.get("mod_kinds")
        if only:
            kinds = [k for k in kinds if k in only]
        if not kinds:
            break
        k = rng.choice(kinds)
        n = rng.choice(names)
        if rng.random() < .2:
            n = n.upper()
        n = n.encode()
        if k == "add":
            x = val()
            out.append((P.r_addhdr(n, x), (R_ADDHDR, n, x)))
        elif k == "insert":
            i, x = rng.choice([0, 0, 1, 2, 3, 5, 100]), val()
            out.append((P.r_inshdr(i, n, x), (R_INSHDR, i, n, x)))
        elif k == "change":
            i, x = rng.choice([1, 1, 1, 2, 3]), val()
            out.append((P.r_chghdr(i, n, x), (R_CHGHDR, i, n, x)))
        elif k == "delete":
            i = rng.choice([1, 1, 2, 3])
            out.append((P.r_chghdr(i, n, b""), (R_CHGHDR, i, n, b"")))
        elif k == "body":
            if rng.random() < .5:
                big = rng.choice([0, 1, 1, 2])
                size = [rng.randint(1, 60), rng.randint(1, 3000), rng.randint(1, 65535)][big]
                chunks = [rng.randbytes(size) if rng.random() < .5 else (b"%s %d\r\n" % (tok.encode(), size)) * (size // 20 + 1)]
                if rng.random() < .3:
                    chunks.append(b"second chunk\0of " + tok.encode())
                if rng.random() < prof.get("bigrepl", 0):
                    # a new body that doesn't fit in the manager's memory limit
                    chunks = [(b"%d %s new line\r\n" % (i, tok.encode()) * 5000)[:65534] for i in range(rng.randint(81, 95))]
                for b in chunks:
                    b = b[:65534] or b"x"
                    out.append((P.r_replbody(b), (R_REPLBODY, b)))
        elif k == "addrcpt":
            x = b"<add%d.%s@example.org>" % (rng.randint(0, 9), tok.encode())
            out.append((P.r_addrcpt(x), (R_ADDRCPT, x)))
        elif k == "addpar":
            x = b"<addp%d.%s@example.org>" % (rng.randint(0, 9), tok.encode())
            args = rng.choice([None, b"NOTIFY=NEVER"])
            out.append((P.r_addrcpt_par(x, args), (R_ADDRCPT_PAR, x, args)))
        elif k == "delrcpt":
            x = b"<r%d.%s@example.org>" % (rng.randint(0, 3), tok.encode())
            out.append((P.r_delrcpt(x), (R_DELRCPT, x)))
        elif k == "quarantine":
            x = b"q %s %s" % (c.child.encode(), tok.encode())
            out.append((P.r_quarantine(x), (R_QUARANTINE, x)))
        elif k == "from":
            x = b"<from%d.%s@example.org>" % (rng.randint(0, 9), tok.encode())
            args = rng.choice([None, None, b"SIZE=10"])
            out.append((P.r_chgfrom(x, args), (R_CHGFROM, x, args)))
    return out
