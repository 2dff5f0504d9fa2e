"""Plain sessions against a running milter or milter-manager with timestamps
and the process that served each of them; process table helpers."""
import asyncio, os, re, socket, struct, time
import milterproto as P
from milterproto import *


def children_of(pid):
    """pids whose parent is pid"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                st = open("/proc/%s/stat" % d).read()
                rest = st.rsplit(")", 1)[1].split()
                if int(rest[1]) == pid and rest[0] != "Z":
                    out.append(int(d))
            except (OSError, IndexError):
                pass
    return sorted(out)


def group_of(pgid):
    """live processes of a process group"""
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                rest = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
                if int(rest[2]) == pgid and rest[0] != "Z":
                    out.append(int(d))
            except (OSError, IndexError):
                pass
    return sorted(out)


def peer_pid(w):
    s = w.get_extra_info("socket")
    if s.family != socket.AF_UNIX:
        return None
    return struct.unpack("3i", s.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0]


class Child:
    """answers every command with continue and keeps a log: (time, pid, token, command)"""

    def __init__(self, path):
        self.path, self.log, self.sessions, self.server = path, [], {}, None
        self.open = 0
        self.delay = 0

    async def start(self):
        if os.path.exists(self.path):
            os.unlink(self.path)
        self.server = await asyncio.start_unix_server(self.serve, self.path, limit=1 << 22, backlog=512)
        os.chmod(self.path, 0o777)

    async def stop(self):
        self.server.close()

    async def serve(self, r, w):
        pid, tok, buf = peer_pid(w), None, b""
        self.open += 1
        try:
            while True:
                d = await r.read(65536)
                if not d:
                    break
                buf += d
                pk, buf = P.split_packets(buf)
                for raw in pk:
                    c = P.parse_command(raw)
                    if c[0] == NEG:
                        w.write(P.r_negotiate(6, A_ALL, 0))
                        continue
                    if c[0] == CONN:
                        tok = B(c[1]).decode("latin-1")
                        self.sessions.setdefault(tok, []).append(pid)
                    self.log.append((time.time(), pid, tok, c[0]))
                    if c[0] in (MACRO, ABORT, QUIT):
                        continue
                    if self.delay:
                        await asyncio.sleep(self.delay)
                    w.write(P.r_simple(R_CONTINUE))
        except ConnectionError:
            pass
        self.open -= 1
        w.close()


class Refused(Exception):
    pass


async def connect(spec):
    if spec[0] == "unix":
        return await asyncio.open_unix_connection(spec[1])
    return await asyncio.open_connection(spec[1], spec[2])


STEPS = [("connect", lambda t: P.c_connect(t, "4", 25, "192.0.2.1")), ("helo", lambda t: P.c_helo("h." + t)),
         ("mail", lambda t: P.c_mail("<s@%s>" % t)), ("rcpt", lambda t: P.c_rcpt("<r@%s>" % t)),
         ("data", lambda t: P.pkt(DATA)), ("header", lambda t: P.c_header("Subject", t)), ("eoh", lambda t: P.pkt(EOH)),
         ("body", lambda t: P.c_body(b"body of " + t.encode())), ("eom", lambda t: P.c_eom())]


async def session(spec, tok, think=0, wait=30, messages=1, on=None, stop_at=None, quit=True):
    """one mail session -> dict(served=[t of negotiation reply], replies=[(step, reply, latency)], end=t, error=None)"""
    s = dict(tok=tok, start=time.time(), served=None, replies=[], end=None, error=None, pid=None)
    w = None
    try:
        try:
            r, w = await connect(spec)
        except OSError as e:
            s["error"] = "refused: %r" % e
            s["refused"] = True
            return s
        buf = b""

        async def ask(name, data):
            nonlocal buf
            t = time.time()
            w.write(data)
            await w.drain()
            while True:
                pk, buf = P.split_packets(buf)
                if pk:
                    rp = P.parse_reply(pk[0])
                    buf = b"".join(struct.pack("!I", len(x)) + x for x in pk[1:]) + buf
                    s["replies"].append((name, rp[0], time.time() - t))
                    if on:
                        on(s, name)
                    return rp
                d = await asyncio.wait_for(r.read(65536), wait)
                if not d:
                    raise ConnectionError("closed while waiting for the reply to " + name)
                buf += d
        rp = await ask("negotiate", P.c_negotiate(6, A_ALL, P_ALL))
        s["served"] = time.time()
        if rp[0] != NEG:
            raise ValueError("negotiation was answered %r" % (rp,))
        for n in range(messages):
            for name, f in STEPS if n == 0 else STEPS[2:]:
                if think:
                    await asyncio.sleep(think)
                rp = await ask(name, f(tok))
                if rp[0] not in (R_CONTINUE, R_ACCEPT):
                    raise ValueError("%s was answered %r" % (name, rp))
        if think:
            await asyncio.sleep(think)
        s["last"] = time.time()
        if quit:
            w.write(P.pkt(QUIT))
            await w.drain()
            d = await asyncio.wait_for(r.read(65536), wait)
            if d:
                raise ValueError("after QUIT: %r" % d)
        s["done"] = True
    except asyncio.TimeoutError:
        s["error"] = "no reply within %d s after %s" % (wait, s["replies"][-1][0] if s["replies"] else "connecting")
    except (ConnectionError, ValueError, P.ProtoError) as e:
        s["error"] = "%s (after %s)" % (e, s["replies"][-1][0] if s["replies"] else "connecting")
    finally:
        s["end"] = time.time()
        if w is not None:
            w.close()
    return s
