"""Milter peers for programs on the server library (harness/server_driver): every session is generated with what the driver
has to ask, what the peer answers, and everything that must be observed on both sides."""
import os, random, re, shutil, socket, subprocess, tempfile, threading, time, traceback
import build as B
import manager as M
import milterproto as P
import wiregen as W
from core import x

CMD = {"conn": "C", "helo": "H", "mail": "M", "rcpt": "R", "data": "T", "hdr": "L", "eoh": "N", "body": "B", "eom": "E",
       "unknown": "U"}
BIG = 1
KINDS = ["normal"] * 10 + ["reading", "eom", "slow", "slow", "progress", "progress-hang", "writing", "connection", "refused", "close", "close",
                           "garbage", "invalid", "invalid", "newer", "negstatus"]


def txt(r, lo=1, hi=30):
    return bytes(r.choice(b"abcXYZ019-_.@<>: ;%\xe3\x81") for _ in range(r.randint(lo, hi)))


class Gen:
    def __init__(self, r, index, kind, dir):
        self.r, self.index, self.kind = r, index, kind
        self.plan, self.steps, self.events = [], [], []
        self.kinds = {kind}
        self.timing = None            # (event, command, timeout)
        self.ended = False
        self.T = dict(c=30, w=30, r=30, e=30)
        self.inet = kind == "connection" or (kind not in ("writing",) and r.random() < .3)
        self.path = os.path.join(dir, "p%d" % index)
        self.fault_at = r.randint(0, 14)
        self.build()

    # -- recording
    def command(self, name, args=(), answers=1, delay=None, macros=None):
        r = self.r
        for st, d in (macros or {}).items():
            self.plan.append(" ".join(["D", st] + [w for k, v in d.items() for w in (x(k), x(v))]))
        if delay is None:
            delay = r.choice([-1, -1, -1, 0, 0, 1, 10])
        self.plan.append(" ".join(["C", str(delay), str(answers), name] + [str(a) for a in args]))

    def step(self, expect, replies=b"", events=(), pause=0, **kw):
        self.steps.append(dict(expect=expect, replies=replies, pause=pause, **kw))
        self.events += list(events)

    # -- answers
    def mods(self):
        r, out, ev = self.r, b"", []
        for _ in range(r.choice([0, 0, 1, 2, 5])):
            n, v = txt(r, 1, 20), (b"" if r.random() < .1 else txt(r, 1, 60))
            k = r.choice(["addh", "insh", "chgh", "delh", "addr", "addrp", "delr", "from", "fromp", "body", "quar", "prog"])
            i = W.u32(r) & 0x7fffffff
            if k == "addh":
                out += P.pkt("h", n + b"\0" + v + b"\0"); ev.append(["addh", x(n), x(v)])
            elif k == "insh":
                out += P.r_inshdr(i, n, v); ev.append(["insh", str(i), x(n), x(v)])
            elif k == "chgh":
                v = v or b"v"
                out += P.r_chghdr(i, n, v); ev.append(["chgh", x(n), str(i), x(v)])
            elif k == "delh":
                out += P.r_chghdr(i, n, b""); ev.append(["delh", x(n), str(i)])
            elif k == "addr":
                out += P.pkt("+", n + b"\0"); ev.append(["addr", x(n), "-"])
            elif k == "addrp":
                v = v or b"A"
                out += P.pkt("2", n + b"\0" + v + b"\0"); ev.append(["addr", x(n), x(v)])
            elif k == "delr":
                out += P.pkt("-", n + b"\0"); ev.append(["delr", x(n)])
            elif k == "from":
                out += P.pkt("e", n + b"\0"); ev.append(["from", x(n), "-"])
            elif k == "fromp":
                v = v or b"A"
                out += P.pkt("e", n + b"\0" + v + b"\0"); ev.append(["from", x(n), x(v)])
            elif k == "body":
                b = W.blob(r, r.choice([0, 1, 100, 5000, 65535, 65536, 200000])) if r.random() < .3 else W.blob(r, r.randint(1, 300))
                out += P.pkt("b", b); ev.append(["body", x(b)])
            elif k == "quar":
                out += P.pkt("q", n + b"\0"); ev.append(["quar", x(n)])
            else:
                out += P.pkt("p"); ev.append(["progress"])
            self.kinds.add("eom:" + k)
        return out, ev

    def final(self, stage, answers=None):
        r = self.r
        a = r.choice(answers or (["c"] * 12 + ["y", "y", "r", "t", "a", "d"] + (["s"] if stage == "B" else [])))
        self.kinds.add(stage + ":" + a)
        if a == "y":
            code = r.choice([450, 451, 421, 550, 554, r.randint(400, 599)])
            xc = b"%d.%d.%d" % (code // 100, r.randint(0, 999), r.randint(0, 999)) if r.random() < .6 else None
            t = txt(r, 1, 40).replace(b"%", b"p").strip() or b"x"
            if not t[:1].isalpha():
                t = b"m" + t
            return P.pkt("y", b"%d " % code + (xc + b" " if xc else b"") + t + b"\0"), ["reply-code", str(code), x(xc), x(t)], a
        name = {"c": "continue", "r": "reject", "t": "tempfail", "a": "accept", "d": "discard", "s": "skip", "f": "connfail",
                "4": "shutdown"}[a]
        return P.pkt(a), [name], a

    # -- pieces
    def neg(self):
        r = self.r
        v = r.choice([2, 3, 4, 6, 6, 6])
        a = P.A_ALL if r.random() < .6 else r.getrandbits(9)
        s = P.P_ALL if r.random() < .6 else r.getrandbits(21)
        self.command("neg", [v, a, s])
        expect = [("O", v, a, s)]
        if self.kind == "newer":
            self.step(expect, P.r_negotiate(v + r.choice([1, 2, 100]), a, s), [["error"]])
            self.steps.append(dict(expect=[], replies=b"", pause=.2, close=True))
            self.ended = True
            return
        if self.kind == "negstatus":
            raw, ev, k = self.final("O", ["r", "t", "a", "d", "y"])
            # (a reply to the negotiation that is no option: whatever is told, one notification)
            self.step(expect, raw, [["?"] + ev])
            self.steps.append(dict(expect=[], replies=b"", pause=.2, close=True))
            self.plan[-1] = self.plan[-1].replace(" 1 neg", " 9 neg")
            self.ended = True
            return
        v2 = r.choice([v, v, r.randint(2, v)])
        a2 = a & r.getrandbits(9) if r.random() < .5 else a
        no = r.getrandbits(21) & r.getrandbits(21) & P.P_NO_EVENTS if r.random() < .4 else 0
        nr = r.getrandbits(21) & r.getrandbits(21) & P.P_NR_ALL if r.random() < .4 else 0
        if self.kind == "writing":
            a2, s, nr, no = a, P.P_ALL, P.P_NR_BODY, 0
            self.plan[-1] = re.sub(r"neg .*", "neg %d %d %d" % (v, a, s), self.plan[-1])
            expect = [("O", v, a, s)]
        s2 = s & (no | nr | P.P_SKIP)
        if r.random() < .2:
            # more than was offered: what wasn't offered isn't in force
            s2 |= r.getrandbits(21) & ~s & P.P_NO_EVENTS
            self.kinds.add("neg:more")
        self.requests = None
        if r.random() < .4:
            self.requests = {st: [r.choice([b"i", b"{auth_type}", b"j", b"{mail_addr}", b"_"]) for _ in range(r.randint(1, 3))]
                             for st in r.sample(range(7), r.choice([1, 3, 7]))}
        if self.bad_reply(expect):
            return
        self.step(expect, P.r_negotiate(v2, a2, s2, self.requests), [["negotiated", str(v2), str(a2), str(s2)]])
        self.version, self.option = v2, s & s2

    def bad_reply(self, expect, stage="O"):
        """the fault of the session, when its time has come"""
        r = self.r
        if self.kind not in ("close", "garbage") or len(self.steps) < self.fault_at:
            return False
        if self.kind == "close":
            part = r.choice([b"", b"", P.pkt("c")[:r.randint(1, 4)], P.pkt("y", b"550 no\0")[:7]])
            # (bytes of an unfinished packet may be reported too)
            self.step(expect, part, [["error?"]] if part else [], close=True, pause=r.choice([0, 0, .05]))
            self.kinds.add("close:" + stage)
        else:
            raw = r.choice([P.pkt("X"), P.pkt("z", b"a\0"), b"\0\0\0\0", P.pkt("y", b"xyz\0"), P.pkt("h", b"a\0"), P.pkt("i", b"\0\0"),
                            P.pkt("O", b"\0\0\0"), P.pkt("q", b"reason"), P.pkt("m", b"\0\0\0\1name\0"), P.pkt("+", b"abc")])
            self.step(expect, raw, [["error"]])
            self.steps.append(dict(expect=[], replies=b"", pause=.2, close=True))
            self.plan[-1] = re.sub(r"^(C \S+) \d+", r"\1 9", self.plan[-1])
            self.kinds.add("garbage:%s" % raw[4:5].decode())
        self.ended = True
        return True

    def macros(self, stage):
        r = self.r
        if stage == "U" or r.random() < .5:
            return {stage: {}}, None, None
        d = {r.choice([b"i", b"j", b"_", b"auth_type", b"mail_addr", W.name(r)]): r.choice([b"", txt(r)])
             for _ in range(r.choice([1, 2, 4]))}
        want, optional = d, False
        if self.requests is not None:
            st = P.STAGE_OF.get(stage)
            if st in self.requests:
                names = {n.strip(b"{}") for n in self.requests[st]}
                want = {k: v for k, v in d.items() if k in names}
            else:
                optional = True
        return {stage: d}, (P.MACRO, stage, tuple(sorted(want.items()))) if want else None, optional

    def ask(self, name, args, packet, answers=None):
        """one command; -> the answer"""
        if self.ended:
            return None
        r, stage = self.r, CMD[name]
        mac, mexp, mopt = self.macros(stage)
        if P.NOSTEP.get(stage, 0) & self.option or (stage == "T" and self.version < 4):
            self.command(name, args, 1, macros=mac)
            self.events.append(["skip" if stage == "B" else "continue"])
            self.kinds.add(stage + ":notsent")
            return "s" if stage == "B" else "c"
        expect = ([mexp + (mopt,)] if mexp else []) + [packet]
        if P.NRSTEP.get(stage, 0) & self.option:
            self.command(name, args, 0, macros=mac)
            if stage == "B" and len(packet[1]) > 65535:
                for i in range(0, len(packet[1]), 65535):
                    self.step(expect[:-1] + [(P.BODY, packet[1][i:i + 65535])])
                    expect = [e[:3] + (True,) for e in expect[:-1]] + expect[-1:]
            else:
                self.step(expect)
            self.kinds.add(stage + ":noreply")
            return None
        self.command(name, args, 1, macros=mac)
        if stage == "B" and len(packet[1]) > 65535:
            # several packets, each of them answered
            chunks = [packet[1][i:i + 65535] for i in range(0, len(packet[1]), 65535)]
            answer = "c"
            while answer == "c" and len(chunks) > 1:
                raw, ev, answer = self.final(stage, ["c", "c", "c", "s", "r", "y", "a"])
                if answer == "c":
                    self.step(expect[:-1] + [(P.BODY, chunks.pop(0))], raw, [])
                    expect = [e[:3] + (True,) for e in expect[:-1]] + expect[-1:]
                else:
                    self.step(expect[:-1] + [(P.BODY, chunks.pop(0))], raw, [ev])
                    self.kinds.add("B:big")
                    return answer
            expect = expect[:-1] + [(P.BODY, chunks[0])]
        if self.bad_reply(expect, stage):
            return None
        if self.kind in ("reading", "eom") and (stage == "E" if self.kind == "eom" else
                                                stage != "E" and len(self.steps) >= self.fault_at or stage == "N"):
            self.T["r" if self.kind == "reading" else "e"] = t = r.choice([.3, .6, 1.0])
            self.timing = ({"r": "reading-timeout", "e": "eom-timeout"}[self.kind[0]], name, t)
            self.step(expect, P.pkt("c")[:r.choice([0, 0, 3])], [[self.timing[0]]], silent=True)
            self.kinds.add("silent:" + stage)
            self.ended = True
            return None
        if self.kind == "progress-hang" and stage == "E":
            # each sign of progress gives the milter the whole time again, but no more
            self.T["e"] = t = r.choice([.6, .8])
            n = r.randint(1, 4)
            self.steps.append(dict(expect=expect, replies=b"", pause=0))
            for _ in range(n):
                self.steps.append(dict(expect=[], replies=P.pkt("p"), pause=.3))
                self.events.append(["progress"])
            self.timing = ("eom-timeout", name, t + n * .3)
            self.step([], b"", [["eom-timeout"]], silent=True)
            self.ended = True
            return None
        raw, ev, a = self.final(stage, answers)
        pre, pev = self.mods() if stage == "E" else (b"", [])
        pause = 0
        if self.kind == "slow" and not self.timing and (len(self.steps) >= self.fault_at or stage == "E"):
            # slower than the other timeouts allow
            pause = 1.0
            if stage == "E":
                self.T.update(c=.5, w=.5, r=.5)
            else:
                self.T.update(c=.5, w=.5, e=.5)
            self.timing = (None, name, pause)
            self.kinds.add("slow:" + stage)
        if self.kind == "invalid" and len(self.steps) >= self.fault_at and "done" not in self.__dict__ and stage in "CHMRTLNB":
            self.done = True
            bad = r.choice([P.r_addhdr(b"A", b"b"), P.pkt("q", b"no\0"), P.pkt("+", b"a@b\0"), P.pkt("b", b"body"), P.pkt("p"),
                            P.pkt("-", b"a\0"), P.pkt("e", b"a\0"), P.r_chghdr(1, b"n", b"v")] + ([P.pkt("s")] if stage != "B" else []))
            pre, pev = bad, [["error"]]
            self.kinds.add("invalid:%s:%s" % (stage, bad[4:5].decode()))
        elif r.random() < .05:
            pause = r.choice([.01, .05])
        wait = None
        if self.kind == "progress" and stage == "E":
            self.T["e"] = .8
            pre, pev, pause = b"", [["progress"]] * 4, .4
            self.steps.append(dict(expect=expect, replies=b"", pause=0))
            for _ in range(4):
                self.steps.append(dict(expect=[], replies=P.pkt("p"), pause=.4))
            self.timing = (None, name, .8)
            expect = []
        self.step(expect, pre + raw, pev + [ev], pause)
        return a

    def build(self):
        r = self.r
        if self.kind in ("connection", "refused"):
            if self.kind == "connection":
                self.T["c"] = r.choice([.3, .8])
                self.timing = ("connection-timeout", "establish", self.T["c"])
                self.events = [["connection-timeout"]]
            else:
                self.events = [["unreachable|error"]]
            self.command("neg", [6, 0, 0])
            return
        self.events.append(["ready"])
        self.neg()
        if self.ended:
            return self.end()
        fam = r.choice("446LU")
        port, addr = r.getrandbits(16), b""
        if fam == "4":
            addr = b"%d.%d.%d.%d" % tuple(r.randbytes(4))
        elif fam == "6":
            addr = r.choice([b"::1", b"2001:db8::%x" % r.randint(1, 65535), b"fe80::1:2"])
        elif fam == "L":
            port, addr = 0, b"/" + txt(r, 1, 60)
        else:
            port = 0
        host = txt(r)
        self.ask("conn", [x(host), fam, port, x(addr)], (P.CONN, host, fam, port, addr))
        for _ in range(r.choice([1, 1, 2])):
            h = txt(r)
            self.ask("helo", [x(h)], (P.HELO, h))
        for _ in range(r.choice([1, 1, 2, 3])):
            self.message()
        self.end()

    def end(self):
        if not self.ended:
            self.command("quit", answers=9)
            self.step([("Q",)], eof=True)
        # (the connection is over before a message: nothing more is asked)
        if self.steps and self.steps[-1].get("silent"):
            self.steps[-1]["eof"] = True
        self.events.append(["finished"])

    def abort(self):
        if self.ended:
            return
        self.command("abort", answers=0)
        self.step([("A",)])

    def message(self):
        r = self.r
        if r.random() < .15:
            u = txt(r)
            self.ask("unknown", [x(u)], (P.UNKNOWN, u))
        f = b"<" + txt(r, 0, 20).replace(b">", b"") + b">"
        if self.ask("mail", [x(f)], (P.MAIL, (f,))) not in ("c", None):
            return self.abort()
        for _ in range(r.choice([1, 1, 2, 5])):
            t = b"<" + txt(r, 1, 20) + b">"
            if self.ask("rcpt", [x(t)], (P.RCPT, (t,))) in ("a", "d"):
                return self.abort()
        if self.ask("data", [], (P.DATA,)) not in ("c", None):
            return self.abort()
        for _ in range(r.choice([0, 1, 3, 8])):
            n, v = txt(r, 1, 20).replace(b":", b"-"), txt(r, 0, 80)
            if self.ask("hdr", [x(n), x(v)], (P.HDR, n, v)) not in ("c", None):
                return self.abort()
        if r.random() < .1:
            return self.abort()
        if self.ask("eoh", [], (P.EOH,)) not in ("c", None):
            return self.abort()
        if self.kind == "writing" and not self.ended:
            self.T["w"] = t = r.choice([.4, .8])
            for _ in range(30):
                b = bytes(65000)
                self.command("body", [x(b)], 0, delay=-1)
            self.timing = ("writing-timeout", "body", t)
            self.steps.append(dict(expect=[], replies=b"", pause=0, deaf=True))
            self.events.append(["writing-timeout"])
            self.ended = True
            return
        for _ in range(r.choice([0, 1, 2, 3])):
            b = W.blob(r, r.choice([1, 10, 1000, 65535, r.randint(1, 65535)] + [65536, 100000, 131070, 131071, 200000] * BIG))
            a = self.ask("body", [x(b)], (P.BODY, b))
            if a == "s":
                break
            if a not in ("c", None):
                return self.abort()
        last = W.blob(r, r.choice([1, 100, 65535])) if r.random() < .3 else b""
        self.ask("eom", [x(last)], (P.EOM, last))

    def text(self, spec):
        return "\n".join(["S %s %g %g %g %g" % (spec, self.T["c"], self.T["w"], self.T["r"], self.T["e"])] + self.plan)


class Peer(threading.Thread):
    def __init__(self, g, r):
        super().__init__(daemon=True)
        self.g, self.r = g, r
        self.problems, self.packets, self.buf = [], 0, b""
        self.filler, self.listener = [], None
        if g.kind == "refused":
            self.spec = "unix:" + g.path + ".none"
            if g.inet:
                # bound, so that nobody else gets the port, but not listening
                self.filler = [socket.socket()]
                self.filler[0].bind(("127.0.0.1", 0))
                self.spec = "inet:%d@127.0.0.1" % self.filler[0].getsockname()[1]
            return
        if g.inet:
            self.listener = socket.create_server(("127.0.0.1", 0), backlog=0 if g.kind == "connection" else 5)
            self.spec = "inet:%d@127.0.0.1" % self.listener.getsockname()[1]
            if g.kind == "connection":
                for _ in range(4):
                    s = socket.socket()
                    s.setblocking(False)
                    s.connect_ex(self.listener.getsockname())
                    self.filler.append(s)
        else:
            self.listener = socket.socket(socket.AF_UNIX)
            self.listener.bind(g.path)
            self.listener.listen(5)
            self.spec = "unix:" + g.path

    def bad(self, kind, text):
        self.problems.append((kind, "session %d (%s): %s" % (self.g.index, self.g.kind, text)))

    def run(self):
        if self.g.kind in ("refused", "connection"):
            return
        try:
            self.listener.settimeout(120)
            self.sock, _ = self.listener.accept()
            self.listener.close()
            self.play()
        except Exception as e:
            self.bad("peer", "%s" % traceback.format_exc()[-500:])

    def packet(self):
        self.sock.settimeout(30)
        while True:
            ps, rest = P.split_packets(self.buf)
            if ps:
                self.buf = self.buf[4 + len(ps[0]):]
                return ps[0]
            try:
                d = self.sock.recv(1 << 18)
            except ConnectionResetError:
                d = b""
            if not d:
                return None
            self.buf += d

    def play(self):
        for n, st in enumerate(self.g.steps):
            want = list(st["expect"])
            while want:
                try:
                    raw = self.packet()
                except socket.timeout:
                    return self.bad("not-sent", "step %d: %r didn't come" % (n, want[0]))
                if raw is None:
                    return self.bad("closed", "step %d: the connection was closed before %r" % (n, want[0]))
                self.packets += 1
                try:
                    p = P.parse_command(raw)
                except (P.ProtoError, ValueError, IndexError) as e:
                    return self.bad("bad-packet", "step %d: %r (%s)" % (n, raw[:200], e))
                w = want.pop(0)
                if w[0] == P.MACRO:
                    optional, w = w[3], w[:3]
                    if optional and p[0] != P.MACRO and want:
                        w = want.pop(0)
                    elif p[0] == P.MACRO:
                        p = p[:2] + (tuple(sorted(p[2])),)
                if p != w:
                    return self.bad("command", "step %d: %r instead of %r" % (n, cut(p), cut(w)))
            if st.get("deaf"):
                while self.alive():
                    time.sleep(.02)
                return self.sock.close()
            if st["pause"]:
                time.sleep(st["pause"])
            rep = st["replies"]
            for part in (W.cut(self.r, rep) if rep and len(rep) < 400 and self.r.random() < .4 else [rep]):
                if part:
                    self.sock.sendall(part)
                    if self.r.random() < .1:
                        time.sleep(.002)
            if st.get("close"):
                return self.sock.close()
            if st.get("eof"):
                try:
                    raw = self.packet()
                except socket.timeout:
                    return self.bad("open", "the connection stays open")
                if raw is not None:
                    self.bad("command", "step %d: %r too much" % (n, raw[:100]))
                return self.sock.close()
        self.sock.close()

    def alive(self):
        return not getattr(self, "stop", False)


def cut(l):
    s = repr(l)
    return s if len(s) < 500 else s[:250] + "…" + s[-200:]


def compare(g, events, issued, lag):
    bad = []

    def say(kind, text):
        bad.append((kind, "session %d (%s): %s" % (g.index, g.kind, text)))
    got = [e for e in events if e[1] != "end"]
    want = list(g.events)
    i = 0
    for w in want:
        e = got[i] if i < len(got) else None
        if w == ["error?"]:
            if e and e[1] == "error":
                i += 1
            continue
        if e is None:
            say("missing", "no notification %s (got %s)" % (cut(w), cut([e[1:] for e in got[-3:]])))
            return bad
        if w[0] == "?":
            # some one notification
            i += 1
            continue
        if w[0] in ("error", "unreachable|error"):
            ok = e[1] in w[0].split("|")
        else:
            ok = e[1:] == w
        if not ok:
            say("notification", "%d: %s, expected %s" % (i, cut(e[1:]), cut(w)))
            return bad
        i += 1
    if i < len(got):
        say("notification", "%s too much" % cut([e[1:] for e in got[i:i + 3]]))
    if g.timing and g.timing[0] and not bad:
        name, cmd, t = g.timing
        at = [e[0] for e in events if e[1] == name]
        base = [b for b, n in issued if n == cmd]
        if at and base:
            d = (at[0] - base[-1]) / 1000
            if name == "writing-timeout":
                base0 = (at[0] - base[0]) / 1000
                if base0 < t - .03:
                    say("early", "%s after %.3f s, allowed are %.3f s" % (name, base0, t))
            elif d < t - .03:
                say("early", "%s %.3f s after %s, allowed are %.3f s" % (name, d, cmd, t))
            if d > t + 1 + lag:
                say("late", "%s %.3f s after %s, allowed are %.3f s" % (name, d, cmd, t))
    return bad


def round_(seed, loop, n, par, kinds=KINDS):
    r = random.Random(seed)
    dir = tempfile.mkdtemp(prefix="vsrv")
    res = dict(problems=[], sessions=0, commands=0, notifications=0, timeouts=0, kinds=set())
    proc = None
    try:
        gens = [Gen(random.Random("%s/%d" % (seed, i)), i, r.choice(kinds), dir) for i in range(n)]
        peers = [Peer(g, random.Random("%s/p%d" % (seed, g.index))) for g in gens]
        plan = os.path.join(dir, "plan")
        open(plan, "w").write("\n".join(g.text(p.spec) for g, p in zip(gens, peers)) + "\n")
        for p in peers:
            p.start()
        env = M.san_env({}, leaks=True)
        out = os.path.join(B.build("asan"), "bin", "server_driver")
        logp, errp = os.path.join(dir, "log"), os.path.join(dir, "err")
        proc = subprocess.Popen([out, plan, loop, str(par)], stdin=subprocess.DEVNULL, stdout=open(logp, "wb"),
                                stderr=open(errp, "wb"), env=env, cwd=dir)
        t0 = time.time()
        ended, lag, last = set(), 0, time.time()
        while proc.poll() is None and time.time() - t0 < 120:
            time.sleep(.05)
            lag = max(lag, time.time() - last - .05)
            last = time.time()
            for l in open(logp, errors="replace").read().split("\n") if any(g.kind == "writing" for g in gens) else ():
                w = l.split(" ")
                if len(w) > 3 and w[0] == "E" and w[3] == "writing-timeout" and w[1].isdigit():
                    peers[int(w[1])].stop = True
        rc = proc.poll()
        if rc is None:
            res["problems"].append(("hang", "the driver isn't finished after 120 s"))
            proc.kill()
            proc.wait()
        err = open(errp, errors="replace").read()
        text = open(logp, errors="replace").read()
        ev, issued, other, failed = {}, {}, [], {}
        for l in text.split("\n"):
            w = l.split(" ")
            if w[0] == "E":
                ev.setdefault(int(w[1]), []).append([float(w[2])] + w[3:])
            elif w[0] == "I":
                issued.setdefault(int(w[1]), []).append((float(w[2]), w[3]))
            elif w[0] == "F":
                failed.setdefault(int(w[1]), []).append(w[3])
            elif w[0] == "W":
                lag = max(lag, float(w[1]) / 1000)
            elif w[0] != "P" and l:
                other.append(l)
        for key, t in M.diagnostics(err + "\n" + "\n".join(l for l in other if len(l) < 5000)):
            res["problems"].append((key, t))
        if rc not in (0, None) and not res["problems"]:
            res["problems"].append(("exit", "the driver ended with %r: %s" % (rc, err[-1500:])))
        res["lag"] = lag
        for g, p in zip(gens, peers):
            p.stop = True
            p.join(35)
            es = [e for e in ev.get(g.index, [])]
            for e in es:
                if e[1] == "error":
                    del e[2:]
                if e[1] == "unreachable":
                    del e[2:]
            probs = list(p.problems)
            if rc is not None:
                probs += compare(g, es, issued.get(g.index, []), lag)
                if g.index in failed and not probs:
                    probs.append(("refused", "session %d (%s): %s wasn't sent" % (g.index, g.kind, failed[g.index])))
            if g.timing and lag > .25 and any(k in ("late", "notification", "missing", "closed", "peer", "command") for k, _ in probs):
                res["kinds"].add("too-slow-to-tell")      # the machine was busy
                continue
            res["problems"] += probs
            res["sessions"] += 1
            res["commands"] += p.packets
            res["notifications"] += len(es)
            res["timeouts"] += bool(g.timing and g.timing[0])
            res["kinds"] |= g.kinds
        return res
    finally:
        if proc and proc.poll() is None:
            proc.kill()
            proc.wait()
        for p in locals().get("peers", ()):
            for s in p.filler + [p.listener]:
                if s:
                    s.close()
        shutil.rmtree(dir, ignore_errors=True)
