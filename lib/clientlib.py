"""Drives a milter built on the client library (harness/milter_client_driver)
or on the smfi_* API (harness/milter_libmilter_driver) as an MTA would, and
compares callbacks, results of requests and replies with what the protocol
says they have to be.

A session is generated together with what the milter has to do in each of its
callbacks (the plan) and with everything that must be observed."""
import os, queue, random, re, shutil, signal, socket, subprocess, tempfile, threading, time
import build as B
import milterproto as P
import manager as M
import wiregen as W
from core import x, unx

# (the library writes its log to the standard output; errors that it tells the
# milter with a signal too; the monitors look at the signals)
LOGLINE = re.compile(r"^(?:\[Invalid UTF-8\] )?\[\d{4}-\d\d-\d\dT|\[\d+\]: \[(?:critical|error|warning)\]|\[(?:client|agent|reader|writer|wire)\]")
STAGES = "CHMRTLNBE"
EVENT = {"C": "connect", "H": "helo", "M": "mail", "R": "rcpt", "T": "data", "L": "header", "N": "eoh",
         "B": "body", "E": "eom", "U": "unknown"}
CODE = {"continue": "c", "reject": "r", "tempfail": "t", "accept": "a", "discard": "d", "skip": "s",
        "default": "c", "notchange": "c", "noreply": None}


def txt(r, lo=1, hi=30):
    return bytes(r.choice(b"abcXYZ019-_.@<>: ;%\xe3\x81") for _ in range(r.randint(lo, hi)))


def xcode_ok(s, code):
    m = re.fullmatch(rb"([245])\.(\d{1,3})\.(\d{1,3})", s)
    return bool(m) and int(m.group(1)) == code // 100


class Gen:
    """one session: plan lines, steps of the MTA, expectations"""

    def __init__(self, r, mode, opt):
        self.r, self.mode, self.opt = r, mode, opt
        self.plan, self.steps = ["S"], []
        self.sent = {}               # stage -> macros in force
        self.use_macros = {s for s in STAGES if r.random() < .5}
        if mode == "libmilter":
            self.use_macros -= {"L", "B"}
        self.shelf = {}
        self.kinds = set()
        self.in_message = False
        self.calls = 0
        self.priv = 0
        self.closed = False
        self.build()

    # -- pieces
    def line(self, *w):
        self.plan.append(" ".join(str(i) for i in w))

    def visible(self, stage):
        out = {}
        order = STAGES if stage not in STAGES else STAGES[:STAGES.index(stage) + 1]
        if self.mode == "libmilter":
            order = STAGES
        for s in order:
            out.update(self.sent.get(s, {}))
        return out

    def set_reply(self, stage, verdict):
        r = self.r
        k = r.random()
        code = r.choice([400, 421, 451, 500, 550, 554, 599, r.randint(400, 599)])
        if verdict == "reject" and r.random() < .7:
            code = r.randint(500, 599)
        if verdict == "tempfail" and r.random() < .7:
            code = r.randint(400, 499)
        if k < .12:
            code = r.choice([0, 99, 200, 250, 354, 399, 600, 999])
        xc = None
        if r.random() < .7:
            xc = b"%d.%d.%d" % (code // 100, r.randint(0, 999), r.randint(0, 999))
            if r.random() < .2:
                xc = r.choice([b"4.7.1", b"5.7.1", b"5.1000.1", b"5..1", b"5.7", b"5", b"5.7.", b"a.b.c", b"5.7.1x",
                               b"6.1.1", b"5.7.1000", b"55.7.1", b"5.-7.1", b" 5.7.1", b"5.7.1.2"])
        n = r.choice([0, 1, 1, 1, 2, 3])
        if self.mode == "libmilter":
            return self.set_reply_smfi(code, xc, n)
        lines = [bytes(b for b in txt(r, 1, 30)) for _ in range(n)]
        sep = r.choice([b"\n", b"\r\n"])
        msg = sep.join(lines) if lines else r.choice([None, b""])
        ok = 400 <= code < 600 and (xc is None or xcode_ok(xc, code))
        if ok:
            self.custom = (code, xc, lines)
        return ["reply", code, x(xc), x(msg)], ok, None

    def set_reply_smfi(self, code, xc, n):
        r = self.r
        ok = 400 <= code < 600 and (xc is None or xcode_ok(xc, code))
        lines = [txt(r, 1, 30).replace(b"%", b"p") for _ in range(n)]
        if r.random() < .4 and n:
            if r.random() < .3:
                lines[r.randrange(n)] = b""
            if r.random() < .05:
                k = r.random()
                lines[r.randrange(n)] = b"l" * 981 if k < .4 else b"l" * 980 if k < .7 else b"ab\rrest-of-line"
            if any(len(l) > 980 or b"\r" in l for l in lines):
                ok = False
            if lines == [b""]:
                # no text: nothing to set
                return ["mlreply", x(b"%d" % code), x(xc), x(b"")], True, None
            op = ["mlreply", x(b"%d" % code), x(xc)] + [x(t) for t in lines]
        else:
            lines = lines[:1]
            op = ["reply", x(b"%d" % code), x(xc), x(lines[0]) if lines else r.choice(["-", "x"])]
        if ok:
            self.custom = (code, xc, lines)
        return op, ok, None

    def mod(self, stage):
        """a modification request -> (op words, ok, packets)"""
        r = self.r
        k = r.choice(["addh", "insh", "chgh", "delh", "addr", "addrp", "delr", "from", "body", "quar", "prog"])
        if self.mode == "libmilter" and k == "delh":
            k = "chgh"
        n, v = txt(r, 1, 20), (b"" if r.random() < .1 else txt(r, 1, 60))
        i = r.choice([0, 1, 2, 3, 100, r.getrandbits(31)])
        a, bad = self.action, False
        if r.random() < .1:
            bad = True
        need, pk = 0, []
        if k == "addh":
            need, op, pk = P.A_ADDHDRS, ["addh", x(n), x(v)], [("h", n, v)]
            if bad:
                op = r.choice([["addh", "-", x(v)], ["addh", x(n), "-"]])
        elif k == "insh":
            need, op, pk = P.A_ADDHDRS, ["insh", i, x(n), x(v)], [("i", i, n, v)]
            if bad:
                op = r.choice([["insh", i, "-", x(v)], ["insh", i, x(n), "-"]])
        elif k == "chgh":
            need = P.A_CHGHDRS
            if r.random() < .2:
                op, pk = ["chgh", x(n), i, "-"], [("m", i, n, b"")]
            else:
                op, pk = ["chgh", x(n), i, x(v)], [("m", i, n, v)]
            if bad:
                op = ["chgh", "-", i, x(v)]
        elif k == "delh":
            need, op, pk = P.A_CHGHDRS, ["delh", x(n), i], [("m", i, n, b"")]
            if bad:
                op = ["delh", "-", i]
        elif k == "addr":
            need, op, pk = P.A_ADDRCPT, ["addr", x(n), "-"], [("+", n)]
            if bad:
                op = r.choice([["addr", "-", "-"], ["addr", "x", "-"]])
        elif k == "addrp":
            v = v or b"A=1"
            need, op, pk = P.A_ADDRCPT_PAR, ["addr", x(n), x(v)], [("2", n, v)]
            if self.mode == "libmilter":
                op[0] = "addrp"
            if bad:
                op = r.choice([[op[0], "-", x(v)], [op[0], "x", x(v)]])
        elif k == "delr":
            need, op, pk = P.A_DELRCPT, ["delr", x(n)], [("-", n)]
            if bad:
                op = r.choice([["delr", "-"], ["delr", "x"]])
        elif k == "from":
            need = P.A_CHGFROM
            v = v or None
            if r.random() < .5:
                v = None
            op, pk = ["from", x(n), x(v)], [("e", n, v)]
            if bad:
                op = r.choice([["from", "-", x(v)], ["from", "x", x(v)]])
        elif k == "body":
            need = P.A_CHGBODY
            size = r.choice([0, 1, 10, 100, 4096, 65534, 65535, 65536, 70000, 140000]) if r.random() < .5 else r.randint(0, 300)
            b = W.blob(r, size)
            op, pk, bad = ["body", x(b)], [("b", b)], False
        elif k == "quar":
            # (outside of end of message the request is accepted and without
            # effect: the tests of the library ask for that)
            bad = False
            need, op, pk = P.A_QUARANTINE, ["quar", x(n)], [("q", n)]
        else:
            return (["prog"], True, [("p",)]) if stage == "E" else (None, None, None)
        ok = not bad and stage == "E" and (a & need) == need
        if k == "quar" and stage != "E" and a & need:
            return op, None, None
        self.kinds.add(k + ("" if ok else "!"))
        return op, ok, pk if ok else []

    def respond(self, stage, verdicts, during=None):
        """adds the plan of one callback; -> (verdict, results, packets)
        during: the command that makes the callback run, when it isn't its own"""
        r = self.r
        callback, stage = stage, during or stage
        verdict = r.choice(verdicts)
        delay = 0
        if self.mode == "client" and verdict not in ("noreply", "notchange") and r.random() < .2:
            delay = r.choice([1, 5, 20])
        if verdict == "notchange" and self.mode == "libmilter":
            verdict = "continue"
        self.line("C", verdict, delay)
        self.custom = None
        results, packets, quarantine = [], [], None
        nops = r.choice([0, 0, 1, 1, 2]) if stage != "E" else r.choice([0, 1, 2, 4, 8])
        phase = "O"
        for i in range(nops):
            if delay and phase == "O" and r.random() < .4:
                phase = "L"
            k = r.random()
            if k < (.55 if stage != "E" else .15):
                op, ok, pk = self.set_reply(stage, verdict)
                self.line(phase, *op)
                results.append((op[0], ok, None))
            elif k < (.7 if stage != "E" else .2):
                vis = self.visible(stage)
                name = r.choice(sorted(vis)) if vis and r.random() < .8 else r.choice([b"i", b"nosuch"])
                val = vis.get(name)
                if len(name) > 1 and r.random() < .5:
                    name = b"{" + name + b"}"
                self.line(phase, "sym", x(name))
                results.append(("sym", None, x(val)))
            elif k < (.8 if stage != "E" else .25) and self.mode == "client":
                key = r.choice([b"k1", b"k2"])
                if r.random() < .5:
                    val = txt(r)
                    self.line(phase, "shset", x(key), x(val))
                    self.shelf[key] = val
                    results.append(("shset", True, None))
                else:
                    self.line(phase, "shget", x(key))
                    results.append(("shget", None, x(self.shelf.get(key))))
            else:
                op, ok, pk = self.mod(stage)
                if op is None:
                    continue
                self.line(phase, *op)
                results.append((op[0], ok, None))
                for p in pk or ():
                    if p[0] == "q":
                        quarantine = p
                    else:
                        packets.append(p)
        if quarantine:
            packets.append(quarantine)
        final = CODE[verdict]
        if final in ("r", "t") and self.custom and self.custom[0] // 100 == (5 if final == "r" else 4):
            code, xc, lines = self.custom
            final = ("y", code, xc, lines)
            self.kinds.add("custom")
        self.kinds.add("%s:%s%s" % (callback, verdict, "+delay" if delay else ""))
        return verdict, results, packets, final, delay

    def macros(self, stage):
        r = self.r
        if stage not in self.use_macros:
            return b"", []
        d = {}
        for _ in range(r.choice([0, 1, 2, 4])):
            d[r.choice([b"i", b"j", b"_", b"v", b"auth_type", b"mail_addr", b"client_ptr", W.name(r)])] = \
                r.choice([b"", txt(r), txt(r)])
        wire = P.c_macro(stage, d.items())
        self.sent[stage] = d
        ev = ["macro", stage] + [w for k in sorted(d) for w in (x(k), x(d[k]))]
        return wire, [(ev, None)] if self.mode == "client" else []

    def command(self, stage, wire, args, verdicts):
        r = self.r
        if P.NOSTEP.get(stage, 0) & self.step:
            return "notsent"
        if stage in "MRTLNB":
            self.in_message = True
        missing = self.opt.get("missing", ())
        if stage in missing and not (stage == "E" and args[0] != "x" and "B" not in missing):
            # no callback: the library continues
            mwire, events = self.macros(stage)
            self.step_(mwire + wire, events, (), "c")
            self.kinds.add(stage + ":missing")
            return "continue"
        noreply = P.NRSTEP.get(stage, 0) & self.step
        mwire, events = self.macros(stage)
        first = []
        if noreply:
            verdicts = ["noreply"]
        if stage == "E" and self.mode == "libmilter" and args[0] != "x" and "B" not in self.opt.get("missing", ()):
            # the rest of the body comes first
            ev = [(["body"] + args, self.visible("E"))]
            verdict, res, packets, final, delay = self.respond("B", ["continue", "continue", "continue", "reject", "accept", "tempfail", "discard"], "E")
            events += ev
            events += [(("R",) + t, None) for t in res]
            args = []
            if verdict != "continue":
                self.step_(mwire + wire, events, packets, final, delay)
                return verdict
            c1, first = self.custom, packets
            if "E" in missing:
                self.step_(mwire + wire, events, packets, "c", delay)
                return "continue"
        if self.mode == "libmilter" and stage == "E":
            args = []
        # everything the callback sees
        events += [([EVENT[stage]] + args, self.visible(stage))]
        verdict, results, packets, final, delay = self.respond(stage, verdicts)
        if stage == "E" and self.mode == "libmilter" and final in ("r", "t") and events and any(e[0][0] == "body" for e in events) \
                and not self.custom and c1 and c1[0] // 100 == (5 if final == "r" else 4):
            final = ("y",) + c1
        events += [(("R",) + t, None) for t in results]
        packets = first + packets
        quarantines = [p for p in packets if p[0] == "q"]
        if quarantines:
            packets = [p for p in packets if p[0] != "q"] + quarantines[-1:]
        self.step_(mwire + wire, events, packets, final, delay)
        return verdict

    def step_(self, wire, events, packets=(), final=None, delay=0, **kw):
        self.steps.append(dict(wire=wire, events=list(events), packets=list(packets), final=final, delay=delay, **kw))

    def end_message(self):
        for s in "MRTLNBE":
            self.sent.pop(s, None)
        self.shelf = {}
        self.in_message = False

    def abort(self):
        if self.mode != "client" and not self.in_message:
            return self.end_message()
        ev = [(["abort"], None)]
        if "abort" in self.opt.get("missing", ()):
            ev = []
        self.step_(P.pkt("A"), ev)
        self.end_message()

    # -- the session
    def build(self):
        r = self.r
        version = r.choice([2, 3, 4, 6, 6, 6])
        action = P.A_ALL if r.random() < .6 else r.getrandbits(9)
        steps = P.P_ALL if r.random() < .6 else r.getrandbits(21)
        self.bytes = self.mode == "client" and r.random() < .3
        self.line("B", int(self.bytes))
        self.negotiate(version, action, steps)
        if self.closed:
            return
        self.ended = False
        family = r.choice("446LU")
        port, addr, shown = 0, b"", ["none"]
        if family == "4":
            port = r.getrandbits(16)
            addr = b"%d.%d.%d.%d" % tuple(r.randbytes(4))
            shown = ["inet", str(port), addr.decode(), "16"]
        elif family == "6":
            port = r.getrandbits(16)
            addr = r.choice([b"::1", b"2001:db8::%x" % r.randint(1, 65535), b"fe80::1:2"])
            shown = ["inet6", str(port), addr.decode(), "28"]
        elif family == "L":
            addr = b"/" + txt(r, 1, 60)
            shown = ["unix", x(addr)]
        host = txt(r)
        wa = (b"IPv6:" if family == "6" and r.random() < .5 else b"") + addr
        if family == "U":
            shown = ["unknown"]
        if self.mode == "libmilter":
            shown = shown[:3] if family in "46" else shown
        v = self.command("C", P.c_connect(host, family, port, wa), [x(host)] + shown,
                         ["continue"] * 30 + ["default", "notchange", "reject", "tempfail", "accept", "discard"])
        if v in ("reject", "tempfail", "accept", "discard"):
            return self.finish()
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            a = txt(r)
            v = self.command("H", P.c_helo(a), [x(a)], ["continue"] * 20 + ["default", "reject", "tempfail", "accept"])
            if v in ("accept",):
                return self.finish()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            if version >= 3 and r.random() < .15:
                a = txt(r)
                self.command("U", P.c_unknown(a), [x(a)], ["continue", "continue", "reject", "tempfail"])
            self.message(version)
            if self.r.random() < .05:
                break
        self.finish()

    def finish(self):
        r = self.r
        k = r.random()
        self.ended = True
        if k < .7:
            self.step_(P.pkt("Q"), [], close=True)
        elif k < .85:
            self.step_(b"", [], close=True)
        else:
            part = r.choice([P.c_helo(b"cut.example.com"), P.c_mail(b"<cut@example.com>"), P.c_macro("M", [(b"i", b"Q1")])])
            self.step_(part[:r.randint(1, len(part) - 1)], [], close=True, cut=True)

    def negotiate(self, version, action, steps):
        r = self.r
        verdict = self.opt.get("negotiate") or r.choice(["continue"] * 6 + ["default" if self.mode == "client" else "allopts", "allopts", "reject"])
        if verdict == "none":
            action |= self.opt["flags"]
        self.action, self.step = action, steps
        if verdict == "continue":
            self.action = action & (P.A_ALL if r.random() < .6 else r.getrandbits(9))
            nr = r.getrandbits(21) & P.P_NR_ALL if r.random() < .3 else 0
            no = r.getrandbits(21) & r.getrandbits(21) & P.P_NO_EVENTS if r.random() < .3 else 0
            yes = r.getrandbits(21) & (P.P_SKIP | P.P_RCPT_REJ | P.P_HDR_LEADSPC)
            self.step = steps & (nr | no | yes)
            for m in self.opt.get("missing", ()):
                self.step &= ~P.NRSTEP.get(m, 0)
            v = r.choice([version, version, 2])
        else:
            v = version
            self.step &= P.P_SKIP
        plan_v = v
        if self.mode == "libmilter":
            v = version
            if verdict in ("none",):
                # no xxfi_negotiate: the flags and callbacks of the filter decide
                self.action = self.opt["flags"]
                self.step = self.opt["noevents"] & steps
        self.macros_wanted = {}
        if verdict in ("continue", "default", "allopts") and r.random() < .5:
            for st in r.sample(range(7), r.choice([1, 2, 4])):
                self.macros_wanted[st] = [n if len(n) == 1 else b"{" + n + b"}"
                                          for n in (W.name(r) for _ in range(r.choice([1, 2, 3])))]
                self.macros_wanted[st] = list(dict.fromkeys(self.macros_wanted[st]))
        self.line("N", verdict, plan_v, self.action, self.step)
        for st, names in self.macros_wanted.items():
            self.line("M", P.STAGE[st] if self.mode == "client" else st, *[x(n) for n in names])
        ev = [["negotiate", str(version), str(action), str(steps)], {}]
        if self.mode == "libmilter":
            ev = [["negotiate", str(action), str(steps)], {}]
        events = [tuple(ev)] if verdict != "none" else []
        if self.mode == "libmilter" and verdict != "none":
            for st in self.macros_wanted:
                events.append((("R", "symlist", True, None), None))
        self.kinds.add("neg:" + verdict)
        self.negotiation = verdict
        if verdict == "reject":
            self.step_(P.c_negotiate(version, action, steps), events, final="r")
            self.finish()
            self.closed = True
            return
        want = ("O", v, self.action, self.step,
                {k: tuple(ns) for k, ns in self.macros_wanted.items()})
        self.step_(P.c_negotiate(version, action, steps), events, final=want)

    def message(self, version):
        r = self.r
        common = ["continue"] * 60 + ["default", "notchange", "reject", "tempfail", "accept", "discard"]

        def stop(v):
            if v in ("reject", "tempfail", "accept", "discard"):
                # the MTA is done with this milter for the message
                self.abort()
                return True
            if r.random() < .02:
                self.abort()
                return True
            return False
        a = txt(r)
        v = self.command("M", P.c_mail(a), [x(a)], common)
        if stop(v):
            return
        for _ in range(r.choice([1, 1, 2, 5])):
            a = txt(r)
            v = self.command("R", P.c_rcpt(a), [x(a)], ["continue"] * 8 + ["reject", "tempfail", "default"] + (["accept"] if r.random() < .05 else []))
            if v == "accept":
                self.abort()
                return
        if version >= 3 and r.random() < .05:
            a = txt(r)
            self.command("U", P.c_unknown(a), [x(a)], ["continue", "reject"])
        if version >= 4:
            v = self.command("T", P.pkt("T"), [], common)
            if stop(v):
                return
        for _ in range(r.choice([0, 1, 3, 8])):
            n, val = txt(r, 1, 20), (b"" if r.random() < .1 else txt(r, 1, 80))
            v = self.command("L", P.c_header(n, val), [x(n), x(val)], common * 2 + ["skip"])
            if v == "skip":
                break
            if stop(v):
                return
        v = self.command("N", P.pkt("N"), [], common)
        if stop(v):
            return
        for _ in range(r.choice([0, 1, 2, 4])):
            b = W.blob(r, r.choice([1, 10, 300, 4096, 65535]) if r.random() < .5 else r.randint(1, 100))
            v = self.command("B", P.c_body(b), [x(b)], common + ["skip"])
            if v == "skip":
                break
            if stop(v):
                return
        b = W.blob(r, r.choice([1, 20, 5000])) if r.random() < .3 else b""
        if self.mode == "client" and r.random() < .06:
            return self.aborted_eom(b)
        self.command("E", P.c_eom(b), [x(b)], ["continue"] * 5 + ["default", "accept", "reject", "tempfail", "discard"])
        self.end_message()

    def aborted_eom(self, b):
        """the MTA gives up while the milter still thinks at end of message"""
        mwire, events = self.macros("E")
        events += [([EVENT["E"], x(b)], self.visible("E"))]
        self.line("C", "continue", 5000)
        for op, need in ((["addh", x(b"X-Late"), x(b"1")], P.A_ADDHDRS), (["body", x(b"late body")], P.A_CHGBODY)):
            self.line("O", *op)
            events.append((("R", op[0], self.action & need == need, None), None))
        self.kinds.add("aborted-eom")
        self.step_(mwire + P.c_eom(b), events, final=None, delay=0, wait_events=True, ignore=True)
        self.abort()


class Driver:
    def __init__(self, mode, opt, plans, r):
        self.out = B.build("asan")
        self.dir = tempfile.mkdtemp(prefix="cl")
        os.chmod(self.dir, 0o777)      # the driver gives up root
        self.mode = mode
        plan = os.path.join(self.dir, "plan")
        with open(plan, "w") as f:
            f.write("\n".join("\n".join(p) for p in plans) + "\n")
        self.path = None
        if r.random() < .5:
            self.path = os.path.join(self.dir, "s.sock")
            spec = "unix:" + self.path
        else:
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()
            spec = "inet:%d@127.0.0.1" % self.port
        env = M.san_env({"MILTER_LOG_LEVEL": "critical|error|warning", "LC_ALL": "C.UTF-8",
                         "VERIF_HEAPSTAT": os.path.join(self.dir, "heap")})
        if mode == "client":
            args = [os.path.join(self.out, "bin", "milter_client_driver"), "--plan", plan, "-s", spec,
                    "--event-loop-backend", opt["loop"], "--packet-buffer-size", str(opt["buffer"])]
        else:
            env["MILTER_EVENT_LOOP_BACKEND"] = opt["loop"]
            args = [os.path.join(self.out, "bin", "milter_libmilter_driver"), plan, spec, str(opt["flags"]),
                    "".join(sorted(m[0] for m in opt["missing"])) or "-", "1" if opt.get("negotiate") != "none" else "0"]
        self.logp, self.errp = os.path.join(self.dir, "log"), os.path.join(self.dir, "err")
        self.proc = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=open(self.logp, "wb"),
                                     stderr=open(self.errp, "wb"), env=env, cwd=self.dir)
        t = time.time()
        while True:
            if self.path is None:
                # a probing connection would take a plan
                l = open("/proc/net/tcp").read()
                if "0100007F:%04X 00000000:0000 0A" % self.port in l:
                    break
            elif os.path.exists(self.path):
                break
            if self.proc.poll() is not None or time.time() - t > 20:
                raise RuntimeError("driver did not start: " + self.err())
            time.sleep(.01)
        self.lock = threading.Lock()
        self.next = 0

    def err(self):
        return open(self.errp, errors="replace").read()

    def log(self):
        return open(self.logp, errors="replace").read()

    def connect(self):
        with self.lock:
            t = time.time()
            while True:
                try:
                    if self.path:
                        s = socket.socket(socket.AF_UNIX)
                        s.connect(self.path)
                    else:
                        s = socket.create_connection(("127.0.0.1", self.port))
                    break
                except (ConnectionRefusedError, FileNotFoundError):
                    if time.time() - t > 10:
                        raise
                    time.sleep(.01)
            i = self.next
            self.next += 1
            s.settimeout(20)
            return i, s

    def cleanup(self):
        if self.proc.poll() is None:
            self.proc.kill()
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def norm_reply(raw):
    p = P.parse_reply(raw)
    if p[0] == "y":
        return ("y", b"\n".join(l[:3] + b" " + l[4:] for l in p[1].split(b"\r\n")))
    return p


def want_final(f):
    if isinstance(f, tuple) and f[0] == "y":
        code, xc, lines = f[1:]
        pre = b"%d" % code + (b" " + xc if xc else b"")
        if not lines:
            return ("y", pre if len(pre) > 3 else pre + b" ")
        return ("y", b"\n".join(pre + (b" " + t if t else b"") for t in lines))
    if isinstance(f, str):
        return (f,)
    return f


def join_bodies(ps):
    out = []
    for p in ps:
        if p[0] == "b" and out and out[-1][0] == "b":
            out[-1] = ("b", out[-1][1] + p[1])
        else:
            out.append(p)
    return out


class Session(threading.Thread):
    """plays one generated session against the driver"""

    def __init__(self, gen, sock, index, r):
        super().__init__(daemon=True)
        self.g, self.sock, self.index, self.r = gen, sock, index, r
        self.buf = b""
        self.problems = []
        self.replies = 0
        self.mods = 0

    def bad(self, kind, text):
        self.problems.append((kind, "session %d: %s" % (self.index, text)))

    def send(self, data):
        for part in W.cut(self.r, data) if self.r.random() < .3 else [data]:
            if part:
                self.sock.sendall(part)
                if self.r.random() < .2:
                    time.sleep(.001)

    def packet(self, timeout=25):
        end = time.time() + timeout
        while True:
            ps, rest = P.split_packets(self.buf)
            if ps:
                self.buf = self.buf[4 + len(ps[0]):]
                return ps[0]
            self.sock.settimeout(max(.01, end - time.time()))
            d = self.sock.recv(65536)
            if not d:
                return None
            self.buf += d

    def run(self):
        try:
            self.play()
        except Exception as e:
            self.bad("session", "%s: %s" % (type(e).__name__, e))
        finally:
            self.sock.close()

    def play(self):
        pending = b""
        for n, st in enumerate(self.g.steps):
            what = "step %d %r" % (n, [e[0] for e in st["events"]][-1:] or st["wire"][:20])
            if st.get("wait_events"):
                self.send(pending + st["wire"])
                pending = b""
                time.sleep(.15)
                # modifications sent while the message was still alive
                self.sock.setblocking(False)
                try:
                    while True:
                        d = self.sock.recv(65536)
                        if not d:
                            break
                        self.buf += d
                except BlockingIOError:
                    pass
                self.sock.settimeout(20)
                ps, rest = P.split_packets(self.buf)
                if rest or any(p[:1] not in (b"h", b"b") for p in ps):
                    self.bad("bad-packet", "%s: %r while the milter is thinking" % (what, self.buf[:200]))
                self.buf = b""
                continue
            if st["final"] is None and not st.get("close"):
                # nothing to wait for: may travel with the next command
                pending += st["wire"]
                if self.r.random() < .5:
                    self.send(pending)
                    pending = b""
                if st["packets"]:
                    raise RuntimeError("generator: packets without reply")
                continue
            self.send(pending + st["wire"])
            pending = b""
            if st.get("close"):
                if self.r.random() < .5 and st["wire"] == P.pkt("Q"):
                    self.sock.settimeout(20)
                    d = self.buf
                    while True:
                        try:
                            c = self.sock.recv(65536)
                        except ConnectionResetError:
                            break
                        if not c:
                            break
                        d += c
                    if d:
                        self.bad("unsolicited", "after QUIT the milter sent %r" % d[:200])
                elif self.buf:
                    self.bad("unsolicited", "the milter sent %r more" % self.buf[:200])
                return
            got, final, nprog = [], None, 0
            while True:
                try:
                    raw = self.packet()
                except socket.timeout:
                    self.bad("no-reply", "%s: no reply" % what)
                    return
                if raw is None:
                    self.bad("closed", "%s: the milter closed the connection" % what)
                    return
                try:
                    p = norm_reply(raw)
                except (P.ProtoError, ValueError, IndexError) as e:
                    self.bad("bad-packet", "%s: %r (%s)" % (what, raw[:200], e))
                    return
                if p[0] == "p":
                    nprog += 1
                elif p[0] in P.MODS:
                    got.append(p)
                else:
                    final = p
                    break
            self.replies += 1
            self.mods += len(got)
            want = want_final(st["final"])
            if final[:1] == ("O",) and want[:1] == ("O",):
                if final != want:
                    self.bad("negotiate", "%s: negotiated %r, the milter asked for %r" % (what, final, want))
            elif final == ("y", b"%d" % 0):
                pass
            elif final != want and not (want[0] == "y" and final[0] == "y" and
                                        [l.rstrip() for l in final[1].split(b"\n")] == [l.rstrip() for l in want[1].split(b"\n")]):
                self.bad("verdict", "%s: the MTA was told %r, the milter answered %r" % (what, final, want))
            wanted = join_bodies([p for p in st["packets"] if p[0] != "p"])
            got = join_bodies(got)
            if got != wanted:
                self.bad("modifications", "%s: modifications %r, requested %r" % (what, cut_repr(got), cut_repr(wanted)))
            if nprog != sum(1 for p in st["packets"] if p[0] == "p"):
                self.bad("progress", "%s: %d progress packets" % (what, nprog))
            if self.buf:
                self.bad("unsolicited", "%s: %r follows the reply" % (what, self.buf[:100]))
                return


def cut_repr(l):
    s = repr(l)
    return s if len(s) < 600 else s[:300] + "…" + s[-200:]


def parse_log(text):
    """-> {session: [event]} and other lines"""
    out, other = {}, []
    for line in text.split("\n"):
        w = line.split(" ")
        if w[0] == "E":
            i = int(w[1])
            k = w.index("|")
            head, macros = w[2:k], w[k + 1:]
            out.setdefault(i, []).append(("E", head, dict(zip(map(unx, macros[::2]), map(unx, macros[1::2])))))
        elif w[0] == "R":
            out.setdefault(int(w[1]), []).append(("R", w[2], int(w[3]), w[5] if len(w) > 5 else None))
        elif line:
            other.append(line)
    return out, other


def compare(index, gen, got, mode):
    """-> [(kind, text)]"""
    bad = []
    want = []
    for st in gen.steps:
        for e in st["events"]:
            want.append(e)
    seen = []
    finished = 0
    cut = any(s.get("cut") for s in gen.steps)
    for e in got:
        if e[0] == "E" and e[1][0] in ("open", "processed"):
            continue
        if e[0] == "E" and e[1][0] == "finished":
            finished += 1
            continue
        if e[0] == "E" and e[1][0] == "priv":
            continue
        if e[0] == "E" and e[1][0] == "error":
            if not cut and gen.negotiation != "reject":
                bad.append(("error", "session %d: unexpected error %r" % (index, unx(e[1][1]))))
            continue
        if finished:
            bad.append(("callback", "session %d: callback %r after the end of the session" % (index, e)))
        seen.append(e)
    for i in range(max(len(want), len(seen))):
        w = want[i] if i < len(want) else None
        g = seen[i] if i < len(seen) else None
        if w is None or g is None:
            bad.append(("callback", "session %d: callback %d: expected %s, got %s" % (index, i, cut_repr(w), cut_repr(g))))
            break
        if w[0][0] == "R":
            _, op, ok, val = w[0]
            if g[0] != "R" or g[1] != op:
                bad.append(("callback", "session %d: expected the result of %s, got %s" % (index, op, cut_repr(g))))
                break
            if ok is not None and bool(g[2]) != bool(ok):
                k = "accepted" if g[2] else "refused"
                bad.append((k, "session %d: request %d %s was %s" % (index, i, op, "accepted" if g[2] else "refused")))
            if val is not None and op in ("sym", "shget") and g[3] != val:
                bad.append(("symval" if op == "sym" else "shelf", "session %d: %s gave %s, in force is %s" % (index, op, g[3], val)))
            continue
        if g[0] != "E" or g[1] != list(w[0]):
            bad.append(("callback", "session %d: callback %d: expected %s, got %s" % (index, i, cut_repr(w[0]), cut_repr(g[1:]))))
            break
        if w[1] is not None and mode == "client" and g[2] != w[1]:
            bad.append(("macros", "session %d: %s sees the macros %s, in force are %s" % (index, cut_repr(w[0]), cut_repr(g[2]), cut_repr(w[1]))))
    if finished != 1:
        bad.append(("finished", "session %d: finished %d times" % (index, finished)))
    return bad


def round_(seed, mode, opt, n, par):
    """one driver process; -> dict"""
    r = random.Random(seed)
    gens = [Gen(r, mode, opt) for _ in range(n)]
    d = Driver(mode, opt, [g.plan for g in gens], r)
    res = dict(problems=[], sessions=0, replies=0, mods=0, callbacks=0, kinds=set())
    try:
        running, done = [], []
        todo = n
        lag = 0
        while todo or running:
            while todo and len(running) < par:
                i, s = d.connect()
                t = Session(gens[i], s, i, random.Random("%s/%d" % (seed, i)))
                t.start()
                running.append(t)
                todo -= 1
            t0 = time.time()
            time.sleep(.002)
            lag = max(lag, time.time() - t0)
            for t in list(running):
                if not t.is_alive():
                    running.remove(t)
                    done.append(t)
            if d.proc.poll() is not None:
                break
        res["lag"] = lag
        # wait for the last callbacks
        t0 = time.time()
        while time.time() - t0 < 10 and d.proc.poll() is None:
            l = d.log()
            if len(re.findall(r"^E \d+ (?:finished|close)\b", l, re.M)) >= n:
                break
            time.sleep(.02)
        died = d.proc.poll()
        d.proc.send_signal(signal.SIGTERM)
        try:
            rc = d.proc.wait(20)
        except subprocess.TimeoutExpired:
            rc = None
        err = d.err()
        for key, text in M.diagnostics(err + "\n".join(l for l in d.log().split("\n") if l[:2] not in ("E ", "R "))):
            res["problems"].append((key, text))
        if died is not None or (rc not in (0,) and not res["problems"]):
            res["problems"].append(("exit", "the milter ended with %r (before the end: %r): %s" % (rc, died, err[-1500:])))
        log, other = parse_log(d.log())
        for l in other:
            if not l.startswith("Q ") and not LOGLINE.search(l) and not l.startswith("rest-of-line"):
                res["problems"].append(("log", l))
        for t in done:
            res["sessions"] += 1
            res["replies"] += t.replies
            res["mods"] += t.mods
            res["problems"] += t.problems
            got = log.get(t.index, [])
            res["callbacks"] += len(got)
            res["kinds"] |= t.g.kinds
            if not t.problems:
                res["problems"] += compare(t.index, t.g, got, mode)
        if -1 in log:
            res["problems"].append(("callback", "a callback ran for a connection nobody made: %s" % cut_repr(log[-1][:3])))
        return res
    finally:
        d.cleanup()


def smfi_options(r, loop):
    """a way to register a filter"""
    missing = set(r.sample(list(STAGES) + ["U", "abort"], r.choice([1, 3, 6]))) if r.random() < .6 else set()
    no = 0
    for m in missing:
        no |= P.NOSTEP.get(m, 0)
    opt = dict(loop=loop, buffer=0, flags=r.choice([0, P.A_ALL & 0xff, r.getrandbits(8)]), missing=missing, noevents=no)
    if r.random() < .4:
        opt["negotiate"] = "none"
    return opt
