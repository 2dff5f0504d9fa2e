"""Offline oracle over the recorded packets of one session: walks the MTA's
commands, requires every child to have seen exactly what it should see next,
and derives from the answers the children really gave what the MTA has to be
told.  Written from the milter protocol and the documentation of
milter-manager, not from its code.

Result: list of (kind, text)."""
import milterproto as P
from milterproto import *

IMPORTANCE = {"acc": 1, "skip": 2, "cont": 3, "temp": 4, "rej": 5, "disc": 6}
OF_CODE = {R_CONTINUE: "cont", R_ACCEPT: "acc", R_REJECT: "rej", R_TEMPFAIL: "temp", R_DISCARD: "disc",
           R_SKIP: "skip"}
OF_FALLBACK = {"accept": "acc", "reject": "rej", "temporary-failure": "temp", "discard": "disc"}


def bare(n):
    return B(n).strip(b"{}")


class Bad(Exception):
    def __init__(self, kind, text):
        self.kind, self.text = kind, text


def cls(final):
    if final[0] == R_REPLYCODE:
        return "temp" if final[1][:1] == b"4" else "rej"
    return OF_CODE[final[0]]


def norm_code(t):
    """separator after the code and line ends are not significant"""
    out = []
    for l in t.replace(b"\r\n", b"\n").split(b"\n"):
        if len(l) > 3 and l[3:4] == b"-":
            l = l[:3] + b" " + l[4:]
        out.append(l.rstrip(b" ") if len(l.rstrip(b" ")) > 3 else l)
    return b"\n".join(out)


def valid_code(t):
    """a reply the protocol allows: one class, consistent code and extended code"""
    ls = norm_code(t).split(b"\n")
    c = ls[0][:3]
    if c[:1] not in (b"4", b"5") or len(c) < 3 or not c.isdigit():
        return False
    return all(l[:3] == c for l in ls)


class Kid:
    def __init__(self, conf, conn, order):
        self.conf, self.conn, self.order = conf, conn, order
        self.name = conf["name"]
        self.i = 0
        self.alive = True          # still in the session
        self.inmsg = False
        self.eval = conf.get("evaluation", False)
        self.fallback = OF_FALLBACK[conf.get("fallback", "accept")]
        self.steps = conn.answer[2] if conn and conn.answer else 0
        self.version = conn.answer[0] if conn and conn.answer else 6
        self.skip = False
        self.rcpt_ok = 0
        self.rcpt_stopped = False
        self.fresh = True          # has not seen anything of the current message
        self.idle_dead = False
        self.last = None           # its last answer
        self.owed_abort = False    # in the middle of a message that the MTA aborted
        self.macros = {}

    def gets(self, code):
        if self.steps & NOSTEP.get(code, 0):
            return False
        if code == DATA and self.version < 4:
            return False
        if code == UNKNOWN and self.version < 3:
            # version 2 has no such command; it is tolerated
            rest = [e["cmd"][0] for e in self.conn.entries[self.i:]] if self.conn else []
            while rest and rest[0] == ABORT:
                rest.pop(0)
            return rest[:1] == [UNKNOWN]
        return True

    def peek(self):
        if self.conn and self.i < len(self.conn.entries):
            return self.conn.entries[self.i]
        return None


class Session:
    def __init__(self, cfg, sess, idle=()):
        self.cfg, self.s = cfg, sess
        self.bad = []
        self.idle = set(idle)       # names whose silent death counted as fallback for the next command
        self.stats = {}
        self.mta_macros = {}
        self.verdicts = []

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # ------------------------------------------------------------------
    def run(self):
        for kind, text in self.s["problems"]:
            self.bad.append((kind, text))
        try:
            self.walk()
        except Bad as b:
            self.bad.append((b.kind, b.text))
        except StopIteration:
            pass
        return self.bad

    def walk(self):
        conns = {}
        for c in self.s["conns"]:
            if c.child in conns:
                if self.s.get("neighbours"):
                    # a connection made for an MTA that went away while it negotiated may
                    # have been taken for one of this session
                    self.stat("ambiguous")
                    raise StopIteration
                raise Bad("env-view", "child %s was connected twice" % c.child)
            conns[c.child] = c
            if c.error:
                raise Bad("bad-packet-child", "child %s: %s" % (c.child, c.error))
        self.kids = []
        part = self.s["plan"].get("participants")
        for n, ch in enumerate(self.cfg["children"]):
            c = conns.get(ch["name"])
            should = ch.get("enabled", True) and (part is None or ch["name"] in part)
            if c is not None and not should:
                raise Bad("applicable", "child %s takes part but must not" % ch["name"])
            if should:
                self.kids.append(Kid(ch, c, n))
        log = self.s["log"]
        if not log:
            return
        self.negotiation(log[0])
        self.pos = 1
        self.log = log
        while self.pos < len(log):
            e = log[self.pos]
            code = e["cmd"][0]
            if code == "message":
                self.pos += 1
                self.message(e["cmd"][1])
            elif code in (CONN, HELO):
                self.pos += 1
                self.simple(e, self.kids)
            elif code == QUIT:
                self.pos += 1
            else:
                raise Bad("oracle", "unexpected %r" % code)
        self.leftovers()

    # ---- negotiation ---------------------------------------------------
    def negotiation(self, e):
        self.neg_fallback = None
        mv, ma, ms = e["cmd"][1:]
        ok = []
        for k in self.kids:
            c = k.conn
            if c is not None and c.offer is not None:
                v, a, st = c.offer
                if v > mv or a & ~ma or st & ~ms:
                    raise Bad("neg-offer", "child %s was offered (%d, %#x, %#x), the MTA offered (%d, %#x, %#x)" %
                              (k.name, v, a, st, mv, ma, ms))
            if c is None or not c.negotiated:
                k.alive = False
                if not (k.conf.get("absent") or self.s["plan"]["children"].get(k.name, {}).get("neg_fault")):
                    raise Bad("not-connected", "child %s was not connected or not negotiated with" % k.name)
                if not k.eval and k.fallback != "acc":
                    f = self.neg_fallback
                    if f is None or IMPORTANCE[k.fallback] > IMPORTANCE[f]:
                        self.neg_fallback = k.fallback
            else:
                ok.append(k)
        r = e["final"]
        if r is None:
            raise StopIteration
        if r[0] != NEG:
            if r[0] in (R_ACCEPT, R_REJECT, R_TEMPFAIL, R_CONTINUE) and not ok:
                raise StopIteration
            raise Bad("neg-reply", "negotiation was answered with %r" % (r,))
        self.stat("negotiations")
        rv, ra, rs, rm = r[1:]
        if rv > mv or ra & ~ma or rs & ~ms:
            raise Bad("neg-not-offered", "answer (%d, %#x, %#x) to the offer (%d, %#x, %#x)" % (rv, ra, rs, mv, ma, ms))
        want = 0
        for k in ok:
            want |= k.conn.answer[1]
        if want & ~ra:
            raise Bad("neg-action", "children need actions %#x, only %#x were requested" % (want, ra))
        for code, bit in NOSTEP.items():
            if rs & bit and any(not k.steps & bit for k in ok):
                raise Bad("neg-step", "event %s is skipped although a child wants it" % code)
        for code, bit in NRSTEP.items():
            if rs & bit and any(not (k.steps & (bit | NOSTEP.get(code, 0))) for k in ok):
                raise Bad("neg-noreply", "the MTA is told not to wait for the reply to %s although a child replies" % code)
        if ma & A_SETSYMLIST:
            for k in ok:
                if not k.conn.answer[1] & A_SETSYMLIST:
                    continue
                for stage, names in k.conn.macros.items():
                    miss = [n for n in names if bare(n) not in [bare(x) for x in (rm or {}).get(stage, ())]]
                    if miss:
                        raise Bad("neg-macros", "child %s requests %r at stage %d, the MTA was asked for %r" %
                                  (k.name, miss, stage, rm.get(stage)))
        self.mta_steps = rs

    # ---- one event at one child -------------------------------------------
    def take_macros(self, k, e, code):
        """macros delivered with the event"""
        known = self.mta_macros.get(code)        # what the MTA defined for this stage, None: never
        req = None
        if k.conn.answer[1] & A_SETSYMLIST and k.conn.macros:
            st = P.STAGE_OF.get(code)
            req = k.conn.macros.get(st)
            req = req if req is None else [bare(n) for n in req]
            some = True
        else:
            some = False
        got = {}
        for stage, pairs in e["macros"]:
            if stage != code:
                # a definition for another stage must be what the MTA defined there
                d = self.mta_macros.get(stage) or {}
                for n, v in pairs:
                    if d.get(n) != v:
                        raise Bad("macro", "child %s got macro %r=%r for stage %s before %s, the MTA defined %r" %
                                  (k.name, n, v, stage, code, d))
                continue
            got.update(pairs)
        for n, v in got.items():
            if not known or known.get(n) != v:
                raise Bad("macro", "child %s got macro %r=%r with %s, the MTA defined %r there" %
                          (k.name, n, v, code, known))
            if some and req is not None and n not in req:
                raise Bad("macro", "child %s got macro %r with %s, it requested %r" % (k.name, n, code, req))
        self.stat("macros", len(got))
        if known and self.macro_now == code:
            if some:
                need = [n for n in known if req is not None and n in req]
            else:
                need = list(known)
            miss = [n for n in need if n not in got]
            if miss:
                raise Bad("macro", "child %s did not get macros %r with %s (defined: %r, requested %r)" %
                          (k.name, miss, code, known, req))

    def stopped(self, k, cmd, macros=None):
        """whether an applicable condition takes child k out at cmd"""
        if not k.conf.get("stops"):
            return False
        mark = b"stop-%s." % k.name.encode()
        if cmd[0] in (DATA, EOH, EOM):
            hay = self.stop_macro(cmd[0])
        elif cmd[0] == HDR:
            hay = cmd[2]
        elif cmd[0] == BODY:
            hay = cmd[1][:200]
        else:
            hay = cmd[1][0] if isinstance(cmd[1], tuple) else cmd[1]
        if mark in hay:
            self.stat("stopped_" + cmd[0])
            return True
        return False

    def stop_macro(self, code):
        v = b""
        for c in (CONN, HELO, MAIL, RCPT, DATA, EOH, EOM):
            for n in (b"x_stop", b"{x_stop}"):
                v = self.mta_macros.get(c, {}).get(n, v)
            if c == code:
                break
        return v

    def event(self, k, cmd, kind):
        """consume cmd at child k -> status class"""
        code = cmd[0]
        if not k.gets(code):
            return "cont", None
        e = k.peek()
        while e is not None and e["cmd"][0] == ABORT and k.fresh:
            k.i += 1
            if k.owed_abort:
                self.stat("aborts")
            k.owed_abort = False
            e = k.peek()
        if e is not None and k.owed_abort:
            raise Bad("abort", "child %s got %s without being told that the message before was aborted" %
                      (k.name, short(e["cmd"])))
        if code == EOM and (e is None or e["cmd"][0] != EOM):
            # its verdict wasn't asked for
            kind = "unasked"
        if e is None:
            if k.conn.closed_by == "fault" or k.idle_dead:
                # it went away after its last answer
                k.alive = k.inmsg = False
                self.stat("idle_deaths")
                if k.name in self.idle:
                    return k.fallback, None
                return "acc", None
            raise Bad(kind, "child %s did not get %s (it got %d events, connection ended by %s)" %
                      (k.name, short(cmd), len(k.conn.entries), k.conn.closed_by))
        if e["cmd"] != cmd:
            if code in (MAIL, RCPT) and e["cmd"][0] == code and len(cmd[1]) > 1 and list(e["cmd"][1]) == list(cmd[1])[:1]:
                kind = "esmtp-args"
            raise Bad(kind, "child %s got %s instead of %s" % (k.name, short(e["cmd"]), short(cmd)))
        k.i += 1
        if code != UNKNOWN:
            k.fresh = False
        self.stat("child_events")
        self.take_macros(k, e, code)
        return self.answer(k, e, cmd)

    def answer(self, k, e, cmd):
        c, x = self.answer_(k, e, cmd)
        k.last = c
        return c, x

    def answer_(self, k, e, cmd):
        code = cmd[0]
        if e["fault"]:
            if e["fault"] == "close-after":
                k.idle_dead = True
            else:
                k.alive = k.inmsg = False
                self.stat("faults")
                return k.fallback, None
        if e["final"] is None:
            if code in NRSTEP and k.steps & NRSTEP[code]:
                return "cont", None
            if k.conn.closed_by == "peer" or k.conn.end_seq is None or k.conn.closed_by == "quit":
                return None, None      # the session was cut while the child was answering
            return "cont", None
        return cls(e["final"]), (e["final"], e)

    # ---- verdict check -----------------------------------------------------
    def expect(self, e, results, who, stage, remaining):
        """results: [(kid, class, (final, entry))]; the reply in e must be their combination"""
        f = e["final"]
        if not e["want"]:
            return None
        if f is None:
            raise StopIteration
        if any(c is None for _, c, _ in results):
            raise Bad("early-reply", "%s was answered %r although a child had not answered yet" % (short(e["cmd"]), f))
        real = [(k, c, x) for k, c, x in results if not k.eval]
        got = cls(f)
        self.stat("verdict_" + got)
        top = max([IMPORTANCE[c] for _, c, _ in real] or [IMPORTANCE["cont"]])
        name = [n for n, i in IMPORTANCE.items() if i == top][0]
        if name in ("acc", "skip", "cont"):
            if name == "skip" or name == "acc":
                ok = {"cont"} if remaining else {"cont", name, "acc"}
                if stage != BODY:
                    ok.discard("skip")
            else:
                ok = {"cont"} if remaining else {"cont", "acc"}
            if not real and not remaining:
                ok |= {"acc", "cont"}
            left = [k for k in self.kids if k.alive and not k.eval]
            if left and all(k.idle_dead for k in left):
                # nobody is there anymore, which milter-manager may have noticed or not
                ok |= {"acc", "cont"} | {k.fallback for k in left}
        else:
            ok = {name}
        if got not in ok:
            raise Bad("verdict", "%s was answered %r, expected %s; children: %s" %
                      (short(e["cmd"]), f, sorted(ok), self.show(results)))
        if got in ("rej", "temp"):
            win = [(k, c, x) for k, c, x in real if c == got]
            allowed = []
            plain = False
            for k, c, x in win:
                if x is not None and x[0][0] == R_REPLYCODE:
                    allowed.append(x[0][1])
                    if not valid_code(x[0][1]):
                        plain = True
                else:
                    plain = True
            if f[0] == R_REPLYCODE:
                self.stat("custom_codes")
                if norm_code(f[1]) not in [norm_code(t) for t in allowed]:
                    raise Bad("code", "%s was answered %r, the winning children answered %r" %
                              (short(e["cmd"]), f[1], allowed))
            elif not plain:
                raise Bad("code", "%s was answered %r without the text of the winning children %r" %
                          (short(e["cmd"]), f, allowed))
        for k, c, x in results:
            if x is not None and x[1]["replies"] and x[1]["replies"][-1][0] > e["replies"][-1][0] \
                    and c in ("cont", "acc", "skip") and name in ("acc", "skip", "cont"):
                raise Bad("early-reply", "%s was answered before child %s answered" % (short(e["cmd"]), k.name))
        return got

    def show(self, results):
        return ", ".join("%s%s=%s" % (k.name, "(eval)" if k.eval else "",
                                      x[0] if x else c) for k, c, x in results)

    # ---- connection level ---------------------------------------------------
    def set_macros(self, e):
        self.macro_now = None
        for stage, pairs in e["macros"]:
            self.mta_macros[stage] = dict((B(n), B(v)) for n, v in pairs)
            self.macro_now = stage

    def simple(self, e, kids):
        code = e["cmd"][0]
        self.set_macros(e)
        if code == CONN and self.neg_fallback is not None:
            f = e["final"]
            if f is None:
                raise StopIteration
            if cls(f) != self.neg_fallback:
                raise Bad("verdict", "connect was answered %r, the failed children's fallback status is %s" %
                          (f, self.neg_fallback))
            for k in self.kids:
                k.alive = False
                if k.conn and [x for x in k.conn.entries if x["cmd"][0] not in (QUIT, ABORT)]:
                    raise Bad("env-view", "child %s got %s after the session was refused" %
                              (k.name, short(k.conn.entries[0]["cmd"])))
            raise StopIteration
        results = []
        for k in kids:
            if not k.alive:
                continue
            if code in (CONN, HELO) and self.stopped(k, e["cmd"]):
                k.alive = False
                results.append((k, "acc", None))
                continue
            c, x = self.event(k, e["cmd"], "env-view")
            results.append((k, c, x))
            if c in ("acc", "rej", "temp", "disc"):
                k.alive = False
        got = self.expect(e, results, kids, code, [k for k in kids if k.alive and not k.eval])
        if got in ("rej", "temp", "disc"):
            for k in kids:
                k.alive = False

    # ---- message --------------------------------------------------------------
    def next(self, *codes):
        if self.pos < len(self.log) and self.log[self.pos]["cmd"][0] in codes:
            e = self.log[self.pos]
            self.pos += 1
            self.set_macros(e)
            return e
        return None

    def end_message(self, complete=False):
        aborted = self.pos < len(self.log) and self.log[self.pos]["cmd"][0] == ABORT and not complete
        for k in self.kids:
            if aborted and k.inmsg and k.alive and not k.fresh and not k.idle_dead and k.last in ("cont", "skip"):
                k.owed_abort = True
            k.inmsg = False
            k.skip = False
            k.fresh = True
        for code in (MAIL, RCPT, DATA, HDR, EOH, BODY, EOM):
            self.mta_macros.pop(code, None)
        e = self.next(ABORT)

    def message(self, m):
        for k in self.kids:
            k.rcpt_ok = 0
            k.rcpt_stopped = False
        while True:
            e = self.next(UNKNOWN)
            if e is None:
                break
            res = []
            for k in self.kids:
                if k.alive:
                    c, x = self.event(k, e["cmd"], "env-view")
                    res.append((k, c, x))
            self.expect(e, res, None, UNKNOWN, [k for k in self.kids if k.alive and not k.eval])
        e = self.next(MAIL)
        if e is None:
            if not self.mta_wants(MAIL):
                raise Bad("neg-step", "MAIL skipped")
            return self.end_message()
        self.stat("messages")
        res = []
        for k in self.kids:
            if not k.alive:
                continue
            if self.stopped(k, e["cmd"]):
                k.inmsg = False
                res.append((k, "acc", None))
                continue
            c, x = self.event(k, e["cmd"], "env-view")
            res.append((k, c, x))
            k.inmsg = k.alive and c == "cont"
        got = self.expect(e, res, None, MAIL, [k for k in self.kids if k.inmsg and not k.eval])
        if got != "cont":
            return self.end_message()
        rc = 0
        while True:
            e = self.next(RCPT)
            if e is None:
                break
            rc += 1
            res = []
            disc = False
            for k in self.kids:
                if not k.inmsg:
                    continue
                if self.stopped(k, e["cmd"]):
                    # only this recipient is kept from the child
                    k.rcpt_stopped = True
                    continue
                c, x = self.event(k, e["cmd"], "env-view")
                res.append((k, c, x))
                if c in ("cont", "skip"):
                    k.rcpt_ok += 1
                elif c == "acc":
                    k.inmsg = False
                elif c == "disc":
                    if k.eval:
                        k.inmsg = False
                    disc = True
            got = self.expect(e, res, None, RCPT, [k for k in self.kids if k.inmsg and not k.eval])
            if got in ("acc", "disc"):
                return self.end_message()
        nxt = self.log[self.pos]["cmd"][0] if self.pos < len(self.log) else None
        if nxt not in (DATA, HDR, EOH):
            return self.end_message()
        for k in self.kids:
            # a child that refused every recipient has no message to look at
            if k.inmsg and k.rcpt_ok == 0:
                t = k.peek()
                if k.rcpt_stopped and t is not None and t["cmd"][0] in (DATA, HDR, EOH, BODY, EOM):
                    continue        # whether recipients kept from it count is not specified
                k.inmsg = False
        e = self.next(DATA)
        if e is not None:
            res = []
            for k in self.kids:
                if not k.inmsg:
                    continue
                if self.stopped(k, e["cmd"]):
                    k.inmsg = False
                    res.append((k, "acc", None))
                    continue
                c, x = self.event(k, e["cmd"], "env-view")
                res.append((k, c, x))
                if c != "cont":
                    k.inmsg = False
            got = self.expect(e, res, None, DATA, [k for k in self.kids if k.inmsg and not k.eval])
            if got != "cont":
                return self.end_message()
        return self.content(m)

    def mta_wants(self, code):
        return not self.mta_steps & NOSTEP.get(code, 0)

    # ---- headers, body, end of message: one child after the other ------------------
    def content(self, m):
        self.orig = dict(headers=[], body=b"")
        self.pipe = [k for k in self.kids if k.inmsg]
        self.at = 0
        self.view = None        # message as left by the children that are done
        self.seen = []          # (code, header) of the MTA so far
        self.net = dict(sender=None, quarantine=None, rcpts=[], body_replaced=False)
        self.cursor = None
        if self.pipe:
            self.open_child()
        while True:
            e = self.next(HDR, EOH, BODY, EOM)
            if e is None:
                return self.end_message()
            cmd = e["cmd"]
            code = cmd[0]
            if code == HDR:
                self.orig["headers"].append((cmd[1], cmd[2]))
            elif code in (BODY, EOM):
                self.orig["body"] += cmd[1]
            self.seen.append(cmd)
            got = self.advance(e)
            if code == EOM or got not in ("cont", "skip"):
                return self.end_message(code == EOM)

    def open_child(self):
        k = self.pipe[self.at]
        self.cursor = dict(h=0, eoh=False, body=0, eom=False)

    def current_view(self):
        v = self.view
        if v is None:
            return self.orig["headers"], self.orig["body"]
        return v["headers"], v["body"]

    def advance(self, e):
        """the MTA sent e: the current child gets what it has not seen, possibly others catch up"""
        results = []
        while self.at < len(self.pipe):
            k = self.pipe[self.at]
            c, x = self.feed(k, e)
            results = [(k, c, x)]
            if c is None:
                break
            if c in ("cont", "skip") and not (e["cmd"][0] == EOM):
                break
            if c in ("rej", "temp", "disc") and not k.eval:
                break
            # done with this child
            if e["cmd"][0] == EOM and c in ("cont", "acc", "skip") and self.cursor["eom"] and not k.eval:
                self.apply(k)
            k.inmsg = False
            self.at += 1
            if self.at < len(self.pipe):
                self.open_child()
        f = e["final"]
        remaining = [k for k in self.pipe[self.at:] if not k.eval]
        if not results:
            results = []
        k0 = results[-1] if results else None
        if k0 is not None and k0[1] in ("acc", "cont", "skip") and e["cmd"][0] == EOM:
            # at end of message continue and accept mean the same
            results = [(k0[0], "acc", k0[2])]
            remaining = []
        if k0 is not None and k0[1] == "skip" and not remaining_after(self.pipe, self.at):
            remaining = []
        got = self.expect(e, results, None, e["cmd"][0], remaining)
        if e["cmd"][0] == EOM and got in ("cont", "acc"):
            self.net_effect(e)
        return got

    def feed(self, k, e):
        """everything child k has not seen up to the MTA's command -> class, answer"""
        hs, body = self.current_view()
        cu = self.cursor
        eom = self.seen[-1][0] == EOM
        live = self.view is None and not eom
        has_eoh = any(s[0] == EOH for s in self.seen)
        lead_mta = self.s["neg"][3] & P_HDR_LEADSPC if self.s["neg"] else 0
        c, x = "cont", None
        while cu["h"] < len(hs):
            n, v = hs[cu["h"]]
            cu["h"] += 1
            if self.stopped(k, (HDR, n, v)):
                return "acc", None
            if not k.gets(HDR):
                continue
            c, x = self.event(k, (HDR, n, self.lead(k, v)), "msg-view")
            if c != "cont":
                return c, x
        if has_eoh and not cu["eoh"]:
            cu["eoh"] = True
            if self.stopped(k, (EOH,)):
                return "acc", None
            if k.gets(EOH):
                c, x = self.event(k, (EOH,), "msg-view")
                if c != "cont":
                    return c, x
        if has_eoh and not k.skip and body and not cu["body"] and self.stopped(k, (BODY, body)):
            return "acc", None
        if has_eoh and k.gets(BODY) and not k.skip:
            while cu["body"] < len(body):
                t = k.peek()
                if eom and (t is None or t["cmd"][0] not in (BODY, EOM)) and self.stopped(k, (EOM,)):
                    # this rest would have been sent together with the end of message
                    return "acc", None
                if t is None or t["cmd"][0] not in (BODY, EOM):
                    if t is None and (k.conn.closed_by == "fault" or k.idle_dead):
                        return self.event(k, (BODY, b""), "msg-view")
                    raise Bad("msg-view", "child %s got %s instead of the body from byte %d of %d" %
                              (k.name, short(t["cmd"]) if t else "nothing", cu["body"], len(body)))
                b = t["cmd"][1]
                if t["cmd"][0] == EOM:
                    if not eom or body[cu["body"]:] != b:
                        raise Bad("msg-view", "child %s got end of message with %d bytes %r, expected body bytes %d.. (%d) %r" %
                                  (k.name, len(b), b[:30], cu["body"], len(body) - cu["body"], body[cu["body"]:][:30]))
                    break
                if body[cu["body"]:cu["body"] + len(b)] != b or not b:
                    raise Bad("msg-view", "child %s got a body chunk of %d bytes %s that is not the body at byte %d of %d" %
                              (k.name, len(b), first_diff(b, body[cu["body"]:]), cu["body"], len(body)))
                k.i += 1
                k.fresh = False
                cu["body"] += len(b)
                self.stat("child_events")
                self.stat("body_bytes", len(b))
                self.take_macros(k, t, BODY)
                c, x = self.answer(k, t, t["cmd"])
                if c == "skip":
                    k.skip = True
                    break
                if c != "cont":
                    return c, x
        if eom:
            if self.stopped(k, (EOM,)):
                return "acc", None
            t = k.peek()
            rest = b""
            if t is not None and t["cmd"][0] == EOM:
                rest = t["cmd"][1]
            if k.skip or not k.gets(BODY):
                # body bytes with the end of message packet are tolerated if they are the end of the body
                if rest and not body.endswith(rest):
                    raise Bad("msg-view", "child %s got unknown body bytes at end of message" % k.name)
            elif t is not None and t["cmd"][0] == EOM and body[cu["body"]:] != rest:
                raise Bad("msg-view", "child %s got end of message with %r, expected %r" %
                          (k.name, rest[:40], body[cu["body"]:][:40]))
            c, x = self.event(k, (EOM, rest), "msg-view")
            cu["eom"] = True
            cu["entry"] = k.conn.entries[k.i - 1] if k.conn.entries else None
            self.stat("child_messages")
            if c not in ("acc", "cont", "skip"):
                return c, x
        return c, x

    def lead(self, k, v):
        """leading space of header values: as the MTA sends it if the child asked for it too"""
        mta = self.s["neg"][3] & P_HDR_LEADSPC
        kid = k.steps & P_HDR_LEADSPC
        if mta and not kid and v[:1] == b" ":
            return v[1:]
        return v

    def apply(self, k):
        ent = self.cursor["entry"]
        hs, body = self.current_view()
        hs = list(hs)
        new = None
        same = lambda n: [i for i, (a, _) in enumerate(hs) if a.lower() == n.lower()]
        for _, r in ent["replies"]:
            c = r[0]
            if c in MODS:
                self.stat("modifications")
            if c == R_ADDHDR:
                s = same(r[1])
                hs.insert(s[0] if s else len(hs), (r[1], self.lead_in(k, r[2])))
            elif c == R_INSHDR:
                hs.insert(min(r[1], len(hs)), (r[2], self.lead_in(k, r[3])))
            elif c == R_CHGHDR:
                s = same(r[2])
                if r[3] == b"":
                    if 1 <= r[1] <= len(s):
                        del hs[s[r[1] - 1]]
                elif 1 <= r[1] <= len(s):
                    hs[s[r[1] - 1]] = (hs[s[r[1] - 1]][0], self.lead_in(k, r[3]))
                else:
                    hs.insert(s[0] if s else len(hs), (r[2], self.lead_in(k, r[3])))
            elif c == R_REPLBODY:
                new = (new or b"") + r[1]
            elif c == R_CHGFROM:
                self.net["sender"] = r[1:]
            elif c == R_QUARANTINE:
                self.net["quarantine"] = r[1]
            elif c in (R_ADDRCPT, R_ADDRCPT_PAR, R_DELRCPT):
                self.net["rcpts"].append(("-", r[1]) if c == R_DELRCPT else
                                         ("+", r[1], r[2] if c == R_ADDRCPT_PAR else None))
        if new is not None:
            body = new
            self.net["body_replaced"] = True
        self.view = dict(headers=hs, body=body)

    def lead_in(self, k, v):
        """a child without leading spaces means a value with one where the MTA expects them"""
        mta = self.s["neg"][3] & P_HDR_LEADSPC
        if mta and not k.steps & P_HDR_LEADSPC:
            return b" " + v
        return v

    def net_effect(self, e):
        hs0 = list(self.orig["headers"])
        want_hs, want_body = self.current_view()
        got = list(hs0)
        body = None
        sender = quarantine = None
        rcpts = []
        n = 0
        same = lambda nm: [i for i, (a, _) in enumerate(got) if a.lower() == nm.lower()]
        trace = []
        for _, r in e["replies"]:
            c = r[0]
            if c not in MODS:
                continue
            n += 1
            if c != R_REPLBODY:
                trace.append(r)
            if c == R_ADDHDR:
                s = same(r[1])
                got.insert(s[0] if s else len(got), (r[1], r[2]))
            elif c == R_INSHDR:
                got.insert(min(r[1], len(got)), (r[2], r[3]))
            elif c == R_CHGHDR:
                s = same(r[2])
                if r[3] == b"":
                    if 1 <= r[1] <= len(s):
                        del got[s[r[1] - 1]]
                    else:
                        raise Bad("net-headers", "the MTA is told to delete header %r[%d] which does not exist" % (r[2], r[1]))
                elif 1 <= r[1] <= len(s):
                    got[s[r[1] - 1]] = (got[s[r[1] - 1]][0], r[3])
                else:
                    raise Bad("net-headers", "the MTA is told to change header %r[%d] which does not exist" % (r[2], r[1]))
            elif c == R_REPLBODY:
                body = (body or b"") + r[1]
            elif c == R_CHGFROM:
                sender = r[1:]
            elif c == R_QUARANTINE:
                quarantine = r[1]
            else:
                rcpts.append(("-", r[1]) if c == R_DELRCPT else ("+", r[1], r[2] if c == R_ADDRCPT_PAR else None))
        self.stat("mta_modifications", n)
        if got != list(want_hs):
            order = sorted((a.lower(), b) for a, b in got) == sorted((a.lower(), b) for a, b in want_hs)
            raise Bad("net-headers-order" if order else "net-headers",
                      "original %r, modifications to the MTA %r give %r, the children's own give %r; %s" %
                      (hs0, trace, got, list(want_hs), self.mods_text()))
        if (body if body is not None else self.orig["body"]) != want_body:
            raise Bad("net-body", "body replaced with %s, expected %s; %s" %
                      (abbrev(body), abbrev(want_body), self.mods_text()))
        if body is not None and not self.net["body_replaced"]:
            raise Bad("net-body", "the body is replaced although no child replaced it")
        if sender != self.net["sender"]:
            raise Bad("net-sender", "sender changed to %r, expected %r" % (sender, self.net["sender"]))
        if quarantine != self.net["quarantine"]:
            raise Bad("net-quarantine", "quarantine %r, expected %r" % (quarantine, self.net["quarantine"]))
        if rcpts != self.net["rcpts"]:
            raise Bad("net-rcpts", "recipients %r, expected %r" % (rcpts, self.net["rcpts"]))

    def mods_text(self):
        return "; ".join("%s: %r" % (k.name, [r for _, r in k.conn.entries[k.i - 1]["replies"] if r[0] in MODS and
                                              r[0] != R_REPLBODY])
                         for k in self.pipe if k.conn.entries)[:1500]

    # ---- at the end ------------------------------------------------------------
    def leftovers(self):
        for k in self.kids:
            if not k.conn:
                continue
            for e in k.conn.entries[k.i:]:
                if e["cmd"][0] not in (QUIT, ABORT):
                    raise Bad("extra-event", "child %s got %s which it must not get" % (k.name, short(e["cmd"])))


def remaining_after(pipe, at):
    return [k for k in pipe[at + 1:]]


def short(cmd):
    t = []
    for f in cmd:
        if isinstance(f, bytes) and len(f) > 60:
            t.append("%r...(%d)" % (f[:40], len(f)))
        else:
            t.append(repr(f))
    return "(" + ", ".join(t)[:300] + ")"


def abbrev(b):
    if b is None:
        return "nothing"
    return "%r...(%d bytes)" % (b[:60], len(b))


def first_diff(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return "(differs at %d: %r/%r)" % (i, a[max(0, i - 5):i + 10], b[max(0, i - 5):i + 10])
    return "(prefix)"


def check(cfg, sess, stats=None):
    """-> list of (kind, text).  A child that goes away between commands may or may not count with
    its fallback status for the next command, so both readings are tried."""
    names = sorted({c.child for c in sess["conns"] if any(e["fault"] == "close-after" for e in c.entries)})
    best = None
    for bits in range(1 << len(names)):
        s = Session(cfg, sess, [n for i, n in enumerate(names) if bits >> i & 1])
        bad = s.run()
        if best is None or len(bad) < len(best[0]):
            best = (bad, s)
        if not bad:
            break
    if stats is not None:
        for k, v in best[1].stats.items():
            stats[k] = stats.get(k, 0) + v
    return best[0]
