"""C27: connection checking of a real milter-manager: sessions whose client is gone while a milter works end with the
configured status, all others go on undisturbed."""
import asyncio, os, random, re, struct, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
from concurrent.futures import ThreadPoolExecutor
import build, life, manager
import milterproto as P
from milterproto import *

RULE = ("seed -> managers with connection checkers (interval 1, one or two checkers, any status at disconnect) x waves of sessions stopped at random "
        "commands by a slow milter, some of whose clients disconnect, at every moment of the session; the replies and the milters' packets against a model")
STEPS = [("connect", CONN), ("helo", HELO), ("mail", MAIL), ("rcpt", RCPT), ("data", DATA), ("header", HDR), ("eoh", EOH), ("body", BODY), ("eom", EOM)]
STATUS = {"accept": R_ACCEPT, "reject": R_REJECT, "temporary-failure": R_TEMPFAIL, "discard": R_DISCARD}


class Kid(life.Child):
    """answers continue; `stall[(host)]` = (command, event): waits with the reply to this command"""

    def __init__(self, path):
        life.Child.__init__(self, path)
        self.stall, self.packets, self.ended, self.stalled = {}, {}, {}, {}

    async def serve(self, rd, wr):
        buf, tok, pos = b"", None, 0
        try:
            while True:
                d = await rd.read(65536)
                if not d:
                    break
                buf += d
                pk, buf = P.split_packets(buf)
                for raw in pk:
                    k = P.parse_command(raw)
                    if k[0] == NEG:
                        wr.write(P.r_negotiate(6, A_ALL, 0))
                        continue
                    if k[0] == CONN:
                        tok = bytes(k[1]).decode("latin-1")
                    self.packets.setdefault(tok, []).append(k[0])
                    if k[0] == QUIT:
                        # (the manager's end of the connection may stay until Ruby's garbage collection)
                        self.ended[tok] = time.time()
                        wr.close()
                        return
                    if k[0] in (MACRO, ABORT):
                        continue
                    st = self.stall.get(tok)
                    if st and st[0] == k[0]:
                        asyncio.ensure_future(self.later(wr, tok, st))
                        self.stalled.setdefault(tok, asyncio.Event()).set()
                        continue
                    wr.write(P.r_simple(R_CONTINUE))
        except ConnectionError:
            pass
        self.ended[tok] = time.time()
        wr.close()

    async def later(self, wr, tok, st):
        await st[1].wait()
        try:
            wr.write(P.r_simple(R_CONTINUE))
        except (ConnectionError, RuntimeError):
            pass


class World:
    def __init__(self, c, i):
        self.c, self.i, self.r = c, i, c.rng("world", i)
        self.history = []

    def bad(self, key, text):
        self.c.violation(key, text, dict(index=self.i, config=self.text, history=self.history[-30:], log=self.m.errors()[-3000:]))

    async def run(self):
        c, r = self.c, self.r
        self.m = manager.Manager()
        self.gone = self.m.dir + "/gone"
        os.mkdir(self.gone)
        os.chmod(self.gone, 0o777)
        self.calls = self.m.dir + "/calls"
        open(self.calls, "w").close()
        os.chmod(self.calls, 0o666)
        self.n = 0
        nk = r.choice([1, 1, 2, 3])
        self.kids = [Kid(self.m.child_sock("k%d" % k)) for k in range(nk)]
        self.status = r.choice(list(STATUS))
        backend = r.choice(["glib", "libev"])
        o = ['manager.event_loop_backend = "%s"' % backend]
        for k in range(nk):
            o.append('define_milter("k%d") do |milter|\n  milter.connection_spec = "unix:%s"\n'
                     '  milter.reading_timeout = 120\n  milter.end_of_message_timeout = 120\nend' % (k, self.kids[k].path))
        self.ncheck = r.choice([1, 2])
        o.append("manager.connection_check_interval = 1")
        if self.status != "temporary-failure" or r.random() < .5:
            o.append('manager.fallback_status_at_disconnect = "%s"' % self.status)
        for k in range(self.ncheck):
            # each checker knows about clients of its own
            o.append('manager.define_connection_checker("n%d") do |context|\n'
                     '  a = context.smtp_client_address.to_s[/[\\d.]+(?=\\]\\z)/]\n'
                     '  File.open("%s", "a") {|f| f.puts("%d #{a}")}\n'
                     '  !File.exist?("%s/%d-#{a}")\nend' % (k, self.calls, k, self.gone, k))
        # a checker defined again replaces the one before
        if r.random() < .3:
            o.append('manager.define_connection_checker("again") {|context| false}\nmanager.define_connection_checker("again") {|context| true}')
        # one that raises doesn't end sessions
        if r.random() < .3:
            o.append('manager.define_connection_checker("raise") {|context| raise "no idea"}')
        self.text = "\n".join(o) + "\n"
        try:
            for k in self.kids:
                await k.start()
            self.m.write_config(self.text)
            self.m.start(wait=False)
            await asyncio.get_event_loop().run_in_executor(None, self.m.wait_ready)
            for wave in range(c.n(4, 10)):
                if wave == 1 and self.i % 5 == 0:
                    await self.crowd()
                else:
                    await self.wave(r.choice([1, 1, 2, 3, 5, 8, 35 if c.thorough or self.i % 4 == 0 else 4]))
                if not self.m.alive():
                    self.bad("death", "milter-manager ended with %s" % self.m.proc.returncode)
                    return
            code = self.m.stop()
            if code != 0:
                self.bad("exit", "milter-manager exited with %s after SIGTERM" % code)
            for k, t in manager.diagnostics(self.m.errors()):
                self.bad(k, t)
        finally:
            for k in self.kids:
                await k.stop()
            self.m.cleanup()

    async def crowd(self):
        """clients that leave while many more sessions than are asked at a time stay, whichever are asked first"""
        hold = asyncio.Event()
        stay = [s for s in self.sessions(70, "none")]
        for s in stay:
            s["hold"] = hold
        leave = self.sessions(4, "all")
        for s in leave:
            s["early"] = False
        self.c.count("crowds")
        before = [asyncio.ensure_future(self.session(s)) for s in stay[:35]]
        await asyncio.sleep(1.5)
        going = [asyncio.ensure_future(self.session(s)) for s in leave]
        await asyncio.sleep(.5)
        after = [asyncio.ensure_future(self.session(s)) for s in stay[35:]]
        await asyncio.gather(*going)
        hold.set()
        await asyncio.gather(*before, *after)

    async def wave(self, n):
        """n sessions at a time"""
        ss = self.sessions(n, self.r.choice(["all", "some", "some", "none"]))
        self.history.append("wave of %d: %s" % (n, [(s["host"], s["ip"], "k%d" % s["kid"], STEPS[s["step"]][0], s["gone"], s["early"], s["by"]) for s in ss][:12]))
        self.c.count("waves")
        await asyncio.gather(*[self.session(s) for s in ss])

    def sessions(self, n, kind):
        r = self.r
        ss = []
        for _ in range(n):
            self.n += 1
            ip = "192.0.%d.%d" % (2 + self.n // 250, self.n % 250 + 1)
            s = dict(host="s%d.example" % self.n, ip=ip, kid=r.randrange(len(self.kids)), step=r.randrange(len(STEPS)),
                     gone=kind == "all" or kind == "some" and r.random() < .5, release=asyncio.Event(), replies=[],
                     # when the client disconnects
                     early=r.random() < .25, by=r.randrange(self.ncheck), second=r.random() < .3)
            self.kids[s["kid"]].stall[s["host"]] = (STEPS[s["step"]][1], s["release"])
            self.kids[s["kid"]].stalled[s["host"]] = asyncio.Event()
            ss.append(s)
        return ss

    def disconnect(self, s):
        open("%s/%d-%s" % (self.gone, s["by"], s["ip"]), "w").close()

    async def session(self, s):
        c = self.c
        buf = b""
        try:
            r, w = await asyncio.open_unix_connection(self.m.sock)
        except OSError as e:
            self.bad("connect", "cannot connect: %r" % e)
            return
        info = "session %s (%s, k%d waits at %s, client %s): " % (s["host"], s["ip"], s["kid"], STEPS[s["step"]][0], "gone" if s["gone"] else "stays")

        async def get(timeout):
            nonlocal buf
            while True:
                pk, buf = P.split_packets(buf)
                if pk:
                    buf = b"".join(struct.pack("!I", len(x)) + x for x in pk[1:]) + buf
                    return P.parse_reply(pk[0])
                d = await asyncio.wait_for(r.read(65536), timeout)
                if not d:
                    raise ConnectionError("closed")
                buf += d
        hit = False
        ended = None
        try:
            w.write(P.c_negotiate(6, A_ALL, 0))
            await get(30)
            early_step = None
            if s["gone"] and s["early"]:
                early_step = self.r.randint(0, s["step"])
            for k, (name, code) in enumerate(STEPS):
                data = P.c_connect(s["host"], "4", 25, s["ip"]) if code == CONN else life.STEPS[k][1](s["host"])
                if k == early_step:
                    self.disconnect(s)
                w.write(data)
                await w.drain()
                # the milter that holds this session up has it before the MTA's reply
                waits = k == s["step"] if s["kid"] == 0 or k <= 4 else k == len(STEPS) - 1 and s["step"] > 4
                if not waits:
                    rp = await get(60)
                    s["replies"].append((name, rp[0]))
                    if rp[0] != R_CONTINUE and not (s["gone"] and rp[0] == STATUS[self.status]):
                        # (a client that is gone may be noticed during a short wait, too)
                        self.bad("reply", info + "%s is answered %r" % (name, rp))
                        return
                    if rp[0] != R_CONTINUE:
                        ended = k
                        hit = True
                        break
                    if code == EOM:
                        break
                    continue
                await asyncio.wait_for(self.kids[s["kid"]].stalled[s["host"]].wait(), 30)
                t = time.time()
                if s["gone"]:
                    await asyncio.sleep(self.r.random() * 1.2)
                    self.disconnect(s)
                    t = time.time()
                    try:
                        rp = await get(12)
                    except asyncio.TimeoutError:
                        if time.time() - t < 16:
                            self.bad("unnoticed", info + "the client is gone since %.1f s, the checkers are asked each second, the MTA has no reply to %s" % (time.time() - t, name))
                        return
                    s["replies"].append((name, rp[0]))
                    c.count("disconnected at " + name)
                    if rp[0] != STATUS[self.status]:
                        self.bad("status", info + "%s is answered %r, the status at disconnect is %s" % (name, rp, self.status))
                        return
                    hit, ended = True, k
                    # a late reply of the milter is nobody's
                    if s["second"]:
                        s["release"].set()
                        try:
                            rp = await get(.4)
                            self.bad("second-reply", info + "after the reply to %s another one comes: %r" % (name, rp))
                            return
                        except asyncio.TimeoutError:
                            pass
                    break
                # the client is there: nothing but the milter's reply ends the wait
                if "hold" in s:
                    await s["hold"].wait()
                else:
                    await asyncio.sleep(self.r.choice([.1, 1.3, 2.4]))
                if buf or time.time() - t < 10:
                    try:
                        rp = await get(.05)
                        self.bad("early-reply", info + "%s is answered %r though the client is there and the milter works" % (name, rp))
                        return
                    except asyncio.TimeoutError:
                        pass
                s["release"].set()
                rp = await get(60)
                s["replies"].append((name, rp[0]))
                c.count("waits outlasted at " + name)
                if rp[0] not in (R_CONTINUE,):
                    self.bad("reply", info + "%s is answered %r after the milter replied continue" % (name, rp))
                    return
            if self.r.random() < .5 and ended is not None and ended >= 2:
                w.write(P.pkt(ABORT))
            w.write(P.pkt(QUIT))
            await w.drain()
            d = await asyncio.wait_for(r.read(65536), 30)
            if d:
                self.bad("after", info + "%r after QUIT" % d)
        except (ConnectionError, asyncio.TimeoutError, P.ProtoError) as e:
            self.bad("session", info + "%r after %r" % (e, s["replies"]))
            return
        finally:
            s["release"].set()
            w.close()
        # the milters of the session
        for n in range(200):
            if all(s["host"] in k.ended or s["host"] not in k.packets for k in self.kids):
                break
            await asyncio.sleep(.05)
        for n, k in enumerate(self.kids):
            p = k.packets.get(s["host"], [])
            if p and s["host"] not in k.ended:
                self.bad("milter-open", info + "10 s after the end the connection to k%d is open, without QUIT (it got %s)" % (n, "".join(p)))
                return
            if not p:
                continue
            if not hit:
                if EOM not in p:
                    self.bad("milter-short", info + "k%d got only %s" % (n, "".join(p)))
            elif n == s["kid"] and QUIT not in p and ABORT not in p:
                self.bad("milter-abort", info + "k%d got neither ABORT nor QUIT: %s" % (n, "".join(p)))
        c.case((self.i, s["host"]), info + repr(s["replies"]))


def run():
    c = Check("C27", RULE)
    c.assumptions = ["a session that isn't checked within 12 s counts as unnoticed", "checkers written in Ruby in the configuration file; the netstat checker isn't run (no netstat here)"]
    build.build("asan")
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda i: asyncio.run(World(c, i).run()), range(c.n(18, 150))))
    c.finish()


if __name__ == "__main__":
    main(run)
