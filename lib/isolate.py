"""What happened before in a session must not show in its next message: the same message is handled at the end of
sessions with a past (finished, stopped, aborted and hung messages) and in fresh sessions, and everything the MTA
and the children see of it is compared."""
import asyncio, os, random, re, socket, struct, time
import milterproto as P
from milterproto import *
import life, manager

MODS = [lambda r: P.r_addhdr("X-A%d" % r.randrange(3), "v%d" % r.randrange(9)), lambda r: P.r_inshdr(r.choice([0, 1, 2]), "X-I", "i%d" % r.randrange(9)),
        lambda r: P.r_chghdr(r.choice([1, 1, 2]), "Subject", r.choice(["", "new%d" % r.randrange(9)])), lambda r: P.r_chgfrom("<c%d@x>" % r.randrange(9), "SIZE=9" if r.random() < .5 else None),
        lambda r: P.r_addrcpt("<n%d@x>" % r.randrange(3)), lambda r: P.r_delrcpt("<r0@x>"), lambda r: P.r_replbody(b"replaced %d\r\n" % r.randrange(9)),
        lambda r: P.r_quarantine("reason %d" % r.randrange(9)), lambda r: P.r_addrcpt_par("<p%d@x>" % r.randrange(3), "NOTIFY=NEVER")]
CODES = ["451 4.7.1 later", "550 5.7.1 no", "421 4.3.2 closing", "554 5.0.0 never"]
HANG = "hang"


def verdict(rng, soft=False):
    k = rng.random()
    return P.r_simple(R_TEMPFAIL) if k < .25 else P.r_simple(R_REJECT) if k < .45 else P.r_replycode(rng.choice(CODES)) if k < .8 else \
        P.r_simple(R_ACCEPT) if k < .92 or soft else P.r_simple(R_DISCARD)


def message(rng, tok, probe=False):
    """[(event, key, packet)]: the commands of a message"""
    out = [("M", "M", P.c_mail("<%s@x>" % tok, *(["SIZE=%d" % rng.randrange(99)] if rng.random() < .3 else [])))]
    for i in range(rng.choice([1, 1, 2, 3])):
        out.append(("R", "R%d" % i, P.c_rcpt("<r%d@x>" % i)))
    out.append(("T", "T", P.pkt(DATA)))
    for i in range(rng.choice([0, 1, 2, 3])):
        out.append(("L", "L%d" % i, P.c_header(rng.choice(["Subject", "X-H%d" % i, "Received"]), "value %d %s" % (i, tok))))
    out.append(("N", "N", P.pkt(EOH)))
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        out.append(("B", "B%d" % i, P.c_body(b"%s chunk %d\r\n" % (tok.encode(), i) * rng.choice([1, 1, 300]))))
    out.append(("E", "E", P.c_eom(b"tail\r\n" if rng.random() < .2 else b"")))
    return out


class Kid:
    def __init__(self, path, plans, skip):
        self.path, self.plans, self.skip = path, plans, skip
        self.seen = {}          # session -> [(message token, event, data)]
        self.hung = {}          # session -> event
        self.problems = []

    async def start(self):
        self.server = await asyncio.start_unix_server(self.serve, self.path, limit=1 << 22, backlog=256)
        os.chmod(self.path, 0o777)

    async def serve(self, r, w):
        buf, ses, tok, n = b"", None, None, {}
        log = []
        try:
            while True:
                d = await r.read(65536)
                if not d:
                    break
                buf += d
                pk, buf = P.split_packets(buf)
                for raw in pk:
                    c, data = chr(raw[0]), raw[1:]
                    if c == NEG:
                        w.write(P.r_negotiate(6, A_ALL, P_SKIP if self.skip else 0))
                        continue
                    if c == CONN:
                        ses = data.split(b"\0")[0].decode()
                        if ses in self.seen:
                            self.problems.append(("connected-twice", ses))
                        self.seen[ses] = log
                    if c == MAIL:
                        tok, n = data[1:data.index(b"@")].decode(), {}
                    log.append((tok, c, data))
                    if c in (MACRO, ABORT, QUIT):
                        continue
                    key = c
                    if c in "RLB":
                        key = "%s%d" % (c, n.get(c, 0))
                        n[c] = n.get(c, 0) + 1
                    a = self.plans.get((tok, self.path, key), P.r_simple(R_CONTINUE))
                    if a == HANG:
                        self.hung[ses] = key
                        continue
                    w.write(a)
        except (ConnectionError, P.ProtoError, ValueError) as e:
            self.problems.append(("kid", repr(e)))
        w.close()


class Mta:
    def __init__(self, spec):
        self.spec, self.buf, self.replies = spec, b"", []

    async def open(self):
        self.r, self.w = await life.connect(self.spec)

    async def packet(self, wait):
        while True:
            pk, rest = P.split_packets(self.buf)
            if pk:
                self.buf = self.buf[4 + len(pk[0]):]
                return pk[0]
            d = await asyncio.wait_for(self.r.read(65536), wait)
            if not d:
                raise ConnectionError("closed")
            self.buf += d

    async def ask(self, data, wait=20):
        """-> replies up to the final one"""
        self.w.write(data)
        out = []
        while True:
            p = await self.packet(wait)
            out.append(p)
            if chr(p[0]) in "acdrtysO":
                return out

    async def quiet(self, t):
        """whatever comes within t"""
        out = []
        try:
            while True:
                out.append(await self.packet(t))
        except (asyncio.TimeoutError, ConnectionError):
            pass
        return out


def canon(replies):
    """modifications: recipients as sets, headers in order"""
    heads = [p for p in replies if chr(p[0]) in "him"]
    other = sorted(p for p in replies if chr(p[0]) not in "himacdrtys")
    return heads, other, [p for p in replies if chr(p[0]) in "acdrtys"]


async def session(mta, name, kids, kidpaths, past, probe):
    """past: [(commands, end)]; end: ("done",) ("abort", i) ("hang", i) ("leave", i) -> replies to the probe"""
    await mta.open()
    await mta.ask(P.c_negotiate(6, A_ALL, P_ALL))
    await mta.ask(P.c_connect(name, "4", 25, "192.0.2.1"))
    await mta.ask(P.c_helo("helo.example"))
    shape = []
    for cmds, end in past:
        stopped = None
        for i, (c, key, data) in enumerate(cmds):
            mac = P.c_macro(c, [("i", "id-" + key)]) if c in "MRE" else b""
            if end[0] == "hang" and end[1] == i:
                mta.w.write(mac + data)
                t = time.time()
                while not any(k.hung.get(name) == key for k in kids):
                    if time.time() - t > 1 or mta.buf:
                        break
                    await asyncio.sleep(.005)
                await asyncio.sleep(.02)
                got = await mta.quiet(.02)
                mta.w.write(P.pkt(ABORT))
                for k in kids:
                    k.hung.pop(name, None)
                late = await mta.quiet(.05)
                shape.append("hang" + c)
                if not got and late:
                    raise ValueError("after ABORT of an unanswered %s: %r" % (key, late))
                break
            got = await mta.ask(mac + data)
            f = chr(got[-1][0])
            if end[0] == "abort" and end[1] == i:
                mta.w.write(P.pkt(ABORT))
                shape.append("abort" + c)
                break
            if (f != "c" and not (c == "R" and f in "rty") and not (f == "s" and c == "B")) or c == "E":
                shape.append(f + c)
                if c != "E" and end[0] != "leave":
                    mta.w.write(P.pkt(ABORT))
                break
    out = []
    for c, key, data in probe:
        mac = P.c_macro(c, [("i", "id-" + key)]) if c in "MRE" else b""
        got = await mta.ask(mac + data)
        out.append((key, canon(got)))
        f = chr(got[-1][0])
        if f != "c" and not (c == "R" and f in "rty") and not (f == "s" and c == "B") and c != "E":
            mta.w.write(P.pkt(ABORT))
            break
    mta.w.write(P.pkt(QUIT))
    left = await mta.quiet(20)
    if left:
        raise ValueError("after QUIT: %r" % left)
    mta.w.close()
    return out, shape


def plan_message(rng, plans, tok, kidpaths, cmds, heavy, hang=None, skip=False):
    stops = 0
    for path in kidpaths:
        for c, key, data in cmds:
            if c == "E":
                if rng.random() < heavy:
                    out = b"".join(rng.choice(MODS)(rng) for i in range(rng.randint(1, 4)))
                    out += P.r_simple(R_CONTINUE) if rng.random() < .75 else verdict(rng)
                    plans[tok, path, key] = out
            elif rng.random() < (.15 if c == "R" else .03) * (2 if heavy > .5 else 1):
                plans[tok, path, key] = verdict(rng)
            elif c == "B" and skip and rng.random() < .2:
                plans[tok, path, key] = P.r_simple(R_SKIP)
    if hang is not None:
        plans[tok, rng.choice(kidpaths[-1:] * 2 + kidpaths), cmds[hang][1]] = HANG


async def play(ck, seed, pairs):
    rng = random.Random(seed)
    m = manager.Manager()
    plans = {}
    problems = []
    n = rng.choice([1, 2, 2, 3])
    paths = [m.child_sock("c%d" % (i + 1)) for i in range(n)]
    skip = rng.random() < .5
    kids = [Kid(p, plans, skip) for p in paths]
    workers = rng.choice([0, 0, 0, 2])
    m.write_config("manager.n_workers = %d\n" % workers + 'manager.event_loop_backend = "%s"\n' % rng.choice(["glib", "libev"]) + "".join(
        'define_milter("c%d") do |milter|\n  milter.connection_spec = "unix:%s"\nend\n' % (i + 1, p) for i, p in enumerate(paths)))
    try:
        for k in kids:
            await k.start()
        m.start()
        spec = ("unix", m.sock)
        sem = asyncio.Semaphore(8)

        async def pair(i):
            r = random.Random("%s/%d" % (seed, i))
            past = []
            for j in range(r.choice([1, 1, 2, 3])):
                tok = "p%d-%d" % (i, j)
                cmds = message(r, tok)
                e = r.random()
                end = ("done",) if e < .25 else ("abort", r.randrange(len(cmds))) if e < .45 else ("leave",) if e < .55 else \
                    ("hang", r.choice([len(cmds) - 1, len(cmds) - 1, r.randrange(len(cmds))]))
                plan_message(r, plans, tok, paths, cmds, .8, end[1] if end[0] == "hang" else None, skip)
                past.append((cmds, end))
            tok = "q%d" % i
            probe = message(r, tok)
            plan_message(r, plans, tok, paths, probe, .4, skip=skip)
            res = {}
            for kind in ("fresh", "old") if r.random() < .5 else ("old", "fresh"):
                name = "%s-%d" % (kind, i)
                mta = Mta(spec)
                try:
                    async with sem:
                        res[kind] = await session(mta, name, kids, paths, past if kind == "old" else [], probe)
                except (asyncio.TimeoutError, ConnectionError, ValueError, OSError) as e:
                    problems.append(("no-reply" if isinstance(e, asyncio.TimeoutError) else "broken", "pair %d of %r: session %s: %r; past %r" % (
                        i, seed, kind, e, [(x[1], [k for _, k, _ in x[0]]) for x in past])))
                    return
            if res["fresh"][0] != res["old"][0]:
                problems.append(("past-shows", "pair %d of %r: after %r the message is answered\n  %r\nin a fresh session\n  %r" % (
                    i, seed, res["old"][1], res["old"][0], res["fresh"][0])))
            await asyncio.sleep(.05)
            for ki, k in enumerate(kids):
                a, b = [[x[1:] for x in k.seen.get("%s-%d" % (kind, i), []) if x[0] == tok and x[1] != QUIT and x[1] != MACRO] for kind in ("fresh", "old")]
                while b and b[-1][0] == ABORT:
                    b.pop()
                while a and a[-1][0] == ABORT:
                    a.pop()
                if a != b:
                    problems.append(("past-shows-child", "pair %d of %r: after %r child %d sees\n  %r\nin a fresh session\n  %r" % (
                        i, seed, res["old"][1], ki + 1, b, a)))
                # macros
                ma, mb = [[x[1:] for x in k.seen.get("%s-%d" % (kind, i), []) if x[1] == MACRO and x[0] == tok] for kind in ("fresh", "old")]
                if ma != mb:
                    problems.append(("past-shows-macros", "pair %d of %r: after %r child %d gets the macros\n  %r\nin a fresh session\n  %r" % (
                        i, seed, res["old"][1], ki + 1, mb, ma)))
            for s in res["old"][1]:
                ck.count("past_" + ("hung" if s.startswith("hang") else "aborted" if s.startswith("abort") else "ended"))
            ck.count("compared_messages")
            ck.case((n, tuple(res["old"][1]), tuple((k, c[2][0][:1]) for k, c in res["fresh"][0])), "past %s" % res["old"][1])
        await asyncio.gather(*[pair(i) for i in range(pairs)])
        if not m.alive():
            problems.append(("died", "milter-manager ended with %r\n%s" % (m.proc.returncode, m.errors()[-2000:])))
        for k in kids:
            problems.extend(k.problems)
        for key, t in manager.diagnostics(m.errors()):
            problems.insert(0, (key, t))
    finally:
        for k in kids:
            k.server.close()
        m.cleanup()
    return problems
