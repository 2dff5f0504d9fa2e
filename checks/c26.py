"""C26: Postfix tables, address matchers and the bundled applicable conditions against independent evaluations.

Part 1 drives the Ruby table and matcher classes with generated tables and looked-up values (lib/tables.py evaluates them
from the definitions).  Part 2 runs a real milter-manager with the bundled applicable conditions, customised at random, and
observes which child milters take part in which sessions."""
import asyncio, ipaddress, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import life, manager
import milterproto as P
from milterproto import *
import tables as T

RULE = ("seed -> tables (comments, logical lines, nested conditionals, flags, malformed lines) x looked-up values inside, at the edge "
        "of and outside the rules; seed -> customised bundled conditions x sessions (host, address, sender, recipients, macros)")


# ---- part 1

def tables(ck, batch):
    cases, exp = [], []
    for i in range(1500):
        rng = ck.rng("table", batch, i)
        k = rng.choice(["cidr", "cidr", "regexp", "regexp", "matcher", "envelope"])
        if k == "cidr":
            t, r, b = T.cidr_table(rng)
            c = dict(kind=k, texts=[t], lookups=[T.lookup_near(rng, [x for x, _ in r]) for _ in range(8)])
        elif k == "regexp":
            t, r, b = T.regexp_table(rng)
            c = dict(kind=k, texts=[t], lookups=[T.subject(rng, r) for _ in range(8)])
        elif k == "matcher":
            r, b = T.matcher(rng), None
            c = dict(kind=k, rules=[x[:2] for x in r], lookups=[T.lookup_near(rng, [x[2] for x in r]) for _ in range(8)])
        else:
            r, b = [T.envelope(rng) for _ in range(8)], None
            c = dict(kind=k, lookups=[x[0] for x in r])
        cases.append(c)
        exp.append((r, b))
    out, rc, err = T.drive(cases)
    if len(out) != len(cases):
        ck.violation("driver", "the table driver ended after %d of %d cases (%r): %s" % (len(out), len(cases), rc, err[-1500:]), {"case": cases[len(out)]})
        return
    for c, (r, b), o in zip(cases, exp, out):
        k = c["kind"]
        ck.case((c["kind"], c.get("texts"), c.get("rules"), c["lookups"]) if r else None, c if k == "regexp" and len(r) > 2 else None)
        ck.count(k + "_cases")
        if k in ("cidr", "regexp"):
            p = o["parse"][0]
            if b is None and p != {"ok": True}:
                ck.violation(k + "-refused", "a well-formed table was refused: %r\n%s" % (p, c["texts"][0]), c)
                continue
            if b is not None:
                ck.count("malformed_tables")
                lo, hi = b[1]
                if "parse_error" not in p:
                    ck.violation(k + "-malformed-not-reported", "a malformed table (line %d) was answered with %r\n%s" % (lo, p, c["texts"][0]), c)
                    continue
                if not lo <= (p.get("line_no") or 0) <= hi or p.get("path") != "/path/of/table":
                    ck.violation(k + "-location", "the error in line %d..%d was reported as %r\n%s" % (lo, hi, p, c["texts"][0]), c)
                r = []
            for l, f in zip(c["lookups"], o["find"]):
                w = T.cidr_find(r, l) if k == "cidr" else T.regexp_find(r, l)
                ck.count("lookups")
                ck.count("hits", w is not None)
                if f != {"ok": w}:
                    ck.violation(k + ("-half-applied" if b else "-find"), "looking up %r gave %r, the definition gives %r in\n%s" % (l, f, w, c["texts"][0]), c)
        elif k == "matcher":
            for l, f in zip(c["lookups"], o["find"]):
                w = T.is_local(r, l)
                ck.count("lookups")
                if f != {"ok": w}:
                    ck.violation("matcher", "[local, remote, unknown] of %r is %r, the definition gives %r with the rules %r" % (l, f, w, c["rules"]), c)
        else:
            for l, f in zip(r, o["find"]):
                ck.count("lookups")
                if f != {"ok": [l[1], l[2]]}:
                    ck.violation("envelope-address", "[address, domain] of %r is %r instead of %r" % (l[0], f, [l[1], l[2]]), c)


# ---- part 2

class Child(life.Child):
    """keeps the commands of each connection"""

    def __init__(self, path):
        super().__init__(path)
        self.conns = []

    async def serve(self, r, w):
        log, buf = [], b""
        self.conns.append(log)
        self.open += 1
        try:
            while True:
                d = await r.read(65536)
                if not d:
                    break
                buf += d
                pk, buf = P.split_packets(buf)
                for raw in pk:
                    c = P.parse_command(raw)
                    log.append(c)
                    if c[0] == NEG:
                        w.write(P.r_negotiate(6, A_ALL, 0))
                    elif c[0] not in (MACRO, ABORT, QUIT):
                        w.write(P.r_simple(R_CONTINUE))
        except ConnectionError:
            pass
        self.open -= 1
        w.close()


HOSTS = ["unknown", "[192.0.2.1]", "mail.example.com", "mx1.example.net", "p1234-adsl05.tokyo.example.ne.jp", "dsl-1-2.example.com",
         "dhcp12.example.com", "ppp7.example.org", "DHCP12.example.com", "host12345.example.com", "1.2.example.co.jp.example.net",
         "a.1b.example.co.jp", "x3.y4-5.example.com", "x3.y4.example.co.jp", "mail.google.com", "google.com", "a.obsmtp.com", "evil.google.com.example.com",
         "dhcp.example.com", "adsl.example.com", "xdsl9.example.com", "zdsl9.example.com", "mx-1.example.com", "12-34.example.com",
         "mx.white.example.com", "mx.black.example.com", "white.example.com", "black.example.com", "listed.example.jp", "1a2.jp", "a1b2.example.jp"]
# https://www.gabacho-net.jp/en/anti-spam/anti-spam-system.html
S25R = [r"^unknown$", r"^\[.+\]$", r"^[^.]*[0-9][^0-9.]+[0-9].*\.", r"^[^.]*[0-9]{5}", r"^([^.]+\.)?[0-9][^.]*\.[^.]+\..+\.[a-z]",
        r"^[^.]*[0-9]\.[^.]*[0-9]-[0-9]", r"^[^.]*[0-9]\.[^.]*[0-9]\.[^.]+\..+\.", r"^(dhcp|dialup|ppp|[achrsvx]?dsl)[^.]*[0-9]"]
CUSTOM = [('/\\.white\\.example\\.com\\z/', lambda h: h.endswith(".white.example.com")), ('"white.example.com"', lambda h: h == "white.example.com"),
          ('/\\.black\\.example\\.com\\z/', lambda h: h.endswith(".black.example.com")), ('"black.example.com"', lambda h: h == "black.example.com"),
          ('BLOCK /\\.jp\\z/ === host', lambda h: h.endswith(".jp")), ('BLOCK host.size > 20', lambda h: len(h) > 20), ("lambda {|host| host[0] == 'm'}", lambda h: h[:1] == "m")]
DOMAINS = ["gmail.com", "hotmail.com", "yahoo.co.jp", "GMAIL.com", "example.com", "sub.example.com", "trusted.example.org", "a.trusted.example.org", "xgmail.com", "gmail.com.example.net"]
DEFAULT_TRUST = {"gmail.com", "hotmail.com", "msn.com", "yahoo.co.jp", "softbank.ne.jp", "ezweb.ne.jp", "docomo.ne.jp", "clear-code.com"}
RCPTS = ["bob@example.com", "alice@example.com", "bob@example.co.jp", "x@sub.example.co.jp", "bob@example.com.net", "Bob@example.com"]


def call(obj, method, text):
    if text.startswith("BLOCK "):
        return "%s.%s do |host|\n  %s\nend\n" % (obj, method, text[6:])
    return "%s.%s(%s)\n" % (obj, method, text)


async def conditions(ck, seed):
    rng = random.Random(seed)
    m = manager.Manager()
    names = ["s25r", "remote", "trust", "auth", "unauth", "accounts", "always"]
    kids = {n: Child(m.child_sock(n)) for n in names}
    for c in kids.values():
        await c.start()
    conf = "".join('load("/repo/data/applicable-conditions/%s.conf")\n' % n for n in ("s25r", "remote-network", "trust", "authentication", "restrict-accounts"))
    cond = {"s25r": "S25R", "remote": "Remote Network", "trust": "Trust", "auth": "Authenticated", "unauth": "Unauthenticated"}
    for n in names:
        conf += 'define_milter("%s") do |milter|\n  milter.connection_spec = "unix:%s"\n' % (n, kids[n].path)
        if n in cond:
            conf += '  milter.add_applicable_condition("%s")\n' % cond[n]
        conf += "end\n"
    white = [lambda h: h.endswith(".google.com"), lambda h: h.endswith(".obsmtp.com")]
    black = [lambda h, p=p: re.search(p, h, re.I) is not None for p in S25R]
    only4 = True
    for _ in range(rng.choice([0, 1, 3])):
        t, f = rng.choice(CUSTOM)
        if rng.random() < .5:
            conf += call("s25r", "add_whitelist", t)
            white.append(f)
        else:
            conf += call("s25r", "add_blacklist", t)
            black.append(f)
    if rng.random() < .4:
        only4 = rng.random() < .3
        conf += "s25r.only_check_ipv4 = %s\n" % ("true" if only4 else "false")
    nets = []
    for _ in range(rng.choice([0, 1, 2, 3])):
        t, net = T.network(rng)
        kind = rng.choice(["local", "remote"])
        conf += 'remote_network.add_%s_address("%s")\n' % (kind, t)
        nets.append([kind, t, net])
    trusted, regexps = set(DEFAULT_TRUST), []
    if rng.random() < .3:
        conf += "trust.clear\n"
        trusted = set()
    k = rng.random()
    if k < .3:
        conf += 'trust.add_envelope_from_domain("trusted.example.org")\n'
        trusted.add("trusted.example.org")
    elif k < .5:
        conf += 'trust.add_envelope_from_domain(/\\.trusted\\.example\\.org\\z/)\n'
        regexps.append(r"\.trusted\.example\.org$")
    elif k < .6:
        conf += 'trust.add_envelope_from_domain do |domain|\n  domain.start_with?("sub.")\nend\n'
        regexps.append(r"^sub\.")
    elif k < .8:
        with open(os.path.join(m.dir, "domains.list"), "w") as f:
            f.write("# comment\n\n  \nexample.com\n /\\.trusted\\.example\\.org/ \n  # another\nXGmail.com\n")
        os.chmod(os.path.join(m.dir, "domains.list"), 0o644)
        conf += 'trust.load_envelope_from_domains("domains.list")\n'
        trusted |= {"example.com", "xgmail.com"}
        regexps.append(r"\.trusted\.example\.org")
    accounts = rng.sample([('"bob@example.com"', lambda a: a == "bob@example.com"), ('/@example\\.co\\.jp\\z/', lambda a: a.endswith("@example.co.jp")),
                           ('/@(?:.+\\.)?example\\.co\\.jp\\z/', lambda a: re.search(r"@(.+\.)?example\.co\.jp$", a) is not None)], rng.choice([1, 2]))
    conf += "restrict_accounts_by_list(%s, milters: [\"accounts\"])\n" % ", ".join(a[0] for a in accounts)
    m.write_config(conf)
    what = "seed=%r" % (seed,)

    def bad(key, text, s):
        ck.violation("condition-" + key, "%s; session %r (%s)\nconfiguration:\n%s\n%s" % (text, s, what, conf, m.errors()[-1500:]), {"seed": seed, "config": conf, "session": repr(s)})
    try:
        m.start()
        for i in range(14):
            host = rng.choice(HOSTS)
            fam = rng.choice("44446LU")
            near = [n[2] for n in nets if fam == str(n[2].version)]
            spec = {"4": ["4", T.v4(rng)], "6": ["6", T.v6(rng, False)], "L": ["L", "/tmp/x.sock"], "U": ["U"]}[fam]
            if near and rng.random() < .7:
                while True:
                    spec = T.lookup_near(rng, near)
                    if spec[0] == fam:
                        break
            helo_macros = [] if rng.random() < .9 else [("v", "Postfix 3.5")]
            msgs = []
            for _ in range(rng.choice([1, 1, 2])):
                dom = rng.choice(DOMAINS)
                auth = rng.choice([[], [], [("auth_type", "PLAIN")], [("auth_authen", "bob")], [("auth_type", "LOGIN"), ("auth_authen", "bob")], [("mail_addr", "x@y")]])
                msgs.append((rng.choice(["<u@%s>" % dom, "<u@%s>" % dom, "<>", "u@%s" % dom]), auth,
                             rng.sample([rng.choice(["<%s>", "<%s>", "%s"]) % a for a in RCPTS], rng.choice([1, 1, 2, 3]))))
            s = (host, spec, helo_macros, msgs)
            for c in kids.values():
                c.conns.clear()
            r, w = await asyncio.open_unix_connection(m.sock)
            buf = b""

            async def ask(data):
                nonlocal buf
                w.write(data)
                while True:
                    pk, buf = P.split_packets(buf)
                    if pk:
                        return P.parse_reply(pk[0])
                    d = await asyncio.wait_for(r.read(65536), 60)
                    if not d:
                        raise ConnectionError("closed")
                    buf += d
            try:
                await ask(P.c_negotiate(6, A_ALL, P_ALL & ~P_SKIP))
                w.write(P.c_macro(CONN, [("j", "mx")] + helo_macros))
                if fam == "U":
                    rp = await ask(P.c_connect(host, "U"))
                else:
                    rp = await ask(P.c_connect(host, spec[0], 25 if fam != "L" else 0, spec[1]))
                log = [rp]
                log.append(await ask(P.c_helo("helo.example.com")))
                for frm, auth, rcpts in msgs:
                    w.write(P.c_macro(MAIL, auth))
                    log.append(await ask(P.c_mail(frm)))
                    for rc in rcpts:
                        log.append(await ask(P.c_rcpt(rc)))
                    for data in (P.pkt(DATA), P.c_header("Subject", "x"), P.pkt(EOH), P.c_body(b"text"), P.c_eom()):
                        log.append(await ask(data))
                w.write(P.pkt(QUIT))
                await asyncio.wait_for(r.read(10), 60)
            except (ConnectionError, asyncio.TimeoutError, P.ProtoError) as e:
                bad("session", "the session failed: %r" % e, s)
                break
            finally:
                w.close()
            for _ in range(400):
                if all(c.open == 0 for c in kids.values()):
                    break
                await asyncio.sleep(.01)
            if any(rp[0] not in (R_CONTINUE, R_ACCEPT) for rp in log):
                bad("reply", "replies %r" % (log,), s)
            ck.count("sessions")
            ck.case((seed, s), s if i == 3 else None)
            for n in names:
                if len(kids[n].conns) != 1:
                    bad("connection", "child %s was connected to %d times" % (n, len(kids[n].conns)), s)
            got = {n: kids[n].conns[0] if kids[n].conns else [] for n in names}

            def messages(n):
                """the child's view of each message: (mail, [rcpt], reached end of message, macros at MAIL)"""
                out, mac = [], {}
                for c in got[n]:
                    if c[0] == MACRO:
                        mac[c[1]] = dict(c[2])
                    elif c[0] == MAIL:
                        out.append([c[1][0], [], False, mac.pop(MAIL, {})])
                    elif c[0] == RCPT and out:
                        out[-1][1].append(c[1][0])
                    elif c[0] == EOM and out:
                        out[-1][2] = True
                return out
            all_msgs = [(B(f), [B(x) for x in rc], True) for f, _, rc in msgs]
            is4 = fam == "4"
            isw = (only4 and not is4) or any(f(host) for f in white)
            isb = not (only4 and not is4) and any(f(host) for f in black)
            local = T.is_local(nets, spec)
            want = {"s25r": all_msgs if not isw and isb else [], "remote": all_msgs if local[1] else [], "trust": all_msgs, "always": all_msgs}
            if any(mm[1] and any(k in ("auth_type", "auth_authen") for k, _ in mm[1]) for mm in msgs):
                ck.count("authenticated_sessions")
            authed = [any(k in ("auth_type", "auth_authen") for k, _ in mm[1]) for mm in msgs]
            want["auth"] = [x for x, a in zip(all_msgs, authed) if a]
            want["unauth"] = [x for x, a in zip(all_msgs, authed) if not a]
            for n, wl in want.items():
                g = [tuple(x[:3]) for x in messages(n)]
                if g != wl:
                    bad(n, "child %s took part in %r instead of %r" % (n, g, wl), s)
                ck.count("children_applied" if wl else "children_withheld")
            # {trusted_domain} is given exactly for trusted senders
            for g, (frm, _, _) in zip(messages("trust"), msgs):
                mm = re.match(r"<(.+?)@(.+?)>$", frm)
                d = mm.group(2).lower() if mm else None
                w_ = bool(d and (d in trusted or any(re.search(p, d, re.I) for p in regexps)))
                if (g[3].get(b"trusted_domain") == b"yes") != w_:
                    bad("trust-macro", "the macros given with %r to the child are %r" % (frm, g[3]), s)
                ck.count("trusted_senders" if w_ else "untrusted_senders")
            # only the listed accounts reach the child; a message without any does not
            g = {x[0] + b"%d" % i: x for i, x in enumerate(messages("accounts"))}
            for i2, (frm, _, rcpts) in enumerate(msgs):
                hit = [x for x in rcpts if any(f(re.sub(r"^<(.+)>$", r"\1", x)) for _, f in accounts)]
                x = g.get(B(frm) + b"%d" % i2)
                if x is None:
                    bad("accounts", "the child did not see message %d" % i2, s)
                    continue
                if x[1] != [B(h) for h in hit]:
                    bad("accounts", "the child saw the recipients %r instead of %r" % (x[1], hit), s)
                if x[2] and not hit:
                    bad("accounts", "the child saw the message of %r although no recipient is listed" % (rcpts,), s)
                if not x[2] and len(hit) == len(rcpts):
                    bad("accounts", "the child did not see the end of message %d for %r" % (i2, rcpts), s)
                ck.count("restricted_messages")
        if not m.alive():
            bad("died", "milter-manager ended with %r" % m.proc.returncode, None)
        for key, t in manager.diagnostics(m.errors()):
            ck.violation(key, t[:1500] + what, {"seed": seed})
    finally:
        m.stop()
        for key, t in manager.diagnostics(m.errors()):
            ck.violation(key, t[:1500] + what, {"seed": seed})
        m.cleanup()
        for c in kids.values():
            await c.stop()


async def all_conditions(ck):
    sem = asyncio.Semaphore(4)

    async def one(i):
        async with sem:
            await conditions(ck, "%d/%d" % (ck.seed, i))
    await asyncio.gather(*[one(i) for i in range(ck.n(8, 120))])


def run():
    ck = Check("C26", RULE)
    ck.assumptions = ["regular expressions in the common subset of Ruby, POSIX and Python", "networks are written with their host bits clear",
                      "messages with listed and unlisted recipients: only the recipients are judged (the documentation leaves the rest open)"]
    for b in range(ck.n(2, 40)):
        tables(ck, b)
    asyncio.run(all_conditions(ck))
    ck.finish()


main(run)
