"""Random protocol values with (driver request, wire bytes, expected decoder event)."""
import ipaddress
import socket
import milterproto as P
from core import x

SPICE = [b"", b" ", b"\x01", b"\xff", b"%s%n", b"<>", b"\r\n", b"\t", b"{", b"}", b"=", b"\x80\x7f"]


def text(r, lo=1, hi=40, big=False):
    """bytes without NUL, at least lo long"""
    k = r.random()
    if k < .3:
        n = r.randint(lo, max(lo, 4))
    elif big and k > .97:
        n = r.randint(200, 70000)
    else:
        n = r.randint(lo, hi)
    mode = r.random()
    if mode < .6:
        s = bytes(r.choice(b"abcXYZ019-_.@<>: ;") for _ in range(n))
    elif mode < .9:
        s = bytes(r.randint(1, 255) for _ in range(n))
    else:
        s = b"".join(r.choice(SPICE[1:]) for _ in range(n))[:max(n, 1)]
    return s or b"a" * lo


def blob(r, n):
    m = r.random()
    if m < .4:
        return r.randbytes(n)
    if m < .6:
        return bytes(n)
    if m < .8:
        return bytes(r.choice(b"\0\0ab\r\n.") for _ in range(n)) if n < 5000 else (b"\0ab\r\n" * n)[:n]
    return b"X" * n


def size(r, thorough=False):
    k = r.random()
    if k < .5:
        return r.randint(1, 60)
    if k < .8:
        return r.randint(1, 3000)
    if k < .9:
        return r.choice([65534, 65535, 65533, 4096, 4095, 4097, 8192])
    return r.randint(1, 65535)


def name(r):
    while True:
        s = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz_ABCXYZ0123456789-") for _ in range(r.choice([1, 1, 2, 5, 20])))
        if s:
            return s


def u32(r):
    return r.choice([0, 1, 2, 6, 255, 256, 65535, 2**31 - 1, r.getrandbits(31), r.getrandbits(8)])


def opt(r):
    """the flag bits the protocol defines (a MilterOption holds no others)"""
    return (r.choice([2, 3, 4, 6, u32(r)]), r.choice([P.A_ALL, 0, u32(r) & P.A_ALL]),
            r.choice([P.P_ALL, 0, u32(r) & P.P_ALL]))


def ev_addr(fam, port, addr):
    if fam == "4":
        return "inet:%s:%d:1" % (addr.decode(), port)
    if fam == "6":
        return "inet6:%s:%d:1" % (addr.decode(), port)
    if fam == "L":
        return "unix:%s:0:1" % addr.hex()
    return "family0:::"


def command(r):
    """-> (kind, driver line, wire, event, meta)"""
    k = r.choice("OODDDCCCHMRUTLLLLNBBBEEAQ")
    if k == "O":
        v, a, s = opt(r)
        return k, "c_negotiate %d %d %d" % (v, a, s), P.c_negotiate(v, a, s), "negotiate %d:%d:%d" % (v, a, s)
    if k == "D":
        c = r.choice("CHMRTLNBEU")
        d = {}
        for _ in range(r.choice([0, 1, 1, 2, 5])):
            d[name(r)] = r.choice([b"", text(r), text(r)])
        w = P.c_macro(c, d.items())
        line = "c_macro %d" % ord(c) + "".join(
            " %s %s" % (x(b"{" + n + b"}" if len(n) > 1 else n) if r.random() < .5 else x(n), x(v))
            for n, v in d.items())
        ev = "define-macro %d" % ord(c) + "".join(" %s %s" % (x(n), x(v)) for n, v in sorted(d.items()))
        return k, line, w, ev
    if k == "C":
        h = text(r)
        f = r.choice("446LLU")
        port = r.choice([0, 1, 25, 65535, r.getrandbits(16)])
        if f == "4":
            a = str(ipaddress.IPv4Address(r.getrandbits(32))).encode()
            line = "c_connect %s inet %s %d" % (x(h), a.decode(), port)
        elif f == "6":
            n = r.choice([1, 0, r.getrandbits(128), r.getrandbits(128) & r.getrandbits(128) & r.getrandbits(128),
                          0xffff << 32 | r.getrandbits(32), r.getrandbits(16) << 112])
            a = str(ipaddress.IPv6Address(n)).encode()
            a = socket.inet_ntop(socket.AF_INET6, n.to_bytes(16, "big")).encode()
            line = "c_connect %s inet6 %s %d" % (x(h), a.decode(), port)
        elif f == "L":
            a = b"/" + text(r, 1, 100)[:106]
            if r.random() < .2:
                a = (a + b"y" * 107)[:107]
            port = 0
            line = "c_connect %s unix %s 0" % (x(h), x(a))
        else:
            a, port = b"", 0
            line = "c_connect %s unknown - 0" % x(h)
        wa = (b"IPv6:" if f == "6" and r.random() < .5 else b"") + a
        return k + f, line, P.c_connect(h, f, port, wa), "connect %s %s" % (x(h), ev_addr(f, port, a))
    if k in "HMRU":
        t = text(r, big=True)
        c, sig = {"H": ("c_helo", "helo"), "M": ("c_from", "envelope-from"),
                  "R": ("c_rcpt", "envelope-recipient"), "U": ("c_unknown", "unknown")}[k]
        return k, "%s %s" % (c, x(t)), P.c_args(k, t), "%s %s" % (sig, x(t))
    if k == "L":
        n, v = text(r, 1, 30), (b"" if r.random() < .15 else text(r, 1, 120, True))
        return k, "c_header %s %s" % (x(n), x(v)), P.c_header(n, v), "header %s %s" % (x(n), x(v))
    if k == "B":
        b = blob(r, size(r))
        return k, "%s %s" % (r.choice(["c_body", "c_body_bytes"]), x(b)), P.c_body(b), "body %s %d" % (x(b), len(b))
    if k == "E":
        if r.random() < .4:
            return k, "c_eom -", P.c_eom(), "end-of-message - 0"
        b = blob(r, size(r))
        return k, "c_eom " + x(b), P.c_eom(b), "end-of-message %s %d" % (x(b), len(b))
    c, sig = {"T": ("c_data", "data"), "N": ("c_eoh", "end-of-header"), "A": ("c_abort", "abort"),
              "Q": ("c_quit", "quit")}[k]
    return k, c, P.pkt(k), sig


def replycode(r):
    c = r.choice([400, 421, 451, 499, 500, 550, 554, 599, r.randint(400, 599)])
    e = "%d.%d.%d" % (c // 100, r.randint(0, 999), r.randint(0, 999)) if r.random() < .8 else None
    msgs = []
    for _ in range(r.choice([0, 1, 1, 1, 1, 2, 3])):
        while True:
            t = bytes(b for b in text(r) if b not in b"\r\n")
            # text which itself looks like a code is indistinguishable from one
            if t and not t[:1].isdigit() and not t.startswith((b" ", b"-")):
                break
        msgs.append(t)
    return c, e, msgs


def replycode_wire(c, e, msgs, sep):
    pre = lambda last: b"%d" % c + (b" " if last else sep) + (e.encode() if e else b"")
    if not msgs:
        return (b"%d" % c) + (b" " + e.encode() if e else b"")
    return b"\r\n".join(pre(i == len(msgs) - 1) + (b" " if e else b"") + m for i, m in enumerate(msgs))


def reply(r):
    k = r.choice("OOcyyytradhhiiimmmee++-bbbpqq4fs")
    if k == "O":
        v, a, s = opt(r)
        m = {}
        for st in r.sample(range(7), r.choice([0, 0, 1, 2, 7])):
            m[st] = []
            for _ in range(r.choice([1, 2, 5])):
                n = name(r)
                if n not in m[st]:
                    m[st].append(n)
        line = "r_negotiate %d %d %d" % (v, a, s) + "".join(
            " %d:%s" % (ord(P.STAGE[st]), ",".join(x(n) for n in ns)) for st, ns in m.items())
        wire = P.r_negotiate(v, a, s, {st: [b"{" + n + b"}" if len(n) > 1 else n for n in ns] for st, ns in m.items()})
        return k, line, wire, ("neg", v, a, s, {P.STAGE[st]: ns for st, ns in m.items()})
    if k == "y":
        c, e, msgs = replycode(r)
        w = replycode_wire(c, e, msgs, r.choice([b" ", b"-"]))
        return k, "r_reply_code " + x(w), P.r_replycode(w), \
            "reply-code %d %s %s" % (c, x(e), x(b"\r\n".join(msgs)) if msgs else "-")
    simple = {"c": ("r_continue", "continue"), "t": ("r_tempfail", "temporary-failure"),
              "r": ("r_reject", "reject"), "a": ("r_accept", "accept"), "d": ("r_discard", "discard"),
              "p": ("r_progress", "progress"), "4": ("r_shutdown", "shutdown"),
              "f": ("r_connfail", "connection-failure"), "s": ("r_skip", "skip")}
    if k in simple:
        return k, simple[k][0], P.pkt(k), simple[k][1]
    n = text(r, 1, 30)
    v = b"" if r.random() < .15 else text(r, 1, 120, True)
    if k == "h":
        return k, "r_add_header %s %s" % (x(n), x(v)), P.r_addhdr(n, v), "add-header %s %s" % (x(n), x(v))
    if k == "i":
        i = u32(r)
        return k, "r_insert_header %d %s %s" % (i, x(n), x(v)), P.r_inshdr(i, n, v), \
            "insert-header %d %s %s" % (i, x(n), x(v))
    if k == "m":
        i = u32(r)
        if v and r.random() < .7:
            return k, "r_change_header %s %d %s" % (x(n), i, x(v)), P.r_chghdr(i, n, v), \
                "change-header %s %d %s" % (x(n), i, x(v))
        return k + "d", r.choice(["r_delete_header %s %d" % (x(n), i), "r_change_header %s %d x" % (x(n), i)]), \
            P.r_chghdr(i, n, b""), "delete-header %s %d" % (x(n), i)
    if k == "e":
        if v and r.random() < .5:
            return k, "r_change_from %s %s" % (x(n), x(v)), P.r_chgfrom(n, v), "change-from %s %s" % (x(n), x(v))
        return k, "r_change_from %s %s" % (x(n), r.choice(["-", "x"])), P.r_chgfrom(n), "change-from %s -" % x(n)
    if k == "+":
        if v and r.random() < .5:
            return "2", "r_add_rcpt %s %s" % (x(n), x(v)), P.r_addrcpt_par(n, v), "add-recipient %s %s" % (x(n), x(v))
        return k, "r_add_rcpt %s -" % x(n), P.r_addrcpt(n), "add-recipient %s -" % x(n)
    if k == "-":
        return k, "r_del_rcpt " + x(n), P.r_delrcpt(n), "delete-recipient " + x(n)
    if k == "q":
        return k, "r_quarantine " + x(n), P.r_quarantine(n), "quarantine " + x(n)
    b = blob(r, size(r))
    return "b", "r_body " + x(b), P.r_replbody(b), "replace-body %s %d" % (x(b), len(b))


def cut(r, data, bounds=()):
    """random fragmentation of data"""
    mode = r.random()
    n = len(data)
    if mode < .15 or n == 0:
        return [data]
    if mode < .25 and n < 400:
        return [data[i:i + 1] for i in range(n)]
    if mode < .55 and bounds:
        pts = set()
        for b in bounds:
            if r.random() < .7:
                pts.add(max(0, min(n, b + r.choice([-2, -1, 0, 0, 1, 2, 3, 4, 5]))))
    else:
        k = r.choice([1, 2, 5, 20])
        pts = {r.randint(0, n) for _ in range(k)}
    pts = sorted(pts | {0, n})
    return [data[a:b] for a, b in zip(pts, pts[1:])]
