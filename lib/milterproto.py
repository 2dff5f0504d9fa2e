"""Independent implementation of the milter wire protocol (written from the
protocol description, not from the code under test)."""
import struct

# commands
NEG, MACRO, CONN, HELO, MAIL, RCPT, DATA, HDR, EOH, BODY, EOM, ABORT, QUIT, UNKNOWN, QUIT_NC = \
    "O", "D", "C", "H", "M", "R", "T", "L", "N", "B", "E", "A", "Q", "U", "K"

# actions (SMFIF_*)
A_ADDHDRS, A_CHGBODY, A_ADDRCPT, A_DELRCPT, A_CHGHDRS, A_QUARANTINE, A_CHGFROM, \
    A_ADDRCPT_PAR, A_SETSYMLIST = [1 << i for i in range(9)]
A_ALL = (1 << 9) - 1
# steps (SMFIP_*)
P_NOCONNECT, P_NOHELO, P_NOMAIL, P_NORCPT, P_NOBODY, P_NOHDRS, P_NOEOH, P_NR_HDR, \
    P_NOUNKNOWN, P_NODATA, P_SKIP, P_RCPT_REJ, P_NR_CONN, P_NR_HELO, P_NR_MAIL, P_NR_RCPT, \
    P_NR_DATA, P_NR_UNKN, P_NR_EOH, P_NR_BODY, P_HDR_LEADSPC = [1 << i for i in range(21)]
P_ALL = (1 << 21) - 1
P_NO_EVENTS = (P_NOCONNECT | P_NOHELO | P_NOMAIL | P_NORCPT | P_NOBODY | P_NOHDRS | P_NOEOH |
               P_NOUNKNOWN | P_NODATA)
P_NR_ALL = (P_NR_HDR | P_NR_CONN | P_NR_HELO | P_NR_MAIL | P_NR_RCPT | P_NR_DATA | P_NR_UNKN |
            P_NR_EOH | P_NR_BODY)
NOSTEP = {CONN: P_NOCONNECT, HELO: P_NOHELO, MAIL: P_NOMAIL, RCPT: P_NORCPT, BODY: P_NOBODY,
          HDR: P_NOHDRS, EOH: P_NOEOH, UNKNOWN: P_NOUNKNOWN, DATA: P_NODATA}
NRSTEP = {CONN: P_NR_CONN, HELO: P_NR_HELO, MAIL: P_NR_MAIL, RCPT: P_NR_RCPT, DATA: P_NR_DATA,
          UNKNOWN: P_NR_UNKN, EOH: P_NR_EOH, BODY: P_NR_BODY, HDR: P_NR_HDR}
# macro stages in a negotiate reply
STAGE = {0: CONN, 1: HELO, 2: MAIL, 3: RCPT, 4: DATA, 5: EOM, 6: EOH}
STAGE_OF = {v: k for k, v in STAGE.items()}


def B(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


def z(s):
    return B(s) + b"\0"


def pkt(code, data=b""):
    return struct.pack("!I", len(data) + 1) + B(code) + data


class ProtoError(Exception):
    pass


# ---- MTA -> milter -------------------------------------------------------
def c_negotiate(version, actions, steps):
    return pkt(NEG, struct.pack("!III", version, actions, steps))


def c_macro(cmd, pairs):
    """pairs: iterable of (name, value); multi-letter names travel as {name}."""
    out = B(cmd)
    for k, v in pairs:
        k = B(k)
        if len(k) > 1 and not k.startswith(b"{"):
            k = b"{" + k + b"}"
        out += z(k) + z(v)
    return pkt(MACRO, out)


def c_connect(host, family, port=0, addr=b""):
    d = z(host) + B(family)
    if family != "U":
        d += struct.pack("!H", port) + z(addr)
    return pkt(CONN, d)


def c_helo(s):
    return pkt(HELO, z(s))


def c_args(cmd, *args):
    return pkt(cmd, b"".join(z(a) for a in args))


def c_mail(*a):
    return c_args(MAIL, *a)


def c_rcpt(*a):
    return c_args(RCPT, *a)


def c_unknown(s):
    return pkt(UNKNOWN, z(s))


def c_header(n, v):
    return pkt(HDR, z(n) + z(v))


def c_body(b):
    return pkt(BODY, B(b))


def c_eom(b=b""):
    return pkt(EOM, B(b))


def _strs(d, what):
    if not d.endswith(b"\0"):
        raise ProtoError("%s: unterminated %r" % (what, d))
    return d[:-1].split(b"\0")


def parse_command(raw):
    """content of one packet (without the length) -> tuple(code, fields...)"""
    c, d = chr(raw[0]), raw[1:]
    if c == NEG:
        if len(d) != 12:
            raise ProtoError("negotiate length %d" % len(d))
        return (NEG,) + struct.unpack("!III", d)
    if c == MACRO:
        cmd, d = chr(d[0]), d[1:]
        parts = _strs(d, "macro") if d else []
        if len(parts) % 2:
            raise ProtoError("macro odd")
        pairs = []
        for i in range(0, len(parts), 2):
            k = parts[i]
            if k.startswith(b"{") and k.endswith(b"}"):
                k = k[1:-1]
            pairs.append((k, parts[i + 1]))
        return (MACRO, cmd, tuple(pairs))
    if c == CONN:
        i = d.index(b"\0")
        host, fam, rest = d[:i], chr(d[i + 1]), d[i + 2:]
        if fam == "U":
            if rest:
                raise ProtoError("connect unknown with trailing data")
            return (CONN, host, fam, 0, b"")
        (port,) = struct.unpack("!H", rest[:2])
        if not rest.endswith(b"\0") or b"\0" in rest[2:-1]:
            raise ProtoError("connect address %r" % rest)
        a = rest[2:-1]
        if fam == "6" and a[:5].lower() == b"ipv6:":      # both forms are in use
            a = a[5:]
        return (CONN, host, fam, port, a)
    if c in (HELO, UNKNOWN):
        p = _strs(d, c)
        if len(p) != 1:
            raise ProtoError("%s: %r" % (c, p))
        return (c, p[0])
    if c in (MAIL, RCPT):
        return (c, tuple(_strs(d, c)))
    if c == HDR:
        p = _strs(d, c)
        if len(p) != 2:
            raise ProtoError("header %r" % (p,))
        return (HDR, p[0], p[1])
    if c == BODY or c == EOM:
        return (c, d)
    if c in (DATA, EOH, ABORT, QUIT, QUIT_NC):
        if d:
            raise ProtoError("%s with data %r" % (c, d))
        return (c,)
    raise ProtoError("unknown command %r" % raw[:20])


# ---- milter -> MTA -------------------------------------------------------
R_ADDRCPT, R_DELRCPT, R_ADDRCPT_PAR, R_SHUTDOWN, R_ACCEPT, R_REPLBODY, R_CONTINUE, R_DISCARD, \
    R_CHGFROM, R_CONNFAIL, R_ADDHDR, R_INSHDR, R_CHGHDR, R_PROGRESS, R_QUARANTINE, R_REJECT, \
    R_SKIP, R_TEMPFAIL, R_REPLYCODE = \
    "+", "-", "2", "4", "a", "b", "c", "d", "e", "f", "h", "i", "m", "p", "q", "r", "s", "t", "y"
FINAL = {R_ACCEPT, R_CONTINUE, R_DISCARD, R_REJECT, R_SKIP, R_TEMPFAIL, R_REPLYCODE, R_CONNFAIL,
         R_SHUTDOWN}
MODS = {R_ADDRCPT, R_DELRCPT, R_ADDRCPT_PAR, R_REPLBODY, R_CHGFROM, R_ADDHDR, R_INSHDR, R_CHGHDR,
        R_QUARANTINE}


def r_negotiate(version, actions, steps, macros=None):
    d = struct.pack("!III", version, actions, steps)
    for stage, names in (macros or {}).items():
        d += struct.pack("!I", stage) + z(b" ".join(B(n) for n in names))
    return pkt(NEG, d)


def r_simple(code):
    return pkt(code)


def r_replycode(text):
    return pkt(R_REPLYCODE, z(text))


def r_addhdr(n, v):
    return pkt(R_ADDHDR, z(n) + z(v))


def r_inshdr(i, n, v):
    return pkt(R_INSHDR, struct.pack("!I", i) + z(n) + z(v))


def r_chghdr(i, n, v):
    return pkt(R_CHGHDR, struct.pack("!I", i) + z(n) + z(v))


def r_chgfrom(a, args=None):
    return pkt(R_CHGFROM, z(a) + (z(args) if args is not None else b""))


def r_addrcpt(a):
    return pkt(R_ADDRCPT, z(a))


def r_addrcpt_par(a, args=None):
    return pkt(R_ADDRCPT_PAR, z(a) + (z(args) if args is not None else b""))


def r_delrcpt(a):
    return pkt(R_DELRCPT, z(a))


def r_replbody(b):
    return pkt(R_REPLBODY, B(b))


def r_quarantine(s):
    return pkt(R_QUARANTINE, z(s))


def parse_reply(raw):
    c, d = chr(raw[0]), raw[1:]
    if c == NEG:
        if len(d) < 12:
            raise ProtoError("negotiate reply length %d" % len(d))
        v = struct.unpack("!III", d[:12])
        d = d[12:]
        macros = {}
        while d:
            if len(d) < 5:
                raise ProtoError("macro request %r" % d)
            (stage,) = struct.unpack("!I", d[:4])
            i = d.index(b"\0", 4)
            macros[stage] = tuple(x for x in d[4:i].split(b" ") if x)
            d = d[i + 1:]
        return (NEG,) + v + (macros,)
    if c in (R_ACCEPT, R_CONTINUE, R_DISCARD, R_REJECT, R_SKIP, R_TEMPFAIL, R_PROGRESS, R_CONNFAIL,
             R_SHUTDOWN):
        if d:
            raise ProtoError("%s with data %r" % (c, d))
        return (c,)
    if c in (R_REPLYCODE, R_ADDRCPT, R_DELRCPT, R_QUARANTINE):
        p = _strs(d, c)
        if len(p) != 1:
            raise ProtoError("%s: %r" % (c, p))
        return (c, p[0])
    if c in (R_CHGFROM, R_ADDRCPT_PAR):
        p = _strs(d, c)
        if len(p) not in (1, 2):
            raise ProtoError("%s: %r" % (c, p))
        return (c, p[0], p[1] if len(p) == 2 else None)
    if c == R_ADDHDR:
        p = _strs(d, c)
        if len(p) != 2:
            raise ProtoError("%s: %r" % (c, p))
        return (c, p[0], p[1])
    if c in (R_INSHDR, R_CHGHDR):
        (i,) = struct.unpack("!I", d[:4])
        p = _strs(d[4:], c)
        if len(p) != 2:
            raise ProtoError("%s: %r" % (c, p))
        return (c, i, p[0], p[1])
    if c == R_REPLBODY:
        return (c, d)
    raise ProtoError("unknown reply %r" % raw[:20])


def split_packets(buf):
    """-> (list of packet contents, rest)"""
    out = []
    i = 0
    n = len(buf)
    while n - i >= 4:
        (ln,) = struct.unpack_from("!I", buf, i)
        if n - i - 4 < ln:
            break
        out.append(bytes(buf[i + 4:i + 4 + ln]))
        i += 4 + ln
    return out, bytes(buf[i:])
