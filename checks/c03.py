import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import wiregen as G
import milterproto as P
from core import Driver, x, san_key

CMD_CODES = set("ODCHMRTLNBEAQUK")
REP_CODES = set("O+-24abcdefhimpqrsty")


def cmd_bad(b):
    """why this packet content cannot be a milter command (None: it may be one)"""
    if not b:
        return "empty packet"
    c, d = chr(b[0]), b[1:]
    if c not in CMD_CODES:
        return "unknown command"
    if c == "O":
        return "short negotiation" if len(d) < 12 else None
    if c == "D":
        if not d:
            return "macro without stage"
        if chr(d[0]) not in "CHMRTLNBEAQUODK":
            return None
        return "unterminated macro" if len(d) > 1 and b"\0" not in d[1:] else None
    if c == "C":
        if b"\0" not in d:
            return "unterminated host"
        r = d[d.index(b"\0") + 1:]
        if not r:
            return "no family"
        if r[:1] == b"U":
            return None
        if r[:1] not in (b"4", b"6", b"L"):
            return "unknown family"
        if len(r) < 4:
            return "no address"
        if b"\0" not in r[3:]:
            return "unterminated address"
        return None
    if c in "HMRU":
        return "unterminated string" if b"\0" not in d else None
    if c == "L":
        i = d.find(b"\0")
        return "unterminated header" if i < 0 or b"\0" not in d[i + 1:] else None
    if c in "TNAQK":
        return "unexpected data" if d else None
    return None


def rep_bad(b):
    if not b:
        return "empty packet"
    c, d = chr(b[0]), b[1:]
    if c not in REP_CODES:
        return "unknown reply"
    if c == "O":
        if len(d) < 12:
            return "short negotiation"
        d = d[12:]
        while d:
            if len(d) < 4:
                return "cut macro stage"
            if struct.unpack_from("!I", d)[0] > 6:
                return "unknown macro stage"
            i = d.find(b"\0", 4)
            if i < 0:
                return "unterminated macro names"
            d = d[i + 1:]
        return None
    if c == "y":
        if len(d) < 4 or d[:1] not in (b"4", b"5") or not d[:3].isdigit():
            return "bad reply code"
        return "unterminated reply code" if b"\0" not in d else None
    if c in "+-2eq":
        return "unterminated string" if b"\0" not in d else None
    if c == "h":
        i = d.find(b"\0")
        return "unterminated header" if i < 0 or b"\0" not in d[i + 1:] else None
    if c in "im":
        i = d.find(b"\0", 4)
        return "unterminated header" if len(d) < 4 or i < 0 or b"\0" not in d[i + 1:] else None
    if c in "4acdfprst":
        return "unexpected data" if d else None
    return None


def word_bad(words):
    def f(b):
        if not b:
            return "empty packet"
        if b"\0" not in b:
            return "unterminated command"
        w = b[:b.index(b"\0")]
        if w not in words:
            return "unknown command"
        if w == b"launch" and b"\0" not in b[7:]:
            return "unterminated command line"
        if w in (b"reload", b"get-status", b"get-configuration", b"success") and len(b) > len(w) + 1:
            return "unexpected data"
        return None
    return f


KINDS = {
    "command": (None, cmd_bad),
    "reply": (None, rep_bad),
    "control-command": ([b"set-configuration", b"get-configuration", b"reload", b"get-status", b"stop-child"],
                        word_bad([b"set-configuration", b"get-configuration", b"reload", b"get-status"])),
    "control-reply": ([b"success", b"failure", b"error", b"configuration", b"status"],
                      word_bad([b"success", b"failure", b"error", b"configuration", b"status"])),
    "launch-command": ([b"launch"], word_bad([b"launch"])),
    "manager-reply": ([b"success", b"failure", b"error"], word_bad([b"success", b"failure", b"error"])),
}


def packet(r, kind):
    if kind == "command":
        return G.command(r)[2]
    if kind == "reply":
        return G.reply(r)[2]
    w = r.choice(KINDS[kind][0])
    d = b""
    if w in (b"set-configuration", b"failure", b"error", b"configuration", b"status"):
        d = G.blob(r, r.choice([0, 1, 5, 50, 3000]))
    elif w == b"launch":
        d = G.text(r) + b"\0" + (G.text(r) if r.random() < .5 else b"")
    return struct.pack("!I", len(w) + 1 + len(d)) + w + b"\0" + d


SPECIAL = [b"\0", b"\0\0\0\0", b"\xff\xff\xff\xff", b"\x7f\xff\xff\xff", b"\x80\0\0\0", b"\0\0\0\1",
           b"\0\1", b"A" * 300, b"%n%s"]


def mutate(r, kind, pk):
    """one packet made (possibly) ill-formed; the length is usually repaired"""
    body = bytearray(pk[4:])
    for _ in range(r.choice([1, 1, 1, 2, 4])):
        m = r.randint(0, 9)
        if m == 0 and body:
            del body[r.randint(0, len(body) - 1):]
        elif m == 1 and body:
            i = r.randint(0, len(body) - 1)
            body[i] = r.choice([0, 1, 0x20, 0x7f, 0x80, 0xff, r.randint(0, 255)])
        elif m == 2 and body:
            del body[r.randint(0, len(body) - 1)]
        elif m == 3:
            i = r.randint(0, len(body))
            body[i:i] = r.choice(SPECIAL)
        elif m == 4 and body.endswith(b"\0"):
            del body[-1]
        elif m == 5:
            body += r.choice(SPECIAL)
        elif m == 6 and b"\0" in body:
            zs = [i for i, c in enumerate(body) if c == 0]
            i = r.choice(zs)
            if r.random() < .5:
                del body[i]
            else:
                body[i] = 0x41
        elif m == 7 and body:
            body = body[:1]
        elif m == 8 and body:
            body[0] = r.randint(0, 255)
        elif m == 9:
            body = bytearray(r.randbytes(r.choice([0, 1, 2, 5, 13, 40])))
            if body and r.random() < .7 and kind in ("command", "reply"):
                body[0] = ord(r.choice(sorted(CMD_CODES if kind == "command" else REP_CODES)))
    n = len(body)
    if r.random() < .12:
        n = r.choice([0, 1, n + 1, max(0, n - 1), 2**31, 2**32 - 1, 2**31 - 1, 2**24, n + 1000])
    return struct.pack("!I", n) + bytes(body)


def symlists(r):
    """a negotiation reply with macro requests, most of them with one flaw"""
    d = struct.pack("!III", r.choice([2, 4, 6]), r.getrandbits(9), r.getrandbits(21))
    n = r.randint(1, 4)
    flaw = r.randrange(n) if r.random() < .8 else None
    for i in range(n):
        st, names, end = r.randint(0, 6), r.choice([b"", b"", b"i", b"i j {auth_type}", b"  ", G.text(r)]), b"\0"
        st = struct.pack("!I", st)
        if i == flaw:
            k = r.randint(0, 4)
            if k == 0:
                st = struct.pack("!I", r.choice([7, 8, 0x0101, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32)]))
            elif k == 1:
                st = st[:r.randint(0, 3)]
            elif k == 2:
                end = b""
            elif k == 3:
                names, end = b"", r.choice([b"\0\0", b""])
            else:
                st = b"\0" + st
        d += st + names + end
    return struct.pack("!I", len(d) + 1) + b"O" + d


def stream(r, kind):
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        if kind == "reply" and r.random() < .12:
            out.append(symlists(r))
            continue
        p = packet(r, kind)
        if len(p) > 8000:
            p = packet(r, kind)
        if r.random() < .65:
            p = mutate(r, kind, p)
        out.append(p)
    s = b"".join(out)
    if r.random() < .1:
        s = s[:r.randint(0, len(s))]
    if r.random() < .03:
        s = r.randbytes(r.randint(1, 60))
    return s[:40000]


def expect(s, bad):
    """-> (index of the first definitely bad packet or None, packets before, complete?)"""
    i, k = 0, 0
    while len(s) - i >= 4:
        (n,) = struct.unpack_from("!I", s, i)
        if n == 0 or n >= 2**31:
            return k, "length %d" % n
        if len(s) - i - 4 < n:
            return None, "incomplete"
        why = bad(s[i + 4:i + 4 + n])
        if why:
            return k, why
        i += 4 + n
        k += 1
    return None, "incomplete" if len(s) > i else None


def outcome(replies):
    """events and the first error of one pass"""
    ev, err = [], None
    for lines in replies:
        for l in lines:
            if l.startswith("ev ") and err is None:
                ev.append(l)
            elif l.startswith("ret "):
                w = l.split()
                if err is None and (w[1] == "0" or w[2] == "error"):
                    err = w[1:5] if w[2] == "error" else w[1:3]
    return ev, err


def run():
    c = Check("C03", "byte streams of valid and mutated packets (dropped terminators, lengths, codes, splices, "
              "truncation, random bytes) for six decoders, each decoded whole and under two random "
              "fragmentations under AddressSanitizer and UBSan with exact-capacity buffers; non-trivial: "
              "the stream holds a byte; distinct by stream")
    d = Driver()
    total = c.n(9000, 120000)
    r = c.rng("streams")
    batch, meta = [], []
    for i in range(total):
        kind = r.choice(["command"] * 4 + ["reply"] * 4 + ["control-command", "control-reply", "launch-command",
                                                           "manager-reply"])
        s = stream(r, kind)
        cs, shape = [], []
        for f in range(3):
            fr = [s] if f == 0 else G.cut(r, s)
            cs += ["dnew " + kind] + ["dfeed " + x(q) for q in fr] + ["dend"]
            shape.append(len(fr) + 2)
        batch.append(cs)
        meta.append((kind, s, shape))
        if len(batch) == 500 or i == total - 1:
            judge(c, d, batch, meta)
            batch, meta = [], []
    c.finish()


def judge(c, d, batch, meta):
    for (rep, crash), (kind, s, shape), cs in zip(d.run(batch), meta, batch):
        if crash:
            c.violation("crash:%s:%s" % (kind, san_key(crash)), crash[:3000], cs)
            continue
        c.case((kind, s), "%s %s" % (kind, s[:100].hex()) if s else None)
        c.count("fragments", sum(shape) - 6)
        outs, i = [], 0
        for n in shape:
            outs.append(outcome(rep[i:i + n]))
            i += n
        idx, why = expect(s, KINDS[kind][1])
        ev, err = outs[0]
        c.count("events", len(ev))
        for o in outs[1:]:
            if o != outs[0]:
                c.violation("fragmentation:" + kind, "stream %s decodes to %r whole but %r in pieces" %
                            (s.hex()[:400], outs[0], o), cs)
                break
        if idx is not None:
            c.count("definitely_malformed")
            if err is None:
                c.violation("accepted:%s:%s" % (kind, why), "%s: stream %s gives %r and no error" %
                            (why, s.hex()[:400], ev[-2:]), cs)
            elif err[1] != "error":
                c.violation("no-error-text:%s:%s" % (kind, why), "failed without an error: %s" % s.hex()[:400], cs)
            if len(ev) > idx:
                c.violation("invented:%s:%s" % (kind, why), "packet %d of stream %s is malformed (%s) but %r" %
                            (idx, s.hex()[:400], why, ev[-1]), cs)
        elif why == "incomplete":
            c.count("incomplete")
            if err is None:
                c.violation("incomplete:" + kind, "stream %s ends inside a packet, but no error" % s.hex()[:400], cs)
        elif err is not None:
            c.count("otherwise_refused")
            if err[1] != "error":
                c.violation("no-error-text:" + kind, "failed without an error: %s" % s.hex()[:400], cs)


main(run)
