import ipaddress, os, re, socket, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
from core import Driver, x, unx, san_key

HOSTS4 = {}
HOSTS6 = {}


def resolve(h, fam):
    """what the resolver of this machine says (set of addresses, or None)"""
    t = HOSTS4 if fam == 4 else HOSTS6
    if h not in t:
        try:
            f = socket.AF_INET if fam == 4 else socket.AF_INET6
            t[h] = {i[4][0].split("%")[0] for i in
                    socket.getaddrinfo(h.decode("latin-1"), None, f, socket.SOCK_STREAM)}
        except (OSError, UnicodeError):
            t[h] = None
    return t[h]


def denote(spec):
    """-> set of acceptable addresses (None: rejection), judged by the documented forms"""
    m = re.fullmatch(rb"(?:unix|local):(.+)", spec, re.S)
    if m:
        if len(m.group(1)) > 107:
            return {None}
        return {"unix:" + m.group(1).hex()}
    m = re.fullmatch(rb"inet(6?):(.*)", spec, re.S)
    if not m:
        return {None}
    six = bool(m.group(1))
    rest = m.group(2)
    m = re.fullmatch(rb"([0-9]*)(?:@(.*))?", rest, re.S)
    if not m or not rest:
        return {None}
    out = set()
    port, host = m.group(1), m.group(2)
    if port == b"":
        # documented form needs a port; port 0 is tolerated
        out.add(None)
        port = b"0"
    port = int(port)
    if port > 65535:
        return {None}
    fmt = ("inet6:%s:%d" if six else "inet:%s:%d")
    if host is None:
        return out | {fmt % ("::" if six else "0.0.0.0", port)}
    if host[:1] == b"[":
        if host[-1:] != b"]":
            return {None}
        try:
            b = socket.inet_pton(socket.AF_INET6 if six else socket.AF_INET, host[1:-1].decode("latin-1"))
        except (OSError, ValueError):
            return {None}
        return out | {fmt % (str(ipaddress.ip_address(b)) if not six else
                             socket.inet_ntop(socket.AF_INET6, b), port)}
    if host == b"" or b"[" in host or b"]" in host or b":" in host and not six:
        return {None}
    a = resolve(host, 6 if six else 4)
    if not a:
        return {None}
    return out | {fmt % (h, port) for h in a}


def gen_spec(r):
    def ip4():
        return ".".join(str(r.choice([0, 1, 127, 255, r.randrange(256)])) for _ in range(4)).encode()

    def ip6():
        b = bytearray(r.randbytes(16))
        for _ in range(r.randrange(6)):
            i = r.randrange(8)
            for k in range(i, min(8, i + r.randrange(5))):
                b[2 * k:2 * k + 2] = b"\0\0"
        if r.random() < .1:
            b[:12] = bytes(10) + b"\xff\xff"
        return socket.inet_ntop(socket.AF_INET6, bytes(b)).encode()

    def port():
        return str(r.choice([0, 1, 25, 10025, 65535, 65536, 65537, 99999, 2**31 - 1, 2**31, 2**32, 2**32 + 25,
                             2**63, 2**64 + 25, 10**30, r.randrange(65536), r.randrange(65536)])).encode()
    k = r.randrange(12)
    if k < 2:
        n = r.choice([1, 5, 30, 100, 104, 105, 106, 107, 108, 109, 110, 200, 5000])
        p = b"/" + bytes(r.choice(b"abc/. @:[]\xff\n-") for _ in range(n - 1))
        s = r.choice([b"unix:", b"unix:", b"local:"]) + p
    elif k < 5:
        s = b"inet:" + port() + r.choice([b"", b"@[" + ip4() + b"]", b"@[" + ip4() + b"]", b"@" + ip4(),
                                          b"@localhost"])
    elif k < 8:
        s = b"inet6:" + port() + r.choice([b"", b"@[" + ip6() + b"]", b"@[" + ip6() + b"]", b"@" + ip6(),
                                           b"@localhost", b"@[" + ip4() + b"]"])
    elif k < 9:
        s = r.choice([b"", b":", b"unix", b"unix:", b"inet:", b"inet6:", b"inet:@", b"inet:25@", b"inet:25@[",
                      b"inet:25@]", b"inet:25@[]", b"inet6:25@[", b"inet6:25@[]", b"inet6:25@[::1", b"inet:2 5",
                      b"inet: 25", b"inet:-1", b"inet:+25", b"inet:25x", b"inet:0x19", b"inet:25@[::1]",
                      b"inet6:25@[127.0.0.1]", b"inet:25@[1.2.3]", b"inet:25@[1.2.3.4]x", b"INET:25", b"Unix:/x",
                      b"inet4:25", b"inet :25", b" inet:25", b"unix :/x", b"inet6:", b"inet:25@[1.2.3.4]@[5.6.7.8]",
                      b"inet:25@@[1.2.3.4]", b"inet:25:26", b"inet:@[127.0.0.1]", b"tcp:25", b"unknown",
                      b"inet6:25@[::1]]", b"inet:25@[127.0.0.1 ]", b"local:", b"localx:/a", b"inet:00025",
                      b"inet:025@[127.0.0.1]", b"inet6:25@[fe80::1%lo]", b"inet6:25@[::ffff:1.2.3.4]"])
    else:
        s = bytearray(gen_spec(r))
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(s) + 1)
            o = r.randrange(3)
            c = r.choice(b"0123456789:@[].abcdefinetux \x01\xff")
            if o == 0:
                s[i:i] = bytes([c])
            elif i < len(s):
                if o == 1:
                    del s[i]
                else:
                    s[i] = c
        s = bytes(s)
        # a mutated host name would have to be looked up
        m = re.fullmatch(rb"inet6?:[0-9]*@([^\[].*)", s, re.S)
        if m and m.group(1) != b"localhost" and not re.fullmatch(rb"[0-9]+(\.[0-9]+){3}", m.group(1)):
            s = b"inet:" + port()
    return s


# ---- ESMTP ----
AT = rb"[A-Za-z0-9!#$%&'*+\-/=?^_`{|}~]"
ATL = AT
QT = rb'(?:[\x01-\x08\x0e-\x1f\x7f!#-\[\]-~]|\\[\x01-\x09\x0b\x0c\x0e-\x7e])'
LDOM = rb"(?:\[(?:[\x01-\x08\x0e-\x1f\x7f!-Z^-~]|\\[\x01-\x09\x0b\x0c\x0e-\x7e])*\]|[A-Za-z0-9][A-Za-z0-9-]*(?:\.[A-Za-z0-9-]*)*)"
# everything the grammar in the code's own comments could mean: the widest reading
LOCAL_WIDE = rb'(?:"(?:[^"\\\0]|\\[^\0])*"|%s*(?:\.%s*)*)' % (AT, AT)
DOM_WIDE = rb"(?:\[(?:[^\[\]\\\0]|\\[^\0])*\]|[A-Za-z0-9][A-Za-z0-9.-]*)"
LOCAL_STRICT = rb'(?:"(?:[!#-\[\]-~]|\\[!-~])*"|%s+(?:\.%s+)*)' % (AT, AT)
DOM_STRICT = (rb"(?:\[(?:[!-Z^-~]|\\[!-~])+\]|[A-Za-z0-9](?:[A-Za-z0-9-]*[A-Za-z0-9])?"
              rb"(?:\.[A-Za-z0-9](?:[A-Za-z0-9-]*[A-Za-z0-9])?)*)")


def paths(local, dom):
    return rb"<(?:@%s(?:,+@%s)*,?:)?%s@%s>" % (dom, dom, local, dom) if local is LOCAL_WIDE \
        else rb"<(?:@%s(?:,@%s)*:)?%s@%s>" % (dom, dom, local, dom)


PAR = rb"[A-Za-z0-9][A-Za-z0-9-]*(?:=[!-<>-~]%s)?"
STRICT = re.compile(rb"(<>|%s)((?: %s)*)" % (paths(LOCAL_STRICT, DOM_STRICT), PAR % b"+"), re.S)
WIDE = re.compile(rb"(<>|%s)((?: %s)*)" % (paths(LOCAL_WIDE, DOM_WIDE), PAR % b"*"), re.S)
STRICT_R = re.compile(rb"(<>|<Postmaster>|%s)((?: %s)*)" % (paths(LOCAL_STRICT, DOM_STRICT), PAR % b"+"), re.S)
WIDE_R = re.compile(rb"(<>|<(?i:Postmaster)>|%s)((?: %s)*)" % (paths(LOCAL_WIDE, DOM_WIDE), PAR % b"*"), re.S)


def params(s):
    h = {}
    for p in s.split(b" ")[1:]:
        k, eq, v = p.partition(b"=")
        h[k] = v if eq else None
    return h


def gen_esmtp(r):
    word = lambda cs, lo, hi: bytes(r.choice(cs) for _ in range(r.randint(lo, hi)))
    at = b"abcXYZ019!#$%&'*+-/=?^_`{|}~"
    ld = b"abcXYZ019-"

    def dom():
        if r.random() < .2:
            return b"[" + word(b"0123456789.:IPv6abc", 1, 20) + r.choice([b"", b"\\]", b"\\a"]) + b"]"
        return b".".join(word(b"abcXYZ019", 1, 1) + word(ld, 0, 5) + word(b"ab0", 1, 1)
                         for _ in range(r.randint(1, 4)))

    def local():
        if r.random() < .25:
            return b'"' + b"".join(r.choice([b"a", b"B", b".", b"@", b">", b"<", b"\\\"", b"\\\\", b"!", b","])
                                   for _ in range(r.randint(0, 8))) + b'"'
        return b".".join(word(at, 1, 6) for _ in range(r.randint(1, 3)))
    k = r.random()
    if k < .1:
        p = b"<>"
    elif k < .2:
        p = r.choice([b"<Postmaster>", b"<Postmaster>", b"<postmaster>", b"<Postmaster@a.example>"])
    else:
        p = b"<"
        if r.random() < .2:
            p += b",".join(b"@" + dom() for _ in range(r.randint(1, 3))) + b":"
        p += local() + b"@" + dom() + b">"
    for _ in range(r.choice([0, 0, 1, 2, 4, 12])):
        p += b" " + word(b"abcXYZ019", 1, 1) + word(ld, 0, 6)
        if r.random() < .7:
            p += b"=" + word(bytes(c for c in range(33, 127) if c != 61), 1, 12)
    if r.random() < .5:
        s = bytearray(p)
        for _ in range(r.choice([1, 1, 2, 4])):
            i = r.randrange(len(s) + 1)
            o = r.randrange(4)
            c = r.choice(b'<>@,:;"\\[]. =ab\x01\t\r\n\x7f\x80\xff')
            if o == 0:
                s[i:i] = bytes([c])
            elif o == 1 and i < len(s):
                del s[i]
            elif o == 2 and i < len(s):
                s[i] = c
            else:
                del s[i:]
        p = bytes(s)
    elif r.random() < .05:
        p = bytes(r.randint(1, 255) for _ in range(r.randint(0, 40)))
    return p


def run():
    c = Check("C20", "connection specs of every form and mutations of them against an independent reading of the "
              "documented forms, formatted and parsed again; ESMTP arguments built from the grammar (must be split "
              "exactly) and mutated (accepted only within the widest reading of the grammar, and then split "
              "exactly); distinct by input string")
    c.assumptions = ["the only host name looked up is localhost",
                     "a spec with an empty port may be rejected or mean port 0",
                     "between the strict and the widest reading of the ESMTP grammar either answer is allowed"]
    d = Driver()
    r = c.rng("spec")
    specs = [gen_spec(r) for _ in range(c.n(6000, 100000))]
    res = d.run([["spec " + x(s)] for s in specs])
    again = []
    for s, (rep, crash) in zip(specs, res):
        c.case(s, s)
        if crash:
            c.violation("spec-crash:" + san_key(crash), "%r: %s" % (s, crash[:2500]), s)
            continue
        lines = {l.split()[0]: l.split()[1:] for l in rep[0]}
        ok = denote(s)
        if lines["ret"][0] == "1":
            a = lines["ret"][2]
            f = a.split(":")
            got = "unix:" + f[1] if f[0] == "unix" else "%s:%s" % (f[0], ":".join(f[1:-1]))
            dom = {"unix": 1, "inet": 2, "inet6": 10}[f[0]]
            c.count("specs_accepted")
            if got not in ok:
                c.violation("spec-wrong", "%r parsed as %s, denotes %s" % (s, got, sorted(map(str, ok))), s)
            elif f[-1] != "1" or int(lines["ret"][1]) != dom:
                c.violation("spec-wrong-size", "%r: %s" % (s, rep[0]), s)
            elif lines["err"] != ["noerror"]:
                c.violation("spec-error-on-success", "%r: %s" % (s, rep[0]), s)
            else:
                again.append((s, got, unx(lines["spec"][0])))
        else:
            c.count("specs_rejected")
            if None not in ok:
                c.violation("spec-rejected", "%r denotes %s but was rejected" % (s, ok), s)
            elif lines["err"][0] != "error":
                c.violation("spec-no-error", "%r rejected without an error" % s, s)
            elif lines["ret"][2] != "none":
                c.violation("spec-address-on-error", "%r: %s" % (s, rep[0]), s)
    res = d.run([["spec " + x(s2)] for _, _, s2 in again])
    for (s, got, s2), (rep, crash) in zip(again, res):
        c.count("round_trips")
        f = rep[0][0].split()[3].split(":") if not crash and rep[0][0].split()[1] == "1" else ["none", "", ""]
        g = "unix:" + f[1] if f[0] == "unix" else "%s:%s" % (f[0], ":".join(f[1:-1]))
        if g != got:
            c.violation("spec-round-trip", "%r is %s, formatted %r, which parses as %s" % (s, got, s2, g), s)

    r = c.rng("esmtp")
    args = [(r.choice("mr"), gen_esmtp(r)) for _ in range(c.n(8000, 150000))]
    res = d.run([["esmtp %s %s" % (k, x(s)), "esmtp_null %s %s" % (k, x(s))] for k, s in args])
    for (k, s), (rep, crash) in zip(args, res):
        c.case((k, s), s)
        if crash:
            c.violation("esmtp-crash:" + san_key(crash), "%r: %s" % (s, crash[:2500]), s)
            continue
        w = rep[0][0].split()
        err = rep[0][1].split()
        strict = (STRICT if k == "m" else STRICT_R).fullmatch(s)
        wide = (WIDE if k == "m" else WIDE_R).fullmatch(s)
        if w[1] == "1":
            c.count("esmtp_accepted")
            m = strict or wide
            if not m:
                c.violation("esmtp-accepted", "%s argument %r was accepted: %s" % (k, s, w), s)
                continue
            path = None if m.group(1) == b"<>" else m.group(1)
            got = [unx(t) for t in w[3:]] if w[3] != "nohash" else []
            h = dict(zip(got[::2], got[1::2]))
            if unx(w[2]) != path and not (path is None and unx(w[2]) == b"<>"):
                c.violation("esmtp-path", "%s argument %r: path %r, expected %r" % (k, s, unx(w[2]), path), s)
            elif h != params(m.group(2)):
                c.violation("esmtp-parameters", "%s argument %r: %r, expected %r" % (k, s, h, params(m.group(2))), s)
            elif err[1] != "noerror":
                c.violation("esmtp-error-on-success", "%r %s" % (s, rep[0]), s)
            elif rep[1] != ["ret 1"]:
                c.violation("esmtp-null-outputs", "%r %s" % (s, rep[1]), s)
        else:
            c.count("esmtp_rejected")
            if strict:
                c.violation("esmtp-rejected", "%s argument %r was rejected: %s" % (k, s, rep[0][1]), s)
            elif err[1] != "error":
                c.violation("esmtp-no-error", "%r" % s, s)
            elif w[2] != "-" or w[3] != "nohash":
                c.violation("esmtp-output-on-error", "%r %s" % (s, w), s)
    c.finish()


main(run)
