"""Postfix tables and address matchers: generator and independent evaluation (see cidr_table(5), regexp_table(5))."""
import ipaddress, json, os, re, subprocess

WORDS = ["OK", "REJECT", "DUNNO", "550 no", "HOLD  two  blanks", "see http://a/b c", "x/ y", "pass_1", "# not a comment"]


class Lines:
    """builds a table file and remembers where each logical line is"""

    def __init__(self, rng):
        self.rng, self.out, self.rules = rng, [], []

    def noise(self):
        r = self.rng
        while r.random() < .25:
            self.out.append(r.choice(["", "# comment", "   # indented comment", "  ", "\t", "#/x/ OK", "#1.2.3.4 OK"]))

    def add(self, parts, what, tail=True, multi=True):
        """one logical line; it may be split at the blanks between its parts"""
        r = self.rng
        self.noise()
        first = len(self.out) + 1
        cur = parts[0]
        for p in parts[1:]:
            if multi and not p.startswith("#") and r.random() < .12:
                self.out.append(cur + r.choice(["", "", " "]))
                if r.random() < .3:
                    self.out.append(r.choice(["", "# between", "  # between"]))
                cur = r.choice([" ", "    ", "\t"]) + p
            else:
                cur += r.choice([" ", "  ", "\t", "       "]) + p
        if tail and r.random() < .15:
            cur += r.choice([" ", "  ", "\t"])
        self.out.append(cur)
        self.rules.append((first, what))

    def text(self):
        self.noise()
        return "\n".join(self.out) + ("\n" if self.rng.random() < .9 or not self.out else "")

    def span(self, i):
        """line numbers that are a fair location of rule i"""
        return self.rules[i][0], (self.rules[i + 1][0] - 1 if i + 1 < len(self.rules) else len(self.out) + 1)


def v4(rng):
    base = rng.choice(["10.0.0.0", "192.168.1.0", "192.168.1.128", "172.16.0.0", "203.0.113.0", "0.0.0.0", "255.255.255.255", "127.0.0.1"])
    if rng.random() < .4:
        return base
    n = int(ipaddress.IPv4Address(base)) ^ rng.getrandbits(rng.choice([1, 4, 8, 16, 32]))
    return str(ipaddress.IPv4Address(n))


def v6(rng, style=True):
    base = rng.choice(["::", "::1", "fe80::1", "2001:db8::", "2001:db8:0:1::", "fc00::", "ff02::1", "::ffff:0:0", "feb0::2", "fec0::"])
    n = int(ipaddress.IPv6Address(base))
    if rng.random() < .6:
        n ^= rng.getrandbits(rng.choice([1, 8, 16, 64, 128]))
    a = ipaddress.IPv6Address(n)
    if not style:
        return str(a)
    s = rng.choice([str(a), a.exploded, str(a).upper()])
    return s


def lookup_near(rng, nets):
    """an address inside, at the edge of, or just outside one of the networks"""
    if nets and rng.random() < .75:
        net = rng.choice(nets)
        lo, hi = int(net.network_address), int(net.broadcast_address)
        n = rng.choice([lo, hi, lo - 1, hi + 1, rng.randint(lo, hi), lo ^ (1 << rng.randrange(net.max_prefixlen))])
        n = max(0, min(n, (1 << net.max_prefixlen) - 1))
        a = (ipaddress.IPv4Address if net.version == 4 else ipaddress.IPv6Address)(n)
        return [str(net.version), str(a)]
    k = rng.random()
    if k < .4:
        return ["4", v4(rng)]
    if k < .8:
        return ["6", v6(rng, False)]
    return rng.choice([["L", "/var/run/a.sock"], ["U"]])


def prefix(rng, bits):
    return rng.choice([bits, bits - 1, 8, 16, 24, 0, 1, rng.randint(0, bits), rng.randint(0, bits)])


def network(rng):
    """-> (text, ip_network)"""
    if rng.random() < .55:
        a, bits = v4(rng), 32
    else:
        a, bits = v6(rng), 128
    if rng.random() < .3:
        return a, ipaddress.ip_network(a + "/%d" % bits)
    p = prefix(rng, bits)
    net = ipaddress.ip_network("%s/%d" % (a, p), strict=False)
    # a network is written with its host bits clear
    text = str(net.network_address)
    if bits == 128 and rng.random() < .3:
        text = net.network_address.exploded
    return "%s/%d" % (text, p), net


BAD_CIDR = [("10.0.0.0/33 OK", "v"), ("::/129 OK", "v"), ("1.2.3 OK", "v"), ("256.1.1.1 OK", "v"), ("1::2::3 OK", "v"),
            ("example.com OK", "f"), ("10.0.0.0/8", "f"), ("OK", "f"), ("10.0.0.0/x OK", "f"), ("/8 OK", "f"), ("1.2.3.4.5/8 OK", "v"),
            ("12345::/16 OK", "v")]


def cidr_table(rng):
    """-> (text, [(net, action)], None or (kind, (first, last)))"""
    L = Lines(rng)
    rules, bad = [], None
    for i in range(rng.choice([0, 1, 2, 3, 4, 6, 10])):
        if bad is None and rng.random() < .04:
            t, k = rng.choice(BAD_CIDR)
            L.add([t], "bad")
            bad = len(L.rules) - 1, k
            continue
        t, net = network(rng)
        action = rng.choice(WORDS) if rng.random() < .8 else "action %d" % i
        L.add([t, action], "rule")
        rules.append((net, action))
    text = L.text()
    return text, rules, (bad[1], L.span(bad[0])) if bad else None


def cidr_find(rules, spec):
    if spec[0] not in "46":
        return None
    a = ipaddress.ip_address(spec[1])
    for net, action in rules:
        if net.version == a.version and a in net:
            return action
    return None


# ---- regexp tables

ATOMS = ["a", "b", "owner", "user", "x", "[ab]", "[^b]", ".", "[0-9]", "@", "-", "example", r"\.", r"\/", "A", "list", "é"]


def pattern(rng):
    """-> pattern text (common to Ruby and Python), number of groups"""
    groups = 0
    out = ""
    for _ in range(rng.randint(1, 4)):
        a = "".join(rng.choice(ATOMS) for _ in range(rng.randint(1, 2)))
        k = rng.random()
        if k < .3:
            out += "(" + a + rng.choice(["", "*", "+", ".*"]) + ")"
            groups += 1
        elif k < .4:
            out += "(" + a + "|" + rng.choice(ATOMS) + ")"
            groups += 1
        elif k < .55:
            out += a + rng.choice(["*", "+", "?", "{2}"])
        elif k < .65:
            out += ".*"
        else:
            out += a
    if rng.random() < .35:
        out = "^" + out
    if rng.random() < .25:
        out += "$"
    return out, groups


BAD_REGEXP = [("/left-(paren/ OK", "v"), ("/[ab/ OK", "v"), ("/*a/ OK", "v"), ("left-paren OK", "f"), ("/abc OK", "f"),
              ("/abc/", "f"), ("/abc/q OK", "f"), ("if (", "f"), ("if /(/", "v"), ("endif x y", "f"), ("!abc OK", "f"), ("if", "f")]


def flags(rng):
    return rng.choice([None, None, None, "i", "m", "im", "mi", "ii", "x", "ix"])


def fold(f):
    """case-insensitive unless toggled"""
    return (f or "").count("i") % 2 == 0


def action(rng, groups, negated):
    t = rng.choice(WORDS)
    if groups and not negated and rng.random() < .6:
        n = rng.randint(1, groups)
        t = rng.choice(["got ", ""]) + rng.choice(["$%d", "${%d}", "$(%d)", "<${%d}>", "$$%d", "$$$%d", "a${%d}b$$"]) % n + rng.choice([" end", "", ":${%d}" % groups])
    elif rng.random() < .1:
        t = "cost 5$$"
    return t


def regexp_table(rng):
    L = Lines(rng)
    bad = []

    def block(depth, rules):
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth else rng.choice([0, 1, 2, 3, 5, 8])):
            if not bad and rng.random() < .03:
                t, k = rng.choice(BAD_REGEXP)
                L.add([t], "bad")
                bad.append((len(L.rules) - 1, k))
                continue
            neg = rng.random() < .2
            p, groups = pattern(rng)
            f = flags(rng)
            head = ("!" if neg else "") + "/" + p + "/" + (f or "")
            if depth < 3 and rng.random() < .25:
                L.add(["if", head], "if", multi=rng.random() < .3)
                sub = []
                rules.append((neg, p, f, sub))
                block(depth + 1, sub)
                if not bad and rng.random() < .03:
                    # the end of this block is missing
                    bad.append((None, "f"))
                else:
                    L.add(["endif"], "endif")
            else:
                a = action(rng, groups, neg)
                L.add([head, a], "rule")
                rules.append((neg, p, f, a))
    rules = []
    block(0, rules)
    if not bad and rng.random() < .03:
        L.add(["endif"], "bad")
        bad.append((len(L.rules) - 1, "f"))
    text = L.text()
    b = None
    if bad:
        i, k = bad[0]
        b = (k, L.span(i) if i is not None else (1, len(L.out) + 1))
    return text, rules, b


def expand(a, m):
    def sub(x):
        if x.group(1):
            return "$"
        v = m.group(int(x.group(2) or x.group(3) or x.group(4)))
        return v if v is not None else ""
    return re.sub(r"\$(?:(\$)|([0-9]+)|\(([0-9]+)\)|\{([0-9]+)\})", sub, a)


def regexp_find(rules, text):
    for neg, p, f, what in rules:
        m = re.search(p, text, re.I if fold(f) else 0)
        if bool(m) == neg:
            continue
        if isinstance(what, list):
            r = regexp_find(what, text)
            if r is not None:
                return r
            continue
        return what if neg else expand(what, m)
    return None


def subject(rng, rules):
    ps = []

    def walk(rs):
        for neg, p, f, w in rs:
            ps.append(p)
            if isinstance(w, list):
                walk(w)
    walk(rules)
    s = ""
    for _ in range(rng.choice([1, 1, 2])):
        if ps and rng.random() < .8:
            p = rng.choice(ps)
            p = re.sub(r"\[\^?(.)[^]]*\]", r"\1", p)
            p = p.replace("\\.", ".").replace("\\/", "/").replace("^", "").replace("$", "")
            s += "".join(c for c in re.sub(r"[()*+?|]|\{2\}", lambda m: rng.choice(["", "", "a"]), p))
        else:
            s += rng.choice(["user@example.com", "owner-list@example.com", "a", "AB", "", "x1/y", "owner", "aé"])
    if rng.random() < .3:
        s = s.swapcase()
    return s


# ---- address matchers

def matcher(rng):
    rules = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        t, net = network(rng)
        rules.append([rng.choice(["local", "remote"]), t, net])
    return rules


PRIVATE = [ipaddress.ip_network(n) for n in ("127.0.0.0/8", "10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16")]
PRIVATE6 = [ipaddress.ip_network(n) for n in ("::1/128", "fe80::/10")]


def is_local(rules, spec):
    """-> (local, remote, unknown)"""
    if spec[0] == "U":
        return [False, False, True]
    if spec[0] == "L":
        return [True, False, False]
    a = ipaddress.ip_address(spec[1])

    def hit(kind):
        return any(k == kind and net.version == a.version and a in net for k, _, net in rules)
    local = not hit("remote") and (any(a in n for n in PRIVATE + PRIVATE6 if n.version == a.version) or hit("local"))
    return [local, not local, False]


# ---- envelope addresses

def envelope(rng):
    u, d = rng.choice(["bob", "Bob.Smith", "a+b", "x", "owner-l", '"q r"']), rng.choice(["example.com", "EXAMPLE.org", "sub.Example.net", "[192.0.2.1]"])
    k = rng.randrange(6)
    if k == 0:
        return "<%s@%s>" % (u, d), ("%s@%s" % (u, d)).lower(), d.lower()
    if k == 1:
        u = u.replace('"q r"', "qr")
        return "%s@%s" % (u, d), ("%s@%s" % (u, d)).lower(), d.lower()
    if k == 2:
        return "Bob <%s@%s>" % (u, d), ("%s@%s" % (u, d)).lower(), d.lower()
    if k == 3:
        return "<>", "", None
    if k == 4:
        u = u.replace('"q r"', "qr")
        return u, u.lower(), None
    return None, None, None


def drive(cases, timeout=300):
    here = os.path.dirname(os.path.abspath(__file__))
    env = dict(os.environ)
    env["LC_ALL"] = "C.UTF-8"
    p = subprocess.run(["ruby", "-W0", os.path.join(here, "..", "harness", "table_driver.rb"), os.environ.get("TREE","/repo")],
                       input="".join(json.dumps(c) + "\n" for c in cases), env=env, capture_output=True, text=True, timeout=timeout)
    out = [json.loads(l) for l in p.stdout.splitlines()]
    return out, p.returncode, p.stderr
