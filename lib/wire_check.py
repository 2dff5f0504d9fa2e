"""C01/C02: encoder and decoder of the milter protocol against the
independent codec in milterproto.py, over random values and fragmentations."""
import wiregen as G
import milterproto as P
from check import Check
from core import Driver, x, unx, san_key


def norm_packet(kind, raw):
    return P.parse_command(raw) if kind == "command" else P.parse_reply(raw)


def norm(kind, t):
    if t[0] == "D":
        return t[:2] + (tuple(sorted(t[2])),)
    if t[0] == "C" and t[2] == "6" and t[4][:5].lower() == b"ipv6:":
        return t[:4] + (t[4][5:],)
    if t[0] == "O" and len(t) == 5:
        return t[:4] + (tuple(sorted((k, tuple(n.strip(b"{}") for n in v)) for k, v in t[4].items())),)
    return t


def neg_event(t):
    """compare as sets of stages: 'ev negotiate-reply v:a:s c=a,b, ...'"""
    w = t.split()
    st = {}
    for p in w[3:]:
        if p == "nomr":
            continue
        c, ns = p.split("=")
        st[chr(int(c))] = [bytes.fromhex(n).strip(b"{}") for n in ns.split(",") if n]
    return w[2], st


def run(prop, kind):
    c = Check(prop, "random sequence of %ss with random argument values, encoded by the code and by an "
              "independent codec, then decoded under a random fragmentation; non-trivial: at least one "
              "packet with arguments; distinct by packet kinds, sizes and fragment sizes" % kind)
    d = Driver()
    gen = G.command if kind == "command" else G.reply
    r = c.rng("gen")
    cases, meta = [], []
    for i in range(c.n(5000, 60000)):
        seq = [gen(r) for _ in range(r.choice([1, 1, 2, 4, 8]))]
        wire = b"".join(s[2] for s in seq)
        if len(wire) > 150000:
            continue
        b, pos = [], 0
        for s in seq:
            b.append(pos)
            b.append(pos + 5)
            pos += len(s[2])
        frags = G.cut(r, wire, b)
        cases.append(["dnew " + kind] + [s[1] for s in seq] + ["dfeed " + x(f) for f in frags] + ["dend"])
        meta.append((seq, frags))
        if len(cases) == 400:
            judge(c, d, kind, cases, meta)
            cases, meta = [], []
    if cases:
        judge(c, d, kind, cases, meta)
    # a body longer than one packet
    cases, meta = [], []
    for i in range(c.n(60, 600)):
        n = r.choice([65536, 131070, 131071, 65535 * 2 + r.randint(0, 70000), 65535 + r.randint(1, 9)])
        body = G.blob(r, n)
        op = r.choice(["c_body", "c_body_bytes"]) if kind == "command" else "r_body"
        meta.append(body)
        cases.append(["%s %s" % (op, x(body[o:])) for o in range(0, n, 65535)])
    for (rep, crash), body, cs in zip(d.run(cases), meta, cases):
        if crash:
            c.violation("crash:" + san_key(crash), crash[:3000], cs)
            continue
        out = b""
        for o, lines in enumerate(rep):
            w = lines[0].split()
            pk = P.split_packets(unx(w[1]))[0][0]
            part = norm_packet(kind, pk)[1]
            if int(w[2]) != len(part):
                c.violation("chunk-size", "packed size %s, packet holds %d" % (w[2], len(part)))
            out += part
        c.case(("chunk", len(body), cs[0][:12]))
        c.count("long_bodies")
        if out != body:
            c.violation("chunk-content", "a body of %d bytes comes back as %d bytes or changed" % (len(body), len(out)))
    c.finish()


def judge(c, d, kind, cases, meta):
    for (rep, crash), (seq, frags), cs in zip(d.run(cases), meta, cases):
        if crash:
            c.violation("crash:" + san_key(crash), crash[:3000], cs)
            continue
        c.case(("".join(s[0] for s in seq), tuple(len(f) for f in frags)), cs if len(str(cs)) < 500 else None)
        enc = rep[1:1 + len(seq)]
        for s, lines in zip(seq, enc):
            c.count("packets_encoded")
            w = lines[0].split()
            if len(w) < 2 or w[0] != "pkt":
                raise RuntimeError("%r -> %r" % (s[1], lines))
            got = unx(w[1]) if w[1] != "NULL" else None
            try:
                ps, rest = P.split_packets(got or b"")
                ok = len(ps) == 1 and not rest and \
                    norm(kind, norm_packet(kind, ps[0])) == norm(kind, norm_packet(kind, s[2][4:]))
                why = "" if ok else "%r instead of %r" % (got and got[:300], s[2][:300])
            except (P.ProtoError, ValueError, IndexError) as e:
                ok, why = False, "%s: %r" % (e, got and got[:300])
            if not ok:
                c.violation("encode:" + s[0], "%s -> %s" % (s[1][:300], why), s[1])
        events, rets = [], []
        for lines in rep[1 + len(seq):]:
            for l in lines:
                if l.startswith("ev "):
                    events.append(l)
                else:
                    rets.append(l)
        c.count("events_decoded", len(events))
        c.count("fragments", len(frags))
        bad = [x_ for x_ in rets if x_ != "ret 1 noerror"]
        if bad:
            c.violation("decode-error:" + "".join(sorted({s[0] for s in seq}))[:8],
                        "%s while decoding %s" % (bad[0], [s[3] for s in seq][:6]), cs)
            continue
        for i, s in enumerate(seq):
            want = s[3]
            got = events[i] if i < len(events) else "(nothing)"
            if isinstance(want, tuple):
                try:
                    g = neg_event(got)
                    same = g == ("%d:%d:%d" % want[1:4], want[4])
                except (ValueError, IndexError):
                    same = False
            else:
                same = got == "ev " + want
            if not same:
                c.violation("decode:" + s[0], "wire %r decoded as %s, expected %s" % (s[2][:200], got[:400], str(want)[:400]), cs)
                break
        else:
            if len(events) != len(seq):
                c.violation("decode-extra", "extra events %r" % events[len(seq):][:3], cs)
