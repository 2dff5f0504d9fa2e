import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
from core import Driver, x, san_key

NO_EVENT = 0x1 | 0x2 | 0x4 | 0x8 | 0x10 | 0x20 | 0x40 | 0x100 | 0x200
NO_REPLY = 0x80 | 0x1000 | 0x2000 | 0x4000 | 0x8000 | 0x10000 | 0x20000 | 0x40000 | 0x80000
YES = 0x400 | 0x800 | 0x100000
STEP = NO_EVENT | NO_REPLY | YES
ACT = 0x1ff
CMDS = b"CHMRTNLBEU"


def value(r, mask):
    k = r.random()
    if k < .1:
        return 0
    if k < .2:
        return mask
    if k < .4:
        return mask & (1 << r.randrange(21))
    if k < .5:
        return mask & ~(1 << r.randrange(21))
    return r.getrandbits(21) & mask


def options(r, c):
    O = {}
    cs, ex = [], []

    def dump(i):
        v, a, s = O[i]
        cs.append("o_dump %d" % i)
        ex.append(["o %d:%d:%d %d %d %d %d" % (v, a, s, s & NO_EVENT, s & NO_REPLY,
                                              s & (NO_EVENT | NO_REPLY), s & YES)])
    for i in range(4):
        O[i] = (r.choice([2, 3, 4, 6, 6, 6, 6]), value(r, ACT), value(r, STEP))
        cs.append("o_new %d %d %d %d" % ((i,) + O[i]))
        ex.append([])
        dump(i)
    for _ in range(r.choice([2, 6, 15])):
        i, j = r.randrange(4), r.randrange(4)
        o = r.choice(["combine", "combine", "merge", "merge", "merge", "equal", "copy", "fa", "ra", "fs", "rs"])
        v, a, s = O[i]
        V, A, S = O[j]
        c.count("option_operations")
        if o == "combine":
            ok = v >= V
            if ok:
                O[i] = (V, a & A, s & S)
            cs.append("o_combine %d %d" % (i, j))
            ex.append(["ret %d" % ok])
        elif o == "merge":
            ok = v >= V
            if ok:
                no = NO_EVENT | NO_REPLY
                O[i] = (v, a | A, (s & S & no) | ((s | S) & YES))
            cs.append("o_merge %d %d" % (i, j))
            ex.append(["ret %d" % ok])
        elif o == "equal":
            if r.random() < .3:
                cs.append("o_copy %d %d" % (i, j))
                ex.append([])
                O[i] = O[j]
            cs.append("o_equal %d %d" % (i, j))
            ex.append(["ret %d" % (O[i] == O[j])])
        elif o == "copy":
            cs.append("o_copy %d %d" % (i, j))
            ex.append([])
            O[i] = O[j]
        elif o == "fa":
            b = value(r, ACT)
            O[i] = (v, a | b, s)
            cs.append("o_add_action %d %d" % (i, b))
            ex.append([])
        elif o == "ra":
            b = value(r, ACT)
            O[i] = (v, a & ~b, s)
            cs.append("o_remove_action %d %d" % (i, b))
            ex.append([])
        elif o == "fs":
            b = value(r, STEP)
            O[i] = (v, a, s | b)
            cs.append("o_add_step %d %d" % (i, b))
            ex.append([])
        else:
            b = value(r, STEP)
            O[i] = (v, a, s & ~b)
            cs.append("o_remove_step %d %d" % (i, b))
            ex.append([])
        for k in range(4):
            dump(k)
    return cs, ex


def macros(r, c):
    M = [dict() for _ in range(4)]
    cs = ["m_new %d" % i for i in range(4)]
    ex = [[], [], [], []]
    pool = [b"i", b"j", b"_", b"{mail_addr}", b"{auth_type}", b"I", b"daemon_name", b"x", b"{x}"]
    for _ in range(r.choice([3, 8, 16])):
        i, j = r.randrange(4), r.randrange(4)
        if r.random() < .55:
            cmd = r.choice(CMDS)
            l = []
            twice = r.random() < .25
            for s in [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]:
                if s not in l or twice:
                    l.append(s)
            M[i][cmd] = l
            cs.append(" ".join(["m_set %d %d" % (i, cmd)] + [x(s) for s in l]))
            ex.append([])
        else:
            c.count("macro_merges")
            for cmd, l in list(M[j].items()):
                d = list(M[i].get(cmd, []))
                for s in l:
                    if s not in d:
                        d.append(s)
                M[i][cmd] = d
            cs.append("m_merge %d %d" % (i, j))
            ex.append([])
        for k in range(4):
            cs.append("m_dump %d" % k)
            ex.append(("m", dict((a, list(b)) for a, b in M[k].items())))
    return cs, ex


def parse_m(lines):
    out = {}
    for w in lines[0].split()[1:]:
        f = w.split("=")
        out[int(f[0])] = [bytes.fromhex(s) for s in f[1].split(",") if s]
    return out


def run():
    c = Check("C19", "operation sequences on four options (actions, steps, versions drawn over all defined bits) "
              "and four macro request tables, every object compared with a reference after every operation; "
              "status comparison over all pairs and triples; distinct by operation sequence")
    d = Driver()
    r = c.rng("algebra")
    total = c.n(3000, 40000)
    todo = [options(r, c) if i % 2 else macros(r, c) for i in range(total)]
    for at in range(0, total, 500):
        part = todo[at:at + 500]
        for (rep, crash), (cs, ex) in zip(d.run([p[0] for p in part]), part):
            if crash:
                c.violation("crash:" + san_key(crash), crash[:3000], cs)
                continue
            c.case(tuple(cs), " ; ".join(cs)[:300])
            for k, (got, want) in enumerate(zip(rep, ex)):
                if isinstance(want, tuple):
                    try:
                        g = parse_m(got)
                    except Exception:
                        g = got
                    if isinstance(g, dict):
                        g = {a: b for a, b in g.items() if b}
                    bad = g != {a: b for a, b in want[1].items() if b}
                else:
                    bad = got != want
                if bad:
                    op = [s for s in cs[:k + 1] if "dump" not in s][-1]
                    c.violation("op:" + op.split()[0], "after %s, %s: got %r, expected %r" % (op, cs[k], got, want),
                                cs[:k + 1])
                    break
    # ---- status order ----
    ids, crash = d.run([["status_ids"]])[0]
    st = {w.split("=")[0]: int(w.split("=")[1]) for w in ids[0][0].split()}
    ids = sorted(st.values())
    reqs = ["status_compare %d %d" % (a, b) for a in ids for b in ids]
    rep, crash = d.run([reqs])[0]
    if crash:
        c.violation("crash:" + san_key(crash), crash[:3000], reqs)
    else:
        cmp_ = {}
        it = iter(rep)
        sg = lambda v: (v > 0) - (v < 0)
        for a in ids:
            for b in ids:
                cmp_[a, b] = sg(int(next(it)[0].split()[1]))
        order = ["discard", "reject", "tempfail", "continue", "skip", "accept"]
        for i, a in enumerate(order):
            for j, b in enumerate(order):
                c.case(("status", a, b))
                want = (i < j) - (i > j)
                if cmp_[st[a], st[b]] != want:
                    c.violation("status-order", "compare(%s,%s) = %d, expected %d" % (a, b, cmp_[st[a], st[b]], want),
                                [a, b])
            for u in ("not-change", "default"):
                if cmp_[st[u], st[a]] != -1:
                    c.violation("status-order-unset", "compare(%s,%s) = %d, expected -1" % (u, a, cmp_[st[u], st[a]]))
                if cmp_[st[a], st[u]] != 1:
                    c.violation("status-order-unset", "compare(%s,%s) = %d, expected 1" % (a, u, cmp_[st[a], st[u]]))
    c.finish()


main(run)
