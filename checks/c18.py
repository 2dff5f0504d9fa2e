import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
from core import Driver, x, unx, san_key


class Model:
    """reference header list"""
    def __init__(self, items=()):
        self.h = list(items)

    def same(self, n):
        return [i for i, (k, v) in enumerate(self.h) if k.lower() == n.lower()]

    def add(self, n, v):
        s = self.same(n)
        self.h.insert(s[0] if s else len(self.h), (n, v))
        return 1

    def append(self, n, v):
        self.h.append((n, v))
        return 1

    def insert(self, i, n, v):
        self.h.insert(min(i, len(self.h)), (n, v))
        return 1

    def change(self, n, i, v):
        if v is None:
            return self.delete(n, i)
        s = self.same(n)
        if 1 <= i <= len(s):
            self.h[s[i - 1]] = (self.h[s[i - 1]][0], v)
            return 1
        return self.add(n, v)

    def delete(self, n, i):
        s = self.same(n)
        if 1 <= i <= len(s):
            del self.h[s[i - 1]]
            return 1
        return 0


def run():
    c = Check("C18", "random operation sequences on three header lists, compared with a reference list after "
              "every operation; names from a small set in varying case so that duplicates are common; "
              "distinct by operation sequence")
    c.assumptions = ["names are compared ASCII case-insensitively, as the milter protocol does"]
    d = Driver()
    r = c.rng("ops")
    cases, exps = [], []
    total = c.n(2500, 30000)
    for i in range(total):
        cs, ex = gen(r, c)
        cases.append(cs)
        exps.append(ex)
        if len(cases) == 300 or i == total - 1:
            for (rep, crash), cs, ex in zip(d.run(cases), cases, exps):
                if crash:
                    c.violation("crash:" + san_key(crash), crash[:3000], cs)
                    continue
                c.case(tuple(cs), " ; ".join(cs)[:400])
                for k, (lines, want) in enumerate(zip(rep, ex)):
                    if want is not None and lines != want:
                        c.violation("op:" + cs[k].split()[0], "after %s: got %r, expected %r; history %s" %
                                    (cs[k], lines, want, cs[max(0, k - 12):k + 1]), cs[:k + 1])
                        break
            cases, exps = [], []
    c.finish()


def dump(m):
    out = []
    for i, (n, v) in enumerate(m.h):
        # the index of the first header with this name and value
        s = [j for j in m.same(n)]
        idx = next(k for k, j in enumerate(s) if m.h[j][1] == v) + 1
        out.append("h %s %s %d" % (x(n), x(v), idx))
    return out + ["len %d %d" % (len(m.h), len(m.h))]


def gen(r, c):
    base = [b"A", b"Sub", b"X-y"]
    if r.random() < .3:
        base = [bytes(r.randint(1, 127) for _ in range(r.randint(1, 5))) for _ in range(3)]

    def name():
        n = r.choice(base)
        return r.choice([n, n, n, n.lower(), n.upper()])

    def val():
        return r.choice([b"1", b"2", b"3", b"", bytes(r.randint(1, 255) for _ in range(r.randint(1, 9)))])

    M = {k: Model() for k in range(3)}
    cs = ["h_new %d" % k for k in range(3)]
    ex = [[], [], []]
    hl = lambda e: "h" if e is None else "h %s %s" % (x(e[0]), x(e[1]))
    for _ in range(r.choice([3, 10, 25, 60])):
        k = r.choice([0, 0, 0, 1, 2])
        m = M[k]
        o = r.choice("aappiicccddnlfrqCe")
        n, v = name(), val()
        if m.h and r.random() < .5:
            n, v0 = r.choice(m.h)
            v = v0 if r.random() < .4 else v
        idx = r.choice([1, 1, 2, 3, len(m.same(n)), len(m.same(n)) + 1, 0, 1000])
        c.count("operations")
        if o == "a":
            cs.append("h_add %d %s %s" % (k, x(n), x(v)))
            ex.append(["ret %d" % m.add(n, v)])
        elif o == "p":
            cs.append("h_append %d %s %s" % (k, x(n), x(v)))
            ex.append(["ret %d" % m.append(n, v)])
        elif o == "i":
            p = r.choice([0, 1, len(m.h), len(m.h) + 3, r.randint(0, len(m.h)), 2**31 - 1])
            cs.append("h_insert %d %d %s %s" % (k, p, x(n), x(v)))
            ex.append(["ret %d" % m.insert(p, n, v)])
        elif o == "c":
            v = None if r.random() < .25 else v
            cs.append("h_change %d %s %d %s" % (k, x(n), idx, x(v)))
            ex.append(["ret %d" % m.change(n, idx, v)])
        elif o == "d":
            cs.append("h_delete %d %s %d" % (k, x(n), idx))
            ex.append(["ret %d" % m.delete(n, idx)])
        elif o == "n":
            p = r.choice([0, 1, len(m.h), len(m.h) + 1, r.randint(0, len(m.h) + 1)])
            cs.append("h_nth %d %d" % (k, p))
            ex.append([hl(m.h[p - 1] if 1 <= p <= len(m.h) else None)])
        elif o == "l":
            s = m.same(n)
            cs.append("h_lookup %d %s" % (k, x(n)))
            ex.append([hl(m.h[s[0]] if s else None)])
        elif o == "f":
            cs.append("h_find %d %s %s" % (k, x(n), x(v)))
            ex.append([hl((n, v) if (n, v) in m.h else None)])
        elif o == "r":
            cs.append("h_remove %d %s %s" % (k, x(n), x(v)))
            ex.append(["ret %d" % ((n, v) in m.h)])
            if (n, v) in m.h:
                m.h.remove((n, v))
        elif o == "C":
            s = r.choice([j for j in range(3) if j != k])
            cs.append("h_copy %d %d" % (k, s))
            ex.append([])
            M[k] = Model(M[s].h)
        else:
            n2, v2 = name(), val()
            if r.random() < .4:
                n2, v2 = n, v
            cs.append("h_eq %s %s %s %s" % (x(n), x(v), x(n2), x(v2)))
            cmp_ = ((n, v) > (n2, v2)) - ((n, v) < (n2, v2))
            # only the sign is specified
            ex.append(None)
            cs.append("h_eq %s %s %s %s" % (x(n), x(v), x(n), x(v)))
            ex.append(["ret 1 0"])
        for j in range(3):
            if j == k or r.random() < .2:
                cs.append("h_dump %d" % j)
                ex.append(dump(M[j]))
    return cs, ex


main(run)
