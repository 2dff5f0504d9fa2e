import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import rubylib as R
from concurrent.futures import ThreadPoolExecutor


def run():
    c = Check("C29", "distinct (callback, outcome) and (request, result) pairs of milters written in Ruby")
    profiles = [
        ("plain", dict(composite=0, workers=0), 3, 144),
        ("partial", dict(composite=0, workers=0, missing=True), 3, 144),
        ("composite", dict(composite=2, workers=0), 2, 96),
        ("three parts", dict(composite=3, workers=0, missing=True), 1, 72),
        ("workers", dict(composite=0, workers=2), 2, 72),
        ("without session", dict(composite=0, workers=0, refuse=True), 1, 48),
        ("configuration file", dict(composite=0, workers=0, config=True), 2, 96),
        ("limited", dict(composite=0, workers=0, config=True, par=2), 1, 48),
    ]
    jobs = []
    for name, o, quick, thorough in profiles:
        for i in range(c.n(quick, thorough)):
            r = c.rng(name, i)
            opt = dict(o, missing=o.get("missing", False), loop=["glib", "libev"][(i + len(jobs)) % 2],
                       fallback=r.choice(["accept", "reject", "temporary_failure", "discard"]),
                       limit=r.choice([2, 3]) if name == "limited" else 0,
                       buffer=r.choice([0, 0, 1, 4096]), maintain=r.choice([0, 0, 1, 5]))
            jobs.append((name, "C29/%d/%s/%d" % (c.seed, name, i), opt))

    def one(j):
        return R.round_(j[1], j[2], 30, 1 if j[2].get("refuse") else j[2].get("par", 6))
    with ThreadPoolExecutor(4) as ex:
        for (name, seed, opt), res in zip(jobs, ex.map(one, jobs)):
            for kind, text in res["problems"]:
                c.violation(kind, "round %s %r: [%s] %s" % (seed, opt, kind, text), dict(seed=seed, opt=opt))
            for k in res["kinds"]:
                c.case((k,), "%s: %s" % (name, k))
            for k in ("sessions", "replies", "mods", "callbacks"):
                c.count(k, res[k])
            c.count("profile " + name)
            c.extra["most processes of a milter"] = max(c.extra.get("most processes of a milter", 0), res["pids"])
    c.finish()


main(run)
