"""Frame shared by all checks: seed and tier, case accounting, violations,
known findings and the evidence file."""
import hashlib, json, os, random, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
KNOWN = os.path.join(VERIF, "known-findings.txt")


def load_known(prop):
    """-> {key: text} for the open findings of this property"""
    out = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                if line.startswith("known: "):
                    w = line.split(None, 3)
                    if w[1] == "property=" + prop and w[2].startswith("key="):
                        out[w[2][4:]] = w[3].strip()
    except FileNotFoundError:
        pass
    return out


class Check:
    def __init__(self, prop, rule, level="exploration"):
        self.prop, self.rule, self.level = prop, rule, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.viol = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.dir = os.path.join(VERIF, "evidence", "replay", prop)
        self.work = os.path.join(VERIF, ".build", "work", prop)
        os.makedirs(self.work, exist_ok=True)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *k):
        return random.Random("%d/%s/%r" % (self.seed, self.prop, k))

    def case(self, key=None, sample=None):
        """one evaluated case; key identifies it if it is not trivial"""
        self.evaluations += 1
        if key is not None:
            self.distinct.add(hashlib.md5(repr(key).encode()).digest()[:8])
        if sample is not None and len(self.samples) < 4:
            self.samples.append(str(sample)[:600])

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, key, text, replay=None):
        """key: stable name of what fails (used to match known findings)"""
        v = self.viol.setdefault(key, [0, text, replay])
        v[0] += 1

    def finish(self):
        new = 0
        for key, text in self.known.items():
            print("KNOWN-FINDING: property=%s key=%s %s (seen %d times in this run)" %
                  (self.prop, key, text, self.viol.get(key, [0])[0]))
        if not self.evaluations and not self.viol:
            print("ERROR: nothing was observed", file=sys.stderr)
            sys.exit(3)
        for key, (cnt, text, replay) in sorted(self.viol.items()):
            if key in self.known:
                continue
            new += 1
            os.makedirs(self.dir, exist_ok=True)
            path = os.path.join(self.dir, "%s-%s.json" % (
                "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:60],
                hashlib.md5(key.encode()).hexdigest()[:6]))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "key": key, "count": cnt, "seed": self.seed,
                           "tier": self.tier, "what": text, "replay": replay}, f, indent=1,
                          default=lambda o: o.decode("latin-1") if isinstance(o, bytes) else str(o))
            if new <= 10:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  [%s] x%d %s" % (key, cnt, text[:1500]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict({"evaluations": self.evaluations,
                                "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                                "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": new}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        print("%s: %d cases, %d distinct, %d violations, %.1f s; %s" % (
            self.prop, self.evaluations, len(self.distinct), new, time.time() - self.t0,
            json.dumps(self.extra)[:600]))
        sys.stdout.flush()
        os._exit(1 if new else 0)


def main(fn):
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(3)
