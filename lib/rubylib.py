"""Milters written in Ruby (C29): plays generated sessions against
harness/ruby_milter.rb (Milter::Client::CommandLine, ClientSession,
CompositeSession and the extension libraries) and compares what the milter saw,
what its requests did and what the MTA was told with what the plan makes right."""
import json, os, random, re, shutil, signal, socket, subprocess, tempfile, threading, time
import build as B
import clientlib as CL
import milterproto as P
import manager as M
import wiregen as W
from core import x

METHODS = {"H": "helo", "M": "envelope_from", "R": "envelope_recipient", "T": "data", "L": "header",
           "N": "end_of_header", "B": "body", "E": "end_of_message", "U": "unknown", "C": "connect"}
RANK = {"default": 0, "accept": 1, "continue": 3, "temporary_failure": 4, "reject": 5, "discard": 6}
CODE = {"default": "c", "continue": "c", "accept": "a", "reject": "r", "temporary_failure": "t", "discard": "d"}
NAMES = ["i", "j", "_", "v", "auth_type", "mail_addr", "client_ptr"]
STAGES = "CHMRTLNBE"
ASAN = None


def txt(r, lo=1, hi=30):
    return CL.txt(r, lo, hi)


class Gen:
    def __init__(self, r, key, opt):
        self.r, self.key, self.opt = r, key, opt
        self.parts = max(1, opt["composite"])
        self.plan = [[] for _ in range(self.parts)]
        self.want = []               # per part and in the order of all
        self.steps = []
        self.sent, self.shelf = {}, {}
        self.kept = [[] for _ in range(self.parts)]
        self.kinds = set()
        self.in_message = False
        self.refused = opt.get("refuse") and r.random() < .4
        self.build()

    def has(self, stage):
        return stage == "C" or METHODS[stage] in self.opt["methods"]

    def visible(self, stage):
        out = {}
        for s in STAGES if stage not in STAGES else STAGES[:STAGES.index(stage) + 1]:
            out.update(self.sent.get(s, {}))
        return {k.decode(): x(v) for k, v in out.items() if k.decode() in NAMES}

    # -- what a callback of one part does
    def ops(self, stage, calm):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 2]) if stage != "E" else r.choice([0, 1, 2, 4, 8])):
            k = r.random()
            if k < .12:
                out.append(["keep", r.choice("abcdef")])
            elif k < .25:
                out.append(["kept"])
            elif k < .35:
                out.append(["shset", r.choice(["k1", "k2"]), r.choice(["v%d" % r.getrandbits(9), r.getrandbits(20), [1, "x", None],
                                                                       "two\nlines: - x", {"a": 1}, True])])
            elif k < .45:
                out.append(["shget", r.choice(["k1", "k2"])])
            elif k < .48:
                out.append(["gc"])
            elif stage == "E" or k < .6:
                out.append(self.mod(stage))
        if calm:
            if r.random() < .6:
                out.insert(r.randint(0, len(out)), ["status", "continue"])
        else:
            for _ in range(r.choice([1, 1, 1, 2])):
                k = r.random()
                if k < .35:
                    out.append(["status", r.choice(["accept", "discard", "reject", "temporary_failure"])])
                elif k < .75:
                    v = r.choice(["reject", "temporary_failure"])
                    c = 5 if v == "reject" else 4
                    if r.random() < .1:
                        c = 9 - c
                    code = r.choice([None, c * 100 + r.choice([0, 50, 51, 99, r.randint(0, 99)])])
                    xc = r.choice([None, "%d.%d.%d" % (c, r.randint(0, 999), r.randint(0, 999))])
                    if r.random() < .1:
                        xc = r.choice(["4.7.1", "5.7.1", "5.7", "x", "", "5.1000.1"])
                    if r.random() < .06:
                        code = r.choice([0, 200, 250, 354, 399, 600, 999])
                    reason = r.choice([None, txt(r, 1, 40), b"\n".join(txt(r, 1, 20) for _ in range(r.choice([2, 3])))])
                    out.append(["reply", v, code, xc, x(reason) if reason is not None else None])
                else:
                    out.append([r.choice(["raise", "nomethod", "exit"])])
        return out

    def mod(self, stage):
        r = self.r
        n, v = txt(r, 1, 20), (b"" if r.random() < .1 else txt(r, 1, 60))
        enc = r.choice(["utf-8", "binary"])
        i = r.choice([0, 1, 2, 100, r.getrandbits(31)])
        k = r.choice(["addh", "insh", "chgh", "delh", "body", "from", "addr", "delr", "quar", "prog"])
        if stage != "E" and k in ("quar", "prog"):
            k = "addh"
        if k == "addh":
            op = [k, x(n), x(v), enc]
        elif k == "insh":
            op = [k, i, x(n), x(v), enc]
        elif k == "chgh":
            op = [k, x(n), i, x(v), enc]
        elif k == "delh":
            op = [k, x(n), i, enc]
        elif k == "body":
            size = r.choice([1, 100, 4096, 65535, 65536, 140000]) if r.random() < .3 else r.randint(0, 300)
            op = [k, x(W.blob(r, size)), "binary"]
        elif k == "from":
            op = [k, x(n), x(v) if v and r.random() < .5 else None]
        elif k == "addr":
            op = [k, x(n), x(v) if v and r.random() < .5 else None]
        elif k == "delr":
            op = [k, x(n)]
        elif k == "quar":
            op = [k, x(n)]
        else:
            op = [k]
        if k not in ("quar", "prog") and r.random() < .1:
            op.append("loud")
        return op

    # -- what that has to do
    def run_callback(self, stage, args, calm):
        """-> (verdict, final, packets)"""
        method = METHODS[stage]
        st = dict(status=None, custom=None, packets=[], quar=None, progress=0)
        event = [method] + [x(a) if isinstance(a, bytes) else a for a in args] + [self.visible(stage)]
        composite = self.opt["composite"] > 0
        resolved, failed = None, False
        for p in range(self.parts):
            ops = self.ops(stage, calm if not composite else calm or self.r.random() < .4)
            self.plan[p].append(ops)
            if failed:
                # the callback of an earlier part raised: this one isn't called
                self.plan[p].pop()
                continue
            self.want.append((p, event))
            for op in ops:
                if not self.do(p, stage, op, st):
                    st["status"] = self.opt["fallback"]
                    failed = True
                    break
            s = st["status"] or "default"
            if resolved is None or RANK[resolved] < RANK[s]:
                resolved = s
        verdict = st["status"] or "default" if failed or not composite else resolved
        final = CODE[verdict]
        if final in "rt" and st["custom"] and st["custom"][0] // 100 == (5 if final == "r" else 4):
            code, xc, lines = st["custom"]
            final = ("y", code, xc, lines)
        self.kinds.add("%s:%s%s" % (method, verdict, "/custom" if isinstance(final, tuple) else ""))
        if failed:
            self.kinds.add("exception:" + method)
        packets = st["packets"] + ([st["quar"]] if st["quar"] else [])
        return verdict, final, packets, st["progress"]

    def do(self, p, stage, op, st):
        """-> False if it raises"""
        k = op[0]
        if k == "status":
            st["status"] = op[1]
            self.reset(p, stage, op[1])
        elif k == "reply":
            _, v, code, xc, reason = op
            if code is None and xc is None and reason is None:
                st["status"] = v
            else:
                code = code if code is not None else 550 if v == "reject" else 451
                xc = (xc if xc is not None else "5.7.1" if v == "reject" else "4.7.1").encode()
                reason = bytes.fromhex(reason[1:]) if reason is not None else \
                    b"Command rejected" if v == "reject" else b"Service unavailable - try again later"
                if not (400 <= code < 600 and CL.xcode_ok(xc, code)):
                    self.kinds.add("reply:refused")
                    return False
                st["custom"] = (code, xc, reason.split(b"\n"))
                st["status"] = "temporary_failure" if code < 500 else "reject"
            self.reset(p, stage, v)
        elif k in ("raise", "nomethod", "exit"):
            return False
        elif k == "keep":
            if self.kept[p] is not None:
                self.kept[p].append(op[1])
        elif k == "kept":
            self.want.append((p, ["kept", None if self.kept[p] is None else list(self.kept[p])]))
        elif k == "shset":
            self.shelf[op[1]] = op[2]
        elif k == "shget":
            self.want.append((p, ["shelf", op[1], self.shelf.get(op[1])]))
        elif k == "gc":
            pass
        elif k == "prog":
            st["progress"] += 1
        elif k == "quar":
            ok = bool(self.action & P.A_QUARANTINE)
            self.want.append((p, ["result", "quar", int(ok)]))
            if ok:
                st["quar"] = ("q", self.b(op[1]))
                st["status"] = "accept"
                self.reset(p, stage, "accept")
            self.kinds.add("quar%d" % ok)
        else:
            b = self.b
            need, pk = {
                "addh": lambda: (P.A_ADDHDRS, ("h", b(op[1]), b(op[2]))),
                "insh": lambda: (P.A_ADDHDRS, ("i", op[1], b(op[2]), b(op[3]))),
                "chgh": lambda: (P.A_CHGHDRS, ("m", op[2], b(op[1]), b(op[3]))),
                "delh": lambda: (P.A_CHGHDRS, ("m", op[2], b(op[1]), b"")),
                "body": lambda: (P.A_CHGBODY, ("b", b(op[1]))),
                "from": lambda: (P.A_CHGFROM, ("e", b(op[1]), b(op[2]) if op[2] else None)),
                "addr": lambda: (P.A_ADDRCPT_PAR, ("2", b(op[1]), b(op[2]))) if op[2] else (P.A_ADDRCPT, ("+", b(op[1]))),
                "delr": lambda: (P.A_DELRCPT, ("-", b(op[1]))),
            }[k]()
            ok = stage == "E" and (self.action & need) == need
            self.want.append((p, ["result", k, int(ok)]))
            self.kinds.add("%s%d" % (k, ok))
            if ok:
                st["packets"].append(pk)
            elif op[-1] == "loud":
                return False
        return True

    @staticmethod
    def b(h):
        return bytes.fromhex(h[1:])

    def reset(self, p, stage, verdict):
        if verdict in ("accept", "discard") or verdict in ("reject", "temporary_failure") and stage != "R":
            self.kept[p] = []

    # -- the conversation
    def macros(self, stage):
        r = self.r
        if r.random() < .6 or stage not in STAGES:
            return b""
        d = {}
        for _ in range(r.choice([0, 1, 2, 4])):
            d[r.choice(NAMES + ["other"]).encode()] = r.choice([b"", txt(r), txt(r)])
        self.sent[stage] = d
        return P.c_macro(stage, d.items())

    def command(self, stage, wire, args, calm=.85):
        if P.NOSTEP.get(stage, 0) & self.step:
            return "continue"
        if stage in "MRTLNB":
            self.in_message = True
        wire = self.macros(stage) + wire
        if not self.has(stage):
            self.steps.append(dict(wire=wire, final="c", packets=[], progress=0, what=stage))
            return "continue"
        verdict, final, packets, progress = self.run_callback(stage, args, self.r.random() < calm)
        self.steps.append(dict(wire=wire, final=final, packets=packets, progress=progress, what=stage))
        return verdict

    def end_message(self, known):
        for s in "MRTLNBE":
            self.sent.pop(s, None)
        self.shelf = {}
        self.in_message = False
        for p in range(self.parts):
            if known:
                self.kept[p] = []
            elif self.kept[p]:
                # nothing says whether the data of a session survive an
                # ordinary end of message
                self.kept[p] = None

    def abort(self):
        self.steps.append(dict(wire=P.pkt("A"), final=None))
        if "abort" in self.opt["methods"]:
            for p in range(self.parts):
                self.want.append((p, ["abort"]))
        self.end_message(True)

    def build(self):
        r = self.r
        version = r.choice([2, 3, 4, 6, 6, 6])
        self.action = P.A_ALL if r.random() < .6 else r.getrandbits(9)
        steps = P.P_ALL if r.random() < .6 else r.getrandbits(21)
        gone = P.P_NR_ALL | P.P_HDR_LEADSPC
        for s, f in P.NOSTEP.items():
            s = s.decode() if isinstance(s, bytes) else s
            if self.has(s) and not self.refused or s == "C":
                gone |= f
        self.step = steps & ~gone
        self.steps.append(dict(wire=P.c_negotiate(version, self.action, steps), what="O",
                               final=("O", version, self.action, self.step, {}), packets=[], progress=0))
        host = self.key.encode() + b"." + txt(r, 1, 20)
        family = r.choice("446LU")
        port, addr, shown = 0, b"", b"unknown"
        if family == "4":
            port, addr = r.getrandbits(16), b"%d.%d.%d.%d" % tuple(r.randbytes(4))
            shown = b"inet:%d@[%s]" % (port, addr)
        elif family == "6":
            port, addr = r.getrandbits(16), r.choice([b"::1", b"2001:db8::%x" % r.randint(1, 65535)])
            shown = b"inet6:%d@[%s]" % (port, addr)
        elif family == "L":
            addr = b"/" + re.sub(rb"[^\w/.-]", b"_", txt(r, 1, 60))
            shown = b"unix:" + addr
        if family == "U":
            shown = None
        final = ("reject", "temporary_failure", "accept", "discard")
        if self.refused:
            # there is no session: the status for errors stands for it
            self.steps.append(dict(wire=P.c_connect(host, family, port, addr), what="C", final=CODE[self.opt["fallback"]], packets=[], progress=0))
            self.kinds.add("no session")
            return self.finish()
        v = self.command("C", P.c_connect(host, family, port, addr), [host, shown], .95)
        if v in final:
            return self.finish()
        for _ in range(r.choice([0, 1, 1, 2])):
            a = txt(r)
            if self.command("H", P.c_helo(a), [a], .95) == "accept":
                return self.finish()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            if version >= 3 and r.random() < .15:
                a = txt(r)
                self.command("U", P.c_unknown(a), [a])
            if self.message(version) == "quit":
                break
        self.finish()

    def message(self, version):
        r = self.r

        def stop(v):
            if v in ("reject", "temporary_failure", "accept", "discard") or r.random() < .03:
                self.abort()
                return True
            return False
        a = txt(r)
        if stop(self.command("M", P.c_mail(a), [a], .95)):
            return
        for _ in range(r.choice([1, 1, 2, 5])):
            a = txt(r)
            if self.command("R", P.c_rcpt(a), [a]) in ("accept", "discard"):
                return self.abort()
        if version >= 4 and stop(self.command("T", P.pkt("T"), [], .95)):
            return
        for _ in range(r.choice([0, 1, 3, 8])):
            n, val = txt(r, 1, 20), (b"" if r.random() < .1 else txt(r, 1, 80))
            if stop(self.command("L", P.c_header(n, val), [n, val], .97)):
                return
        if stop(self.command("N", P.pkt("N"), [], .95)):
            return
        for _ in range(r.choice([0, 1, 2, 4])):
            b = W.blob(r, r.choice([1, 10, 300, 4096, 65535]) if r.random() < .5 else r.randint(1, 100))
            if stop(self.command("B", P.c_body(b), [b], .96)):
                return
        self.command("E", P.pkt("E"), [], .6)
        self.end_message(False)

    def finish(self):
        k = self.r.random()
        wire = P.pkt("Q") if k < .8 else b""
        self.steps.append(dict(wire=wire, final=None, close=True))


def eom_chunk(key, r):
    """a session whose MTA sends the last piece of the body with the end of message"""
    return [(P.c_negotiate(6, P.A_ALL, P.P_ALL), "O"), (P.c_connect(key.encode() + b".x", "4", 1, b"127.0.0.1"), "c"),
            (P.c_helo(b"h"), "c"), (P.c_mail(b"<a>"), "c"), (P.c_rcpt(b"<b>"), "c"), (P.pkt("T"), "c"),
            (P.c_header(b"A", b"b"), "c"), (P.pkt("N"), "c"), (P.c_body(b"first "), "c"), (P.c_eom(b"last"), "c")]


class Session(CL.Session):
    def __init__(self, gen, driver, index, r):
        super().__init__(gen, None, index, r)
        self.driver = driver

    def run(self):
        try:
            self.sock = self.driver.connect()
            self.play()
        except Exception as e:
            self.bad("session", "%s: %s" % (type(e).__name__, e))
        finally:
            if self.sock:
                self.sock.close()

    def play(self):
        for n, st in enumerate(self.g.steps):
            what = "%s step %d (%s)" % (self.g.key, n, st.get("what", "abort or end"))
            self.send(st["wire"])
            if st["final"] is None:
                if st.get("close"):
                    if self.buf:
                        self.bad("unsolicited", "%s: the milter sent %r more" % (what, self.buf[:200]))
                    return
                continue
            got, nprog = [], 0
            while True:
                try:
                    raw = self.packet()
                except socket.timeout:
                    return self.bad("no-reply", "%s: no reply" % what)
                if raw is None:
                    return self.bad("closed", "%s: the milter closed the connection" % what)
                try:
                    p = CL.norm_reply(raw)
                except (P.ProtoError, ValueError, IndexError) as e:
                    return self.bad("bad-packet", "%s: %r (%s)" % (what, raw[:200], e))
                if p[0] == "p":
                    nprog += 1
                elif p[0] in P.MODS:
                    got.append(p)
                else:
                    break
            self.replies += 1
            self.mods += len(got)
            want = CL.want_final(st["final"])
            if want[0] == "O":
                if p != want:
                    self.bad("negotiate", "%s: negotiated %r, the milter asked for %r" % (what, p, want))
            elif p != want and not (want[0] == "y" == p[0] and
                                    [l.rstrip() for l in p[1].split(b"\n")] == [l.rstrip() for l in want[1].split(b"\n")]):
                self.bad("verdict", "%s: the MTA was told %r, the milter answered %r" % (what, p, want))
            wanted = CL.join_bodies([m for m in st["packets"] if m != ("b", b"")])
            got = CL.join_bodies([m for m in got if m != ("b", b"")])
            if got != wanted:
                self.bad("modifications", "%s: modifications %s, requested %s" % (what, CL.cut_repr(got), CL.cut_repr(wanted)))
            if nprog != st["progress"]:
                self.bad("progress", "%s: %d progress packets instead of %d" % (what, nprog, st["progress"]))
            if self.buf:
                return self.bad("unsolicited", "%s: %r follows the reply" % (what, self.buf[:100]))


class Driver:
    def __init__(self, opt, plan, r):
        self.out = B.build("asan")
        self.dir = tempfile.mkdtemp(prefix="rb")
        os.chmod(self.dir, 0o777)      # the milter gives up root
        self.plan = os.path.join(self.dir, "plan")
        with open(self.plan, "w") as f:
            json.dump(plan, f)
        self.sock = os.path.join(self.dir, "s")
        self.logp, self.errp = os.path.join(self.dir, "log"), os.path.join(self.dir, "err")
        libs = [subprocess.run(["gcc", "-print-file-name=lib%s.so" % l], stdout=subprocess.PIPE, text=True).stdout.strip()
                for l in ("asan", "ubsan")]
        env = M.san_env({"LD_PRELOAD": ":".join(libs), "LC_ALL": "C.UTF-8",
                         "RUBYLIB": os.environ.get("TREE", "/repo") + "/binding/ruby/lib:" + os.path.join(self.out, "ext")})
        args = ["ruby", "-W0", os.path.join(B.VERIF, "harness", "ruby_milter.rb"), self.plan, self.logp, "-s", "unix:" + self.sock,
                "--log-level=critical|error", "--log-path=-"]
        fb = opt["fallback"] if r.random() < .5 else opt["fallback"].replace("_", "-")
        if opt.get("config"):
            # the same in a configuration file
            del args[args.index("-s"):]
            self.mode, self.remove = r.choice([0o600, 0o660, 0o777]), r.random() < .5
            # the socket of a milter that ended without removing it
            s = socket.socket(socket.AF_UNIX)
            s.bind(self.sock)
            s.close()
            lines = ['milter.connection_spec = "unix:%s"' % self.sock, "milter.fallback_status = %s" % r.choice(['"%s"', ':"%s"']) % fb,
                     'milter.event_loop_backend = "%s"' % opt["loop"], "milter.n_workers = %s" % (opt["workers"] or r.choice(["0", "nil"])),
                     "milter.packet_buffer_size = %s" % (opt["buffer"] or r.choice(["0", "nil"])),
                     "milter.maintenance_interval = %s" % (opt["maintain"] or r.choice(["0", "nil", "100"])),
                     "milter.run_gc_on_maintain = %s" % r.choice(["true", "false"]),
                     "milter.unix_socket_mode = 0%o" % self.mode,
                     "milter.remove_unix_socket_on_close = %s" % str(self.remove).lower(),
                     'milter.pid_file = "%s"' % os.path.join(self.dir, "pid"),
                     "milter.maintained { File.open(%r, 'ab') {|f| f.write('m') } }" % os.path.join(self.dir, "maintained"),
                     'log.level = "critical|error"', 'log.path = nil', 'log.use_syslog = false',
                     "raise 'lost' if milter.fallback_status != %r" % opt["fallback"].replace("_", "-")]
            if opt["limit"]:
                lines += ["milter.max_connections = %d" % opt["limit"], "milter.suspend_time_on_unacceptable = 1"]
            check = lines.pop(next(i for i, l in enumerate(lines) if l.startswith("raise")))
            r.shuffle(lines)
            lines.append(check)
            if r.random() < .5:
                lines.append("milter.fallback_status = 'nonsense'")
                lines.append("milter.connection_spec = 'inet:1'")
            conf = os.path.join(self.dir, "conf.rb")
            with open(conf, "w") as f:
                f.write("\n".join(lines) + "\n")
            args.append("--configuration=" + conf)
        else:
            args += ["--event-loop-backend=" + opt["loop"], "--fallback-status=" + opt["fallback"].replace("_", "-")]
            if opt["workers"]:
                args.append("--n-workers=%d" % opt["workers"])
            if opt["buffer"]:
                args.append("--packet-buffer-size=%d" % opt["buffer"])
            if opt["maintain"]:
                args += ["--maintenance-interval=%d" % opt["maintain"], "--run-gc-on-maintain"]
        self.proc = subprocess.Popen(args, stdin=subprocess.DEVNULL, stdout=open(self.errp, "wb"), stderr=subprocess.STDOUT,
                                     env=env, cwd=self.dir, start_new_session=True)
        t = time.time()
        while True:
            l = open("/proc/net/unix").read()
            if re.search(r" 00010000 0001 01 +\d+ %s\n" % re.escape(self.sock), l):
                break
            if self.proc.poll() is not None or time.time() - t > 60:
                raise RuntimeError("the Ruby milter did not start: " + self.err())
            time.sleep(.02)

    def connect(self):
        s = socket.socket(socket.AF_UNIX)
        t = time.time()
        while True:
            try:
                s.settimeout(10)
                s.connect(self.sock)
                s.settimeout(30)
                return s
            except (ConnectionRefusedError, FileNotFoundError, BlockingIOError):
                if time.time() - t > 10:
                    raise
                time.sleep(.01)

    def err(self):
        return open(self.errp, errors="replace").read()

    def log(self):
        try:
            return [json.loads(l) for l in open(self.logp) if l.endswith("\n")]
        except FileNotFoundError:
            return []

    def wait_handlers(self, workers):
        """until the processes of the milter handle signals"""
        t = time.time()
        while time.time() - t < 60 and self.proc.poll() is None:
            if len({l["pid"] for l in self.log() if l["e"] == "ready"}) == 1 + workers:
                return True
            time.sleep(.02)
        raise RuntimeError("not ready: " + self.err()[-1500:])

    def configured(self, opt, r, kinds):
        """what else the configuration file asks for"""
        bad = []
        m = os.stat(self.sock).st_mode & 0o777
        if m != self.mode:
            bad.append(("config", "milter.unix_socket_mode = 0%o, the socket has 0%o" % (self.mode, m)))
        try:
            pid = open(os.path.join(self.dir, "pid")).read()
        except FileNotFoundError:
            pid = None
        if pid is None or int(pid or 0) != self.proc.pid:
            bad.append(("config", "the PID file contains %r, the milter is %d" % (pid, self.proc.pid)))
        if opt["maintain"] and not opt["workers"]:
            t = time.time()
            while time.time() - t < 20 and not os.path.exists(os.path.join(self.dir, "maintained")):
                time.sleep(.05)
            if not os.path.exists(os.path.join(self.dir, "maintained")):
                bad.append(("config", "milter.maintained never ran with milter.maintenance_interval = %d" % opt["maintain"]))
            kinds.add("maintained")
        if opt["limit"]:
            # one connection more than allowed waits until another one ends
            hello = P.c_negotiate(6, P.A_ALL, P.P_ALL)

            def answered(s, timeout):
                s.settimeout(timeout)
                try:
                    return bool(s.recv(1))
                except socket.timeout:
                    return False
            held = []
            for i in range(opt["limit"]):
                s = self.connect()
                s.sendall(hello)
                if not answered(s, 30):
                    bad.append(("limit", "connection %d of %d allowed ones isn't served" % (i + 1, opt["limit"])))
                held.append(s)
            s = self.connect()
            s.sendall(hello)
            if answered(s, .7):
                bad.append(("max-connections-ignored", "connection %d is served, milter.max_connections = %d" % (opt["limit"] + 1, opt["limit"])))
            else:
                held.pop(r.randrange(len(held))).close()
                if not answered(s, 30):
                    bad.append(("limit", "a connection waiting for milter.max_connections = %d isn't served when another one ended" % opt["limit"]))
            for h in held + [s]:
                h.close()
            kinds.add("limit")
        return bad

    def stop(self):
        """-> exit status of the milter"""
        died = self.proc.poll()
        if died is not None:
            return "died %r" % died
        self.proc.send_signal(signal.SIGTERM)
        try:
            return self.proc.wait(30)
        except subprocess.TimeoutExpired:
            return "does not stop"

    def cleanup(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


ALLOWED = re.compile(r"Boom: planned|no_such_method_at_all|ScriptError: planned|Boom: no session")


def round_(seed, opt, n, par):
    r = random.Random(seed)
    methods = ["helo", "envelope_from", "envelope_recipient", "data", "unknown", "header", "end_of_header", "body",
               "end_of_message", "abort", "finished"]
    if opt["missing"]:
        methods = [m for m in methods if r.random() > .25 or m == "finished"]
    opt = dict(opt, methods=methods)
    gens = [Gen(r, "s%d" % i, opt) for i in range(n)]
    plan = dict(methods=methods, composite=opt["composite"], refuse=[i + 1 for i, g in enumerate(gens) if g.refused], macros=NAMES,
                sessions={g.key: g.plan for g in gens})
    d = Driver(opt, plan, r)
    res = dict(problems=[], sessions=0, replies=0, mods=0, callbacks=0, kinds=set(), pids=0)
    try:
        d.wait_handlers(opt["workers"])
        todo, running, done = list(range(n)), [], []
        hup = r.randrange(n)         # a reload while sessions run
        while todo or running:
            if len(todo) == hup:
                hup = None
                d.proc.send_signal(signal.SIGHUP)
                d.proc.send_signal(signal.SIGUSR1)
            while todo and len(running) < par:
                i = todo.pop(0)
                t = Session(gens[i], d, i, random.Random("%s/%d" % (seed, i)))
                t.start()
                running.append(t)
            time.sleep(.002)
            for t in list(running):
                if not t.is_alive():
                    running.remove(t)
                    done.append(t)
        if not opt["composite"] and not opt.get("refuse") and "body" in methods:
            res["problems"] += chunk_probe(d, r)
        t0 = time.time()
        while time.time() - t0 < 20 and d.proc.poll() is None:
            if sum(1 for l in d.log() if l["e"] == "finished" and l["p"] == 0 and str(l["k"])[:1] == "s") >= sum(1 for g in gens if not g.refused):
                break
            time.sleep(.05)
        pids = {l["pid"] for l in d.log()} | {d.proc.pid}
        t0 = time.time()
        while time.time() - t0 < 20:
            done_ = {l["pid"] for l in d.log() if l["e"] == "reload"}
            if pids <= done_ or hup is not None:
                break
            time.sleep(.05)
        else:
            res["problems"].append(("reload", "SIGHUP: of the processes %r only %r ran the reload callback" % (sorted(pids), sorted(done_))))
        if opt.get("config"):
            res["problems"] += d.configured(opt, r, res["kinds"])
        rc = d.stop()
        if opt.get("config") and os.path.exists(d.sock) == d.remove:
            res["problems"].append(("socket-left" if d.remove else "remove-on-close-ignored", "milter.remove_unix_socket_on_close = %s, and the socket %s" % (
                d.remove, "is there" if d.remove else "is gone")))
        log = d.log()
        err = d.err()
        for key, text in M.diagnostics(err):
            res["problems"].append((key, text))
        if rc not in (0,):
            res["problems"].append(("exit", "the milter ended with %r: %s" % (rc, err[-1500:])))
        by = {}
        for l in log:
            by.setdefault(l["k"], []).append(l)
        res["pids"] = len({l["pid"] for l in log if l["k"]})
        for t in done:
            res["sessions"] += 1
            res["replies"] += t.replies
            res["mods"] += t.mods
            res["problems"] += t.problems
            res["kinds"] |= t.g.kinds
            got = by.get(t.g.key, [])
            res["callbacks"] += len(got)
            if not t.problems:
                res["problems"] += compare(t.g, got, opt)
        return res
    finally:
        d.cleanup()


def chunk_probe(d, r):
    s = d.connect()
    try:
        for wire, final in eom_chunk("chunk", r):
            s.sendall(wire)
            buf = b""
            while len(buf) < 5 or len(buf) < 4 + int.from_bytes(buf[:4], "big"):
                c = s.recv(4096)
                if not c:
                    return [("closed", "end of message with data: the milter closed the connection")]
                buf += c
    except socket.timeout:
        return [("no-reply", "end of message with data: no reply")]
    finally:
        s.close()
    time.sleep(.1)
    seen = b"".join(Gen.b(l["a"][0]) for l in d.log() if l["k"] == "chunk" and l["e"] == "body")
    if seen != b"first last":
        return [("eom-chunk", "the body was 'first last', its last piece in the end-of-message command; the milter saw %r" % seen)]
    return []


def compare(g, got, opt):
    bad = []
    if len({l["pid"] for l in got}) > 1:
        bad.append(("callback", "session %s ran in more than one process" % g.key))
    got = [l for l in got if l["e"] != "reset"]
    parts = max(1, opt["composite"])
    if g.refused:
        return [("callback", "session %s has no session object but %s ran" % (g.key, CL.cut_repr(got)))] if got else []
    if "finished" in opt["methods"]:
        f = [l for l in got if l["e"] == "finished"]
        # (a part knows its session from connect, which an exception in an earlier part keeps from it)
        n = len({l["p"] for l in got if l["e"] == "connect"})
        if sorted(l["p"] for l in f) != list(range(n)) or got[len(got) - n:] != f:
            bad.append(("finished", "session %s: finished %d times for %d parts, or not last" % (g.key, len(f), n)))
        got = [l for l in got if l["e"] != "finished"]
    for i in range(max(len(g.want), len(got))):
        w = g.want[i] if i < len(g.want) else None
        h = got[i] if i < len(got) else None
        if w is None or h is None:
            bad.append(("callback", "session %s: callback %d: expected %s, got %s" % (g.key, i, CL.cut_repr(w), CL.cut_repr(h and [h["p"], h["e"], h["a"]]))))
            break
        p, ev = w
        if h["p"] != p or h["e"] != ev[0]:
            bad.append(("callback", "session %s: callback %d: expected %s, got %s" % (g.key, i, CL.cut_repr(w), CL.cut_repr([h["p"], h["e"], h["a"]]))))
            break
        if ev[0] == "kept":
            if ev[1] is not None and h["a"][0] != ev[1]:
                bad.append(("state", "session %s: the data of the session are %r, kept since the last reset: %r" % (g.key, h["a"][0], ev[1])))
        elif ev[0] == "shelf":
            if h["a"] != ev[1:]:
                bad.append(("shelf", "session %s: the shelf gave %r, stored in this transaction was %r" % (g.key, h["a"], ev[1:])))
        elif ev[0] == "result":
            if h["a"] != ev[1:]:
                bad.append(("accepted" if h["a"][1] else "refused", "session %s: request %r, expected %r" % (g.key, h["a"], ev[1:])))
        elif ev[0] == "abort":
            pass
        else:
            ga, wa = list(h["a"]), list(ev[1:])
            if ev[0] == "connect" and wa[1] is None:
                ga[1] = None
            if ga[:-1] != wa[:-1]:
                bad.append(("arguments", "session %s: %s saw %s, the MTA sent %s" % (g.key, ev[0], CL.cut_repr(ga[:-1]), CL.cut_repr(wa[:-1]))))
            elif ga[-1] != wa[-1]:
                bad.append(("macros", "session %s: %s sees the macros %s, in force are %s" % (g.key, ev[0], CL.cut_repr(ga[-1]), CL.cut_repr(wa[-1]))))
    return bad
