"""C22: what is in force after loading configuration files: --show-config of a real milter-manager against a model,
dumps loaded again, invalid files, and reload histories with sessions in progress."""
import asyncio, json, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from check import Check, main
import build, confmodel as M, life, manager
import milterproto as P
from milterproto import *

TREE = os.environ.get("TREE", "/repo")
RULE = ("seed -> random configuration files (every setting, milters defined, redefined and removed, conditions, included files, custom XML) -> "
        "--show-config against the model and its output loaded again; every kind of invalid value and broken file; histories of reloads with sessions in progress")


def show(c, d):
    """-> (stdout split into (reports, dump), exit status, stderr)"""
    out = build.build("asan")
    e = manager.san_env({"MILTER_MANAGER_CONFIGURATION_MODULE_DIR": out + "/module",
                         "RUBYLIB": TREE + "/binding/ruby/lib:" + out + "/ext", "LC_ALL": "C.UTF-8"})
    p = subprocess.run([out + "/bin/milter-manager", "-c", d, "--show-config"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=e, cwd=d, timeout=120)
    o = p.stdout.decode("utf-8", "replace")
    i = o.find("package.platform = ")
    i = o.rfind("\n", 0, o.rfind("\n", 0, i)) + 1 if i >= 0 else len(o)
    dump = "\n".join(l for l in o[i:].split("\n") if not re.match(r"\[\d{4}-\d\d-\d\dT", l))
    return o[:i], dump, p.returncode, p.stderr.decode("utf-8", "replace")


XML_MILTER = ["connection_spec", "description", "enabled", "command", "command_options", "fallback_status", "evaluation_mode"]


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


def custom_xml(r, st):
    """writes a custom configuration as the control socket stores it, applied to the model"""
    o = ['<?xml version="1.0" encoding="UTF-8"?>'] if r.random() < .3 else []
    o.append("<configuration>")
    if r.random() < .5:
        o.append("  <security>")
        if r.random() < .5:
            b = r.random() < .5
            o.append("    <privilege-mode>%s</privilege-mode>" % M.lit(b))
            st.v["security.privilege_mode"] = b
            st.where["?security.privilege_mode"] = 1
        o.append("  </security>")
    for g in ("controller", "manager"):
        if r.random() < .5:
            o.append("  <%s>" % g)
            s = M.spec(r)
            o.append("    <connection-spec>%s</connection-spec>" % esc(s))
            st.v[g + ".connection_spec"] = s
            st.where["?%s.connection_spec" % g] = 1
            o.append("  </%s>" % g)
    if r.random() < .8:
        o.append("  <milters>")
        for _ in range(r.randint(1, 3)):
            name = r.choice(list(st.milters) + ["x-" + M.word(r), "m<&>", "日"])
            m = st.milters.get(name) or dict(M.MILTER)
            m = dict(m)
            o.append("    <milter>")
            o.append("      <name>%s</name>" % esc(name))
            new = name not in st.milters
            for f in XML_MILTER:
                if not (r.random() < .4 or new and f == "connection_spec"):
                    continue
                for _ in range(20):
                    v = M.milter_value(r, f)[1]
                    if v is not None and v == v.__class__(v) and (not isinstance(v, str) or v.strip() == v and v):
                        break
                else:
                    continue
                o.append("      <%s>%s</%s>" % (f.replace("_", "-"), esc(v) if isinstance(v, str) else M.lit(v), f.replace("_", "-")))
                if f == "command_options" and "command" not in m.get("_x", ()):
                    pass
                m.setdefault("_x", {})[f] = v
            x = m.pop("_x", {})
            if "command_options" in x and "command" not in x:
                # options go with the command
                o.append("      <command>/c</command>")
                x["command"] = "/c"
            if "command" in x:
                m["command"], m["command_options"] = x["command"], x.get("command_options")
            for f in XML_MILTER:
                if f in x and f not in ("command", "command_options"):
                    m[f] = x[f]
            cs = r.sample(list(st.conditions), r.randint(0, len(st.conditions)))
            o.append("      <applicable-conditions>")
            o += ["        <applicable-condition>%s</applicable-condition>" % esc(n) for n in cs]
            o.append("      </applicable-conditions>")
            m["applicable_conditions"] = cs
            o.append("    </milter>")
            st.milters.pop(name, None)
            st.milters[name] = m
            for f in list(M.MILTER):
                st.where["?milter[%s].%s" % (name, f)] = 1
            st.where["?milter[%s]" % name] = 1
        o.append("  </milters>")
    o.append("</configuration>")
    return "\n".join(o) + "\n"


def layout(r, d, st, n, without=()):
    """writes a tree of configuration files with n statements below d"""
    os.makedirs(d + "/inc/more", exist_ok=True)
    files = []
    main_file = M.Out(d + "/milter-manager.conf")
    files.append(main_file)

    def fill(o, k, depth):
        for _ in range(k):
            if depth < 2 and r.random() < .12:
                name = M.word(r) + "-%d" % len(files)
                kind = r.randrange(4)
                sub = M.Out(d + "/inc/" + name + ".conf")
                files.append(sub)
                if kind == 0:
                    o.add('load("inc/%s.conf")' % name)
                elif kind == 1:
                    o.add('load_if_exist("inc/%s.conf")' % name)
                elif kind == 2:
                    o.add('load("inc/%s*.conf")' % name)
                else:
                    o.add('load(%s)' % M.rb(sub.path))
                fill(sub, r.randint(1, 4), depth + 1)
            elif r.random() < .06:
                o.add('load_if_exist("inc/does-not-exist-%s.conf")' % M.word(r))
            elif r.random() < .06:
                o.add(r.choice(["# manager.max_connections = 3", "", "=begin\nmanager.n_workers = 9\n=end", "x = 5"]))
            else:
                M.statement(r, o, st, d, without)
    fill(main_file, n, 0)
    return files


def write(files):
    for f in files:
        with open(f.path, "w") as o:
            o.write(f.text())


def strip_comments(t):
    return "\n".join(l for l in t.split("\n") if not l.strip().startswith("#") and not re.match(r"\[\d{4}-\d\d-\d\dT", l)).strip()


def reports(t):
    return [l for l in t.split("\n") if re.match(r"\[\d{4}-\d\d-\d\d", l) and
            re.search(r"\.conf:\d+|Error\b", l)]


def judge_where(c, st, where, key, replay):
    for k, v in where.items():
        if "?" + k in st.where or v is None:
            continue
        if k.startswith(("package.", "log.", "database.")) and v == "default":
            continue
        if v == "default":
            continue
        w = st.where.get(k)
        if w is None:
            if k.startswith("applicable_condition[") or k.startswith("milter["):
                # (left over from a definition that was removed)
                continue
            c.violation("where:" + k, "%s was never set but is printed as set at %s" % (k, v), replay)
        elif v != "%s:%d" % w:
            c.violation("where:" + re.sub(r"\[.*\]", "", k), "%s was set at %s:%d but is printed as set at %s" % (k, w[0], w[1], v), replay)
        else:
            c.count("locations")


def one_dump(c, i):
    r = c.rng("dump", i)
    d = tempfile.mkdtemp(prefix="cf")
    try:
        st = M.State()
        files = layout(r, d, st, r.choice([0, 1, 3, 8, 15, 30, 60]))
        write(files)
        xml = None
        if r.random() < .3:
            xml = custom_xml(r, st)
            open(d + "/milter-manager.custom.conf", "w").write(xml)
        rep, dump, code, err = show(c, d)
        replay = dict(kind="dump", index=i, files={f.path[len(d) + 1:]: f.text() for f in files}, xml=xml, output=rep[-1500:] + dump)
        c.case((i, "dump"), replay["files"]["milter-manager.conf"][:300])
        if code != 0:
            c.violation("exit", "--show-config exited with %d: %s" % (code, err[-800:]), replay)
            return
        if reports(rep):
            c.violation("error", "a valid configuration is reported as wrong: " + "\n".join(reports(rep))[:600], replay)
        for k, t in manager.diagnostics(rep + err):
            c.violation(k, t, replay)
        try:
            got, where = M.parse_dump(dump)
        except (ValueError, IndexError) as e:
            c.violation("dump", "--show-config prints something else than a configuration: %s" % e, replay)
            return
        for k, t in M.differences(st, got):
            c.violation("value:" + k, t, replay)
        order(c, st, got, replay)
        judge_where(c, st, where, "dump", replay)
        c.count("settings", len(got.v) + sum(len(m) for m in got.milters.values()))
        c.count("milters", len(got.milters))
        # the dump is a configuration
        if i % 2 == 0:
            d2 = d + "/again"
            os.mkdir(d2)
            open(d2 + "/milter-manager.conf", "w").write(dump)
            rep2, dump2, code, err = show(c, d2)
            replay["again"] = rep2[-1500:] + dump2
            if reports(rep2) or code:
                c.violation("reload-error", "the printed configuration cannot be loaded: " + ("\n".join(reports(rep2)) + err)[:600], replay)
            elif strip_comments(dump) != strip_comments(dump2):
                a, b = strip_comments(dump).split("\n"), strip_comments(dump2).split("\n")
                x = [(p, q) for p, q in zip(a, b) if p != q][:3] or [(len(a), len(b))]
                c.violation("reload-differs", "the printed configuration means another one when loaded: %r" % x, replay)
            else:
                c.count("dumps loaded again")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def order(c, st, got, replay):
    # (a redefinition may or may not move the milter to the end)
    if list(st.milters) != list(got.milters):
        if sorted(st.milters) == sorted(got.milters):
            c.violation("order", "milters are defined in the order %r but printed as %r" % (list(st.milters), list(got.milters)), replay)
    else:
        c.count("orders")


# statements that must be reported, with the settings they could touch
INVALID = [
    ('manager.connection_spec = "bogus"', "manager.connection_spec"),
    ('manager.connection_spec = "inet:99999@localhost"', "manager.connection_spec"),
    ('manager.connection_spec = "inet:port@localhost"', "manager.connection_spec"),
    ('manager.connection_spec = "inet:-1@localhost"', "manager.connection_spec"),
    ('controller.connection_spec = "bogus"', "controller.connection_spec"),
    ('controller.connection_spec = "inet6:70000@[::1]"', "controller.connection_spec"),
    ('manager.fallback_status = "bogus"', "manager.fallback_status"),
    ('manager.fallback_status = "continue"', "manager.fallback_status"),
    ('manager.fallback_status_at_disconnect = "bogus"', "manager.fallback_status_at_disconnect"),
    ('manager.max_connections = "5x"', "manager.max_connections"),
    ('manager.max_connections = 2**33', "manager.max_connections"),
    ('manager.n_workers = 5000', "manager.n_workers"),
    ('manager.n_workers = 1001', "manager.n_workers"),
    ('manager.chunk_size = 0', "manager.chunk_size"),
    ('manager.chunk_size = 65536', "manager.chunk_size"),
    ('manager.chunk_size = 70000', "manager.chunk_size"),
    ('manager.unix_socket_mode = "rw"', "manager.unix_socket_mode"),
    ('manager.unix_socket_mode = "0999"', "manager.unix_socket_mode"),
    ('controller.unix_socket_mode = "x"', "controller.unix_socket_mode"),
    ('security.privilege_mode = "x"', "security.privilege_mode"),
    ('security.effective_user = 5', "security.effective_user"),
    ('manager.pid_file = 5', "manager.pid_file"),
    ('manager.suspend_time_on_unacceptable = "soon"', "manager.suspend_time_on_unacceptable"),
    ('manager.no_such_setting = 1', None),
    ('controller.no_such_setting = 1', None),
    ('security.no_such_setting = 1', None),
    ('log.no_such_setting = 1', None),
    ('no_such_function("x")', None),
    ('NoSuchConstant', None),
    ('load("no/such/file.conf")', None),
    ('raise "stop"', None),
    ('raise NotImplementedError', None),
    ('1 / 0', None),
    ('define_milter("fresh") do |milter|\n  milter.no_such_setting = 1\nend', "fresh"),
    ('define_milter("fresh") do |milter|\n  milter.connection_spec = "bogus"\nend', "fresh"),
    ('define_milter("fresh") do |milter|\n  milter.fallback_status = "bogus"\nend', "fresh"),
    ('define_milter("fresh") do |milter|\n  milter.applicable_conditions = ["no such"]\nend', "fresh"),
    ('define_milter("fresh") do |milter|\n  milter.add_applicable_condition("no such")\nend', "fresh"),
    ('define_milter("fresh") do |milter|\n  milter.reading_timeout = "long"\nend', "fresh"),
    ('define_milter("fresh") do |milter|\n  raise "stop"\nend', "fresh"),
    ('define_milter("OLD") do |milter|\n  milter.connection_spec = "bogus"\nend', "OLD"),
    ('define_milter("OLD") do |milter|\n  milter.description = "changed"\n  milter.fallback_status = "bogus"\nend', "OLD"),
    ('define_milter("OLD") do |milter|\n  milter.applicable_conditions = ["no such"]\nend', "OLD"),
    ('define_applicable_condition("fresh") do |condition|\n  raise "stop"\nend', "conditions"),
]
BROKEN = ["manager.n_workers = ", "define_milter('x') do |m|", "end", "))", "manager.n_workers = 1 2", "\"", "manager.pid_file = \"abc\n"]


def one_invalid(c, i):
    r = c.rng("invalid", i)
    d = tempfile.mkdtemp(prefix="cf")
    try:
        st = M.State()
        # (the report must go where this check sees it)
        files = layout(r, d, st, r.choice([1, 3, 8, 15, 30]), ("log.level", "log.path"))
        kind = "broken" if i % 6 == 5 else "invalid"
        sub = r.random() < .4
        o = files[0]
        if sub:
            o.add('load("inc/last.conf")')
            o = M.Out(d + "/inc/last.conf")
            files.append(o)
        free = set()
        if kind == "invalid":
            text, key = INVALID[(i - i // 6) % len(INVALID)]
            if r.random() < .6 and key in M.DEFAULTS:
                t, v = M.value(r, key, d)
                o.add("%s = %s" % (key, t))
                st.v[key] = v
            if not sub or r.random() < .5:
                for _ in range(r.randint(0, 4)):
                    M.statement(r, o, st, d, ("log.level", "log.path"))
            if key == "OLD":
                if not st.milters:
                    o.add('define_milter("old") do |milter|\n  milter.connection_spec = "inet:5"\nend')
                    st.milters["old"] = dict(M.MILTER, connection_spec="inet:5")
                name = r.choice(list(st.milters))
                text = text.replace('"OLD"', M.rb(name))
                # whether the statements before the invalid one in the same block count isn't specified
                if "description" in text:
                    free.add("milter[%s]" % name)
            if key == "fresh":
                free.add("+fresh")
            if key == "conditions":
                free.add("+fresh")
            line = o.add(text)
        else:
            text = BROKEN[i // 6 % len(BROKEN)]
            if not sub:
                # nothing of the file counts: no parse, no statement
                st = M.State()
                o = files[0]
            o.add(text)
        write(files)
        rep, dump, code, err = show(c, d)
        replay = dict(kind=kind, index=i, files={f.path[len(d) + 1:]: f.text() for f in files}, output=rep[-3000:] + dump)
        c.case((kind, text), text)
        if code != 0:
            c.violation("exit", "--show-config exited with %d: %s" % (code, err[-800:]), replay)
            return
        for k, t in manager.diagnostics(rep + err):
            c.violation(k, t, replay)
        tag = re.sub(r"\W+", "-", text)[:50]
        name = os.path.basename(o.path)
        rs = [l for l in rep.split("\n") if name + ":" in l]
        if not rs and re.search(r"= \d+$", text) and any("out of range" in l and text.split("= ")[1] in l for l in rep.split("\n")):
            # reported by GObject, which doesn't know the place
            rs, kind = [text], "range"
        if not rs:
            c.violation("unreported:" + tag, "%s: %r is not reported" % (kind, text), replay)
        elif kind == "invalid":
            n0 = line[1] - text.count("\n")
            if not any(re.search(re.escape(name) + r":(%s)\b" % "|".join(str(n) for n in range(n0, line[1] + 1)), l) for l in rs):
                c.violation("line:" + tag, "%r at line %d is reported without its place: %s" % (text, n0, "\n".join(rs)[:500]), replay)
        try:
            got, where = M.parse_dump(dump)
        except (ValueError, IndexError) as e:
            c.violation("dump", "--show-config prints something else than a configuration: %s" % e, replay)
            return
        if "+fresh" in free:
            if "fresh" not in st.milters:
                got.milters.pop("fresh", None)
            if "fresh" not in st.conditions:
                got.conditions.pop("fresh", None)
        for k, t in M.differences(st, got, free):
            c.violation("after-error:" + k, "after %r: %s" % (text, t), replay)
        c.count("reports", len(rs))
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- reloads

class World:
    """children, one manager, the versions of its configuration"""

    def __init__(self, c, i):
        self.c, self.r = c, c.rng("reload", i)
        self.i = i
        self.log = []
        self.history = []
        self.version = -1
        self.cur = None

    def replay(self):
        return dict(kind="reload", index=self.i, history=self.history[-12:], log=self.m.errors()[-3000:])

    def bad(self, key, text):
        self.c.violation(key, text, self.replay())

    def make(self, broken=False):
        """a random version of the configuration -> dict(children, ...) and its text"""
        r = self.r
        self.version += 1
        v = self.version
        names = ["c%d" % k for k in range(5)]
        r.shuffle(names)
        names = names[:r.choice([0, 1, 2, 2, 3, 4])]
        o = []
        cfg = dict(v=v, order=[], stop={}, fallback=None, checkers=0, hook=False)
        cond = r.random() < .5
        if cond:
            # stops the milter when the host name starts with "no<K>."
            k = cfg["k"] = r.randrange(3)
            o.append('define_applicable_condition("C") do |condition|\n  condition.description = "v%d"\n'
                     '  condition.define_connect_stopper do |context, host, address|\n    host.start_with?("no%d.")\n  end\nend' % (v, k))
        fb = r.choice(["accept", "accept", "reject", "temporary-failure"])
        for n in names:
            var = r.choice("ab")
            if r.random() < .1:
                var = "dead"
            en = r.random() > .2
            st = r.choice(["accept", "accept", "accept", "reject", "temporary-failure"])
            o.append('define_milter("%s") do |milter|' % n)
            l = ['  milter.connection_spec = "unix:%s"' % self.m.child_sock(n + var)]
            if not en or r.random() < .3:
                l.append("  milter.enabled = %s" % ("true" if en else "false"))
            l.append('  milter.fallback_status = "%s"' % st)
            if cond and r.random() < .5:
                l.append('  milter.add_applicable_condition("C")')
                if en and var != "dead":
                    cfg["stop"][n + var] = True
            r.shuffle(l)
            o += l + ["end"]
            if en:
                if var == "dead":
                    if st != "accept" and cfg["fallback"] is None:
                        cfg["fallback"] = st
                else:
                    cfg["order"].append(n + var)
            cfg.setdefault("dead", []).append(n) if en and var == "dead" else None
        # several definitions of a milter make one milter
        if names and r.random() < .3:
            n = names[-1]
            o.append('define_milter("%s") do |milter|\n  milter.description = "again"\nend' % n)
        if names and r.random() < .2:
            n = r.choice(names)
            o.append('remove_milter("%s")' % n)
            cfg["order"] = [x for x in cfg["order"] if not x.startswith(n)]
            cfg["stop"] = {x: y for x, y in cfg["stop"].items() if not x.startswith(n)}
            if n in cfg.get("dead", []):
                cfg["unsure"] = True
        o.append('manager.connection_check_interval = 1')
        if r.random() < .5:
            cfg["checkers"] = 1
            o.append('manager.define_connection_checker("x") do |context|\n'
                     '  File.open("%s", "a") {|f| f.puts("check v%d")}\n  true\nend' % (self.events, v))
        if r.random() < .5:
            cfg["hook"] = True
            o.append('manager.maintenance_interval = 1\nmanager.maintained do\n'
                     '  File.open("%s", "a") {|f| f.puts("hook v%d")}\nend' % (self.events, v))
        if len(cfg.get("dead", [])) > 1:
            cfg["unsure"] = True
        done = 'File.open("%s", "a") {|f| f.puts("loaded v%d")}' % (self.events, v)
        files = []
        if broken:
            o.append(done)
            bad = r.choice(["raise 'stop'", 'manager.fallback_status = "bogus"', "no_such_thing", "manager.chunk_size = 0",
                            'define_milter("q") do |milter|\n  milter.connection_spec = "bogus"\nend', 'load("no-such.conf")'])
            o.append(bad)
            cfg["broken"] = bad
        elif r.random() < .4:
            k = r.randint(0, len(o))
            files.append(("inc/part.conf", "\n".join(o[:k]) + "\n")) if not any("do |" in x and "end" not in x for x in o[:k]) else None
            if files:
                o = ['load("inc/part.conf")'] + o[k:]
            o.append(done)
        else:
            o.append(done)
        return cfg, "\n".join(o) + "\n", files

    def write(self, text, files):
        ctl = 'controller.connection_spec = "unix:%s"\n' % self.m.ctl
        self.m.write_config(ctl + text, files)

    def seen(self):
        try:
            return open(self.events).read().split("\n")[:-1]
        except OSError:
            return []

    async def reload(self, how):
        want = "loaded v%d" % self.version
        if how == "signal":
            self.m.proc.send_signal(signal.SIGHUP)
        else:
            try:
                rd, w = await asyncio.open_unix_connection(self.m.ctl)
                w.write(struct.pack("!I", 7) + b"reload\0")
                await w.drain()
                d = await asyncio.wait_for(rd.read(4096), 20)
                if b"success" not in d:
                    self.bad("reload-answer", "the reload request is answered %r" % d)
                w.close()
            except (OSError, asyncio.TimeoutError) as e:
                self.bad("reload-answer", "the reload request is not answered: %r" % e)
        t = time.time()
        while want not in self.seen():
            if time.time() - t > 30 or not self.m.alive():
                self.bad("reload", "the configuration files are not loaded after a %s (30 s)" % how)
                return False
            await asyncio.sleep(.02)
        n = len([x for x in self.seen() if x == want])
        if n != 1:
            self.bad("reload-twice", "one %s loaded the configuration files %d times" % (how, n))
        return True

    def expect(self, host):
        cfg = self.cur
        return [x for x in cfg["order"]]

    def stopped(self, cfg, name, host):
        return name in cfg["stop"] and host.startswith("no%d." % cfg["k"])

    async def session(self, pause_at=None, resume=None, host=None):
        """-> (host, cfg at the negotiation, outcome)"""
        self.nsess += 1
        host = "%s.s%d.example" % (host or self.r.choice(["no0", "no1", "no2", "yes"]), self.nsess)
        cfg = self.cur
        reached = asyncio.Event()
        res = dict(host=host, cfg=cfg, reached=reached)

        async def go():
            buf = b""
            r, w = await asyncio.open_unix_connection(self.m.sock)
            try:
                steps = [("neg", lambda: P.c_negotiate(6, A_ALL, 0))] + [(n, (lambda f=f: f(host))) for n, f in life.STEPS]
                for k, (n, f) in enumerate(steps):
                    if k == pause_at:
                        reached.set()
                        await resume.wait()
                    w.write(f())
                    await w.drain()
                    while True:
                        pk, buf = P.split_packets(buf)
                        if pk:
                            break
                        d = await asyncio.wait_for(r.read(65536), 30)
                        if not d:
                            res["error"] = "closed after " + n
                            return
                        buf += d
                    rp = P.parse_reply(pk[0])
                    buf = b""
                    res.setdefault("replies", []).append((n, rp[0]))
                    if n == "neg":
                        continue
                    if rp[0] != R_CONTINUE:
                        break
                if pause_at is not None and pause_at >= len(steps):
                    reached.set()
                    await resume.wait()
                w.write(P.pkt(QUIT))
                await w.drain()
                await asyncio.wait_for(r.read(65536), 30)
            except (OSError, asyncio.TimeoutError, P.ProtoError) as e:
                res["error"] = repr(e)
            finally:
                reached.set()
                w.close()
        res["task"] = asyncio.ensure_future(go())
        return res

    def judge(self, s):
        """after the session ended"""
        cfg, host = s["cfg"], s["host"]
        c = self.c
        c.count("sessions")
        info = "session %s begun with version %d: " % (host, cfg["v"])
        if s.get("error"):
            self.bad("session", info + s["error"])
            return
        last = s["replies"][-1]
        if cfg.get("unsure"):
            return
        got = [(n, x) for t, n, x in self.conns if x == host]
        who = [n for n, x in got]
        want = [n for n in cfg["order"]]
        stat = {"reject": R_REJECT, "temporary-failure": R_TEMPFAIL}
        if cfg["fallback"]:
            if last != ("connect", stat[cfg["fallback"]]):
                self.bad("fallback", info + "a milter with fallback status %s cannot be reached, the replies are %r" % (cfg["fallback"], s["replies"]))
            return
        if not cfg["order"] and cfg.get("dead"):
            # (every milter is out of reach: the fallback status of the manager)
            return
        # whether a milter whose condition stops it at connect gets CONNECT isn't judged here (C14)
        stopped = [n for n in want if self.stopped(cfg, n, host)]
        must = [n for n in want if n not in stopped]
        if [n for n in who if n not in stopped] != must:
            self.bad("milters", info + "milters that got the connection: %r, configured: %r (stopped by their condition: %r)" % (who, want, stopped))
        mails = [n for t, n, x in self.mails if x == host]
        if want and [n for n in mails] != must:
            self.bad("milters-mail", info + "milters that got MAIL: %r, configured: %r (stopped by their condition: %r)" % (mails, want, stopped))
        if must and len(s["replies"]) != len(life.STEPS) + 1:
            self.bad("session-short", info + "the replies are %r" % (s["replies"],))
        c.count("milters visited", len(who))
        c.count("stopped by condition", len(stopped))

    async def run(self):
        c, r = self.c, self.r
        self.m = manager.Manager()
        self.events = self.m.dir + "/events"
        open(self.events, "w").close()
        os.chmod(self.events, 0o666)
        self.nsess = 0
        self.conns, self.mails = [], []
        kids = []

        def child(name):
            w = self

            class Kid(life.Child):
                async def serve(self, rd, wr):
                    buf, tok = b"", None
                    try:
                        while True:
                            d = await rd.read(65536)
                            if not d:
                                break
                            buf += d
                            pk, buf = P.split_packets(buf)
                            for raw in pk:
                                k = P.parse_command(raw)
                                if k[0] == NEG:
                                    wr.write(P.r_negotiate(6, A_ALL, 0))
                                    continue
                                if k[0] == CONN:
                                    tok = bytes(k[1]).decode("latin-1")
                                    w.conns.append((time.time(), name, tok))
                                if k[0] == MAIL:
                                    w.mails.append((time.time(), name, tok))
                                if k[0] in (MACRO, ABORT, QUIT):
                                    continue
                                if k[0] == HELO and tok.startswith("slow."):
                                    await asyncio.sleep(2.6)
                                wr.write(P.r_simple(R_CONTINUE))
                    except ConnectionError:
                        pass
                    wr.close()
            return Kid(self.m.child_sock(name))
        try:
            for k in range(5):
                for var in "ab":
                    x = child("c%d%s" % (k, var))
                    await x.start()
                    kids.append(x)
            cfg, text, files = self.make()
            self.write(text, files)
            self.history.append(("start", text))
            self.cur = cfg
            self.m.start(wait=False)
            loop = asyncio.get_event_loop()
            await loop.run_in_executor(None, self.m.wait_ready)
            for step in range(c.n(5, 12)):
                # sessions in progress across the reload
                resume = asyncio.Event()
                open_sessions = []
                for _ in range(r.choice([0, 1, 2, 4])):
                    s = await self.session(pause_at=r.randint(1, len(life.STEPS) + 1), resume=resume)
                    await s["reached"].wait()
                    open_sessions.append(s)
                broken = r.random() < .25
                cfg, text, files = self.make(broken)
                self.write(text, files)
                how = r.choice(["signal", "signal", "control"])
                self.history.append((how, text, files))
                if not await self.reload(how):
                    return
                if r.random() < .3:
                    # again: nothing may accumulate
                    self.version += 1
                    text = text.replace("loaded v%d" % cfg["v"], "loaded v%d" % self.version)
                    files = [(a, b.replace("loaded v%d" % cfg["v"], "loaded v%d" % self.version)) for a, b in files]
                    self.write(text, files)
                    self.history.append((how, "(the same again)"))
                    if not await self.reload(how):
                        return
                    c.count("same files again")
                self.cur = cfg
                c.count("reloads")
                if broken:
                    c.count("broken reloads")
                    e = self.m.errors()
                    if not re.search(r"milter-manager\.conf:\d+|out of range", e):
                        self.bad("unreported", "a broken file loaded by a reload (%r) is not reported" % cfg["broken"])
                before = 0
                if r.random() < .5:
                    before = len(open_sessions)
                    resume.set()
                    for s in open_sessions:
                        await s["task"]
                        self.judge(s)
                        c.count("sessions across a reload")
                    open_sessions = []
                n0 = len(self.seen())
                fresh = [await self.session() for _ in range(r.randint(1, 3))]
                for s in fresh:
                    await s["task"]
                    self.judge(s)
                resume.set()
                for s in open_sessions:
                    await s["task"]
                    self.judge(s)
                    c.count("sessions across a reload")
                    n0 = None
                if n0 is not None:
                    await self.hooks(cfg, n0, len(fresh) + before)
                if cfg["checkers"] and self.checked < c.n(1, 4):
                    await self.checkers(cfg)
                if not self.m.alive():
                    self.bad("death", "milter-manager ended with %s" % self.m.proc.returncode)
                    return
            code = self.m.stop()
            if code != 0:
                self.bad("exit", "milter-manager exited with %s after SIGTERM" % code)
            for k, t in manager.diagnostics(self.m.errors()):
                self.bad(k, t)
            c.case(("reload", self.i), self.history[-1][1][:300])
        finally:
            for x in kids:
                await x.stop()
            self.m.cleanup()

    checked = 0

    async def hooks(self, cfg, n0, n):
        """maintained hooks of the configuration in force run, those of the ones before don't"""
        t = time.time()
        while time.time() - t < (3 if cfg["hook"] else .1):
            new = [x for x in self.seen()[n0:] if x.startswith("hook")]
            if len(new) >= 1:
                break
            await asyncio.sleep(.02)
        await asyncio.sleep(.05)
        new = [x for x in self.seen()[n0:] if x.startswith("hook")]
        old = [x for x in new if x != "hook v%d" % cfg["v"]]
        if old:
            self.bad("old-hook", "with version %d in force hooks of older configurations run: %r" % (cfg["v"], old))
        if cfg["hook"] and not new:
            self.bad("no-hook", "%d sessions ended, maintenance_interval is 1, the maintained hook of version %d didn't run within 3 s" % (n, cfg["v"]))
        if len(new) > n:
            self.bad("many-hooks", "%d sessions ended, maintenance_interval is 1, the hook ran %d times" % (n, len(new)))
        self.c.count("maintained hooks", len(new))

    async def checkers(self, cfg):
        """each second one check of the session by the checker in force"""
        self.checked += 1
        if not cfg["order"] or cfg["fallback"]:
            return
        if cfg.get("unsure") or len(cfg["order"]) > 2:
            return
        n0 = len(self.seen())
        t0 = time.time()
        s = await self.session(host="slow")
        await s["task"]
        dt = time.time() - t0
        new = [x for x in self.seen()[n0:] if x.startswith("check")]
        self.judge(s)
        if not s.get("error") and not new:
            self.bad("no-checks", "a connection checker with interval 1 wasn't asked while a milter worked for 2.6 s")
        old = [x for x in new if x != "check v%d" % cfg["v"]]
        if old:
            self.bad("old-checker", "with version %d in force connection checkers of older configurations run: %r" % (cfg["v"], old))
        if len(new) > dt + 1:
            self.bad("many-checks", "one connection checker with interval 1 ran %d times in %.1f s" % (len(new), dt))
        self.c.count("connection checks", len(new))


def run():
    c = Check("C22", RULE)
    c.assumptions = ["negative numbers, numbers with a fraction for integer settings and unknown log level names are not generated (undocumented: they are accepted)",
                     "after an error only the settings made before it are judged", "reloads of a manager without workers"]
    build.build("asan")
    only = os.environ.get("ONLY", "")
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda i: one_dump(c, i), range(c.n(90, 2500))))
        list(ex.map(lambda i: one_invalid(c, i), range(c.n(len(INVALID) * 6 // 5 + 2, 1500))))

    def world(i):
        asyncio.run(World(c, i).run())
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(world, range(c.n(12, 120))))
    c.finish()


main(run)
