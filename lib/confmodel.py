"""Model of a milter-manager configuration: random configuration files, what
they mean, and a parser of what --show-config prints."""
import copy, re

UNIT = object()


def rb(s):
    """a Ruby string literal"""
    if s is None:
        return "nil"
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("#", "\\#").replace("\n", "\\n").replace("\t", "\\t") + '"'


def lit(v):
    if v is None:
        return "nil"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, str):
        return rb(v)
    return repr(v)


ESC = {"n": "\n", "t": "\t", "e": "\x1b", "r": "\r", "0": "\0", "a": "\a", "b": "\b", "v": "\v", "f": "\f"}


def unlit(t):
    """value of a Ruby literal as --show-config prints it"""
    t = t.strip()
    if t == "nil":
        return None
    if t in ("true", "false"):
        return t == "true"
    if re.fullmatch(r"0[0-7]+", t):
        return int(t, 8)
    if re.fullmatch(r"-?\d+", t):
        return int(t)
    if re.fullmatch(r"-?\d+\.\d+(e[+-]?\d+)?", t):
        return float(t)
    if len(t) >= 2 and t[0] == t[-1] == '"':
        def sub(m):
            g = m.group(1)
            if g[0] == "u":
                return chr(int(g.strip("u{}"), 16))
            if g[0] == "x":
                return chr(int(g[1:], 16))
            return ESC.get(g, g)
        return re.sub(r"\\(u\{[0-9A-Fa-f]+\}|u[0-9A-Fa-f]{4}|x[0-9A-Fa-f]{2}|.)", sub, t[1:-1])
    raise ValueError("not a literal: %r" % t)


DEFAULTS = {
    "package.options": None,
    "security.privilege_mode": False, "security.effective_user": None, "security.effective_group": None,
    "log.level": "default", "log.path": None, "log.use_syslog": True, "log.syslog_facility": "mail",
    "manager.connection_spec": "inet:10025@[127.0.0.1]", "manager.unix_socket_mode": 0o660, "manager.unix_socket_group": None,
    "manager.remove_unix_socket_on_create": True, "manager.remove_unix_socket_on_close": True, "manager.daemon": False,
    "manager.pid_file": None, "manager.maintenance_interval": 10, "manager.suspend_time_on_unacceptable": 5,
    "manager.max_connections": 0, "manager.max_file_descriptors": 0, "manager.custom_configuration_directory": None,
    "manager.fallback_status": "accept", "manager.fallback_status_at_disconnect": "temporary-failure",
    "manager.event_loop_backend": "glib", "manager.n_workers": 0, "manager.packet_buffer_size": 0,
    "manager.connection_check_interval": 0, "manager.chunk_size": 65535, "manager.max_pending_finished_sessions": 0,
    "controller.connection_spec": None, "controller.unix_socket_mode": 0o660, "controller.unix_socket_group": None,
    "controller.remove_unix_socket_on_create": True, "controller.remove_unix_socket_on_close": True,
    "database.type": None, "database.name": None, "database.host": None, "database.port": None, "database.path": None,
    "database.user": None, "database.password": None,
}
MILTER = {"connection_spec": None, "description": None, "enabled": True, "fallback_status": "accept", "evaluation_mode": False,
          "applicable_conditions": [], "command": None, "command_options": None, "user_name": None,
          "connection_timeout": 297.0, "writing_timeout": 7.0, "reading_timeout": 7.0, "end_of_message_timeout": 297.0}
STATUSES = ["accept", "reject", "temporary-failure", "discard"]
FACILITIES = ["auth", "authpriv", "cron", "daemon", "ftp", "kern", "local0", "local1", "local2", "local3", "local4", "local5",
              "local6", "local7", "lpr", "mail", "news", "syslog", "user", "uucp"]
LEVELS = ["critical", "error", "warning", "message", "info", "debug", "statistics", "profile"]
LEVEL_ORDER = None


def text(r, empty=True):
    a = "abcXYZ019 _-./:@%$&!?'\"\\#{}<>"
    n = r.choice([1, 3, 8, 20, 60])
    s = "".join(r.choice(a) for _ in range(n))
    if r.random() < .2:
        s += r.choice(["日本語", "é", "ß§", "\t", "\n"])
    return s


def word(r):
    return "".join(r.choice("abcdefghijklmnopqrstuvwxyz0123456789-_") for _ in range(r.randint(1, 12)))


def spec(r):
    k = r.randrange(8)
    if k == 0:
        return "unix:/" + word(r) + "/" + word(r)
    if k == 1:
        return "local:/tmp/%s" % word(r)
    if k == 2:
        return "inet:%d" % r.randint(1, 65535)
    if k == 3:
        return "inet:%d@[127.0.0.1]" % r.randint(1, 65535)
    if k == 4:
        return "inet:%d@127.0.0.%d" % (r.randint(1, 65535), r.randint(1, 254))
    if k == 5:
        return "inet6:%d@[::1]" % r.randint(1, 65535)
    if k == 6:
        return "inet6:%d" % r.randint(1, 65535)
    return "inet:%d@localhost" % r.randint(1, 65535)


def uint(r):
    return r.choice([0, 1, 2, 5, 7, 10, 100, 4096, 65535, 1000000, 2 ** 31 - 1, r.randint(1, 100000)])


def status(r):
    s = r.choice(STATUSES)
    return s, s


def value(r, key, workdir):
    """-> (Ruby text, value in force); both documented forms"""
    g, f = key.split(".", 1)
    if f in ("connection_spec",):
        if g == "controller" and r.random() < .15:
            return "nil", None
        s = spec(r)
        return rb(s), s
    if f == "unix_socket_mode":
        m = r.choice([0o600, 0o660, 0o666, 0o640, 0o777, 0o644, r.randint(0, 0o777)])
        return "0%o" % m, m
    if isinstance(DEFAULTS[key], bool):
        b = r.random() < .5
        return lit(b), b
    if f == "port":
        if r.random() < .2:
            return "nil", None
        p = r.randint(1, 65535)
        return str(p), p
    if key == "log.level":
        k = r.choice(["one", "default", "many", "all"])
        if k == "default":
            return '"default"', "default"
        if k == "all":
            return '"all"', frozenset(LEVELS) | {"all"}
        ls = r.sample(LEVELS, 1 if k == "one" else r.randint(2, 4))
        return rb("|".join(ls)), frozenset(ls)
    if key == "log.path":
        if r.random() < .3:
            return "nil", None
        p = workdir + "/log-" + word(r)
        return rb(p), p
    if key == "log.syslog_facility":
        s = r.choice(FACILITIES)
        return rb(s), s
    if key == "manager.custom_configuration_directory":
        if r.random() < .3:
            return "nil", None
        p = "/nonexistent/" + word(r)
        return rb(p), p
    if f in ("fallback_status", "fallback_status_at_disconnect"):
        s = r.choice(STATUSES)
        t = s.replace("-", "_") if f == "fallback_status" and r.random() < .3 else s
        return rb(t), s
    if f == "event_loop_backend":
        s = r.choice(["glib", "libev"])
        return rb(s), s
    if f == "chunk_size":
        n = r.choice([1, 2, 100, 4096, 65534, 65535, r.randint(1, 65535)])
        return str(n), n
    if f == "n_workers":
        n = r.choice([0, 1, 2, 10, 1000, r.randint(0, 1000)])
        return str(n), n
    if f == "maintenance_interval":
        if r.random() < .2:
            return "nil", None
        n = r.choice([1, 2, 10, 1000])
        return str(n), n
    if isinstance(DEFAULTS[key], int):
        if r.random() < .12:
            return "nil", DEFAULTS[key]
        n = uint(r)
        return str(n), n
    if key == "package.options":
        k = r.randrange(3)
        if k == 0:
            return "nil", None
        if k == 1:
            s = ",".join("%s=%s" % (word(r), word(r)) for _ in range(r.randint(1, 3)))
            return rb(s), s
        d = [(word(r), word(r)) for _ in range(r.randint(1, 3))]
        d = list(dict(d).items())
        return "{" + ", ".join("%s => %s" % (rb(a), rb(b)) for a, b in d) + "}", ",".join("%s=%s" % x for x in d)
    if r.random() < .15:
        return "nil", None
    s = text(r)
    return rb(s), s


def milter_value(r, field):
    if field == "connection_spec":
        s = spec(r)
        return rb(s), s
    if field in ("enabled", "evaluation_mode"):
        b = r.random() < .5
        return lit(b), b
    if field == "fallback_status":
        s = r.choice(STATUSES)
        t = s.replace("-", "_") if r.random() < .2 else s
        return rb(t), s
    if field.endswith("timeout"):
        v = r.choice([1, 2.5, 0.25, 15, 60, 297, 1000.125, r.randint(1, 100000)])
        return repr(v), float(v)
    if field == "command_options":
        k = r.randrange(4)
        if k == 0:
            return "nil", None
        if k == 1:
            ws = [re.sub("[^a-z-]", "", word(r)) or "x" for _ in range(r.randint(1, 3))]
            return "[" + ", ".join(rb("--" + w) for w in ws) + "]", " ".join("--" + w for w in ws)
        s = "--" + word(r) + " " + word(r)
        return rb(s), s
    if r.random() < .15:
        return "nil", None
    s = text(r) if field == "description" else "/x/" + word(r)
    return rb(s), s


class State:
    def __init__(self):
        self.v = dict(DEFAULTS)
        self.where = {}
        self.conditions = {}     # name -> description
        self.milters = {}        # name -> fields

    def copy(self):
        return copy.deepcopy(self)


class Out:
    """configuration files being written"""

    def __init__(self, path):
        self.path, self.lines = path, []

    def add(self, t):
        self.lines += t.split("\n")
        return self.path, len(self.lines)

    def text(self):
        return "\n".join(self.lines) + "\n"


def statement(r, out, st, workdir, without=()):
    """writes one random statement into the file and applies it to the model"""
    k = r.random()
    if k < .6:
        key = r.choice([k for k in DEFAULTS if k not in without])
        t, v = value(r, key, workdir)
        where = out.add("%s%s%s%s" % (key, r.choice([" = ", "=", " =  "]), t, r.choice(["", "", " # x = 1"])))
        st.v[key] = v
        # (a reset to nil is shown as default)
        st.where[key] = where
        return key
    if k < .7 or not st.conditions and k < .8:
        name = r.choice(["cond a", "B", "日本", word(r)])
        d = None if r.random() < .2 else text(r)
        where = out.add("define_applicable_condition(%s) do |condition|" % rb(name))
        if r.random() < .9:
            out.add("  condition.description = %s" % lit(d))
        else:
            d = st.conditions.get(name)
        out.add("end")
        st.conditions.setdefault(name, None)
        st.conditions[name] = d
        st.where["applicable_condition[%s]" % name] = where
        return name
    if k < .76 and st.milters:
        name = r.choice(list(st.milters))
        out.add("remove_milter(%s)" % rb(name))
        del st.milters[name]
        for x in [x for x in st.where if x.startswith("milter[%s]" % name)]:
            del st.where[x]
            st.where["?" + x] = 1
        return "remove"
    if k < .80 and st.milters:
        f = r.choice(["enabled", "connection_timeout", "description", "evaluation_mode", "fallback_status"])
        t, v = milter_value(r, f)
        out.add("defined_milters.each do |name|\n  define_milter(name) do |milter|")
        out.add("    milter.%s = %s" % (f, t))
        out.add("  end\nend")
        for m in st.milters:
            st.milters[m][f] = v
            st.where.pop("milter[%s].%s" % (m, f), None)
            st.where["?milter[%s].%s" % (m, f)] = 1
            st.where["?milter[%s]" % m] = 1
        return "each"
    name = r.choice(["milter-a", "m 2", "milter@10026", "é", word(r)])
    where = out.add("define_milter(%s) do |%s|" % (rb(name), "milter"))
    m = st.milters.get(name)
    new = m is None
    if new:
        m = copy.deepcopy(MILTER)
    fields = [f for f in MILTER if r.random() < .45]
    if new and "connection_spec" not in fields:
        fields.append("connection_spec")
    r.shuffle(fields)
    for f in fields:
        key = "milter[%s].%s" % (name, f)
        if f == "applicable_conditions":
            if st.conditions:
                cs = r.sample(list(st.conditions), r.randint(0, len(st.conditions)))
                if r.random() < .5:
                    out.add("  milter.applicable_conditions = [" + ", ".join(rb(c) for c in cs) + "]")
                    m[f] = cs
                elif cs:
                    c = cs[0]
                    if c in m[f]:
                        continue
                    out.add("  milter.add_applicable_condition(%s)" % rb(c))
                    m[f] = m[f] + [c]
            continue
        t, v = milter_value(r, f)
        st.where[key] = out.add("  milter.%s = %s" % (f, t))
        m[f] = v
    out.add("end")
    st.milters.pop(name, None)
    st.milters[name] = m
    st.where["milter[%s]" % name] = where
    return name


def parse_dump(t):
    """-> (State as printed, [(where comment)] by key); raises ValueError"""
    v, conds, milters, where = {}, {}, {}, {}
    block = None
    comment = None
    # a string may not contain a raw newline: inspect escapes them
    lines = t.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or re.match(r"\[\d{4}-\d\d-\d\dT", s):
            continue
        if s.startswith("#"):
            comment = s[1:].strip()
            continue
        m = re.fullmatch(r'define_(applicable_condition|milter)\((".*")\) do \|(condition|milter)\|', s)
        if m:
            name = unlit(m.group(2))
            if m.group(1) == "milter":
                if name in milters:
                    raise ValueError("milter %r is printed twice" % name)
                block = ("milter", name, milters.setdefault(name, {}))
                where["milter[%s]" % name] = comment
            else:
                if name in conds:
                    raise ValueError("condition %r is printed twice" % name)
                block = ("condition", name, conds.setdefault(name, {}))
                where["applicable_condition[%s]" % name] = comment
            continue
        if s == "end":
            block = None
            continue
        m = re.fullmatch(r"([\w.]+) = (.*)", s)
        if not m:
            raise ValueError("cannot read line %d: %r" % (i, l))
        key, val = m.groups()
        if block:
            f = key.split(".", 1)[1]
            if val == "[]":
                x = []
            elif val == "[":
                x = []
                while lines[i].strip() != "]":
                    q = lines[i].strip()
                    i += 1
                    if not q.startswith("#"):
                        x.append(unlit(q.rstrip(",")))
                i += 1
            else:
                x = unlit(val)
                where["%s[%s].%s" % ("milter" if block[0] == "milter" else "applicable_condition", block[1], f)] = comment
            if f in block[2]:
                raise ValueError("%s is printed twice" % key)
            block[2][f] = x
        else:
            if key in v:
                raise ValueError("%s is printed twice" % key)
            v[key] = unlit(val)
            where[key] = comment
    st = State()
    st.v, st.conditions, st.milters = v, {n: c.get("description", "(missing)") for n, c in conds.items()}, milters
    return st, where


def same(key, want, got):
    if key == "log.level":
        if want == "default" or got == "default":
            return want == got
        g = set((got or "").split("|")) if isinstance(got, str) else None
        if g is None:
            return False
        if "all" in want:
            return set(LEVELS) <= g or "all" in g
        return g == set(want)
    if isinstance(want, bool) or isinstance(got, bool):
        return want is got
    return want == got and (want is None) == (got is None)


def differences(want, got, free=()):
    """[(key, text)] where the configuration printed differs from the model; `free`: keys not judged"""
    out = []
    for k, w in want.v.items():
        if k in free:
            continue
        if k not in got.v:
            out.append((k, "%s is not printed" % k))
        elif not same(k, w, got.v[k]):
            out.append((k, "%s should be %s but is %s" % (k, lit(w) if not isinstance(w, frozenset) else sorted(w), lit(got.v[k]))))
    if "conditions" not in free:
        if set(want.conditions) != set(got.conditions):
            out.append(("conditions", "conditions defined: %r, printed: %r" % (sorted(want.conditions), sorted(got.conditions))))
        for n, d in want.conditions.items():
            if n in got.conditions and got.conditions[n] != d:
                out.append(("condition", "description of condition %r should be %r but is %r" % (n, d, got.conditions[n])))
    if "milters" not in free:
        if set(want.milters) != set(got.milters):
            out.append(("milters", "milters defined: %r, printed: %r" % (list(want.milters), list(got.milters))))
        for n, m in want.milters.items():
            if n not in got.milters or "milter[%s]" % n in free:
                continue
            for f, w in m.items():
                if f not in got.milters[n]:
                    out.append(("milter." + f, "milter %r: %s is not printed" % (n, f)))
                elif not same("milter." + f, w, got.milters[n][f]):
                    out.append(("milter." + f, "milter %r: %s should be %s but is %s" % (n, f, w, got.milters[n][f])))
    return out
