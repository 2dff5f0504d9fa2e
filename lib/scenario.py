"""Random configurations and session plans, and the rounds that run them
against a real milter-manager in several processes at once."""
import asyncio, copy, json, multiprocessing, os, random, sys, time, traceback
import milterproto as P
from milterproto import *
import proxy, proxycheck
from manager import Manager, diagnostics

A_V1 = A_ADDHDRS | A_CHGBODY | A_ADDRCPT | A_DELRCPT | A_CHGHDRS
FALLBACKS = ["accept", "reject", "temporary-failure", "discard"]
C, A, R, T, D, S, Y = R_CONTINUE, R_ACCEPT, R_REJECT, R_TEMPFAIL, R_DISCARD, R_SKIP, R_REPLYCODE

CALM = {k: [(C, 1)] for k in ("connect", "helo", "mail", "rcpt", "data", "header", "eoh", "body", "eom", "unknown")}
MIXED = {
    "connect": [(C, 30), (A, 2), (R, 1), (T, 1), (Y, 1)],
    "helo": [(C, 30), (A, 2), (R, 1), (T, 1), (Y, 1)],
    "mail": [(C, 24), (A, 2), (R, 1), (T, 1), (Y, 1), (D, 1)],
    "rcpt": [(C, 12), (A, 2), (R, 1), (T, 1), (Y, 1)],
    "data": [(C, 24), (A, 2), (R, 1), (T, 1), (Y, 1), (D, 1)],
    "header": [(C, 60), (A, 2), (R, 1), (T, 1), (Y, 1), (D, 1)],
    "eoh": [(C, 20), (A, 2), (R, 1), (T, 1), (Y, 1), (D, 1)],
    "body": [(C, 20), (A, 2), (S, 4), (R, 1), (T, 1), (Y, 1), (D, 1)],
    "eom": [(C, 12), (A, 5), (R, 1), (T, 1), (Y, 2), (D, 1)],
    "unknown": [(C, 12), (R, 1), (T, 1)],
}
# nothing that ends the message early, but children may drop out
SOFT = {
    "connect": [(C, 30), (A, 1)], "helo": [(C, 30), (A, 1)], "mail": [(C, 12), (A, 1)],
    "rcpt": [(C, 12), (A, 1)], "data": [(C, 12), (A, 1)], "header": [(C, 40), (A, 1)],
    "eoh": [(C, 12), (A, 1)], "body": [(C, 10), (A, 1), (S, 3)], "eom": [(C, 3), (A, 2)], "unknown": [(C, 1)],
}
# skips the rest of most bodies
SKIP = dict(CALM, body=[(C, 2), (S, 5)])
VERDICTS = {"calm": CALM, "mixed": MIXED, "soft": SOFT, "skip": SKIP}

BASE = dict(children=(1, 3), verdicts=["calm", "soft", "mixed"], mods=.7, mod_kinds=None, faults=0, fault_kinds=None,
            evaluation=0, disabled=.05, absent=0, messages=(1, 3), lowproto=.3, steps=.5, symlist=.5, frag=.5,
            progress=.1, big=.05, end=["quit", "quit", "quit", "close", "partial"], stop=.1, batch=0,
            eom_data=.2, delay=0, timeouts=None, conc=8, leadspc=.3, args=0, unknown=.15, fallback_any=True,
            macros=True, settings={}, spool=0, no_abort=0, abort_after=.05)


def profile(**kw):
    p = dict(BASE)
    p.update(kw)
    return p


def config(rng, prof):
    kids = []
    for i in range(rng.randint(*prof["children"])):
        k = dict(name="c%d" % (i + 1), fallback=rng.choice(FALLBACKS) if prof["fallback_any"] else "accept",
                 enabled=rng.random() >= prof["disabled"], evaluation=rng.random() < prof["evaluation"],
                 absent=rng.random() < prof["absent"])
        if prof.get("conds"):
            k["stops"] = rng.random() < prof["conds"]
        kids.append(k)
    if not any(k["enabled"] and not k["absent"] for k in kids):
        kids[0]["enabled"], kids[0]["absent"] = True, False
    cfg = dict(children=kids, settings=dict(prof["settings"]))
    if prof.get("chunk"):
        cfg["settings"]["chunk_size"] = rng.choice(prof["chunk"])
    return cfg


# an applicable condition that looks for a mark in what it is given
STOPPERS = """define_applicable_condition("stop NAME") do |condition|
  condition.description = "stop at marked events"
  condition.define_connect_stopper {|context, host, address| host.include?("stop-NAME.")}
  condition.define_helo_stopper {|context, fqdn| fqdn.include?("stop-NAME.")}
  condition.define_envelope_from_stopper {|context, from| from.include?("stop-NAME.")}
  condition.define_envelope_recipient_stopper {|context, recipient| recipient.include?("stop-NAME.")}
  condition.define_data_stopper {|context| (context["{x_stop}"] || "").include?("stop-NAME.")}
  condition.define_header_stopper {|context, name, value| value.include?("stop-NAME.")}
  condition.define_end_of_header_stopper {|context| (context["{x_stop}"] || "").include?("stop-NAME.")}
  condition.define_body_stopper {|context, chunk| chunk.byteslice(0, 200).force_encoding("BINARY").include?("stop-NAME.".b)}
  condition.define_end_of_message_stopper {|context| (context["{x_stop}"] || "").include?("stop-NAME.")}
end
"""


def put_stops(rng, p, cfg, prob):
    """mark some events of the session for the stoppers"""
    for k in cfg["children"]:
        if not k.get("stops"):
            continue
        mark = b"stop-%s." % k["name"].encode()
        if rng.random() < prob / 3:
            if rng.random() < .5:
                p["connect"] = (mark + p["connect"][0],) + tuple(p["connect"][1:])
            elif p["helo"]:
                i = rng.randrange(len(p["helo"]))
                p["helo"][i] = mark + p["helo"][i]
        for m in p["messages"]:
            if rng.random() > prob:
                continue
            w = rng.choice(["mail", "rcpt", "data", "header", "eoh", "body", "eom"])
            if w == "mail":
                m["from"] = b"<" + mark + b"x@example.net>"
            elif w == "rcpt":
                if len(m["rcpts"]) > 1:
                    i = rng.randrange(len(m["rcpts"]))
                    m["rcpts"][i] = m["rcpts"][i].replace(b"<", b"<" + mark)
            elif w == "header" and m["headers"]:
                i = rng.randrange(len(m["headers"]))
                n, v = m["headers"][i]
                m["headers"][i] = (n, v + mark)
            elif w == "body" and m["body"]:
                m["body"][0] = (mark + m["body"][0])[:65535]
            elif w in ("data", "eoh", "eom"):
                c = {"data": DATA, "eoh": EOH, "eom": EOM}[w]
                x = list(m["macros"].get(c) or [])
                x = [y for y in x if y[0] != b"{x_stop}"] + [(b"{x_stop}", mark + b"".join(y[1] for y in x if y[0] == b"{x_stop}"))]
                m["macros"][c] = x


def config_text(mgr, cfg, prof):
    t = []
    for k, v in cfg["settings"].items():
        t.append("manager.%s = %s" % (k, json.dumps(v)))
    for k in cfg["children"]:
        if k.get("stops"):
            t.append(STOPPERS.replace("NAME", k["name"]))
    for k in cfg["children"]:
        t.append('define_milter("%s") do |milter|' % k["name"])
        t.append('  milter.connection_spec = "unix:%s"' % mgr.child_sock(k["name"]))
        t.append('  milter.enabled = %s' % ("true" if k["enabled"] else "false"))
        t.append('  milter.fallback_status = "%s"' % k["fallback"])
        if k["evaluation"]:
            t.append('  milter.evaluation_mode = true')
        for n, v in (prof["timeouts"] or {}).items():
            t.append('  milter.%s_timeout = %s' % (n, v))
        for c in list(k.get("conditions", ())) + (["stop " + k["name"]] if k.get("stops") else []):
            t.append('  milter.add_applicable_condition("%s")' % c)
        t.append("end")
    return "\n".join(t) + "\n" + prof.get("extra_config", "")


MACROS = {CONN: ["j", "{daemon_name}", "_", "{if_addr}"], HELO: ["{tls_version}", "{cipher}"],
          MAIL: ["i", "{auth_type}", "{mail_addr}", "{mail_host}"], RCPT: ["{rcpt_addr}", "{rcpt_host}", "{rcpt_mailer}"],
          DATA: ["i", "{x_data}"], EOH: ["i", "{x_eoh}"], EOM: ["i", "{msg_id}", "{x_eom}"]}
SYMS = {0: CONN, 1: HELO, 2: MAIL, 3: RCPT, 4: DATA, 5: EOM, 6: EOH}


def macros(rng, code, tok, p=.7):
    if rng.random() > p:
        return None
    ns = [n for n in MACROS[code] if rng.random() < .8]
    return [(n.encode(), ("%s-%s-%s" % (n.strip("{}"), tok, rng.choice(["a", "b", "x y", ""]))).encode()) for n in ns]


def header(rng, tok, lead):
    n = rng.choice(["X-A", "X-B", "Subject", "Received", "To", "x-b", "X-Long", "Date"])
    v = rng.choice(["v %s %d" % (tok, rng.randint(0, 9)), "", "%d" % rng.randint(0, 3), "folded\n\tline %s" % tok,
                    "caf\xe9 %s" % tok, "l" * rng.choice([10, 100, 900])])
    v = v.encode("latin-1")
    if lead and rng.random() < .9:
        v = b" " + v
    return (n.encode(), v)


def body(rng, tok, prof, size=None):
    k = rng.random()
    if size is None:
        size = 0 if k < .15 else rng.randint(1, 200) if k < .6 else rng.randint(200, 9000) if k < 1 - prof["big"] \
            else rng.randint(60000, 300000)
    if not size:
        return []
    if rng.random() < .5:
        b = rng.randbytes(min(size, 4096)) * (size // 4096 + 1)
    else:
        b = (b"body line of %s with text\r\n" % tok.encode()) * (size // 24 + 1)
    b = b[:size]
    step = rng.choice([65535, 65535, 4000, min(65535, max(1, size // 3))])
    return [b[i:i + step] for i in range(0, size, step)]


def message(rng, tok, prof, lead, n):
    tok = "%sm%d" % (tok, n)
    m = dict(headers=[header(rng, tok, lead) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))],
             body=body(rng, tok, prof), eom=b"", macros={}, rcpt_macros={})
    m["from"] = b"<s.%s@example.net>" % tok.encode() if rng.random() < .9 else b"<>"
    m["rcpts"] = [b"<r%d.%s@example.org>" % (i, tok.encode()) for i in range(rng.randint(1, prof["max_rcpts"]) if prof.get("max_rcpts") else rng.choice([1, 1, 2, 3]))]
    if m["body"] and rng.random() < prof["eom_data"]:
        m["eom"] = m["body"].pop()
    if prof["spool"] and rng.random() < prof["spool"]:
        m["body"] = body(rng, tok, prof, rng.randint(5 << 20, 7 << 20))
    if prof["macros"]:
        for c in (MAIL, DATA, EOH, EOM):
            x = macros(rng, c, tok)
            if x is not None:
                m["macros"][c] = x
        for i in range(len(m["rcpts"])):
            x = macros(rng, RCPT, "%sr%d" % (tok, i), .8)
            if x is not None:
                m["rcpt_macros"][i] = x
    if rng.random() < prof["stop"]:
        m["stop"] = rng.choice([("rcpt", rng.randrange(len(m["rcpts"]))), ("data", 0),
                                ("header", rng.randrange(len(m["headers"]) or 1)),
                                ("body", rng.randrange(len(m["body"]) or 1))])
    if rng.random() < prof["unknown"]:
        m["unknown"] = [b"XCMD %s" % tok.encode()]
    if rng.random() < prof["batch"]:
        m["batch_abort"] = True
    if rng.random() < prof["no_abort"]:
        m["no_abort"] = True
    if rng.random() < prof["abort_after"]:
        m["abort_after"] = True
    if prof["args"] and rng.random() < prof["args"]:
        m["from_args"] = [b"SIZE=%d" % rng.randint(1, 9999)]
        m["rcpt_args"] = [b"NOTIFY=NEVER"]
    return m


def steps(rng, prof, full):
    st = 0
    if rng.random() < prof["steps"]:
        for bit in (P_NOCONNECT, P_NOHELO, P_NOMAIL, P_NORCPT, P_NOBODY, P_NOHDRS, P_NOEOH, P_NOUNKNOWN, P_NODATA):
            if rng.random() < prof.get("step_prob", .15):
                st |= bit
        if rng.random() < prof.get("noreply", .4):
            for bit in NRSTEP.values():
                if rng.random() < .3:
                    st |= bit
    if rng.random() < .5:
        st |= P_SKIP
    if rng.random() < prof["leadspc"]:
        st |= P_HDR_LEADSPC
    return st & full


def plan(rng, sid, cfg, prof):
    tok = "s%d" % sid
    v = rng.choice([6, 6, 2, 3, 4]) if rng.random() < prof["lowproto"] else 6
    act = A_ALL if v >= 6 and rng.random() < .8 else A_V1 | A_QUARANTINE if v < 3 or rng.random() < .3 else \
        rng.choice([A_ALL, A_ALL & ~A_SETSYMLIST, A_V1 | A_QUARANTINE | A_CHGFROM])
    if v < 6:
        act &= ~A_SETSYMLIST
    full = P_ALL if v >= 6 else P_NOCONNECT | P_NOHELO | P_NOMAIL | P_NORCPT | P_NOBODY | P_NOHDRS | P_NOEOH
    if v >= 6 and rng.random() < .2:
        full &= ~rng.choice([P_SKIP, P_HDR_LEADSPC, P_RCPT_REJ, P_NR_HDR, P_NOUNKNOWN | P_NODATA])
    lead = prof["leadspc"] and v >= 6
    fam = rng.choice("446LU")
    host = b"h%d.example.com" % sid
    con = {"4": (host, "4", rng.randint(1, 65535), b"192.0.2.%d" % rng.randint(1, 254)),
           "6": (host, "6", rng.randint(1, 65535), b"2001:db8::%x" % rng.randint(1, 65535)),
           "L": (host, "L", 0, b"/tmp/s%d" % sid), "U": (host, "U")}[fam]
    p = dict(id=sid, seed=rng.randint(0, 1 << 40), opt=(v, act, full), connect=con,
             helo=[b"helo%d.%s.example" % (i, tok.encode()) for i in range(rng.choice([1, 1, 1, 0, 2]))],
             macros={}, end=rng.choice(prof["end"]), frag=int(rng.random() < prof["frag"]),
             gap=prof["delay"] * rng.random() if prof["delay"] else 0, children={})
    if prof["macros"]:
        for c in (CONN, HELO):
            x = macros(rng, c, tok)
            if x is not None:
                p["macros"][c] = x
    p["messages"] = [message(rng, tok, prof, lead, n) for n in range(rng.randint(*prof["messages"]))]
    if prof.get("conds"):
        put_stops(rng, p, cfg, prof.get("stop_prob", .5))
    verd = VERDICTS[rng.choice(prof["verdicts"])]
    for k in cfg["children"]:
        syms = {}
        if rng.random() < prof["symlist"]:
            for st, code in SYMS.items():
                if rng.random() < .6:
                    syms[st] = [n for n in MACROS[code] if rng.random() < .6] or ["i"]
        b = dict(seed=rng.randint(0, 1 << 40), opt=(rng.choice([6, 6, 6, 4, 3, 2]) if rng.random() < prof["lowproto"] else 6,
                                                     A_ALL if rng.random() < .7 else rng.choice(
                                                         [A_ADDHDRS, A_ADDHDRS | A_CHGHDRS, A_CHGBODY, 0, A_V1]) |
                                                     (A_SETSYMLIST if syms else 0),
                                                     steps(rng, prof, P_ALL)),
                 macros=syms, tok=tok, frag=int(rng.random() < prof["frag"]),
                 prof=dict(verdicts=verd, mods=prof["mods"], mod_kinds=prof["mod_kinds"], progress=prof["progress"],
                           delay=prof["delay"], bigrepl=prof.get("bigrepl", 0)))
        if b["opt"][0] < 6:
            b["opt"] = (b["opt"][0], b["opt"][1] & ~A_SETSYMLIST,
                        b["opt"][2] & (P_NOCONNECT | P_NOHELO | P_NOMAIL | P_NORCPT | P_NOBODY | P_NOHDRS | P_NOEOH))
        if prof["faults"]:
            b["prof"]["fault"] = prof["faults"]
            if prof.get("fault_stages"):
                b["prof"]["fault_stages"] = prof["fault_stages"]
            b["prof"]["faults"] = prof["fault_kinds"] or ["close", "garbage", "oop", "close-after", "silent", "connfail"]
            b["faulty"] = [x["name"] for x in cfg["children"] if rng.random() < .5]
            if rng.random() < prof.get("neg_faults", .05):
                b["neg_fault"] = rng.choice(prof.get("neg_fault_kinds", ["close", "garbage"]))
        p["children"][k["name"]] = b
    if rng.random() < prof.get("rogue", 0):
        p["loose"] = "rogue"
        for n in rng.sample(sorted(p["children"]), rng.randint(1, len(p["children"]))):
            p["children"][n]["rogue"] = rng.choice([.05, .2, .6])
    if rng.random() < prof.get("cut", 0):
        p["loose"] = "cut"
        p["cut"] = rng.randint(1, 30)
    if p["end"] == "hostile":
        p["loose"] = "hostile"
    return p


# ---- rounds -------------------------------------------------------------------
async def heartbeat(state):
    while True:
        t = time.time()
        await asyncio.sleep(.2)
        state["lag"] = max(state["lag"], time.time() - t - .2)


def session_signature(s):
    out = []
    for e in s["log"]:
        f = e.get("final")
        out.append((e["cmd"][0] if e["cmd"][0] != "message" else "", f[0] if f else ""))
    for c in s["conns"]:
        out.append((c.child, tuple((e["cmd"][0], e["final"][0] if e["final"] else "", tuple(r[1][0] for r in e["replies"]))
                                   for e in c.entries)))
    return hash(repr(out))


def jsonable(o):
    if isinstance(o, bytes):
        return o.decode("latin-1")
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    return o


def replay_of(cfg, text, s):
    return dict(config=text, plan=jsonable(s["plan"]), log=[jsonable((e["seq"], e["cmd"] if e["cmd"][0] != "message" else "message", e["macros"], e["replies"])) for e in s["log"]],
                children=[dict(name=c.child, offer=jsonable(c.offer), answer=jsonable(c.answer), closed=c.closed_by,
                               log=[jsonable((e["seq"], e["cmd"], e["macros"], e["replies"], e["fault"])) for e in c.entries])
                          for c in s["conns"]])


def trim(o, n=400):
    if isinstance(o, str) and len(o) > n:
        return o[:n] + "...(%d)" % len(o)
    if isinstance(o, dict):
        return {k: trim(v, n) if k != "config" else v for k, v in o.items()}
    if isinstance(o, list):
        return [trim(v, n) for v in o]
    return o


async def run_sessions(mgr, cfg, plans, conc, state, before_stop=None):
    w = proxy.World(mgr, cfg)
    await w.start()
    hb = asyncio.ensure_future(heartbeat(state))
    sem = asyncio.Semaphore(conc)

    async def one(p):
        async with sem:
            if not mgr.alive():
                return None
            return await w.mta(p)
    ss = await asyncio.gather(*[one(p) for p in plans])
    if before_stop:
        await before_stop(w)
    hb.cancel()
    await w.stop()
    return w, [s for s in ss if s is not None]


def round_once(seed, prof, nsess, env=None):
    """one manager, many sessions -> result dict"""
    rng = random.Random(seed)
    res = dict(problems=[], stats={}, sessions=0, sigs=[], sample=None, lag=0)
    m = Manager()
    try:
        cfg = config(rng, prof)
        text = config_text(m, cfg, prof)
        m.write_config(text)
        m.start(env=env)
        base_fds = None
        time.sleep(.3)
        base_fds = len(m.fds() or [])
        plans = [plan(rng, i, cfg, prof) for i in range(nsess)]
        state = dict(lag=0)

        async def settle(w):
            # everything a finished session used has to be given back
            t = time.time()
            while time.time() - t < 15:
                f = m.fds()
                if f is None or len(f) <= base_fds:
                    return
                await asyncio.sleep(.05)
            f = m.fds()
            if f is not None and len(f) > base_fds:
                w.leak = f
        w, ss = asyncio.run(run_sessions(m, cfg, plans, prof["conc"], state, settle))
        res["lag"] = state["lag"]
        dead = not m.alive()
        if getattr(w, "leak", None):
            res["problems"].append(("fd-leak", "%d descriptors instead of %d after all sessions ended: %s" %
                                    (len(w.leak), base_fds, w.leak), dict(config=text)))
        loose = any(s["plan"].get("loose") for s in ss)
        for c in w.stray if not loose else []:
            res["problems"].append(("stray", "child %s was connected outside of a session" % c.child, None))
        tmp = os.listdir(m.tmp)
        tmp = [t for t in tmp if not t.startswith("ruby")]
        if tmp:
            res["problems"].append(("tmp-leak", "temporary files left after all sessions: %s" % tmp[:5], None))
        for s in ss:
            res["sessions"] += 1
            res["sigs"].append(session_signature(s))
            if dead and s["problems"]:
                s["problems"] = []
            if s["plan"].get("loose"):
                # only what it does to others is of interest
                k = "loose_" + s["plan"]["loose"]
                res["stats"][k] = res["stats"].get(k, 0) + 1
                for kind, t in s["problems"]:
                    if kind == "child-left-open" and s["plan"]["loose"] == "cut":
                        res["problems"].append((kind, t, trim(replay_of(cfg, text, s))))
                continue
            s["neighbours"] = loose
            for kind, t in proxycheck.check(cfg, s, res["stats"]):
                res["problems"].append((kind, t, trim(replay_of(cfg, text, s))))
        if ss:
            s = ss[0]
            res["sample"] = "children %s; MTA log: %s" % (
                [k["name"] for k in cfg["children"]],
                [(e["cmd"][0], e["final"][0] if e["final"] else None) for e in s["log"] if e["cmd"][0] != "message"])
        res["stats"]["packets"] = res["stats"].get("packets", 0) + w.events
        for k in [k for k in res["stats"] if False]:
            pass
        if "runtime error:" in m.errors() or "AddressSanitizer" in m.errors():
            # let it write the whole report
            t = time.time()
            while m.alive() and time.time() - t < 20:
                time.sleep(.1)
        st = m.stop()
        err = m.errors()
        for key, t in diagnostics(err):
            res["problems"].append((key, t, dict(config=text, plans=trim(jsonable(plans[:3])))))
        if dead and not diagnostics(err):
            res["problems"].append(("died", "milter-manager died (status %s): %s" % (m.proc.returncode, err[-1500:]),
                                    dict(config=text)))
        elif st != 0 and not dead:
            res["problems"].append(("stop", "milter-manager exited with %s on SIGTERM: %s" % (st, err[-1500:]), None))
        if not dead and st == 0:
            left = [f for f in (m.sock, m.pid) if os.path.exists(f)]
            if left:
                res["problems"].append(("left-files", "files left after shutdown: %s" % left, None))
    except Exception:
        res["error"] = traceback.format_exc() + m.errors()[-1500:]
    finally:
        m.cleanup()
    return res


def worker(job):
    seed, prof, nsess, env = job
    r = round_once(seed, prof, nsess, env)
    return (seed, prof.get("label", ""), r)


def rounds(jobs, workers=8):
    """jobs: [(seed, profile, nsess, env)] -> yields (seed, label, result)"""
    from manager import B
    B.build("asan")
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(workers, len(jobs)), maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(worker, jobs):
            yield r


if __name__ == "__main__":
    kw = dict(a.split("=", 1) for a in sys.argv[1:] if "=" in a)
    n, ns = int(kw.pop("rounds", 8)), int(kw.pop("sessions", 30))
    seed = kw.pop("seed", "1")
    show = int(kw.pop("show", 1))
    prof = profile(**{k: eval(v) for k, v in kw.items()})
    from collections import Counter
    cnt, first, stats = Counter(), {}, Counter()
    t = time.time()
    for sd, lab, r in rounds([("%s/%d" % (seed, i), prof, ns, None) for i in range(n)]):
        if "error" in r:
            print("ERROR", r["error"])
        for k, t_, rep in r["problems"]:
            cnt[k] += 1
            first.setdefault(k, []).append((sd, t_, rep))
        stats.update(r["stats"])
        stats["sessions"] += r["sessions"]
        stats["maxlag_ms"] = max(stats["maxlag_ms"], int(r["lag"] * 1000))
    for k, c in cnt.most_common():
        print("==", k, c)
        for sd, t_, rep in first[k][:show]:
            print("   ", sd, t_[:1500])
    json.dump({k: v[:5] for k, v in first.items()}, open("/tmp/scn.json", "w"), indent=1)
    print(dict(stats), "%.1f s" % (time.time() - t))
