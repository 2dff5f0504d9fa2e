"""Frame of the checks that run a real milter-manager between a scripted MTA
and scripted children: plays the profiles of a property, drops what a slow
machine may have caused, and reports the kinds of problems that belong to the
property (memory errors, crashes and the like always do)."""
import os, time
from check import Check, main
import scenario

# kinds decided by the trace oracle; everything else (sanitizer reports, GLib
# criticals, death of the process) belongs to every property
BEHAVIOUR = {
    "no-reply", "unsolicited", "closed", "bad-packet", "mod-outside-eom", "not-closed", "early-reply",
    "verdict", "code", "env-view", "msg-view", "unasked", "extra-event", "not-connected", "abort", "macro", "applicable",
    "net-headers", "net-headers-order", "net-body", "net-sender", "net-quarantine", "net-rcpts",
    "neg-offer", "neg-not-offered", "neg-action", "neg-step", "neg-noreply", "neg-macros", "neg-reply",
    "esmtp-args", "child-left-open", "fd-leak", "tmp-leak", "stray", "left-files", "stop", "connect", "bad-packet-child"}
# what a machine that stalls for seconds may cause on its own
TIMING = {"no-reply", "not-closed", "esmtp-args", "child-left-open", "fd-leak", "connect", "stray", "closed", "verdict", "tmp-leak", "stop"}
ALL = BEHAVIOUR

QUICK_TIMEOUTS = {"reading": 2, "writing": 2, "end_of_message": 2, "connection": 2}


def faulty(**kw):
    return dict(dict(noreply=0, timeouts=QUICK_TIMEOUTS), **kw)


def play(prop, rule, kinds, groups, assumptions=(), after=None, level="exploration"):
    """groups: [(label, profile keywords, quick rounds, thorough rounds, sessions)]"""
    c = Check(prop, rule, level)
    c.assumptions += list(assumptions)
    jobs = []
    for label, kw, quick, thorough, sessions in groups:
        kw = dict(kw)
        env = kw.pop("env", None)
        p = scenario.profile(label=label, **kw)
        for i in range(c.n(quick, thorough)):
            jobs.append(("%s/%d/%s/%d" % (prop, c.seed, label, i), p, sessions, env))
    # long ones first
    jobs.sort(key=lambda j: (not j[1]["spool"], not j[1].get("faults"), not j[1].get("cut"), j[0]))
    limit = c.n(600, 7200)
    again = one_pass(c, jobs, kinds, limit)
    if again:
        # these were disturbed: repeat them with less load
        c.count("rounds_repeated", len(again))
        one_pass(c, again, kinds, limit, workers=3, last=True)
    if after:
        after(c)
    c.finish()


def one_pass(c, jobs, kinds, limit, workers=12, last=False):
    by = {(j[0]): j for j in jobs}
    again = []
    for seed, label, r in scenario.rounds(jobs, workers):
        if time.time() - c.t0 > limit:
            c.count("rounds_left_out")
            break
        slow = r["lag"] > 1.5
        if "error" in r:
            if not last:
                again.append(by[seed])
            else:
                c.violation("harness", "round %s could not be run: %s" % (seed, r["error"][-3000:]))
            continue
        if slow and r["problems"] and not last:
            again.append(by[seed])
            continue
        c.count("rounds")
        c.count("rounds_" + label)
        c.extra["slowest_event_loop_s"] = round(max(c.extra.get("slowest_event_loop_s", 0), r["lag"]), 2)
        for k, v in r["stats"].items():
            c.count(k, v)
        for s in r["sigs"]:
            c.case((label, s), None)
        if r["sample"]:
            c.case(None, "%s: %s" % (seed, r["sample"])) if len(c.samples) < 4 else None
        for kind, text, replay in r["problems"]:
            if slow and kind in TIMING:
                c.count("dropped_on_slow_machine")
                continue
            if kind in kinds or kind not in BEHAVIOUR:
                c.violation(kind, "round %s: %s" % (seed, text), dict(round=seed, profile=label, session=replay))
            else:
                c.count("problems_of_other_properties")
    return again
