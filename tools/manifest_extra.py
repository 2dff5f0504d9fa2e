E2E = ("a real milter-manager (ASan/UBSan build) between a scripted MTA and scripted child milters; an offline checker walks "
       "the recorded packets of all connections of each session against a protocol model (%s)")
TECH.update({
 "C04": E2E % "one final reply per command, in order, nothing unsolicited",
 "C05": E2E % "the reply is the combination of the children's replies",
 "C06": E2E % "injected child faults: fallback status, the other children complete, process alive",
 "C07": E2E % "what each child saw is what the MTA sent plus its predecessors' changes",
 "C08": E2E % "replaying the MTA's modifications equals replaying each child's",
 "C09": E2E % "children in evaluation mode never count",
 "C10": E2E % "offers, answers, skipped and reply-less steps",
 "C11": E2E % "macros per stage, message and session",
 "C12": E2E % "concurrent sessions, many messages, aborts, hostile neighbours",
 "C13": "monitors of descriptors, spool files, heap bytes after equal batches of sessions, LeakSanitizer and close events of a real milter-manager under sessions that end in every way",
 "C14": E2E % "enabled children, stop conditions and order",
})
N = "Random configurations, messages, verdicts, modifications, delays and fragmentations; decides on the packets observed only. "
NOTE.update({p: N for p in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14")})
NOTE["C13"] = N + "The heap monitor needs growth in every one of the last batches; a loss that happens once per process is left to LeakSanitizer."

TECH["C23"] = "a real milter-manager (ASan/UBSan) under random, hostile and concurrent control connections and mail sessions; every answer, the stored file and the sockets are compared with a model of the configuration"
NOTE["C23"] = "Requests that are not understood only have to be without effect; refusal by silence is accepted. "
TECH["C24"] = "real milter-manager processes (ASan/UBSan) started with random configurations, storms of signals and a shutdown at random moments of running sessions; process table, sockets, PID and log files and every session are observed and judged"
NOTE["C24"] = "The moments of shutdown are random. Timing verdicts need a repetition. "
TECH["C25"] = "a real milter-manager (ASan/UBSan) with more connections than its limit; an offline checker sweeps the recorded intervals of all sessions per serving process and judges completion and latency"
NOTE["C25"] = "Random arrivals and session lengths; a stall is only judged in rounds with a long suspend time. "
TECH["C15"] = "real milters on the client library (ASan/UBSan) that do what a generated plan says, driven by a scripted MTA over real sockets; their callbacks, the results of their requests and every packet are compared with the plan"
NOTE["C15"] = "Random plans; both event loops, packet buffering off, small, large. "
TECH["C16"] = "real milters on the smfi_* API (ASan/UBSan) that do what a generated plan says, driven by a scripted MTA over real sockets; their callbacks, the results of their calls and every packet are compared with the plan"
NOTE["C16"] = "Random plans with any set of callbacks and flags, with and without xxfi_negotiate; both event loops. "
TECH["C17"] = "a real program on the server library (ASan/UBSan) issuing generated command sequences to scripted milters that answer, delay, fall silent, close, or send invalid data; packets and notifications are compared with the plan, timeouts with the clock"
NOTE["C17"] = "Random plans; timing is judged only for sessions in which the machine kept up. "

TECH["C21"] = "random programs on both event loop back ends (ASan/UBSan) that add, remove and fire sources from inside callbacks; an online oracle judges every callback, destroy notification and iteration"
NOTE["C21"] = "Random programs; lateness is judged in iterations, not in time. "
TECH["C26"] = "generated tables, matchers and looked-up values compared with an independent evaluation, and sessions against a real milter-manager with the customised bundled conditions, where the packets each child got are compared with a model"
NOTE["C26"] = "Regular expressions in the subset that Ruby, POSIX and Python share. "

TECH["C22"] = "random configuration files, broken files and sequences of reloads given to the real milter-manager (ASan/UBSan); what --show-config, the log and new and running sessions show is compared with a model of the configuration language"
NOTE["C22"] = "Random settings and values; inputs whose treatment is undocumented are not generated. "
TECH["C27"] = "a real milter-manager (ASan/UBSan) with generated connection checkers under concurrent sessions whose clients vanish at random; the log of checker calls and every packet are compared with the plan"
NOTE["C27"] = "Random plans; the bundled netstat checker itself is not run. "

TECH["C28"] = "a real milter-manager started as root in privilege mode (ASan/UBSan) with milters that aren't running, start late, end at once or can't be run; the launched processes record their arguments and identities, all packets are recorded and judged against the configuration"
NOTE["C28"] = "Random configurations and moments; the launched commands are scripted milters in a scratch directory that run as nobody. "

TECH["C29"] = "random plans for milters written in Ruby, run by the real library and extensions (ASan/UBSan) under concurrent generated sessions, reloads and several processes; what the callbacks saw and every packet are compared with a model"
NOTE["C29"] = "Random plans; the wording of logs and the database support of milters aren't looked at. "
