import json,glob,os
V="/verif"
P={json.loads(l)["id"]:json.loads(l) for l in open(V+"/properties.jsonl")}
head = r'''# Runtime monitoring and sanitizers for milter-manager

Every check runs the real code of `/repo` — the libraries through small drivers, the daemon as a real process between a
scripted MTA and scripted milters — under generated, hostile and stressful workloads, and decides with an oracle that
observes the execution: AddressSanitizer/UBSan/LeakSanitizer and GLib's own criticals for the memory guarantees, and
trace checkers (online or over recorded event logs) for the behavioural ones.  Nothing is decided by looking at how the
code is written, so a refactoring that keeps the behaviour stays quiet.

No hook is needed in `/repo` (MANIFEST.json: no hooks): wire packets, process state (`/proc`, sockets, files), the
program's own records and the public API are enough to observe every property.

## Machinery

| file | what it does |
|---|---|
| `lib/build.py` | rebuilds `/repo`'s C sources (library, `milter-manager`, Ruby extensions, drivers of `harness/`) with `-fsanitize=address,undefined` into `.build/asan` by a ninja file of its own; only what changed. `setup_cmd` runs it once. |
| `lib/check.py` | frame of a check: seeds (`VERIF_SEED`), counters, evidence, replays, known findings, `VIOLATION`/`KNOWN-FINDING` lines |
| `lib/milterproto.py`, `wiregen.py` | an independent codec of the milter protocol and generators of packets |
| `lib/manager.py` | a `milter-manager` process in a scratch directory under `/tmp` (configuration, sockets, heap statistics, descriptors, diagnostics in its log) |
| `lib/scenario.py`, `proxy.py`, `proxycheck.py`, `e2e.py` | generated sessions: scripted MTA and scripted milters with random verdicts, modifications, faults, delays, fragments; the recorded packets with a global sequence number; the offline trace checker |
| `lib/isolate.py` | metamorphic workload: the same message in a fresh session and after an arbitrary past |
| `lib/clientlib.py`, `serverlib.py` | the same for milters on the client library and the smfi_* API, and for programs on the server library |
| `lib/life.py` | processes, signals, sockets; simple sessions |
| `lib/tables.py`, `confmodel.py` | reference implementations: Postfix tables and address matchers; the configuration language |

The trace checker (`proxycheck.py`) replays the recorded packets of one session through a model of what a milter manager
owes both sides: per child what it was offered and asked for, which events it has to get, with which macros and which
view of the message (original + what its predecessors changed), what the MTA must be answered, and the net effect of the
modifications.  It is a specification written from the milter protocol, libmilter's documentation and the manual, not
from the code; where these leave freedom it accepts every choice (list below).

All effects stay in a scratch directory (`tempfile.mkdtemp`), removed at the end; the manager drops its privileges to
`nobody`; the processes killed are only those a check started.

Every oracle verdict that depends on time is either repeated with less load (`one_pass` in e2e.py), or dropped when the
observer's own event loop was late (`dropped_on_slow_machine`, `too-slow-to-tell` in the evidence).

Thread and memory sanitizer were considered and left out: `multi_thread_mode` of the client library isn't functional in
this version (Ruby and GLib main contexts are shared between threads), everything else is one thread per process, so
there is nothing a race detector could decide; MSan would need instrumented GLib/Ruby/libev, which aren't available
offline.  `valgrind` was used while hunting, not in checks (20 times slower than ASan without finding more).

## Per property

All quick checks take 3 to 150 s on 8 cores, the thorough ones (10 to 15 times as many rounds, and longer ones) 2 to 60
minutes.  The unit tests run one example of most mechanisms with everything well-behaved and one session at a time; what
the checks add per property is named as *reach*.

'''
D={}
D["C01"]="*Exercised*: real encoder and decoder in a driver (`harness/`). *Generated*: every command with arguments over their whole range (0x00–0xff bytes, empty, 64 KiB), sequences of commands, random splits of the stream. *Oracle*: the bytes equal those of the independent codec, the decoder's signals equal the arguments, in order; sanitizers. *Bounds*: ~20 000 (quick) random cases. *Reach*: bytes after NUL, buffers that start anywhere, every split; the tests decode whole packets of printable text."
D["C02"]="As C01 for replies: indexes over the whole range, optional parameters absent/empty/present, custom replies with multiple lines, symbol lists, replacement bodies longer than a packet (concatenation must be equal)."
D["C03"]="*Generated*: valid packets with mutations (dropped terminators, cut, spliced, wrong length and code, random bytes), negotiation replies with one flaw in their macro requests; six decoders; each stream whole and under two random fragmentations, in buffers of exact size. *Oracle*: ASan/UBSan, termination, the same events and error for every split, an error *with text* for packets that an independent reading calls malformed and no event for them. Trailing bytes after the terminator are tolerated."
D["C04"]="*Exercised*: whole manager. *Oracle* on the MTA connection: exactly one final reply per command that expects one, in order, modifications only at end of message before it, nothing unasked, none for commands without reply, within 12 s. Profiles: 0–7 children, delays at every stage, byte-wise fragments, batches of commands, NO_REPLY steps, no child left, stop conditions, faults."
D["C05"]="*Oracle*: per command the combination of all recorded child answers (rejection > temporary failure > …), the custom reply must be that of a child with the winning verdict, no reply before every child that must be asked has answered (`unasked`, `early-reply`), and what happens to the other children afterwards."
D["C06"]="Faults (closed connection, garbage, reply out of place, silence until the timeout, connection-failure and shutdown replies, dead after its last reply, absent, failing negotiation) are injected at random stages — one or many, in one or several children, also after a child skipped the body. *Oracle*: as C05/C07 with the fallback status standing for the answer; the rest of the session is judged completely; the process survives."
D["C07"]="*Oracle*: reconstructs the view of every child: the recorded packets of each child must be exactly the events owed, with headers, header positions (leading space option), body bytes and end-of-message chunk as its predecessors left them. Bodies up to 7 MiB (spooled above 5 MiB), original or replaced, binary, in chunks of any size. *Known finding*: `esmtp-args`."
D["C08"]="*Oracle*: applies to the original message (a) the children's modifications one after the other and (b) what the MTA was sent; headers with order, body, sender, recipients, quarantine must be equal. Children are 2–4 with up to 9 modifications each, equal names and values, out-of-range indexes, big and empty bodies."
D["C09"]="As C04–C08 with children in evaluation mode, whose answers the oracle takes for `continue` without modification; faults in them too."
D["C10"]="*Oracle* on the negotiations: what the MTA is answered ⊆ its offer, ⊇ what participating children need, steps skipped only if all skip, symbol lists merged; and afterwards: no event a child opted out of, all others delivered, nothing waits for a reply that was negotiated away. Versions 2–6, partial offers, any sets of steps and actions, evaluation children."
D["C11"]="*Oracle*: before each event a child gets, the macros defined by the MTA for that stage (exact, filtered by the child's request), and none defined only for another message, recipient or session (every value carries session, message and recipient in its text)."
D["C12"]="Three workloads: many concurrent sessions with hostile neighbours (oracle of C04–C11 for each of them); many messages per session with aborts; and `isolate.py`: the same probe message in a fresh session and after a random past (finished, stopped, aborted, aborted while a child hangs) — replies, children's events, macros and modifications must be the same."
D["C13"]="*Monitors*: descriptors of the process (count and kinds) when all sessions have ended, close events at the children, files in the temporary directory; heap bytes in use (asked of the sanitizer's allocator) after each of 8 equal batches, a growth ≥ 16 bytes in *every* one of the last batches is a leak; LeakSanitizer at exit with stacks of the interpreter and GLib's type system left out. Sessions end in every way (quit, close at any byte, cut, faults, garbage, spooled and replaced bodies)."
D["C14"]="Random enabled/disabled children, applicable conditions with stoppers at every stage that look for marks in the arguments, macros and body. *Oracle*: exactly the right children are connected and asked, in configured order, a stopped child gets nothing more of that transaction, the others everything."
D["C15"]="*Exercised*: a real milter on the client library (`harness/client_driver`) that does what a generated plan says. *Oracle*: callbacks, arguments, macros, results of every request and each packet on the wire are those of the plan. Delayed answers, invalid requests at every stage, packet buffer sizes 0/small/large, bodies up to several packets, aborts with buffered modifications; both event loops; concurrent sessions; fragments."
D["C16"]="The same for the smfi_* API (`harness/smfi_driver`): any subset of callbacks and flags, with and without xxfi_negotiate, smfi_setreply/setmlreply with valid and invalid text, private data per connection, smfi_getsymval/setsymlist, everything called at the wrong time too."
D["C17"]="*Exercised*: a program on the server library (`harness/server_driver`) against scripted milters. *Oracle*: the commands on the wire and the notifications (with times) are those of the generated session: version and step filtering, macro requests, chunks, aborts, the four timeouts (silence, slowness below the limit, a deaf milter, progress that keeps alive and then stops), refused/unreachable/closing/garbage milters."
D["C18"]="Random operation histories on the header list in a driver; a reference list is compared after every operation; copies are changed independently."
D["C19"]="All pairs of statuses at each stage (total preference, antisymmetry, transitivity on triples); random options and macro requests: combination and merge against a reference, order independence, arguments unchanged, duplicates and case."
D["C20"]="Generated and mutated specs and ESMTP arguments; a strict and a widest reading of the grammar bracket the parser: what the strict one accepts must be accepted with that value, what the widest one rejects must be rejected with an error; formatting and parsing again gives the same address; ASan with exact-size inputs."
D["C21"]="Random programs on both back ends (GLib with own/default context, libev loop/default loop) that add, remove and fire sources from inside callbacks, reuse ids and descriptor numbers, run nested loops. *Online oracle* at every callback, destroy notification and iteration. Lateness in iterations, earliness in time (1 ms tolerance for GLib's rounding). *Known finding*: `error-watch`."
D["C22"]="Random configuration files (every setting, redefinitions, removed milters, includes, custom XML), invalid values and broken files, reload histories with running sessions. *Oracle*: a model of the language predicts `--show-config` (values, defaults, places) and the messages; the dump is loaded again; new sessions show the new configuration, running ones the old."
D["C23"]="Requests of all kinds on the control socket (well-formed, malformed, oversized, cut, pipelined, byte-wise, concurrent) while mail sessions run. *Oracle*: a model of the configuration; each answer, the stored file byte by byte, the sessions, the descriptors."
D["C24"]="Random start configurations (address, mode, group, PID file, stale socket, daemon, workers, back end), sessions in progress, storms of SIGHUP/SIGUSR1, a shutdown at a random moment, a socket or PID file that vanished; starts that must fail. *Oracle*: process table, sockets, files, every session's completion, exit status."
D["C25"]="More connections than the limit with random arrivals and lengths, one process or workers, both back ends, pending finished sessions. *Oracle*: a sweep over the recorded intervals per serving process (never more than the limit), everybody is served, sessions in progress aren't delayed."
D["C26"]="Generated CIDR/regexp tables (with malformed ones), matchers and values against `lib/tables.py`; and a real manager with the bundled conditions (S25R, trust, remote network, sendmail compatibility, restrict accounts, authentication …) customised at random: the packets each child gets are compared with a model."
D["C27"]="A real manager with generated checkers (several, redefined, raising) and waves of sessions whose milters wait at a random command, some of whose clients vanish; crowds of more sessions than are asked per interval. *Oracle*: a vanished client is noticed within 12 s, answered exactly once with the configured status, its milters are told; the others are undisturbed; later waves are checked too."
D["C28"]="A real manager as root in privilege mode with milters that aren't running (late, short-lived, failing, without command, unknown user, unparsable command, arguments full of quotes and metacharacters). The launched processes record their arguments, ids and sessions. *Oracle*: compares these records and the MTA's replies with the configuration."
D["C29"]="A Ruby milter (`harness/ruby_milter.rb`: CommandLine, ClientSession or CompositeSession of 2–3 parts, a random set of callbacks, one process or workers, both back ends, options on the command line or in a configuration file, one of them broken) runs under ASan with the extension libraries and does what a random plan says: decisions, custom replies (also invalid ones), modifications, exceptions of several classes, constructors that raise, shelves, kept data, GC; SIGHUP and SIGUSR1 in the middle. *Oracle*: a model of each callback gives the events with arguments and macros, the result of each request, packets and verdicts; known findings for what has no binding."
tail = r'''
Nothing is listed as not applicable: every property above can be decided, to the stated bounds, by observing executions.

## What the oracles leave open (decisions)

These are behaviours that the protocol or the documentation leaves free; the oracles accept every choice.

- Multi-line replies: the oracles normalise the '-'/' ' separators, line ends and trailing blanks.
- IPv6 addresses with and without the "IPv6:" prefix are equal; UNKNOWN to a child of version < 3 may or may not be sent.
- ABORT to a child that has seen nothing of the current message is tolerated. MTA body packets are ≤ 65535 bytes.
- Macro names travel verbatim; if a child requested macros for some stages only, the others may get nothing or the defaults.
- If a child that isn't evaluated fails in negotiation with a fallback of reject/tempfail/discard, connect is answered with that;
  if no child is left, manager.fallback_status may be used.
- An applicable-condition stop at RCPT withholds only that recipient; stops at CONNECT/HELO end the child's session, others the message.
- Idle death of a child (between two commands): the fallback may or may not apply. Modifications sent by a child before it dies
  at end of message are applied.
- C12/C17: late replies of a hung milter to an aborted command are not generated (the protocol cannot tell them apart).
- GLib criticals about g_timer_continue (statistics), out-of-range flag properties and waitid(pid: are ignored (environment).
- C22: negative numbers, fractions for integers, unknown log-level names are not generated; after a broken reload only the
  settings before the error are judged; places only when file:line is printed. C23: silence is accepted as refusal.
- C24: a session is in progress once its negotiation is answered; unanswered connections may be dropped; a vanished socket may
  give a non-zero exit status. C25: in progress from the negotiation's reply to QUIT or close.
- C27: checks happen only while a milter works; 12 s without reply are "unnoticed"; the manager's end of a finished milter's
  connection may live until Ruby's garbage collection (a milter ends its session at QUIT); netstat checker not run (no netstat).
- C29: whether a session's data survive an ordinary end of message isn't judged (only what was reset).
- C28: retry after 5 s; a milter listening within 4 s must take part.
- C15: with packet buffer 0 modifications sent before an ABORT at end of message are legitimate. C16: xxfi_abort at the end of a
  connection; P_SKIP not negotiated without xxfi_negotiate; a connect of unknown family passes an AF_UNSPEC address.
- C21: libev children only in the default loop; a GLib dispatch with condition 0 after a nested loop is tolerated.
- C26: patterns in the subset that Ruby, POSIX and Python share; networks with host bits clear.

## Alarms that were false, and what was corrected

- C27: "connection to a milter left open" counted the manager's descriptor although QUIT had been sent; a milter ends at QUIT now.
- C27: the milters' default reading timeout (10 s) ended sessions of the crowd; it is configured to 120 s there.
- C21: GLib may dispatch with condition 0 after a nested loop; idles starve while timeouts are due: judged in iterations.
- C17: late replies after an abort and busy machines: not generated, not judged.
- C13: constant growth was first judged on the mean (allocator jumps); it must be in every batch now.
- C24/C25: with `ptrace` refused, `/proc/PID/fd` of processes that changed identity is unreadable: descriptors are counted only if readable.
- C10/C11: names requested in braces or without are compared as the children asked for them.
- C19: option flags that don't exist cannot be held by MilterOption and are not generated.

## Genuine defects

All are listed in `known-findings.txt` (`fixed:` with the commit in /repo, `known:` for those only recorded). Five are recorded:

- `C07 esmtp-args`: the ESMTP parameters an MTA passes with MAIL and RCPT are dropped by milter-manager. Repairing this changes the
  signature of public signals and both language bindings, so it isn't small. The check accepts only exactly this: a child that gets
  the address without the strings after it. That profile is the only one that sends parameters.
- `C21 error-watch`: with libev a watch for only G_IO_ERR|G_IO_HUP|G_IO_NVAL never runs; libev has no such event.
- `C29 eom-chunk`: a Ruby milter never sees data sent with the end-of-message command (real MTAs send none). Handing it to `body`
  needs a decision about two verdicts for one command.
- `C29 max-connections-ignored`, `C29 remove-on-close-ignored`: settings of a Ruby milter's configuration file for which
  `Milter::Client` has no methods; repairing that means new bindings.

Observed and left alone (no property is broken): unknown controller requests are answered with silence; reload answers success even
if files are broken (the log tells); after dropping privileges a reload cannot reopen a root-owned log; a failed connection is logged
with a clobbered errno text.

## Planted bugs

`seeded/<id>/` (patch, demonstration, meta); all compile and pass the 505 tests. "Own" = the quick check of the property they break.

| id | property | what it breaks | quick check |
|---|---|---|---|
'''
note={"b05":"missed first; caught since `isolate.py`","b09":"missed first; evaluation profiles added","b12":"missed first; duplicate symbols added","b13":"missed first; multi-line texts with empty lines added",
"b17":"missed first; kind `unasked` added","b18":"missed first; crowd() added","b21":"caught (C07, C12)","b23":"missed first; socket that vanished added","b24":"missed first; progress that stops added",
"b26":"missed first; flawed macro requests added","b27":"missed first; replaced bodies > 5 MiB added","b31":"caught by the first version of C29","b32":"caught by the first version of C29","b33":"missed first; command lines that begin with another's added","b29":"caught since pending finished sessions are varied"}
s=head
for i in sorted(P):
    s+="### %s %s\n\n%s\n\n"%(i,P[i]["title"],D[i])
s+=tail
for d in sorted(glob.glob(V+"/seeded/*")):
    m=json.load(open(d+"/meta.json")); n=os.path.basename(d)
    s+="| %s | %s | %s | %s |\n"%(n,m["property"],m["what_it_breaks"],note.get(n[:3],"caught"))
open(V+"/DESIGN.md","w").write(s)
