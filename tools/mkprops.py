#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they can be
edited as text)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

CHILDREN = "milter/manager/milter-manager-children.c"
LEADER = "milter/manager/milter-manager-leader.c"
CCTX = "milter/client/milter-client-context.c"
SCTX = "milter/server/milter-server-context.c"

prop("C01", "Milter commands survive the wire unchanged",
 "Every command an MTA side can encode (option negotiation, macro definitions, connect, HELO, envelope sender and recipients, DATA, headers, end of header, body chunks, end of message, abort, quit, unknown) is written in the milter wire format of protocol versions 2-6 and is decoded as exactly the same sequence of commands with byte-identical arguments. This holds for every argument value the protocol can carry, including body bytes of any value, and for every way the byte stream is split into reads.",
 ["inputs", "schedules"], "all sequences of well-formed commands with arbitrary arguments, times all fragmentations of the stream",
 "the unit tests encode and decode a few fixed packets whole, with NUL-free text bodies",
 ["milter/core/milter-command-encoder.c", "milter/core/milter-command-decoder.c", "milter/core/milter-encoder.c", "milter/core/milter-decoder.c"],
 [("incremental packet reassembly", "milter/core/milter-decoder.c:milter_decoder_decode"), ("per-command encoders/decoders", "milter/core/milter-command-{en,de}coder.c")],
 ["packets returned by the encoders", "signals emitted by the decoder"])

prop("C02", "Milter replies survive the wire unchanged",
 "Every reply a milter can encode (negotiation with requested macros, continue, reject, tempfail, accept, discard, skip, progress, custom reply codes, header add/insert/change/delete, sender change, recipient add/delete, body replacement, quarantine, connection failure, shutdown) is written in the milter wire format and decoded as exactly the same sequence of replies with byte-identical arguments. This holds for every argument value, including body bytes of any value, header indexes over the whole range and optional ESMTP parameters present or absent, and for every fragmentation; a replacement body longer than one packet is split so that its concatenation is unchanged.",
 ["inputs", "schedules"], "all sequences of well-formed replies with arbitrary arguments, times all fragmentations",
 "the unit tests cover one fixed instance per reply, delivered whole",
 ["milter/core/milter-reply-encoder.c", "milter/core/milter-reply-decoder.c", "milter/core/milter-reply-signals.c"],
 [("per-reply encoders/decoders", "milter/core/milter-reply-{en,de}coder.c")],
 ["packets returned by the encoders", "signals emitted by the decoder"])

prop("C03", "Hostile bytes are reported, and never corrupt memory, crash or hang",
 "For every byte stream and every fragmentation of it, the protocol decoders (milter commands, milter replies, controller commands and replies, process-launch commands and replies) perform no invalid memory access or undefined behaviour, terminate, and behave identically however the stream was split. A packet that is truncated, unterminated, of length zero or of unknown type is rejected with an error that says so, rather than silently or with invented data.",
 ["inputs"], "all byte strings as input, all ways of splitting them",
 "the unit tests feed a handful of short malformed packets and do not run under a memory-error detector",
 ["milter/core/milter-decoder.c", "milter/core/milter-command-decoder.c", "milter/core/milter-reply-decoder.c", "milter/manager/milter-manager-control-command-decoder.c", "milter/manager/milter-manager-control-reply-decoder.c", "milter/manager/milter-manager-launch-command-decoder.c", "milter/manager/milter-manager-reply-decoder.c"],
 [("length and NUL-termination checks", "milter/core/milter-decoder.c:milter_decoder_check_command_length, milter_decoder_decode_null_terminated_value")],
 ["decoder return value, GError and signals under AddressSanitizer and UBSan"])

prop("C04", "Each SMTP command gets exactly one final reply, in order",
 "For every session an MTA drives through milter-manager, each command that expects a reply gets exactly one final reply (preceded only by progress notices or, at end of message, by modifications), in command order, and nothing else is sent; commands that expect no reply get none. This holds for any number of child milters (including none), any replies, delays and progress notices from them, and however the packets on any of the connections are fragmented or batched.",
 ["inputs", "schedules", "histories"], "all MTA command sequences, all child milter behaviours and all interleavings of their replies",
 "the multi-child proxy logic has no running unit tests, and a test fixes one schedule",
 [CHILDREN, LEADER, CCTX, SCTX],
 [("reply queue of waiting children", CHILDREN + ":reply_queue"), ("response_* signals turned into one packet", CCTX)],
 ["packets on the MTA connection of a running milter-manager"])

prop("C05", "The most decisive child verdict is what the MTA receives",
 "The reply milter-manager gives the MTA for a command is the combination of the replies of all participating child milters: reject or temporary failure from a child wins over continue and accept at the connection, envelope and DATA stages, a custom SMTP reply (code, extended code and all text lines) of the winning child is passed through unchanged, accept from one child only removes that child from the rest of the message or session, and discard discards the message. A reject, temporary failure or discard ends the transaction for the other children, except that a refused recipient refuses only that recipient.",
 ["inputs", "histories"], "all vectors of child replies at every stage, in every arrival order",
 "tests exercise single replies; combinations, arrival orders and reply-code interactions are not covered",
 [CHILDREN, LEADER, "milter/core/milter-utils.c"],
 [("status compilation", CHILDREN + ":compile_reply_status"), ("importance order", "milter/core/milter-utils.c:milter_status_compare")],
 ["packets on the MTA connection and on each child connection"])

prop("C06", "A failing child milter only costs its own fallback status",
 "If a child milter cannot be connected to, fails or rejects negotiation, sends garbage or an out-of-place reply, closes its connection or times out at any point, it is dropped and counted as having answered its configured fallback status for the pending command, and the MTA still gets its reply within the configured timeouts. The other children keep receiving the complete session and message, the next sessions are unaffected, and milter-manager itself keeps running.",
 ["fault_sequences", "schedules"], "all fault kinds, at every protocol stage, in any subset of children",
 "tests do not inject child faults into a running proxy",
 [CHILDREN, LEADER, "milter/manager/milter-manager-child.c", SCTX],
 [("expire_child and fallback status", CHILDREN + ":expire_child"), ("connection, reading, writing and end-of-message timeouts", SCTX)],
 ["packets on the MTA connection and on the surviving child connections, process liveness"])

prop("C07", "Each child sees the whole message as its predecessors left it",
 "Every participating child milter receives the connection, envelope, headers and body of each message completely and in protocol order, skipping only events it opted out of, and exactly as the MTA sent them except for the header and body changes made by the children configured before it. Header order, duplicate names and values and body bytes (of any value and any size, including bodies spooled to disk) are preserved, and headers and body keep their positions relative to end-of-header and end-of-message.",
 ["inputs", "configurations"], "all messages, all chains of children and all their modifications",
 "tests use one child or short text bodies; the replay chain has no running unit test",
 [CHILDREN, "milter/core/milter-headers.c", SCTX],
 [("message-oriented replay to the next child", CHILDREN + ":send_first_command_to_next_child, cb_ready/cb_continue")],
 ["packets each child milter receives"])

prop("C08", "The MTA receives the net effect of all message modifications",
 "Applying the modifications that milter-manager sends the MTA at end of message to the original message yields the same headers, body, recipients, sender and quarantine state as applying every child's own modifications one after the other in configuration order. No modification is lost, duplicated, attributed to another message or sent outside end of message, and all precede the final reply.",
 ["inputs", "histories"], "all messages and all sequences of modifications by any number of children, over consecutive messages",
 "tests check single modifications; composition over children and messages is not tested",
 [CHILDREN, LEADER, "milter/core/milter-headers.c", CCTX],
 [("header difference emission", CHILDREN + ":emit_header_signals"), ("body replacement emission", CHILDREN + ":emit_replace_body_signal")],
 ["modification packets on the MTA connection"])

prop("C09", "A child in evaluation mode never influences mail",
 "A child milter configured in evaluation mode receives the session like any other child, but none of its verdicts, custom replies or message modifications ever changes what the MTA is told or what other children see. Its failure is likewise without effect on the verdict.",
 ["inputs", "configurations"], "all behaviours of the evaluation-mode child, in any position among other children",
 "no running test covers evaluation mode in the proxy",
 [CHILDREN, "milter/manager/milter-manager-child.c"],
 [("evaluation-mode checks on verdicts and modifications", CHILDREN)],
 ["paired sessions with and without the evaluation-mode child's influence"])

prop("C10", "Negotiation gives every child and the MTA a protocol both agreed to",
 "milter-manager never negotiates with the MTA an action, protocol step or version the MTA did not offer, requests every action and macro that some participating child requested, and skips a step only if all children skip it. Each child is told only what the MTA supports, never receives an event it opted out of, still gets every event it did not opt out of, and its commands without reply are not waited for.",
 ["inputs", "configurations"], "all MTA offers and all children's negotiation answers",
 "tests use one fixed option set",
 [LEADER, CHILDREN, "milter/core/milter-option.c", SCTX, CCTX],
 [("option merging", "milter/core/milter-option.c:milter_option_combine, milter_option_merge"), ("step filtering", SCTX)],
 ["negotiate packets and subsequent packets on all connections"])

prop("C11", "Macros reach each child at the right stage and never leak",
 "Each macro the MTA defines for a stage is delivered with its exact name and value to the children before the event of that stage, limited to the macros a child requested for that stage if it requested any. Values defined for one message or recipient stage are never delivered with a later message, after an abort, or in another session unless the MTA defines them again.",
 ["inputs", "histories"], "all macro definitions and requests over multi-message sessions",
 "tests define a few macros for one message",
 ["milter/core/milter-protocol-agent.c", CHILDREN, LEADER, CCTX, SCTX],
 [("macro context stack", "milter/core/milter-protocol-agent.c")],
 ["define-macro packets each child receives"])

prop("C12", "Sessions and consecutive messages never influence each other",
 "The replies, modifications and child traffic of a session depend only on that session's own commands and its children's answers, however many sessions run concurrently and however they end. Within a session each message after the first, or after an abort, is handled as if it were the first: no verdict, header, body byte, recipient, quarantine reason or reply code carries over, and children that accepted or were dropped for one message take part again as the protocol allows.",
 ["histories", "schedules"], "all interleavings of concurrent sessions and all sequences of messages and aborts",
 "tests run one session with one message",
 [LEADER, CHILDREN, CCTX, SCTX, "milter/client/milter-client.c"],
 [("per-message reset", CHILDREN + ":milter_manager_children_abort, reply at end of message")],
 ["packets on all connections of concurrently running sessions, matched by session token"])

prop("C13", "milter-manager gives back every resource a finished session used",
 "After any session ends - by quit, abort, disconnect at any byte, child failure or timeout - its connection and those of its children are closed, its spool files are gone and its session object is released, so that the number of open files, live sessions and allocated session objects returns to the idle value. Repeating sessions of any kind does not make the process grow without bound, and shutting down leaves no socket or PID file behind and leaks nothing reachable only by lost references.",
 ["histories", "fault_sequences"], "all ways a session can end, over long sequences of sessions",
 "tests do not count descriptors, objects or files over a session's lifetime",
 ["milter/client/milter-client.c", LEADER, CHILDREN, "milter/manager/milter-manager.c", "milter/core/milter-agent.c"],
 [("finished-session disposal", "milter/client/milter-client.c:dispose_finished_data"), ("temporary body file", CHILDREN)],
 ["/proc/<pid>/fd of the manager, the spool directory, close events on peers, LeakSanitizer"])

prop("C14", "Only enabled, applicable children take part, in configured order",
 "Exactly the child milters that are enabled and whose applicable conditions hold for the session take part in it, and header, body and end-of-message processing visits them in configuration order. A child whose condition stops it at some stage receives nothing more for that transaction, while the other children are unaffected.",
 ["configurations", "inputs"], "all configurations of children and conditions, all connection, envelope and macro data",
 "tests check the conditions' objects, not the children that take part in a running proxy",
 ["milter/manager/milter-manager-configuration.c", "milter/manager/milter-manager-egg.c", "milter/manager/milter-manager-applicable-condition.c", "data/applicable-conditions", "binding/ruby/lib/milter/manager.rb"],
 [("egg hatching and condition attachment", "milter/manager/milter-manager-egg.c"), ("stop_on_* signals", SCTX)],
 ["connections and packets each child receives"])

prop("C15", "A milter written with the client library is driven by the protocol",
 "A milter built on the client library gets one callback per MTA command with exactly the transmitted arguments and macros, and its answer - immediate or delayed - becomes exactly one reply packet with that verdict, its custom reply applying only to the verdict it was set for. Message modifications are accepted only at end of message and only if negotiated, are sent once, in order and before the final reply whether or not packet buffering is on, and invalid requests are refused with an error and leave the connection intact.",
 ["inputs", "schedules", "configurations"], "all command sequences, callback answers, delays, buffering settings and fragmentations",
 "tests invoke single callbacks on in-memory channels",
 [CCTX, "milter/client/milter-client.c", "milter/core/milter-agent.c"],
 [("state machine and packet buffering", CCTX)],
 ["callbacks of a real milter process and packets on its MTA connection"])

prop("C16", "The libmilter-compatible API behaves like libmilter",
 "A milter written against the smfi_* API gets each callback with the arguments the MTA sent, its return value and smfi_setreply/smfi_setmlreply text become the corresponding reply, and message-modification calls become the corresponding packets at end of message only and only if requested in its flags. smfi_getsymval returns the macro values in force, per-connection private data is kept per connection, and every callback of a session runs for that session only.",
 ["inputs", "histories"], "all callback sequences, return values and API calls",
 "the compatibility layer has no running unit test",
 ["libmilter/libmilter-compatible.c"],
 [("smfi_* to client-context mapping", "libmilter/libmilter-compatible.c")],
 ["callbacks of a real smfi milter process and packets on its MTA connection"])

prop("C17", "The server library asks a milter exactly what the protocol allows",
 "A program driving a milter through the server library has each of its commands sent once, in order and with exact arguments unless negotiation removed the step, and gets exactly one notification per answer of the milter with exact values. Connection, writing, reading and end-of-message timeouts fire when and only when the milter is too slow at that stage, connection errors and invalid replies are reported once, and the answer to one command is never taken for that of another.",
 ["inputs", "schedules", "fault_sequences"], "all command sequences, milter answers, delays and disconnections",
 "tests feed replies directly to one context, without timing or faults",
 [SCTX, "milter/core/milter-agent.c", "milter/core/milter-reader.c", "milter/core/milter-writer.c"],
 [("state and timeout handling", SCTX)],
 ["signals of a real server context and packets its milter peer receives"])

prop("C18", "Header list operations agree with the reference semantics",
 "For every sequence of add, append, insert, change, delete and lookup operations, the header list holds exactly the headers that the milter protocol semantics prescribe, in the prescribed order: case-insensitive placement next to equal names on add, absolute positions on insert, the n-th header of that name on change and delete. Copies are independent, and equality and indexes are consistent with the contents.",
 ["histories"], "all operation sequences over lists with repeated names",
 "tests apply one or two operations to short lists",
 ["milter/core/milter-headers.c"],
 [("list operations", "milter/core/milter-headers.c")],
 ["list contents after every operation against a reference model"])

prop("C19", "Option, macro-request and status algebra is lawful",
 "Combining an offer with a request never grants what either side lacks; merging two requests keeps everything either one needs, independent of order; macro requests merge to the ordered union per stage; and the ordering of verdicts is a consistent total preference at every stage. Results depend only on the arguments, and arguments are left unchanged.",
 ["inputs"], "all versions, action and step flag sets, macro lists and verdict pairs",
 "tests evaluate a few flag combinations",
 ["milter/core/milter-option.c", "milter/core/milter-macros-requests.c", "milter/core/milter-utils.c"],
 [("combine/merge", "milter/core/milter-option.c"), ("merge", "milter/core/milter-macros-requests.c"), ("milter_status_compare", "milter/core/milter-utils.c")],
 ["results against reference algebra"])

prop("C20", "Connection specs and ESMTP parameters are parsed exactly or rejected",
 "Every connection spec (unix, inet and inet6 in all their forms) is either parsed to exactly the address it denotes - and formatting that address and parsing it again gives the same address - or rejected with an error and no address. Every MAIL FROM/RCPT TO argument is either split into exactly its path and ESMTP parameters or rejected with an error, without invalid memory access on any input.",
 ["inputs"], "all strings",
 "tests parse a few well-formed examples",
 ["milter/core/milter-connection.c", "milter/core/milter-esmtp.c"],
 [("spec parser", "milter/core/milter-connection.c"), ("ESMTP parser", "milter/core/milter-esmtp.c")],
 ["parse results against an independent parser, under AddressSanitizer"])

prop("C21", "Both event loops schedule callbacks as promised",
 "With either event loop back end, a timeout never fires early and fires repeatedly until its callback returns false or it is removed, an idle callback runs until it returns false, a descriptor watch runs whenever and only when one of the requested conditions holds, and a child watch runs once with the exit status. A removed source never runs again, each callback gets its own data, each destroy notification runs exactly once, and quitting stops the loop.",
 ["schedules", "histories"], "all sequences of adding, removing and firing sources, including from inside callbacks",
 "tests run each source kind once",
 ["milter/core/milter-event-loop.c", "milter/core/milter-glib-event-loop.c", "milter/core/milter-libev-event-loop.c"],
 [("source table", "milter/core/milter-libev-event-loop.c"), ("glib sources", "milter/core/milter-glib-event-loop.c")],
 ["callback and destroy events with timestamps"])

prop("C22", "The configuration in force is the one that was written",
 "Every setting written in a configuration file is in force after loading, exactly as written, and every other setting has its documented default; --show-config prints the configuration in force, with the place where each setting was made, and loading what it prints gives the same configuration. An invalid value or a broken file is reported and leaves what was set before it in force, and reloading applies the new files to new sessions without disturbing running ones or accumulating old definitions.",
 ["configurations", "histories"], "all settings and values, and all sequences of reloads of changed files",
 "tests load a few fixtures; most settings are checked for one value",
 ["milter/manager/milter-manager-configuration.c", "binding/ruby/lib/milter/manager.rb", "module/configuration/ruby"],
 [("DSL and loader", "binding/ruby/lib/milter/manager.rb"), ("dumper", "binding/ruby/lib/milter/manager.rb")],
 ["--show-config output, controller get-configuration output, behaviour of a running manager after SIGHUP"])

prop("C23", "The controller protocol obeys exactly the commands it is sent",
 "Each controller request gets exactly one answer: get-configuration returns the current configuration as well-formed XML, set-configuration stores exactly the bytes sent and answers success only if they were stored, reload applies the configuration files, get-status answers, and anything else is not obeyed. Malformed, oversized, interrupted or concurrent controller connections never affect mail sessions or the process.",
 ["inputs", "histories"], "all request sequences and byte streams on the control socket",
 "the controller has no running unit test",
 ["milter/manager/milter-manager-controller.c", "milter/manager/milter-manager-controller-context.c", "milter/manager/milter-manager-control-command-decoder.c", "milter/manager/milter-manager-control-reply-encoder.c", "milter/manager/milter-manager-configuration.c"],
 [("request handlers", "milter/manager/milter-manager-controller-context.c")],
 ["packets on the control socket, the stored custom configuration file"])

prop("C24", "Start, worker and shutdown lifecycle is clean and complete",
 "A started manager or milter listens on exactly the configured address with the configured socket mode, records its PID, and with workers serves every connection by exactly one of them. A shutdown request stops accepting, lets every session in progress finish normally, then terminates all processes, and removes the socket and PID file as configured; a failed start is reported and exits unsuccessfully.",
 ["schedules", "configurations", "fault_sequences"], "all start configurations and all moments of shutdown relative to session progress",
 "tests do not start the processes",
 ["milter/client/milter-client.c", "milter/manager/milter-manager-main.c", "milter/client/milter-client-main.c"],
 [("shutdown", "milter/client/milter-client.c:milter_client_shutdown"), ("workers", "milter/client/milter-client.c:client_run_workers")],
 ["process table, socket and PID files, session traffic during shutdown"])

prop("C25", "The connection limit holds and service always resumes",
 "With a maximum number of connections configured, at no time are more than that many sessions processed concurrently by one process, and every waiting connection is eventually served once earlier sessions end. Sessions already in progress keep being served while the limit is reached.",
 ["schedules"], "all arrival and completion orders around the limit",
 "no test opens more connections than the limit",
 ["milter/client/milter-client.c"],
 [("accept suspension", "milter/client/milter-client.c:accept_connection_fd")],
 ["numbers of concurrently served connections and completion of every session"])

prop("C26", "Ruby helper tables and address matching agree with their definitions",
 "Postfix CIDR and regexp tables, address matchers and applicable-condition lists used by the configuration give for every address or string the answer their definition gives: first matching rule, with exact network masks for IPv4 and IPv6 and Postfix's syntax for flags, negation and conditionals. Malformed tables are reported with their location and never half applied.",
 ["inputs"], "all tables and all looked-up addresses",
 "tests look up a few addresses in fixed tables",
 ["binding/ruby/lib/milter/manager"],
 [("table parsers", "binding/ruby/lib/milter/manager/postfix-*.rb, address-matcher.rb")],
 ["lookup results against an independent implementation"])

prop("C27", "Connection checking ends exactly the sessions whose client is gone",
 "With connection checking configured, every connection checker is asked again and again, at the configured interval, about every session one of whose commands a child milter is working on (at most 30 sessions per interval, all of them in turn). If a checker says that the client is gone, the MTA gets the fallback status at disconnect as the one reply to the pending command and the child milters are told that the session is over; every other session, including all that run at the same time, is undisturbed and keeps being checked.",
 ["schedules", "histories"], "all sets of concurrent sessions, all moments of disconnection relative to a command, all sequences of sessions before",
 "no running test has a connection checker answer",
 ["milter/manager/milter-manager.c", LEADER, "binding/ruby/lib/milter/manager.rb"],
 [("periodic check", "milter/manager/milter-manager.c:connection_check"), ("check of a session", LEADER + ":milter_manager_leader_check_connection"), ("checkers", "binding/ruby/lib/milter/manager.rb:define_connection_checker")],
 ["calls of the checkers, packets on the MTA and child connections of a running milter-manager"])

prop("C28", "Milters that aren't running are launched, as configured, and used",
 "In privilege mode, a milter with a command whose connection is refused or whose socket is missing is started exactly as configured: with its command and options as the arguments, as its configured user (real and effective) with that user's groups and no others. It is started only when a session needs it, never while a process launched for it still runs, and not outside privilege mode. The session that found it missing, and every other, uses it if it listens by the time of the retry and otherwise goes on without it under its fallback status; a command that cannot be run, an unknown user or a milter that ends at once only costs its own milter.",
 ["inputs", "schedules", "histories"], "all commands and users, all moments at which the milter starts to listen, ends or is started by somebody else, all sequences of sessions",
 "starting processes under other identities needs root, and the running tests only see the requests to the launcher",
 ["milter/manager/milter-manager-process-launcher.c", "milter/manager/milter-manager-children.c", "milter/manager/milter-manager-main.c"],
 [("launching", "milter/manager/milter-manager-process-launcher.c:launch"), ("retry", "milter/manager/milter-manager-children.c:prepare_retry_establish_connection"), ("request", "milter/manager/milter-manager-children.c:milter_manager_children_start_child")],
 ["the started processes' own record of their arguments and ids, their number, and all packets of the sessions"])

prop("C29", "A milter written in Ruby does what its code says",
 "For every milter built with the Ruby library (a session class, a composite of several, a command line, a configuration file): each callback the class defines runs once per command of the MTA, in order, with exactly the bytes and macros the MTA sent, and steps without a method aren't asked for; the MTA gets the last decision the callback made (default: continue; in a composite the strongest of the parts), with the code, enhanced code and text given to reject and temporary_failure; requests for modifications of the message reach the MTA completely, byte for byte and in order, or raise; an exception in a callback or in creating the session only means the configured fallback status there and nothing else; data that a session resets or shelves never reach another transaction or session; finished runs exactly once and last. The settings of the command line and of the configuration file have effect, and reloads reach every process.",
 ["inputs", "histories", "schedules"], "all session classes, sequences of commands, decisions, exceptions, interleavings of sessions and reloads",
 "the Ruby tests aren't run by the test suite here, and call the classes with mocks",
 ["binding/ruby/lib/milter/client.rb", "binding/ruby/lib/milter/client/session.rb", "binding/ruby/ext/client/rb-milter-client-context.c"],
 [("callbacks", "binding/ruby/lib/milter/client.rb:setup_session"), ("decisions", "binding/ruby/lib/milter/client/session.rb:reject"), ("composite", "binding/ruby/lib/milter/client/composite-session.rb:apply_sessions"), ("requests", "binding/ruby/ext/client/rb-milter-client-context.c:replace_body"), ("configuration", "binding/ruby/lib/milter/client/configuration.rb:setup")],
 ["the callbacks' own record of what they saw, and all packets on the MTA's connection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
