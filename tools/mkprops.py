#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list lives here so that it stays readable)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state, observe, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism],
                    "state": [{"name": m, "where": files[0]} for m in state],
                    "observe_at": observe, "hook_needed": hook},
    })


prop("P01", "A message's verdict does not depend on the traffic served before it",
     "With the same configuration and the same answers from external services, a message gets the "
     "same score, matched rules, descriptions, report and rewritten text whatever messages, senders, "
     "users or commands the same process handled before it. Only features whose purpose is memory "
     "(the automatic whitelist and Bayes learning, through their databases) are excepted.",
     ["histories", "inputs", "configurations"],
     "every message, after every sequence of earlier requests (checks, reports, pings, other users, "
     "failed requests, requests whose external lookups failed) in the same process",
     "Unit tests build a fresh plugin and message per test, and functional tests start a fresh daemon; "
     "none runs two different messages through one long-lived ruleset and compares with a fresh one.",
     ["oa/plugins/spf.py", "oa/plugins/dkim.py", "oa/plugins/free_mail.py", "oa/plugins/relay_eval.py",
      "oa/plugins/header_eval.py", "oa/plugins/wlbl_eval.py", "oa/rules/ruleset.py", "oa/context.py",
      "oa/message.py", "oa/plugins/image_info.py", "oa/plugins/textcat.py"],
     ["per-message and global plugin data in the context", "plugin instances shared by all messages"],
     ["plugin attributes and class attributes", "global context plugin data", "message context"],
     ["daemon responses to CHECK, SYMBOLS, REPORT, PROCESS"])

prop("P02", "Configuration reload is atomic and takes effect for every user",
     "While a reload runs, every request is answered entirely under the old or entirely under the new "
     "configuration; once it has finished, every later request, for the site configuration and for each "
     "user including users seen before, is answered under the new one. A reload that fails on broken or "
     "unreadable configuration leaves the daemon answering under the previous configuration.",
     ["schedules", "crash_points", "configurations"],
     "every interleaving of one or more reloads with requests of several users, and a failure at any "
     "point of the reload",
     "The reload runs on its own thread; the one functional reload test waits for it to finish and uses "
     "one user-less request, so no interleaving and no failure is exercised.",
     ["oa/server.py", "oa/rules/parser.py"],
     ["reload thread started by SIGUSR1", "per-user ruleset cache filled by requests"],
     ["current ruleset", "parsed site rules", "per-user ruleset cache"],
     ["daemon responses during and after SIGUSR1"])

prop("P03", "A reloaded daemon behaves like one freshly started on the same files",
     "After any sequence of edits to the configuration files and reloads, the daemon answers every "
     "request as a daemon freshly started on the final files would. No rule, score, option, list entry, "
     "network, header rewrite or plugin of an earlier configuration survives.",
     ["histories", "configurations"],
     "every sequence of configuration versions loaded by one process, with requests in between",
     "Tests parse one configuration per process or use fresh mock contexts, so state kept in classes "
     "or modules between loads is invisible.",
     ["oa/conf.py", "oa/networks.py", "oa/rules/parser.py", "oa/context.py", "oa/server.py",
      "oa/rules/ruleset.py"],
     ["option defaults", "trusted/internal/MSA network lists", "plugin loading"],
     ["class-level option defaults", "class-level network lists"],
     ["daemon responses after a reload compared with a fresh daemon"])

prop("P04", "Every pre-forked worker serves the current configuration and obeys stop",
     "With several worker processes, a reload asked of the master reaches every live worker, so that "
     "once it has settled a client's answer does not depend on which worker took its connection. A stop "
     "asked of the master ends every worker and then the master, whatever they were doing.",
     ["schedules", "fault_sequences"],
     "every number of workers, every interleaving of signals, accepts and requests, and workers that "
     "died before the signal",
     "The functional pre-fork tests start one worker set and never reload it; no test delivers signals "
     "to several workers in different orders.",
     ["oa/server.py", "scripts/oad.py"],
     ["master forwards SIGUSR1/SIGTERM to the worker pids", "worker accept loop"],
     ["worker pid list", "each worker's ruleset"],
     ["which configuration each connection is answered under", "live processes after SIGTERM"])

prop("P05", "User preferences layer on the site configuration and stay private to that user",
     "When user rules are allowed, a request made for a user is answered as if that user's preference "
     "file had been read after the site configuration, and no user's preferences affect requests of "
     "another user or of none; when they are not allowed, user preferences change nothing. The user "
     "name of a request never makes the daemon read any file other than that user's own preferences.",
     ["histories", "inputs", "configurations"],
     "every order of requests by several users (including hostile user names), with preference files "
     "present, absent, unreadable or broken",
     "The functional tests restart the daemon for one fixed user per test and only check rule and score "
     "changes; other options, several users in one process, and odd user names are not covered.",
     ["oa/server.py", "oa/config.py", "oa/rules/parser.py", "oa/protocol/base.py"],
     ["per-user ruleset built from site results plus the user's file", "preference path lookup"],
     ["per-user ruleset cache", "parsed site rules"],
     ["daemon responses with a User header", "files opened while handling a request"])

prop("P06", "Requests are framed by bytes, not packets, with one well-formed response",
     "However the network splits, delays or coalesces the bytes of a request, the daemon gives the same "
     "single complete response; the message it judges is exactly the bytes sent (Content-length bytes "
     "when given, plain or zlib-compressed, in any character encoding), and every announced response "
     "length equals the number of body bytes that follow.",
     ["inputs", "schedules", "fault_sequences"],
     "every command, message and encoding, and every segmentation and timing of the request bytes",
     "Tests mock the reader with whole chunks or use one local socket write, with ASCII messages under "
     "one chunk, so no split inside a character, header line or compressed body is reached.",
     ["oa/protocol/base.py", "oa/protocol/check.py", "oa/protocol/process.py", "oa/server.py"],
     ["option line reader", "chunked message reader", "response writer"],
     ["connection byte stream"],
     ["bytes written back to the client"])

prop("P07", "No client can take the service down or affect other clients' answers",
     "Malformed, truncated, oversized, reset or abandoned requests end with an error response or a "
     "closed connection for that client only; the daemon keeps serving, and every well-formed request "
     "before or after them is answered exactly as if the bad client had never connected. A request line "
     "or header the protocol does not allow is answered with a protocol error rather than silence.",
     ["inputs", "fault_sequences", "histories"],
     "every malformed request and every point at which a client can disconnect, reset or stop reading",
     "Tests send four malformed requests to a healthy socket and then stop; none injects resets or "
     "short writes, or checks that a later client is unaffected.",
     ["oa/server.py", "oa/protocol/base.py", "oa/message.py"],
     ["request handler error handling", "single-threaded accept loop"],
     ["connection", "server loop"],
     ["client-visible bytes", "answers to later clients"])

prop("P08", "A failing check never costs a message its verdict",
     "Whatever external lookup, plugin step or database fails, hangs up or raises while a message is "
     "judged, the client still gets a complete verdict; rules that do not depend on the failed service "
     "match exactly as without the failure. The score always equals the sum of the scores of the rules "
     "reported as matched (plus declared short-circuit and whitelist adjustments), each is listed with "
     "its own score, and spam is reported exactly when the score reaches the required score.",
     ["fault_sequences", "inputs", "configurations"],
     "every combination of failing lookups, sub-processes, database calls and plugin callbacks at any "
     "call, for every message",
     "Tests make one mocked call fail in one plugin; no test combines faults with other rules and "
     "checks the rest of the verdict.",
     ["oa/context.py", "oa/rules/ruleset.py", "oa/rules/eval_.py", "oa/protocol/check.py",
      "oa/dns_interface.py", "oa/plugins/awl.py", "oa/plugins/bayes.py", "oa/plugins/spf.py",
      "oa/plugins/dkim.py", "oa/plugins/dns_eval.py"],
     ["plugin hook chains", "rule evaluation loop"],
     ["message score and matched rules"],
     ["daemon responses to SYMBOLS, CHECK, REPORT, PROCESS"])

prop("P09", "DNS queries obey the configured policy",
     "No query is sent for a name the query restrictions deny (the closest listed parent decides), nor "
     "any blocklist query when those checks are off or DNS is switched off; only the configured servers "
     "and port are asked. With availability testing on, DNS use stops after a failed test and resumes "
     "after the first successful test; under one configuration, a test starts no sooner than the "
     "configured interval after the previous one ended, and the next query after that runs one, "
     "whatever happens to the clock in between. (The names of the availability test itself are not "
     "subject to the restrictions.) With network use off, no rule marked as a network rule asks "
     "anything.",
     ["fault_sequences", "inputs", "histories"],
     "every message, restriction list and outage pattern over simulated hours",
     "Tests patch the resolver or the wrapper; real time would have to pass for the availability test "
     "to run twice, and no test observes which packets leave over a sequence of outages.",
     ["oa/dns_interface.py", "oa/rules/ruleset.py", "oa/context.py", "oa/plugins/dns_eval.py",
      "oa/plugins/uri_eval.py", "oa/plugins/uri_detail.py"],
     ["query restriction walk", "availability test timer", "resolver configuration"],
     ["restrictions", "next test time", "availability flag"],
     ["DNS packets that leave the process, and when"])

prop("P10", "Stuck external services cannot stall a message beyond the configured timeouts",
     "When DNS servers, the reputation sub-process or the report relay never answer, judging or "
     "reporting a message still ends within the configured time limits (per query and per service) and "
     "without leaving sub-processes or timers behind. The time limits used are the configured ones.",
     ["fault_sequences", "configurations"],
     "every pattern of silent, slow and late services, for every configured timeout, over simulated "
     "time",
     "A hung service needs minutes of real time and real hangs; tests mock the call and return at once.",
     ["oa/dns_interface.py", "oa/context.py", "oa/plugins/razor2.py", "oa/plugins/spf.py",
      "oa/plugins/pyzor.py", "oa/plugins/spam_cop.py"],
     ["resolver lifetime and timeout", "sub-process kill timer"],
     ["simulated clock", "live sub-processes"],
     ["simulated time until the response", "sub-processes alive afterwards"])

prop("P11", "A report or revoke reaches every enabled reporter once, in the right direction",
     "A request to report (TELL with Set) or to revoke (Remove) a message reaches each enabled remote "
     "reporting service exactly once, as spam or as a correction respectively, when it names the remote "
     "target, and what the local classifier is told follows from the message class when it names the "
     "local one; targets the request does not name are not contacted, and without --allow-tell nothing "
     "is learnt or reported for any client. A reporter that fails or raises does not prevent the "
     "others, and the reply states what was requested.",
     ["fault_sequences", "inputs"],
     "every TELL request (class, set and remove targets, spacing and case) and every combination of "
     "failing reporters",
     "Tests call each plugin's report method alone with mocks; the fan-out across several plugins with "
     "failures is never run.",
     ["oa/protocol/tell.py", "oa/context.py", "oa/plugins/razor2.py", "oa/plugins/pyzor.py",
      "oa/plugins/spam_cop.py", "oa/plugins/bayes.py", "oa/plugins/dump_text.py"],
     ["report and revoke hook chains"],
     ["plugin list"],
     ["processes spawned, mails sent, digests sent, database rows, client response"])

prop("P12", "The automatic whitelist keeps an exact history per sender",
     "After any sequence of messages, a sender's history (address, network, signer) holds exactly the "
     "number of messages counted and the sum of their unadjusted scores, each message counted once, and "
     "no other sender's history changes; the adjustment is the configured factor times the distance to "
     "the sender's previous mean. This holds with several workers updating at once, and a crash or "
     "database error leaves the old or the new history, never a mixture.",
     ["schedules", "crash_points", "histories", "fault_sequences"],
     "every interleaving of workers' database statements, every crash point and database error, and "
     "every message history",
     "Tests stub the database session or cursor and run one message; concurrent workers, crashes and "
     "several senders in a real database are out of reach.",
     ["oa/plugins/awl.py", "oa/plugins/base.py"],
     ["read-modify-write of the history row", "two-class-B network keying"],
     ["history table"],
     ["history table contents", "score adjustment in responses"])

prop("P13", "Learning and forgetting keep the token database consistent",
     "Learning a message counts each of its tokens and the message itself exactly once in the right "
     "class; learning it again changes nothing, forgetting it restores the exact counts as if it had "
     "never been learnt, and relearning it as the other class moves it. A crash or database error "
     "during learning leaves a state from which the same operations give these same results.",
     ["crash_points", "histories", "fault_sequences"],
     "every sequence of learn, forget and relearn over several messages and users, with a crash or "
     "database error at any statement",
     "The existing tests exercise two header helpers; none runs the store against a database.",
     ["oa/plugins/bayes.py", "oa/db/bayes/sqlalchemy.py", "oa/db/bayes/mysql.py"],
     ["seen table guards exactly-once", "token and message counters"],
     ["bayes tables"],
     ["bayes tables after each operation", "learned message count"])

prop("P14", "Automatic learning follows its thresholds and learns a message at most once",
     "A message is learnt automatically as spam only at or above the spam threshold and as ham only "
     "below the ham threshold, judged on the rules that may take part in learning, never on the "
     "classifier's own rules or user lists, and never in the face of the configured contradictions; "
     "otherwise nothing is learnt, and a message already learnt, automatically or by a user, is left as "
     "it is. A failure while learning never changes the verdict.",
     ["histories", "fault_sequences", "configurations"],
     "every message score mix, threshold configuration, earlier training history and database failure",
     "Tests compute the decision on stubbed messages; the path from a checked message through the "
     "decision to the database, with failures, is not run.",
     ["oa/plugins/auto_learn_threshold.py", "oa/plugins/bayes.py", "oa/rules/ruleset.py"],
     ["auto-learn hook at the end of a check"],
     ["bayes tables", "message scores per kind"],
     ["bayes tables after a check", "daemon response"])

prop("P15", "The daemon starts, stops and cleans up in every order of events",
     "Once started (detached) the daemon's process id file names the serving process until it stops; a stop "
     "request lets the request in progress finish, ends within a bounded time and removes the process id "
     "file, and the stop and reload commands only ever signal that process. A reload racing a stop, or "
     "repeated stops, still end with the daemon stopped; a start that fails leaves no process and no process "
     "id file behind and does not disturb a daemon that is running.",
     ["schedules", "crash_points"],
     "every interleaving of stop, reload, repeated signals and requests in progress, and a failure at "
     "any step of start-up",
     "Tests start and kill the daemon between requests; signals landing inside a request, inside a "
     "reload, or twice are not generated.",
     ["scripts/oad.py", "oa/server.py"],
     ["signal handlers start shutdown/reload threads", "process id file removal"],
     ["process id file", "server loop"],
     ["client responses, process exit, process id file"])

prop("P16", "A short-circuit decides the message and nothing after it runs",
     "When a short-circuiting rule matches, no rule after it is evaluated and no external service is "
     "contacted on its behalf; the verdict carries that rule's score plus the declared adjustment and "
     "every response type is still complete. When it does not match, the result is as if it were an "
     "ordinary rule. Of several short-circuit settings of a rule the last one counts.",
     ["inputs", "configurations", "fault_sequences"],
     "every priority order, short-circuit type and matching pattern, with external services failing or "
     "not",
     "The functional tests only compare one score; none observes whether later lookups left the "
     "process, or asks for a report on a short-circuited message.",
     ["oa/plugins/short_circuit.py", "oa/rules/ruleset.py"],
     ["match wrapper raising a stop signal"],
     ["message score and matched rules"],
     ["daemon responses and external calls"])

prop("P17", "Abuse reports go out once, only for fresh mail, to the configured relay",
     "A spam report by mail is sent exactly once per report request, to the configured address through "
     "the configured relay, with the original message attached within the size limit, and never for "
     "messages older than the age limit or when reporting is disabled. Any relay failure, missing or "
     "malformed header, or clock jump leaves the daemon serving and the other reporters unaffected.",
     ["fault_sequences", "inputs", "histories"],
     "every message age, clock jump, header defect and relay failure at any SMTP step",
     "Tests mock the relay and fix one date; failures at each SMTP step and clock skew are not "
     "generated.",
     ["oa/plugins/spam_cop.py", "oa/message.py"],
     ["age computed from the newest Received header", "SMTP dialogue"],
     ["simulated clock"],
     ["SMTP dialogue"])

prop("P18", "One external lookup gives one answer within a message",
     "All rules that ask Razor, DKIM or SPF about one message see the same answer, whatever their order and "
     "number and whatever the service does in between: Razor is asked at most once per message, a signature's "
     "key is fetched at most once, and each SPF identity is evaluated at most once. A rule matches exactly when "
     "the service's first answer was positive for it; a service that failed, timed out or could not be understood "
     "never counts as a positive answer.",
     ["fault_sequences", "configurations", "inputs"],
     "every rule set in which several rules use one service, and every pattern of answers and failures",
     "Tests evaluate one rule on one mocked answer; two rules sharing a cached answer are not tested.",
     ["oa/plugins/razor2.py", "oa/plugins/spf.py", "oa/plugins/dkim.py"],
     ["per-message result cache"],
     ["message-local plugin data"],
     ["matched rules and external calls"])

prop("P19", "The command line and the daemon judge a message alike",
     "For the same configuration, preferences, message and answers of external services, the command "
     "line tool prints the same report and rewritten message as the daemon returns, for every message "
     "in every order, and its report and revoke modes have the same external effects as the daemon's.",
     ["histories", "inputs", "fault_sequences"],
     "every batch of messages and configuration, with external services failing or not",
     "Functional tests drive either the tool or the daemon, never both on the same input with the same "
     "external answers.",
     ["scripts/match.py", "oa/protocol/process.py", "oa/protocol/check.py", "oa/server.py"],
     ["two front ends over one ruleset"],
     ["ruleset", "message list"],
     ["printed output versus daemon responses; external calls"])

prop("P20", "A collaborative digest check survives any mix of failing servers",
     "With several digest servers configured, the reported counts decide from the servers that answered, "
     "every configured server being asked at most once per message within the configured timeout; a "
     "server that fails, refuses or times out neither hides the others' answers nor ends the message's "
     "checks, and does not keep a report from the others. The rule matches exactly when some server that "
     "answered has seen the message at least the configured number of times and never whitelisted it.",
     ["fault_sequences", "configurations"],
     "every list of servers and every pattern of answers, errors and timeouts",
     "The tests mock the client with one answering server.",
     ["oa/plugins/pyzor.py"],
     ["loop over servers"],
     ["message-local counts"],
     ["requests sent per server, matched rules"])

prop("P21", "Loading configuration does not depend on the order or timing of the file system",
     "The loaded configuration depends only on the names and contents of the configuration files: not on "
     "the order in which directories list them, on file times, or on unrelated files beside them, and "
     "files are applied in name order with site files overriding the defaults. A file that cannot be "
     "read fails the load as a whole or is left out as a whole.",
     ["configurations", "fault_sequences"],
     "every set of files, listing order and read error",
     "Tests write a fixed pair of files on one file system whose listing order never changes and which "
     "never fails.",
     ["oa/config.py", "oa/rules/parser.py"],
     ["sorted directory listing", "include handling"],
     ["parsed rules"],
     ["verdicts after loading"])

prop("P22", "Rules do not influence one another",
     "Whether a rule matches a message, and with which score, does not depend on which unrelated rules "
     "are configured beside it, on the order in which the rules are evaluated, or on whether decoded "
     "data is kept between them (the lazy mode), as long as the services it uses give the same answers. "
     "Only rules that refer to others on purpose (meta rules, short-circuits, the automatic whitelist "
     "and the classifier) are excepted.",
     ["configurations", "inputs", "schedules", "fault_sequences"],
     "every set of rules, evaluation order (priorities), message, mode and failing service",
     "Unit tests call one eval function on one message object; the functional tests configure one or a "
     "few rules in one order. State that one rule leaves in the message or plugin shows only in mixes "
     "and orders nobody wrote down.",
     ["oa/plugins/header_eval.py", "oa/plugins/dkim.py", "oa/plugins/spf.py", "oa/message.py",
      "oa/rules/ruleset.py", "oa/plugins/dns_eval.py"],
     ["per-message results kept by plugins", "header caches"],
     ["message headers", "plugin results of the current message"],
     ["matched rules and scores of REPORT"])

prop("P23", "A request leaves nothing behind",
     "Once a request is answered or its client is gone, whatever happened on the way, the daemon holds "
     "nothing of it: no open connection, file, mail session or database transaction, no running or "
     "unreaped helper program, no thread or timer beyond the helper timeouts. What the daemon keeps in "
     "memory, on disk and as database connections does not grow with the number of messages, senders, "
     "unknown users or reloads it has seen.",
     ["histories", "inputs", "fault_sequences"],
     "every sequence of requests, new senders, hosts and users, broken client, reload and failing "
     "service, database or plugin",
     "Tests build one object and drop it. What is left behind does not change the answer at hand; it "
     "ends the daemon days later, out of descriptors, locks or memory.",
     ["oa/server.py", "oa/context.py", "oa/plugins/base.py", "oa/plugins/awl.py", "oa/plugins/razor2.py",
      "oa/plugins/spam_cop.py", "oa/plugins/bayes.py", "oa/db/bayes/sqlalchemy.py"],
     ["per-request and per-message resources", "plugin data kept between messages"],
     ["sockets", "files", "sub-processes", "timers", "database connections", "memory"],
     ["nothing is left after each request", "sizes after each round of requests"])

prop("P24", "Damage in a message stays where it is",
     "Whatever bytes a message consists of - undecodable headers, invalid addresses, dates, relays, "
     "charsets, encodings, markup and MIME structure, garbled or missing parts - every request about it "
     "gets one complete verdict, and damage or hostile content in one header or part does not keep the "
     "rules that read only other headers and parts from matching as they do on the intact message.",
     ["inputs", "fault_sequences", "configurations"],
     "every message, every place and kind of damage in it, every set of rules and plugins, lazy or not",
     "Spam is written to be hard to parse. Tests parse a few dozen well-made messages with one plugin "
     "at a time; one value that some parser of some plugin does not expect lets the sender get a message "
     "past the daemon without a verdict, or switch a check off.",
     ["oa/message.py", "oa/received_parser.py", "oa/html_parser.py", "oa/rules/ruleset.py", "oa/plugins/free_mail.py",
      "oa/plugins/mime_eval.py", "oa/plugins/image_info.py", "oa/plugins/pdf_info.py", "oa/plugins/uri_detail.py",
      "oa/server.py"],
     ["message and header parsing", "metadata hooks of the plugins", "containment of failing rules"],
     ["message bytes"],
     ["one complete answer per request", "matches of the rules that read undamaged parts"])

# ---- properties outside the technique (listed as not applicable) -----------------
prop("P30", "Perl rule expressions keep their meaning when translated",
     "Every regular expression written in the Perl syntax of the rule files matches exactly the texts "
     "it matches in Perl, or is rejected when the configuration is loaded.",
     ["programs", "inputs"], "every expression and text",
     "Tests sample a few dozen expressions.",
     ["oa/regex.py", "oa/rules/header.py", "oa/rules/body.py"], ["expression translation"], [],
     ["rule matches"])
prop("P31", "Message parsing recovers the same headers, parts and relays for every input",
     "For every message, the decoded headers, body text, URIs, MIME parts and relay chain used by the "
     "rules are those the message standards define, and parsing ends for every input.",
     ["inputs"], "every message", "Tests sample a few dozen messages.",
     ["oa/message.py", "oa/received_parser.py", "oa/html_parser.py"], ["parsers"], [],
     ["rule matches"])
prop("P32", "Meta rules compute the boolean or arithmetic value written",
     "A rule combining other rules matches exactly when the written combination of their results is "
     "true, for every combination of results.",
     ["programs", "inputs"], "every expression and every combination of sub-rule results",
     "Tests sample a few expressions.", ["oa/rules/meta.py"], ["expression compilation"], [],
     ["rule matches"])
prop("P33", "A serialized ruleset behaves like the one it was made from",
     "A ruleset written to disk by the compile tool and loaded again judges every message as the "
     "original configuration does.",
     ["inputs", "configurations", "crash_points"], "every configuration and message",
     "The functional tests skip it on this interpreter.",
     ["scripts/compile.py", "scripts/match.py", "oa/common.py"], ["pickling of the ruleset"],
     ["serialized file"], ["verdicts"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
