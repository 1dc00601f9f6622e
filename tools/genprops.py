#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the text is reviewable).
import json
P=[]
def add(id,title,statement,over,qtext,why,files,state,mech,obs,hook="none"):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,meaning=x,where=files[0]) for x in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
S="msc_server/server/"
C="msc_client/"
add("P01","No gateway service without a successful login",
 "A connection obtains message service from the CMPP, SMGP or SGIP gateway only after a login whose client identity, shared secret (digest and timestamp, or password) and, for CMPP, major protocol version match the configured client. Every other login is answered with exactly one failure response carrying a non-zero status that distinguishes unknown client, wrong secret and wrong version where the protocol does, and the connection is then closed (a login that meets an exhausted worker pool may be refused by closing alone). A submit, heartbeat or logout that reaches the gateway before login completes is never served: the connection is closed without any submit response. A second login on a logged-in connection closes it.",
 ["inputs","schedules","fault_sequences"],
 "all login PDUs (right and wrong identity, secret, timestamp, version), all orders of login and other requests on one connection, all thread schedules and network segmentations",
 "No existing test opens a connection to the server: they check that PDUs encode and decode. Whether service leaks before login depends on the interleaving of the event loop, the login worker and the write callback.",
 [S+"cmpp_connect.go",S+"smgp_login.go",S+"sgip_bind.go",S+"on_traffic.go","codec/cmpp/connect.go","codec/smgp/login.go","codec/sgip/bind.go"],
 ["session status","client credential store"],
 [("credential check","codec/*/connect|login|bind Check"),("status gate on every request handler",S+"on_traffic.go sessionCheck"),("login completion in write callback",S+"session.go completeLogin")],
 ["bytes on the client side of each connection","connection close events"])
add("P02","Server-wide session cap holds and the session count is exact",
 "Each gateway server admits at most its configured number of simultaneous sessions: a connection beyond that is refused by closing it, without harming the process or any admitted session. The reported number of active sessions never exceeds the cap nor drops below zero, equals the number of admitted open connections whenever the system is quiet, and capacity freed by closed connections becomes usable again.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of connection opens and closes across event loops, refused connections, resets and abrupt peer deaths, for any cap",
 "The counter is touched from several event loops; loss or double counting only shows under particular interleavings of open, refuse and close, none of which a test performs.",
 [S+"server.go",S+"on_open.go",S+"on_close.go"],["active session counter","session pool"],
 [("admission check at open",S+"on_open.go"),("count bookkeeping at close",S+"on_close.go")],
 ["ActiveSessions and session pool size","which connections the server keeps open"])
add("P03","Per-client connection limit holds under concurrent logins",
 "The number of simultaneously logged-in connections of one client never exceeds that client's configured maximum, however many logins of the same client race. A login refused for that reason gets the protocol's 'other error/limit' status and is closed, a login is not refused for that reason while fewer than the maximum are logged in or logging in, and slots freed by closed connections become available again.",
 ["schedules","histories"],
 "all interleavings of concurrent logins, logouts and connection losses of one and of several clients",
 "It is a check-then-act across a worker pool and an event-loop callback; only specific schedules of concurrent logins separate the check from the act.",
 [S+"server.go",S+"cmpp_connect.go",S+"smgp_login.go",S+"sgip_bind.go",S+"session.go"],["client id of each session","session pool"],
 [("count sessions by client",S+"server.go CountSessionByClientId"),("compare with MaxConns at login",S+"cmpp_connect.go")],
 ["login responses seen by all connections of a client","open logged-in connections over time"])
add("P04","Every submit on a live session gets exactly one matching response",
 "Every well-formed submit received on a logged-in connection that stays up is answered on that same connection by exactly one submit response carrying the submit's own sequence number, whatever the pipelining, ordering, window occupancy and concurrency of other sessions. With simulated failures off (success rate 1) and within the rate limit its status is success, and every accepted CMPP or SMGP message gets a message id different from all others. No submit response is ever sent that no submit asked for, and the gateway does not close a connection whose peer behaves.",
 ["schedules","histories","inputs"],
 "all pipelined submit histories over any number of sessions, window sizes, response delays and schedules, on connections without faults; safety part also under connection faults",
 "Exactly-once delivery depends on pools, windows and asynchronous write callbacks interleaving; the unit tests never run the request path.",
 [S+"cmpp_submit.go",S+"smgp_submit.go",S+"sgip_submit.go",S+"on_traffic.go","codec/cmpp/submit.go","codec/smgp/submit.go","codec/sgip/submit.go"],
 ["session window","session worker pool"],
 [("asynchronous handling with a session window",S+"cmpp_submit.go"),("response built from the request",S+"on_traffic.go sendSubmitResponse")],
 ["submit responses per connection"])
add("P05","Server behaviour does not depend on how the byte stream is cut",
 "The gateway's reaction to a sequence of requests on a connection depends only on the bytes sent, not on how they are segmented, coalesced or delayed by the transport: a request split over many reads or several requests arriving in one read are each handled exactly once. In particular a complete request that has arrived is handled without having to wait for further bytes, including requests that consist of a header only.",
 ["inputs","schedules","fault_sequences"],
 "all request sequences and all cuts of the stream into reads, from one byte per read to everything in one read",
 "Tests decode isolated, complete PDU bodies; no test ever feeds a stream, and a single cut pattern proves nothing about the others.",
 [S+"on_traffic.go","codec/packer.go"],["inbound buffer of the connection"],
 [("header peek, length check, body extraction",S+"on_traffic.go DecodeAndCheckHeader")],
 ["responses per connection within a bounded time after the last byte is delivered"])
add("P06","Malformed or hostile input never takes the gateway down",
 "No byte sequence sent by any peer, before or after login and under any connection fault, makes the gateway process crash or stop serving. An illegal length, an unknown command or a truncated or inconsistent request body closes at most the connection it arrived on; other sessions keep working and new logins keep succeeding.",
 ["inputs","schedules","fault_sequences"],
 "all byte streams (random, mutated valid PDUs, truncated bodies with consistent headers, wrong counts and lengths), interleaved with healthy clients and connection faults",
 "Tests decode only well-formed bodies produced by the encoder itself.",
 [S+"on_traffic.go",S+"on_close.go","codec/cmpp","codec/smgp","codec/sgip","utils/tlv.go"],["connection state"],
 [("header and command check",S+"on_traffic.go"),("body decoding","codec/*/Decode")],
 ["process liveness","service of the other sessions"])
add("P07","Submit rate limiting is enforced per session and never drops silently",
 "Over any interval a session gets at most its configured window plus its configured rate times the interval of submits accepted; a submit over the limit is answered exactly once with the protocol's flow-control code (CMPP 8, SMGP 1, SGIP 33) and is neither accepted nor given a delivery report. A session that stays within its limit is never refused for flow control, and one session's traffic does not use up another's allowance.",
 ["inputs","histories","schedules"],
 "all arrival patterns (bursts, steady streams, pauses), rates and windows, with clock steps, several sessions at once",
 "It is a property of timed histories; no existing test sends a timed stream or controls the clock.",
 [S+"on_traffic.go",S+"session.go"],["token bucket of the session"],
 [("limiter sized from the client's throughput and window",S+"session.go setupLimiter"),("flow control check",S+"on_traffic.go submitFlowControl")],
 ["submit response status per submit with virtual timestamps"])
add("P08","Delivery reports match accepted messages",
 "The gateway sends a status report only for a message it has accepted, on the session that submitted it, after the submit response, at most once, and with the message id given in that response. CMPP and SMGP reports carry the submitter's destination and source numbers; with failures off every accepted message of a surviving session gets its report, and SGIP sessions get none on the submit connection.",
 ["schedules","histories"],
 "all submit histories over several sessions, schedules, response and report delays, and connection faults",
 "Correlation across sessions and ordering against the response depend on the schedule; tests only encode a report.",
 [S+"cmpp_submit.go",S+"smgp_submit.go","codec/cmpp/report.go","codec/smgp/report.go","codec/cmpp/submit.go","codec/smgp/deliver.go"],["message id of the response"],
 [("report built from the submit and its response id",S+"cmpp_submit.go mockSendCmppReport")],
 ["deliver PDUs per connection"])
add("P09","A closed connection leaves nothing behind in the gateway",
 "When a connection ends in any way and at any moment (logout, reset, half-open death followed by timeout, close in the middle of login or of pending submits), the gateway eventually releases everything held for it: the session disappears, its worker pool and all work waiting for it finish, and it never counts against any limit again. The same client can log in again and be served, any number of times.",
 ["crash_points","schedules","histories","fault_sequences"],
 "all moments at which a connection can end relative to login, submits, responses, reports and ticks; repeated connect and disconnect",
 "Leaks appear only for particular close points inside asynchronous work; tests never close a connection.",
 [S+"on_close.go",S+"session.go",S+"cmpp_submit.go",S+"cmpp_connect.go"],["session pool","session window and worker pool"],
 [("resource release at close",S+"on_close.go deferFunc"),("window channel",S+"session.go closeResource")],
 ["session pool and counters when quiet","set of live tasks of the process","later logins of the same client"])
add("P10","Heartbeats and idle timeouts close dead sessions and only those",
 "On CMPP and SMGP a logged-in session idle for more than a minute is probed; a peer that leaves the probes unanswered is told to terminate and disconnected after three unanswered probes or the configured idle limit, whichever comes first, in bounded time even if it never reads or replies. A session whose peer answers every probe is never closed, a heartbeat request is answered once with its own sequence number, and any connection that shows no activity at all (never logged in, or SGIP) is closed once the idle limit passes.",
 ["schedules","histories","fault_sequences"],
 "all activity and idle patterns in virtual time, responsive, silent, slow and dead peers, pre-login idlers",
 "Minutes-long timed behaviour against real timers is out of reach of unit tests and none exists.",
 [S+"on_tick.go",S+"cmpp_active.go",S+"cmpp_active_resp.go",S+"smgp_active.go",S+"smgp_active_resp.go"],["last use time","unanswered heartbeat count"],
 [("periodic check",S+"on_tick.go OnTick"),("probe and counter",S+"on_tick.go activeTest"),("termination",S+"on_tick.go sendTerminate")],
 ["heartbeats, terminates and closes seen by the peers in virtual time"])
add("P11","Logout completes and closes the connection",
 "A logged-in client that sends a logout request receives exactly one logout response with the same sequence number and the server then closes the connection; a logout response answering the server's own termination request also ends the connection. Pending work of that session cannot prevent the logout from completing, and the client can log in again afterwards.",
 ["schedules","histories"],
 "all positions of a logout among pipelined submits and heartbeats, all schedules",
 "The logout shares window and pool with pending submits and closes asynchronously; tests only encode the PDU.",
 [S+"cmpp_terminate.go",S+"cmpp_terminate_resp.go",S+"smgp_exit.go",S+"smgp_exit_resp.go",S+"sgip_unbind.go",S+"sgip_unbind_resp.go"],["session window"],
 [("logout handler",S+"cmpp_terminate.go"),("close after response",S+"cmpp_terminate.go")],
 ["logout responses and close events at the peer"])
add("P12","Generated identifiers are unique under concurrency and clock jumps",
 "The 64-bit message id generator, the 24-hour 32-bit id generator (over one day), the decimal message id generator (up to one million per minute), the cyclic 32-bit sequence (within one cycle) and the SGIP sequence never hand out the same value twice in one process, for any number of concurrent callers and also when the wall clock stands still or is stepped backwards. Every call returns in bounded time once the clock moves forward again, and each value carries the configured node numbers.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of callers, call rates above and below the per-tick capacity, clock steps backward and forward, midnight and minute boundaries",
 "Existing tests call the generators against the real clock for a moment; repeats need clock regressions, exhausted ticks or specific interleavings.",
 ["utils/snowflake/snowflake.go","utils/snowflake32/snowflake32.go","utils/bcd_sequence.go","utils/cycle_sequence.go","codec/sgip/sequence.go"],["last timestamp and counter of each generator"],
 [("timestamp plus counter","utils/snowflake/snowflake.go NextVal"),("wait for the next tick","utils/snowflake/snowflake.go NextVal")],
 ["values returned to all callers"])
add("P13","Usage counters are journaled once per session and are exact",
 "When a session ends, exactly one usage record for it is written and flushed before the session disappears from the server's view, so that a crash afterwards cannot lose it. The record names the server, the client and the session and its counts of accepted submits, pushed messages and reports equal what was actually sent on that connection before it closed.",
 ["crash_points","histories","schedules"],
 "all session histories and ends, all crash points after the session is gone",
 "Needs a crash model of the log storage and a full message history to compare with; no test reads the counter log.",
 [S+"on_close.go",S+"session.go",S+"log_utils.go","msc_server/custom_log.go"],["session counters","counter log"],
 [("counter updates in write callbacks",S+"session.go CounterAddMt"),("record and forced flush at close",S+"on_close.go")],
 ["durable part of the counter log","messages seen on the wire"])
add("P14","A slow, dead or expiring peer does not stall other sessions",
 "A peer that stops reading, trickles bytes, has vanished, floods, or is being timed out by the gateway does not delay the service of any other session: a submit on a healthy session is answered within its own processing delay plus a small bound, whichever and however many other sessions misbehave, also when they are handled by the same event loop.",
 ["schedules","fault_sequences","histories"],
 "all combinations of misbehaving peers (not reading, stalled link, vanished host, idle until forced close, flooding) beside healthy sessions, one to many event loops",
 "Needs controlled back-pressure, long idle times and latency measured in virtual time.",
 [S+"on_tick.go",S+"on_traffic.go",S+"session.go"],["event loops","per-session worker pools"],
 [("per-session worker pool",S+"session.go createSessionSidePool"),("asynchronous handling",S+"cmpp_submit.go")],
 ["response latency on healthy sessions in virtual time"])
add("P15","Client attributes responses and reports to the right message",
 "For every message the client library sends, the record returned to the caller ends up with the gateway's status and message id for exactly that message, and (CMPP and SMGP) with exactly the delivery status of the report carrying that id that follows the response, whatever the order, delay, segmentation and interleaving in which responses and reports arrive and however many connections and senders are active. A response or report that matches no message changes no record, and a response that arrives immediately is not lost.",
 ["schedules","histories","inputs"],
 "all orders and segmentations of responses and reports from a model gateway (including responses faster than the sender's own bookkeeping), several connections and senders, unknown ids and duplicates",
 "Attribution goes through maps filled concurrently by sender and receiver; only particular schedules lose a response; the existing client tests need a live gateway and are excluded.",
 [C+"session/session.go",C+"session/on_traffic_cmpp.go",C+"session/on_traffic_smgp.go",C+"session/on_traffic_sgip.go",C+"session/send_sms.go",C+"api.go"],["sequence and message id caches"],
 [("record stored by sequence",C+"session/on_traffic_cmpp.go sendByCmpp"),("record looked up by sequence, then by message id",C+"session/on_traffic_cmpp.go onTrafficCmpp"),("framing of the receive stream",C+"session/session.go startReceiver")],
 ["records returned by Query and handed to the journal","what the model gateway sent"])
add("P16","Nothing a gateway sends or does can crash the client",
 "Whatever bytes a gateway sends, before, during or after login, and whenever it refuses, resets, stalls or drops connections, the client process neither panics nor exits, also while several goroutines send, close and check the same connections. After a bad message at most that connection is given up; every heartbeat and every delivery or report that a CMPP or SMGP gateway sends on a healthy connection is acknowledged with the same sequence number.",
 ["inputs","schedules","fault_sequences"],
 "all byte streams from the gateway, all connection faults at all moments, all schedules of senders, receivers, ticker and shutdown",
 "Existing client tests need a live well-behaved gateway; hostile input and close races are never exercised.",
 [C+"session/session.go",C+"session/on_traffic_cmpp.go",C+"session/on_traffic_smgp.go",C+"session/on_traffic_sgip.go",C+"session_factory.go","codec/cmpp","codec/smgp","codec/sgip"],["connection state of a client session"],
 [("receive loop",C+"session/session.go startReceiver"),("session close",C+"session/session.go Close")],
 ["client process liveness","acknowledgements seen by the model gateway"])
add("P17","Client connection pool stays bounded, heals and never hangs senders",
 "For each operator the client keeps at most the configured number of connections open, closes every connection it gives up (failed login included), and once the gateway is reachable and accepting again it is back to the full number in bounded time and sends succeed. A send never blocks forever: when no connection is available it gives up in bounded time, and connections that are dead are replaced and not handed out again after they have been found dead. After a termination signal no new connection is opened and all open ones are closed.",
 ["fault_sequences","schedules","histories"],
 "all sequences of gateway outages, refused dials, rejected or never answered logins, resets, half-open connections and recoveries, with concurrent senders",
 "Requires injected outages and long virtual time; no test has a gateway to take down.",
 [C+"session_factory.go",C+"session/session.go",C+"api.go"],["session list of the factory"],
 [("periodic health check and refill",C+"session_factory.go lruSort"),("session selection",C+"session_factory.go PeekSession")],
 ["connections open at the model gateway","duration and outcome of sends"])
add("P18","Send results are journaled exactly once and the caches are bounded",
 "Every result record of a finished send is handed to the persistence handler exactly once, not before the configured expiry time has passed since the first record of its send and within a bounded time after it, and never a record of another send; until then it can be queried under the returned query id. After everything has expired the result caches are empty, under any concurrency of senders, responses, reports and clean-up, and a query for an unknown or empty send returns nothing instead of failing.",
 ["schedules","histories"],
 "all interleavings of sends (with zero, one or many records), late responses and reports, and clean-up ticks",
 "Exactly-once over concurrent maps with timers is a schedule property; no test runs the expiry ticker.",
 [C+"session_factory.go",C+"api.go",C+"session/send_sms.go"],["query, sequence and message id caches"],
 [("expiry scan and hand-over",C+"session_factory.go cleanQueryCacheMap"),("cache clean-up",C+"session_factory.go cleanMsgIdCacheMap")],
 ["records passed to the handler","cache contents when quiet"])
add("P19","Messages arrive at the gateway complete and unmixed",
 "For every message text and length a send succeeds for, the submit frames that reach the gateway carry the destination given by the caller and, reassembled by group reference, total and number (numbered from 1), yield exactly the text sent; no part exceeds the protocol's limit, and the options of the call (report flag, validity, schedule and the like) are those given by the caller or the credential. A text no sequence of parts can carry (invalid UTF-8, more than 255 parts) is not sent in altered form. Parts of messages sent at the same time to the same destination are never mixed up or interleaved into a broken frame, and each record of the send corresponds to exactly one frame with that sequence number.",
 ["inputs","schedules","histories"],
 "all texts (ASCII, Chinese, mixed, lengths around the part limits), protocols, concurrent senders sharing connections, short and split transport reads and writes",
 "Tests compare one or two fixed long texts against the slicer itself; concurrent sends and boundary lengths are not covered.",
 ["utils/utils.go",C+"session/on_traffic_cmpp.go",C+"session/on_traffic_smgp.go",C+"session/on_traffic_sgip.go","codec/cmpp/submit.go","codec/smgp/submit.go","codec/sgip/submit.go"],["message group reference"],
 [("slicing","utils/utils.go ToTPUDHISlices"),("submit construction","codec/*/submit.go NewSubmit")],
 ["submit frames received by the model gateway, reassembled by an independent decoder"])
add("P20","Credential store reload is safe under storage failures",
 "Reloading client credentials from the file or database store never takes the process down and never makes a previously loaded client unknown or altered, whatever read errors, missing directories, files or documents that are empty, malformed or lack the client id or the secret, stray files or failed, slow or interrupted queries occur; lookups running concurrently never wait for the storage and always see either the old or the new complete entry. Once a read succeeds again, added and changed clients take effect by the next reload.",
 ["fault_sequences","schedules","histories"],
 "all sequences of storage faults and file changes over many reload periods, with concurrent lookups and logins",
 "The existing auth tests read good files from disk once, or need a live database.",
 ["auth/yaml_store.go","auth/mongo_store.go","auth/client_store.go"],["credential cache"],
 [("periodic reload","auth/client_store.go startTicker"),("load","auth/yaml_store.go Load")],
 ["lookups before, during and after each reload","process liveness"])
add("P21","Registered events are exclusive and shutdown runs every hook once",
 "Of any number of concurrent registrations under one name exactly one succeeds and it is the one that is run; the others report failure and their handlers are never run. On shutdown every registered hook runs exactly once to completion, each cancellation channel handed out then delivers its signal without blocking the shutdown, and a termination signal leads through the hooks to the process being told to stop.",
 ["schedules","histories"],
 "all interleavings of concurrent registrations, deletions, lookups and shutdown, any number of names; signal at any moment of client or server life",
 "Exclusivity is a check-then-act race, invisible to sequential tests; no test covers this package.",
 ["event_manager/event_manage.go","msc_client/destory.go","msc_server/destory.go",C+"session_factory.go"],["event registry"],
 [("registration","event_manager/event_manage.go Register"),("shutdown call","event_manager/event_manage.go FuzzyCall")],
 ["return values of registrations, hook invocations, stop notification"])
add("P22","Simulated upstream messages are whole, well addressed and keep their pace",
 "With upstream simulation on, a gateway pushes messages to each logged-in CMPP and SMGP session, at most one per tick of the gateway and, at a configured rate of 1, one at every tick until the session ends. Each carries one of the configured texts, complete if it fits one short message (CMPP 160 ASCII or 140 UCS2 bytes; SMGP 70 characters and 140 bytes) and otherwise its beginning, cut between characters and not shorter than necessary, in the encoding it names; it is addressed to the client's own display number followed by the configured sub number, and has a message id and a sequence number of its own. Nothing is pushed on SGIP sessions, on connections that are not logged in or when the simulation is off, and configured entries that are not of the form number and text disturb nothing.",
 ["inputs","histories","schedules"],
 "all configured texts (any script, any length), rates and ticks; all sequences of logins, traffic, logouts, losses and reconnects of the clients",
 "Pace and addressing are properties of timed histories of many sessions, and the texts that break are at the edges of three encodings; no test runs a gateway with the simulation on.",
 [S+"on_tick.go","codec/cmpp/delivery.go","codec/smgp/deliver.go"],["configured texts","session state","upstream sequence numbers"],
 [("choice of text and destination",S+"on_tick.go mockDelivery"),("text to content","codec/cmpp/delivery.go setMsgContent"),("text to content","codec/smgp/deliver.go NewDeliver")],
 ["upstream messages on the wire with virtual timestamps"])
add("P23","Sends keep to each operator's limit, route and spread of load",
 "A number belongs to the first operator, in the order CMPP, SGIP, SMGP, whose configured segment matches it; its messages go to that operator's gateway only, and a number that matches none is sent to nobody. Over any interval the client sends to at most the operator's configured window plus its throughput times the interval of numbers; a number over the limit is dropped whole, without record or frame, while numbers within the limit are never dropped when a connection is up, whatever happens to the other numbers of the same call or to the other operators. An operator whose segment is not a valid expression gets no numbers and disturbs nobody. With several connections up and messages all the time, the load moves to the least used connection with every period: none carries everything for longer than a few periods and none stays unused, also after connections were replaced.",
 ["inputs","histories","schedules"],
 "all arrival patterns, windows, throughputs, pool sizes and overlapping segments; any number of concurrent callers; replacement of connections",
 "Limits and spreading are properties of timed histories of many concurrent calls; no test sends anything without a real gateway.",
 [C+"session_factory.go",C+"api.go",C+"session/session.go"],["token bucket of each operator","list of sessions and their period counters"],
 [("choice of the operator",C+"session_factory.go SelectSession"),("limiter",C+"session_factory.go PeekSession"),("order of the sessions",C+"session_factory.go lruSort")],
 ["query results per send and submit frames per gateway and connection with virtual timestamps"])
add("P24","Changed credentials govern new logins; live sessions keep theirs",
 "When a client's stored entry (secret, connection limit, window, throughput) is replaced, added or restored while the gateways run, every login that starts after the next successful reload is judged by, and gets its rate and limits from, the newest readable entry only: the new secret is accepted, the old one refused with the status for a wrong secret, the new connection limit holds. Until then it is judged by the old entry or the new one as a whole. Sessions that are logged in when the entry changes stay up and are served to the end with the window and rate they logged in with, and count towards the new limit. An entry that is removed, torn, malformed or cannot be read changes nothing for its client, and never delays or prevents changes of other clients' entries.",
 ["histories","fault_sequences","schedules"],
 "all histories of changes of any number of entries, of storage errors and of logins and traffic around them",
 "It is a relation between the storage, the reload timer, the login and the sessions over time; the tests read one store once and log nobody in.",
 ["auth/yaml_store.go","auth/client_store.go","msc_server/utils.go",S+"server.go",S+"session.go"],["credential cache","session limits and limiter"],
 [("periodic reload","auth/client_store.go startTicker"),("lookup at login","msc_server/utils.go FindAuthConf"),("session parameters",S+"session.go completeLogin")],
 ["login responses, flow-control refusals and closes with virtual timestamps, against the history of the stored entries"])
add("P25","Simulated outcomes follow the configuration in force, also when it is edited",
 "The gateway's simulation is governed by its configuration alone: of the well-formed submits within a session's limits the configured share is accepted and the others are answered with the status for a simulated failure (none at a success rate of 1, all at 0); the same share of accepted CMPP and SMGP messages gets a report; no submit is answered sooner than the configured minimum after its arrival and, when it is alone on its connection, not noticeably later than the configured maximum, the delays being spread over the range between them; the report comes the configured report delay after the response; upstream messages are pushed in the configured share of ticks and not at all while they are off; an idle connection is closed when the configured time is over, not before and not more than a few ticks later. When the configuration file is edited while the gateway runs, all of this follows the new values within a second, for sessions that were there before as for new ones, without a restart and without disturbing any session.",
 ["inputs","histories","schedules"],
 "all rates, delays and limits, extremes included; all histories of edits of the configuration and of traffic around them; all values of the random source, its boundary values included",
 "Shares and delays are properties of long runs and of the random source, and a value that is read once too often or too seldom shows only when the configuration is edited under a live session; no test edits it or looks at a rate.",
 [S+"on_traffic.go",S+"on_tick.go",S+"cmpp_submit.go",S+"smgp_submit.go",S+"sgip_submit.go","utils/utils.go"],["simulation settings","session idle time"],
 [("chance",'utils/utils.go DiceCheck'),("response delay",S+"on_traffic.go"),("report delay",S+"cmpp_submit.go"),("idle limit",S+"on_tick.go closeCheck")],
 ["submit responses, reports, upstream messages and closes with virtual timestamps, against the history of the configuration"])
add("P26","Client library and gateways agree with each other end to end",
 "When programs use the client library against this project's own gateways, both ends tell the same story. Every record the client returns shows, once they had time to arrive, the result and the message number the gateway answered for that message on that connection, and the state of the gateway's first report about that number; it shows no answer or report that never came, and no two records share a message. With a gateway that accepts everything, within its limits and with the network at peace, every message sent is accepted under a number of its own and, on CMPP and SMGP, reported exactly once; every message pushed by the gateway and every heartbeat is acknowledged by the client. The usage record of each gateway session counts exactly the messages accepted, reports sent and messages pushed on that connection. The heartbeats of both sides work together: a logged-in CMPP or SMGP session the network leaves alone is never ended by either side, however long it is idle, and an SGIP session only when it has been idle for the configured time. Connections lost to resets, half-open ends, silent network holes or refused dials are replaced until the client again has all its sessions (never more), also where the gateway admits exactly that many; and when the program ends, every session ends at the gateway too, with its usage record written.",
 ["inputs","histories","schedules","fault_sequences"],
 "all interleavings of the client's and the gateways' goroutines in one or several operators, all texts and rates, all sequences of resets, one-sided losses, holes, stalls and refused dials, all idle times and moments of the program's end",
 "The tests never run the two halves against each other; that their heartbeats, limits, sequence numbers, half-closed connections and shutdown fit together under every schedule and fault is a property of neither half alone.",
 [C+"bootstrap.go",C+"session/on_traffic_cmpp.go",C+"session/on_traffic_smgp.go",C+"session/on_traffic_sgip.go",C+"session/session.go",S+"on_traffic.go",S+"on_tick.go",S+"session.go",S+"on_close.go"],["sent messages awaiting answers","session pools of both sides"],
 [("matching of answers and reports",C+"session/on_traffic_*.go"),("heartbeats",C+"session/on_traffic_*.go and "+S+"on_tick.go"),("replacement of connections",C+"session/session.go"),("usage counters",S+"session.go")],
 ["records returned by the client's queries","frames of both sides","usage log of the gateways","connection table of both sides"])
add("P27","Losing and replacing connections costs the client nothing that lasts",
 "However often the client's connections to its gateways are refused, left without a login answer, reset, ended (also in the middle of a frame), found silent, given up after a bad message, or lost to a partition, and whatever was sent and answered meanwhile: once the gateways are reachable again, the pools are complete, and outstanding results have expired, the client holds no more goroutines and no more open connections than it held with complete pools before the trouble. No send, answer, report, heartbeat, failed login or closed session leaves a goroutine behind.",
 ["fault_sequences","schedules","histories"],
 "all sequences of connection losses, failed logins and hostile bytes, with concurrent senders, at every moment of a session's life",
 "A leak per lost connection shows only after many losses of one particular kind, and which kind leaks depends on where the receiver, a heartbeat or a login was interrupted; no test loses a connection.",
 [C+"session/session.go",C+"session_factory.go",C+"session/on_traffic_cmpp.go",C+"session/on_traffic_smgp.go",C+"session/on_traffic_sgip.go"],["goroutines and connections of the client"],
 [("receive loop",C+"session/session.go startReceiver"),("heartbeat",C+"session/session.go HealthCheck"),("login",C+"session/session.go NewSession"),("refill",C+"session_factory.go lruSort")],
 ["live goroutines of the client","connections open at the model gateways"])
import os
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
