#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": hook}})
STM = "sippy/SipTransactionManager.py"
NOTX = "No existing test drives the transaction layer with more than one datagram; "

prop("S01", "Every SIP request sent gets exactly one final outcome, in bounded time",
 "For every request handed to the transaction layer with a response handler, the handler sees zero or more provisional responses of that request followed by exactly one final outcome, and nothing after it. "
 "The final outcome is the first final response received while the request is pending, or a locally generated 408 when 32 s pass with no response at all (for an INVITE that has been answered provisionally: its Expires interval, 300 s by default, since the last provisional; for other requests 32 s since it). "
 "No loss, duplication, reordering or delay of datagrams, and no response to another or an unknown request, changes this.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of requests started, provisional/final responses (lost, duplicated, late, foreign, malformed), cancellation and passage of time, for several concurrent requests",
 NOTX+"the guarantee ranges over all arrival orders and times of datagrams.",
 [STM], [("client transaction start/match/finish", STM+":newTransaction,incomingResponse,timerB,timerC")],
 [("tclient","pending client transactions by id",STM)], ["response callback invocations (code, time)"])
prop("S02", "Client INVITE handshake: retransmission, ACK and CANCEL go out as SIP requires",
 "An unanswered request is retransmitted, byte-identical to the same address, 0.5 s after sending and then at doubling intervals, until the first response or the 32 s timeout, and never after. "
 "Every final response to an INVITE is acknowledged by one ACK: for a 2xx to the contact over the recorded route set with a new branch, otherwise to the original address on the INVITE's branch, carrying the response's To tag; each retransmission of that response triggers the same ACK again, and an ACK deferred by the application goes out once, when released. "
 "A CANCEL is sent only for an INVITE that got a provisional and no final response: at once if so, else when the first provisional arrives, never otherwise, and it repeats the INVITE's URI, Call-ID, From, CSeq number, branch and destination.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of responses, duplicates, application cancel/ack and time for INVITE and non-INVITE client transactions, loose/strict route sets of any length",
 NOTX+"retransmission and ACK/CANCEL behaviour depends on the history of datagrams and elapsed time.",
 [STM,"sippy/SipRequest.py"], [("timerA backoff",STM+":timerA"),("ACK construction",STM+":incomingResponse, sippy/SipRequest.py:genACK"),("deferred CANCEL",STM+":cancelTransaction")],
 [("cancelPending","CANCEL waits for a provisional",STM)], ["datagrams sent (bytes, destination, time)"])
prop("S03", "A request is delivered to the application once; repeats get the last response",
 "While a request has not had its final response, each retransmission of it is not delivered to the application again; it is answered with the last response sent for it, byte-identical, or with silence if there is none yet. "
 "A byte-identical repeat of any datagram already answered or discarded is answered with the same bytes, or again discarded, for at least 32 s after that, also when its transaction is gone. "
 "A request that carries the branch of one of our own pending requests is refused with 482 and not delivered; a request of a known dialog goes to the handler registered for that dialog and any other to the general handler.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of new requests, retransmissions (identical and re-encoded), application responses, time and rotation of the retransmission cache",
 NOTX+"duplicates may arrive at any point of the transaction's life.",
 [STM], [("retransmission cache",STM+":handleIncoming,rCachePurge"),("server transaction lookup",STM+":incomingRequest"),("consumers",STM+":regConsumer")],
 [("tserver","server transactions",STM),("l1rcache/l2rcache","answers by datagram checksum",STM)], ["application request callback","datagrams sent"])
prop("S04", "A final response to INVITE is repeated until acknowledged, at most 32 s",
 "A final response to an INVITE is retransmitted byte-identical at 0.5 s and then doubling intervals until a matching ACK arrives or 32 s pass, and never after. "
 "The transaction then ends exactly once: the acknowledgement handler runs once if the ACK arrived in time, the no-acknowledgement handler once if it did not, never both. "
 "Per request at most one final response is sent, every response beyond 100 that the application sends carries a To tag, and an attempt to answer a finished request is refused without sending anything.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of application responses, ACKs (matching, duplicated, foreign), request retransmissions and time, several transactions at once",
 NOTX+"ACK loss and lateness patterns are unbounded.",
 [STM], [("response retransmission and ACK wait",STM+":sendResponse,timerA,timerD,incomingRequest")], [],
 ["datagrams sent","ack/no-ack callbacks"])
prop("S05", "CANCEL and Expires end an unanswered INVITE with 487 exactly once",
 "A CANCEL matching a server transaction that has had no final response is always answered 200, any other CANCEL 481. "
 "The matched INVITE is then answered 487 and the application's cancel handler runs exactly once with the CANCEL; after a final response neither happens. "
 "An INVITE still unanswered when its Expires interval (300 s if absent or non-positive) elapses is answered 487 and its cancel handler runs once.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of INVITE, CANCEL (repeated, early, late, mismatched), responses and time",
 NOTX+"the answer depends on the race between CANCEL, expiry and the application's own response.",
 [STM], [("cancellation",STM+":incomingRequest,doCancel"),("expiry timer",STM+":timerE")], [], ["datagrams sent","cancel callback"])
prop("S06", "The transaction layer forgets every finished transaction",
 "Once all requests are answered or timed out and the application has unregistered its handlers, the transaction layer holds no client or server transaction and no handler registration after at most 64 s of silence, and no retransmission cache entry after 96 s. "
 "Nothing is sent and no handler runs after that.",
 ["schedules","histories","fault_sequences"],
 "every history of requests, responses, cancellations, losses and timeouts that the application brings to its end",
 NOTX+"leaks show only after complete histories including timeouts.",
 [STM], [("removal at end",STM+":timerC,timerD,incomingResponse,sendResponse,unregConsumer,rCachePurge")],
 [("tclient/tserver/req_consumers/l1rcache/l2rcache","all tables",STM)], ["sizes of the tables","late datagrams"])
prop("U01", "A call leg's life is monotone and its callbacks fire exactly once",
 "Each call leg goes through trying, ringing, connected (with nested updates) and ended only forwards; its connect callback runs at most once and never after the end, exactly one of its disconnect or failure callbacks runs, once, when it ends, and its dead callback exactly once: 32 s after the end, or, for an outgoing INVITE that was cancelled, when that INVITE is finally answered (32 s later if by a 2xx) or after 300 s without an answer. "
 "After the leg is dead it emits no events, takes no part in its dialog and sends nothing but the ACK of a late answer. "
 "No input the controller, the peer or the clock can produce makes it raise. "
 "Events reach the call's controller in the order they were created and never twice.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of controller events, SIP requests and responses (valid, stale, duplicated, crossing), timer expiries for outgoing and incoming legs",
 "No existing test instantiates a call leg; the state machine's product with network races is far beyond samples.",
 ["sippy/UA.py","sippy/UacStateIdle.py","sippy/UacStateTrying.py","sippy/UacStateRinging.py","sippy/UacStateCancelling.py","sippy/UacStateUpdating.py","sippy/UasStateIdle.py","sippy/UasStateTrying.py","sippy/UasStateRinging.py","sippy/UasStateProgressing.py","sippy/UasStateUpdating.py","sippy/UaStateConnected.py","sippy/UaStateDisconnected.py","sippy/UaStateFailed.py","sippy/UaStateDead.py"],
 [("state change and callbacks","sippy/UA.py:changeState,emitEvent,emitPendingEvents")], [("state","current leg state","sippy/UA.py")], ["leg callbacks","events emitted","datagrams"])
prop("U02", "No half-open dialogs: an ended leg is ended on the wire too",
 "Whatever races occur between answering, cancelling and hanging up, when a leg ends its peer has been told: an incoming INVITE has had exactly one final response, an established dialog has had a BYE sent or received and every received BYE is answered 200, an outgoing INVITE that was abandoned has been cancelled, or, when its 2xx crossed the cancellation (up to 300 s later), acknowledged and released with BYE. A peer that never answered the INVITE within the transaction timeout is not told. "
 "No BYE is sent in a dialog that was never established and at most one is sent per dialog.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of hang-up from either side, CANCEL/200 crossing, BYE during re-INVITE, retransmissions and timeouts",
 "No existing test instantiates a call leg; the races need specific interleavings.",
 ["sippy/UacStateCancelling.py","sippy/UacStateTrying.py","sippy/UacStateRinging.py","sippy/UaStateConnected.py","sippy/UacStateUpdating.py","sippy/UasStateUpdating.py","sippy/UasStateTrying.py","sippy/UasStateRinging.py","sippy/UaStateDisconnected.py"],
 [("release on every path","the state handlers' recvEvent/recvRequest/recvResponse/cancel")], [], ["datagrams sent per dialog"])
prop("U03", "In-dialog requests are ordered, matched and never mixed up",
 "Requests sent in one dialog carry strictly increasing CSeq numbers, the dialog's Call-ID, tags, the route set and the contact given when the dialog was established (directly, or over the configured outbound proxy). "
 "An incoming in-dialog request whose CSeq is not greater than the last one seen is answered 500 and has no effect; a re-INVITE while another is in progress is answered 491 and leaves the call up; requests the leg does not support get a final error response, at the latest when they are repeated, and leave the call up. "
 "A request is accepted by a leg only if Call-ID and both tags match.",
 ["schedules","inputs","histories"],
 "every sequence of in-dialog requests in both directions (re-INVITE, INFO, OPTIONS, REFER, BYE, unknown methods), stale and repeated CSeqs, foreign tags",
 "No existing test instantiates a call leg or exercises an in-dialog request.",
 ["sippy/UA.py","sippy/UaStateConnected.py","sippy/UacStateUpdating.py","sippy/UasStateUpdating.py"],
 [("CSeq check and matching","sippy/UA.py:recvRequest,isYours,genRequest")], [], ["datagrams sent"])
prop("U04", "Every call leg time limit ends the call on time and only then",
 "An outgoing call that gets no response within the no-reply limit, no alerting within the no-progress limit, or no answer within the expiry limit is ended at that moment, as an incoming one is at its no-progress and expiry limits; a call that passes the corresponding stage earlier is never ended by that limit. "
 "A connected call is ended when the smallest of its credit limits, counted from the moment of connection, elapses, also when the limits are changed during the call, and never earlier.",
 ["schedules","configurations","histories"],
 "every combination of limits and every order of responses, updates of limits and time",
 "No existing test arms a leg timer; the order of expiry against signalling is a schedule property.",
 ["sippy/UA.py","sippy/UacStateIdle.py","sippy/UacStateTrying.py","sippy/UacStateRinging.py","sippy/UasStateIdle.py","sippy/UasStateTrying.py","sippy/UasStateRinging.py"],
 [("timers","sippy/UA.py:expires,no_progress_expires,no_reply_expires,startCreditTimer,resetCreditTime")], [], ["time of disconnect/fail callbacks and of BYE/CANCEL/4xx datagrams"])
prop("U05", "Media hooks see every body, and no call hangs on them",
 "When an application hooks into the session bodies of a call leg (as the RTP proxy does), every session description the peer sends reaches the controller only as the hook returned it, and every one the controller sends reaches the peer only as the hook returned it (apart from bodies marked as needing no update), in initial calls, early media, late offers, re-INVITEs and their answers; bodies that are not session descriptions pass unharmed. "
 "The hook may answer at once, later, or with a failure, and the call may change or end meanwhile: an answer that comes in time lets the event continue exactly once and in order, one that comes after the end has no effect, and a failure is never silent: the offer is refused with the code of the failure and its reason, or the call is ended, so that both the controller and the peer know; no leg stays half set up or up on one side only.",
 ["schedules","fault_sequences","histories"],
 "every order of controller events, peer messages, timers and completions of the hook (at once, late, failed, after the end), for calls in both directions with early, late and missing offers, held and opaque bodies",
 "No existing test instantiates a call leg with a media hook; completion order against signalling is a schedule property.",
 ["sippy/UA.py","sippy/UaStateGeneric.py","sippy/UacStateIdle.py","sippy/UacStateTrying.py","sippy/UacStateRinging.py","sippy/UacStateUpdating.py","sippy/UasStateIdle.py","sippy/UasStateTrying.py","sippy/UasStateRinging.py","sippy/UasStateUpdating.py","sippy/UaStateConnected.py"],
 [("late bodies","sippy/UA.py:delayed_remote_sdp_update,delayed_local_sdp_update,sdpUpdateFailed"),("outgoing bodies","sippy/UaStateGeneric.py:_delayLocalSdpUpdate")], [], ["bodies on the wire and in events","failures reported"])
prop("B01", "Each leg of a bridged call sees what the other leg did, once and in order",
 "Ringing, answer, failure code, mid-call update, INFO and hang-up of one leg reach the other leg exactly once, in order, with the same status code, reason and body. "
 "The caller gets exactly one final response; it is 200 only if the callee of some route answered, and otherwise it is the failure of the last route tried or the reason the service refused the call.",
 ["schedules","histories","inputs"],
 "every interleaving of messages from caller and callee(s) over a two-leg call with any number of routes",
 "No existing test runs the B2BUA; relay order and completeness are history properties.",
 ["sippy/b2bua.py","sippy/UA.py","sippy/CCEvents.py"], [("event relay","sippy/b2bua.py:CallController.recvEvent")], [], ["messages on both legs"])
prop("B02", "Both legs end together and nothing of an ended call remains",
 "When either leg of a call ends, or the operator disconnects the call, or a limit is hit, the other leg is ended too, so that within the protocol timeouts both dialogs are closed on the wire. "
 "After that the call is removed from the list of active calls and leaves no transaction, registered dialog, RTP session or armed call timer behind.",
 ["schedules","fault_sequences","histories"],
 "every call history: set-up races, failover, crossing BYEs, unresponsive peers, operator disconnect, graceful stop",
 "No existing test runs a call to its end.",
 ["sippy/b2bua.py"], [("teardown","sippy/b2bua.py:aConn,aDisc,aDead,oDead,disconnect; CallMap.discAll")], [], ["active call list","datagrams","tables"])
prop("B03", "Routes are tried in order, one at a time, until one answers or hunting stops",
 "Routes are tried strictly in the given order, each at most once, a next one only after the previous one has ended in failure while the caller is still waiting unanswered, and never after a failure code in the stop-hunting set, after the caller gave up, after an answer or after the group expiry. "
 "Each attempt carries the called and calling numbers, credentials, time limits and extra headers of its own route and a lowered Max-Forwards, and a call arriving with exhausted Max-Forwards is refused with 483. "
 "When the expiry of a group of routes passes unanswered, the attempt under way is ended and the rest of that group is skipped, unless it is the last group, after which no more routes are tried.",
 ["inputs","schedules","configurations"],
 "every list of routes with options and every pattern of per-route outcomes and caller behaviour",
 "Only route option name transformers are tested; failover over outcome histories is not.",
 ["sippy/b2bua.py","sippy/B2B/Route.py"], [("failover","sippy/b2bua.py:recvEvent,placeOriginate,rDone; sippy/B2B/Route.py:customize")], [], ["INVITEs sent on the outgoing side, in order"])
prop("B04", "No call is placed before it is admitted",
 "No outgoing leg is started for a call whose source is not allowed (403), whose authorization was rejected or failed (401/403), that arrives while the server is draining (503), that belongs to no known dialog (481), or that lacks required digest credentials (401). "
 "Authorization is asked once per call, with the credentials, calling and called numbers and address of that caller. Rejection never reaches any callee, is answered once (with a challenge if 401), and a later authorization answer for a call that already ended starts nothing.",
 ["schedules","configurations","inputs"],
 "every configuration of admission options, order of authorization results against caller hang-up",
 "No existing test covers admission.",
 ["sippy/b2bua.py","sippy/RadiusAuthorisation.py"], [("admission","sippy/b2bua.py:CallMap.recvRequest,CallController.recvEvent,rDone")], [], ["datagrams to callee","responses to caller"])
prop("B05", "Every leg is accounted exactly once, with true times",
 "For every accounted leg attempt exactly one Stop record is sent, when it ends, and at most one Start, before it and only if connected; nothing is sent after the Stop. "
 "The Stop record states connect and disconnect times, session duration (zero if never connected) and the release cause matching the actual outcome of that leg; periodic Alive records, if configured, come at their interval while it is connected, stating the time elapsed.",
 ["schedules","histories"],
 "every call history including failover, cancellation races and timeouts",
 "No existing test creates an accounting record.",
 ["sippy/RadiusAccounting.py","sippy/b2bua.py","sippy/UA.py"], [("exactly-once","sippy/RadiusAccounting.py:conn,disc,asend")], [], ["records handed to the RADIUS client"])
prop("B06", "A call never outlives its credit or maximum duration",
 "A bridged call is disconnected on both legs when the credit time granted to it by authorization or by its route, or the configured maximum, whichever is smallest, has elapsed since connection, and not earlier on that account.",
 ["configurations","schedules"],
 "every combination of route credit, authorization credit, defaults and maximum",
 "No existing test sets a credit time.",
 ["sippy/b2bua.py","sippy/B2B/Route.py","sippy/UA.py"], [("credit","sippy/B2B/Route.py:customize; sippy/b2bua.py:placeOriginate; sippy/UA.py:startCreditTimer")], [], ["time of BYE on both legs"])
prop("B07", "A draining server admits nothing, harms nothing and leaves when it is free",
 "From the moment a restart or stop is requested every new call is refused with 503. A requested restart leaves calls in progress as they are and takes place only when none is being set up or connected, and then within about a minute; a requested stop disconnects every call at once and the process leaves within 3 s, earlier once no call is active.",
 ["schedules","histories"],
 "every moment of the request relative to the histories of several calls",
 "No existing test sends these signals.",
 ["sippy/b2bua.py"], [("draining","sippy/b2bua.py:CallMap.safeRestart,safeStop,executeStop,GClector,recvRequest,getActiveCalls")], [], ["responses to new calls","moment of exit/exec","datagrams of running calls"])
prop("R01", "RTP proxy commands of a session run one at a time, in order, each answered once",
 "Commands issued for one RTP proxy session are sent strictly in the order they were issued, the next only after the previous was answered or failed, and each command's result handler runs exactly once with the answer to that very command. "
 "Deleting the session lets the commands already issued and their follow-up stages finish first and sends nothing once they have; each session leg that was created is deleted at the proxy exactly once.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of issuing, answers, failures, commands issued from result handlers, and deletion",
 "No existing test covers the sequencer or session teardown.",
 ["sippy/Rtp_proxy/Cmd/sequencer.py","sippy/Rtp_proxy/session.py"], [("sequencing","sippy/Rtp_proxy/Cmd/sequencer.py")], [], ["commands at the proxy client","result callbacks"])
prop("R02", "Every RTP proxy command over UDP gets exactly one result",
 "Each command sent to the RTP proxy over UDP carries a fresh cookie and is retransmitted unchanged with that cookie on a backing-off schedule until its reply or the last try; its handler then runs exactly once, with the reply to that command or with failure. "
 "Duplicated, late, reordered or unknown replies have no effect, and a command that exhausts its tries takes an online proxy offline.",
 ["schedules","fault_sequences"],
 "every pattern of loss, delay, duplication and reordering of replies to concurrent commands, and shutdown at any point",
 "No existing test covers the UDP command client.",
 ["sippy/Rtp_proxy/Client/udp.py"], [("pending table","sippy/Rtp_proxy/Client/udp.py:send_command,retransmit,process_reply")], [], ["datagrams","result callbacks"])
prop("R03", "Media session: SDP is rewritten to the proxy, with sane origin versions",
 "Each media section with a port in an SDP relayed through an RTP proxy session is replaced by the address and port the proxy returned for that very section, in order, and nothing else of it; a proxy failure reaches the caller as a failure and no SDP with unrewritten addresses is passed on. "
 "The origin line sent to one party keeps its session id, and its version grows by exactly one whenever the source's version changes and only then; when the source starts a new session the party sees a new session id.",
 ["inputs","schedules","fault_sequences"],
 "SDPs with any number of sections and protocols, any sequence of updates on both sides and proxy answers, errors and silence",
 "Only SDP parsing is tested; rewriting through a session is not.",
 ["sippy/Rtp_proxy/Session/side.py","sippy/Rtp_proxy/Session/update.py","sippy/Rtp_proxy/session.py"], [("rewriting","sippy/Rtp_proxy/Session/side.py:_on_sdp_change,_sdp_change_finish")], [], ["commands to the proxy","SDP handed on"])
prop("R04", "RTP proxy availability follows its answers",
 "A proxy is used only while it is online; it comes online only after a successful version check, goes offline on a failed or missing answer to a health check and comes back after a later successful version check. "
 "Health checks continue, spaced, in both states for as long as the client is not shut down.",
 ["schedules","fault_sequences"],
 "every sequence of answers, errors, silence and time to health checks",
 "No existing test drives the health-check cycle.",
 ["sippy/Rtp_proxy/client.py"], [("state","sippy/Rtp_proxy/client.py:version_check,heartbeat,go_online,go_offline")], [], ["commands sent","online flag"])
prop("C01", "Timers fire on time, in order, the right number of times, and never after cancel",
 "A timer callback never runs before its deadline, runs at the first dispatch at or after it, in deadline order, exactly the requested number of times (or until cancelled if unlimited) with a fixed period, and never after it was cancelled, also when it is cancelled or created from within another timer's callback. "
 "An exception in one callback does not affect any other timer.",
 ["schedules","inputs","histories"],
 "every set of timers and every interleaving of registration, cancellation (from inside callbacks too) and time, including cleanup of cancelled timers",
 "The existing tests sample two timers.",
 ["sippy/Core/EventDispatcher.py","sippy/Time/Timeout.py"], [("dispatch","sippy/Core/EventDispatcher.py:dispatchTimers,loop,regTimer")], [("tlisteners","timer heap","sippy/Core/EventDispatcher.py")], ["callback invocations and their times"])
prop("C02", "External command pool: every item is run once and answered once",
 "While its worker processes keep running, every item queued to the external command pool is given to exactly one of them, in the order queued, and its result handler runs exactly once with exactly the lines that process answered to that item; an item cancelled before a worker took it is never run and never answered. "
 "No worker is given a second item before it finished the first, and shutdown lets queued items finish and stops every worker.",
 ["schedules","histories"],
 "every interleaving of queueing, cancelling, workers' progress and shutdown",
 "The only test hangs at this commit.",
 ["sippy/External_command.py","sippy/Radius_client.py"], [("work queue","sippy/External_command.py")], [], ["lines written to the helper process","result callbacks"])
prop("C03", "Digest challenges are accepted only if genuine, fresh and correctly answered",
 "A nonce is accepted only if this process issued it, unmodified, no more than 32 s ago and for the algorithm used. "
 "Credentials are accepted exactly if they answer such a nonce with the right password for the given realm, method, URI, quality of protection and, where it is protected, body; every other input is rejected without an error escaping.",
 ["inputs","histories"],
 "every nonce, age, algorithm set, credential field and alteration of any of them",
 "Existing tests validate fresh genuine nonces and one expiry.",
 ["sippy/Security/SipNonce.py","sippy/SipAuthorization.py","sippy/SipWWWAuthenticate.py"], [("nonce","sippy/Security/SipNonce.py"),("digest","sippy/SipAuthorization.py:verify,verifyHA1")], [], ["accept/reject result"])
prop("C04", "Registration agent keeps the binding alive",
 "After a success the registration agent re-registers exactly when the interval the registrar granted to its own binding (else the answer's Expires, else the interval asked for) has elapsed, and 60 s after a failure; it answers an authentication challenge of the registrar (Authorization) or of a proxy (Proxy-Authorization) correctly, at most three times in a row before reporting failure, and starts no request and makes no report after being stopped. "
 "Each final outcome (including 32 s of silence) is reported exactly once, a success with the time at which the grant ends and the contact; successive requests use increasing CSeq numbers with the same Call-ID, From tag, target and Contact and ask for the configured interval.",
 ["schedules","histories","inputs"],
 "every sequence of registrar answers (own binding among others, no binding, any interval), challenges (realm, nonce, algorithm, qop), provisionals, late answers, silence and stop at any point, with and without credentials",
 "No existing test runs the registration agent.",
 ["sippy/SipRegistrationAgent.py"], [("agent","sippy/SipRegistrationAgent.py:doregister,gotreply")], [], ["REGISTER requests","callbacks"])
prop("C05", "The stateful proxy forwards each request once and relays each response once",
 "A request received by the proxy is forwarded once to the configured destination, however often it is retransmitted, with one Via of the proxy on top of the others and Max-Forwards lowered by one (70 if it had none), or refused with 483 when lowering it would exhaust it; REGISTERs whose sender supports Path get the proxy's Path on top. Every first response from the destination, until the first final one, is relayed once, with the proxy's Via removed, to who asked. "
 "Nothing else of the message changes in either direction: start line, other header fields (values, order among equal names) and body, whether written with compact names, folded lines, odd case, quoted strings, lists or non-ASCII text. When the destination does not answer for 32 s the requester gets exactly one 408.",
 ["schedules","fault_sequences","inputs"],
 "every interleaving of requests, retransmissions, responses, duplicates, loss and time for several clients, and every well-formed spelling of the messages",
 "No existing test runs the proxy.",
 ["sippy/StatefulProxy.py","sippy/SipMsg.py","sippy/SipResponse.py","sippy/SipHeader.py",STM], [("proxy","sippy/StatefulProxy.py")], [], ["datagrams on both sides"])
prop("S07", "A malformed datagram never disturbs anything",
 "A datagram that is no SIP message (garbage, missing or unreadable mandatory header fields, bad start line or status), a response that belongs to no pending request, or a response (101-399) cut short of its body has no effect whatsoever: nothing is sent, no pending request completes and all other traffic goes on as if it had not arrived. "
 "A request cut short of its announced body is refused with one 400 to its source for every copy received, is not handed to the application, and the intact request, when it comes, is processed normally.",
 ["inputs","histories","fault_sequences"],
 "every malformed datagram of these kinds, from any source, interleaved at any point with other requests and responses, including cut copies of genuine messages",
 NOTX+"the effect of a bad datagram on later traffic depends on the history.",
 [STM,"sippy/SipMsg.py","sippy/SipRequest.py","sippy/SipResponse.py"], [("datagram intake",STM+":handleIncoming")], [], ["datagrams sent","requests handed on"])
prop("S08", "Reading, copying and writing a message never changes it",
 "Whatever an application does with a received SIP message short of changing it - reading any header field or body, copying them, putting copies back, passing the message on, writing it out in any form (full or compact names) and reading that again - the message written carries the same start line, the same header fields in the same order with the same values, and the same body as the one received; what is read from a field (tags, branch and return address, URI scheme, user, host and port, parameters, credentials, challenge, cause, lists, SDP media and connections, parts of a mixed body) is what the message says. "
 "A change made to one object (a parameter, a URI, a credential, an SDP line, a body part) shows in that object alone and in copies taken from it afterwards: never in what it was copied from, in earlier copies or in any other field.",
 ["inputs","histories"],
 "every well-formed message (quoted strings with any content, escapes, lists, blanks around separators, IPv6, sip and sips URIs with all their parts, SDP with connection data anywhere, multipart bodies) and every order of reading, copying, changing, replacing, writing and reading again",
 "Existing tests parse and print a handful of fixed samples.",
 ["sippy/SipMsg.py","sippy/SipHeader.py","sippy/SipAddress.py","sippy/SipURL.py","sippy/SipVia.py","sippy/MsgBody.py","sippy/SdpBody.py","sippy/MultipartMixBody.py","sippy/SipAuthorization.py","sippy/SipWWWAuthenticate.py","sippy/SipReason.py","sippy/SipReplaces.py"],
 [("message","sippy/SipMsg.py:__init__,localStr"),("copies","sippy/*.py:getCopy")], [], ["written message","values read"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
