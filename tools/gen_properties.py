#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements are kept here so they are easy to edit)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S="src/actor/spawn.rs";K="src/actor/kind.rs";R="src/actor/actor_ref.rs";M="src/mailbox.rs";MSG="src/message.rs"
ASK="src/request/ask.rs";TELL="src/request/tell.rs";E="src/error.rs";REG="src/registry.rs"
SW="src/remote/swarm.rs";INT="src/remote/_internal.rs";REM="src/remote.rs";ID="src/actor/id.rs"
POOL="actors/src/pool.rs";PS="actors/src/pubsub.rs";BR="actors/src/broker.rs";MB="actors/src/message_bus.rs";AL="actors/src/lib.rs"

p("C01","Accepted messages are handled in per-sender order, never twice, never lost",
"Messages that one task sends to a running actor, each send completing before the next starts, are handled in the order they were sent, whatever mix of ask, tell, try and enqueue variants, mailbox kind and other senders is involved. No message is ever handled more than once. Every message whose send was accepted is handled as long as the actor is not killed, does not fail, and was not already told to stop before that message was accepted.",
["schedules","histories","configurations"],"all interleavings of any number of senders with the actor, for bounded and unbounded mailboxes, and all sequences of send variants",
"Tests send a handful of messages from one task under one schedule; ordering, duplication and loss depend on interleavings of many senders with startup buffering and a full mailbox.",
[M,S,K,ASK,TELL,R],[("mpsc mailbox and a single receive loop",S),("startup buffer flushed in order before later messages",K)],
[("startup_buffer","messages from others held back until on_start finished",K)],["handler entry log against each sender's send log"])
p("C02","An actor runs one handler or lifecycle hook at a time",
"For any one actor, at most one message handler or lifecycle hook (on_start, on_message handlers, on_panic, on_link_died, on_stop) is in progress at any instant, and each handler runs to completion before the next begins, except when the actor is killed while it runs. Under kill the interrupted handler is dropped before on_stop begins.",
["schedules"],"all interleavings of senders, links dying, attached streams and stop or kill requests",
"A test can only show one schedule; overlap would require a preemption inside an await point of a handler.",
[S,K],[("one task owns the state and awaits each handler",S)],(),["enter/exit events of every handler and hook"])
p("C03","Every ask resolves exactly once, with the reply of its own message",
"An ask that is accepted by a running actor completes with exactly the value (or handler error) produced for that very message, no matter how many asks, delegated replies or reply senders are outstanding. If the actor stops, is killed or panics before replying, the ask completes with an error instead of waiting forever or receiving some other message's reply.",
["schedules","fault_sequences","histories"],"all interleavings of concurrent askers, immediate and delegated replies, stops, kills and panics at any point",
"Tests make one ask at a time and await it; mix-ups and hangs need many outstanding asks and a stop in between.",
[ASK,MSG,"src/reply.rs",S],[("oneshot channel per ask, dropped with its signal",ASK),("reply sender moved into the context",MSG)],(),["ask invoke/return history against handler log"])
p("C04","A failed send hands the message back and the message is never handled",
"When a send fails because the actor is not running, its mailbox is full, or the mailbox timeout elapsed, the error carries the very message that was passed in and the actor never handles that message. A send reports 'actor not running' only if the actor has stopped or is stopping.",
["schedules","fault_sequences"],"all send variants (ask, tell; send, try, enqueue, forward) racing with stop, kill, actor death and a full mailbox",
"The failing instant (mailbox closing between check and enqueue, timeout firing as a slot frees) is a race the tests do not control.",
[ASK,TELL,M,E],[("SendError conversions give the signal's message back",E),("timed send returns the signal on timeout",M)],(),["errors returned to senders against handler log"])
p("C05","Bounded mailboxes apply backpressure at exactly their capacity",
"A bounded mailbox of capacity N never holds more than N accepted messages that the actor has not yet taken out; a waiting send to a full mailbox completes only once there is room, and a non-waiting send fails with 'mailbox full' exactly when there is no room. An unbounded mailbox never makes a send wait and never reports full. A waiting sender is eventually admitted once the actor makes progress.",
["schedules","configurations"],"all capacities, sender counts and interleavings",
"Tests do not fill mailboxes with several waiting senders while the actor drains them under different schedules.",
[M,ASK,TELL],[("tokio bounded and unbounded mpsc behind MailboxSender",M)],(),["occupancy derived from send completions and handler starts"])
p("C06","Mailbox and reply timeouts fire at their deadline and not before",
"A send with a mailbox timeout to a full mailbox fails with a timeout after exactly that duration if no room appears earlier, and succeeds if room appears before; an ask with a reply timeout fails with a timeout exactly when the reply has not arrived within that duration after the message was accepted, and otherwise returns the reply. With no timeout configured, a request never fails with a timeout. The two timeouts never take each other's place.",
["schedules","inputs","configurations"],"all timeout values, handler durations and mailbox states on the simulated clock, including ties",
"Real-time tests can only assert loosely and with a few durations; with a virtual clock each deadline is exact.",
[ASK,TELL,M,"src/request.rs"],[("tokio timeouts around the mailbox send and the reply receive",ASK)],(),["virtual timestamps of invoke, return, handler start and end"])
p("C07","Lifecycle: on_start first and once, on_stop last and exactly once",
"on_start runs exactly once and completes before any message handler, on_link_died or on_stop begins; on_stop runs exactly once, after every other hook and handler of that actor, however the actor ends (graceful stop, kill, panic, failed start, last reference dropped, dead link). Nothing of the actor runs after on_stop, and the actor's state is dropped after it.",
["schedules","fault_sequences"],"all ways and instants of ending an actor, including during on_start",
"Tests end an actor in one way at one instant each; the property quantifies over every instant.",
[S,K,"src/actor.rs"],[("run_actor_lifecycle sequencing",S)],(),["hook enter/exit event order"])
p("C08","Messages an actor sends itself during startup are handled before others'",
"Messages that arrive from elsewhere before on_start has finished are not lost and are handled only after it finished, in the order they arrived. Messages the actor sends to itself from on_start are handled before any of those, in the order they were sent.",
["schedules","configurations"],"all arrival orders and counts of external and self-sent messages around startup, for every mailbox kind and capacity",
"The tests send at most one message during startup and never with the mailbox full.",
[S,K,R],[("sent_within_actor flag, startup_buffer and StartupFinished signal",K)],[("finished_startup","buffering is over",K)],["handler order after startup"])
p("C09","Graceful stop handles everything sent before it and nothing after it",
"A graceful stop lets the actor handle every message that was accepted before the stop request, in order, and then stop with a normal reason; messages accepted after the stop request are never handled, and their askers get an error rather than hanging. Stopping an actor that already stopped fails with 'actor not running', and any number of concurrent stop requests stop it once.",
["schedules","histories"],"all interleavings of senders with one or several stop requests, before, during and after startup",
"Tests stop an idle actor; the race of messages with the stop signal, and stop during startup, is not reached.",
[S,K,R],[("Stop signal travels through the mailbox",M)],(),["handler log against accept times relative to the stop"])
p("C10","Kill ends an actor promptly, even mid-handler, and its waiters are released",
"Kill takes effect the next time the actor's task is suspended: from then on it begins no further message handler, the handler in progress is dropped at its await point, and on_stop runs once with the reason 'killed' (unless the actor had already ended for another reason). A kill during on_start takes effect once on_start has finished. All waiters on the actor (pending asks, shutdown waiters, linked actors) are released.",
["schedules","fault_sequences"],"kill at any instant: before startup, during on_start, mid-handler, while idle, with a full mailbox, during shutdown",
"The tests kill one actor in one state.",
[S,R],[("Abortable around the actor loop",S)],(),["events after the kill"])
p("C11","Dropping the last strong reference stops the actor after it drained",
"An actor stays alive as long as any strong reference or recipient to it exists, including those carried by queued messages or attached streams, and weak references alone do not keep it alive. Once the last one is dropped, the actor handles all messages already accepted and stops with a normal reason. Upgrading a weak reference succeeds only while a strong reference (the caller's, a queued message's or the actor's own temporary one) still exists.",
["schedules","histories"],"all orders of clone, drop, downgrade and upgrade in concurrent tasks",
"The tests never drop all references concurrently with sends.",
[S,R,M],[("actor downgrades its own reference after startup",S)],(),["stop event against reference lifetimes"])
p("C12","A panic or failed tell affects only its own actor and reaches on_panic once",
"A panic inside a message handler, or a tell handler returning an error, makes the actor's on_panic hook run exactly once with that error; the actor then stops with exactly the reason the hook returns, or continues with its state intact if the hook says so. An asked handler error goes to the asker instead and does not reach on_panic. Neither brings down or disturbs any other actor.",
["schedules","fault_sequences","inputs"],"panics and errors injected in any handler or hook at any point of any workload",
"Tests inject one panic; they do not cover panics at other places or combined with queued messages and continuing actors.",
[S,K,MSG,E],[("catch_unwind around handlers and hooks",K),("on_shutdown dispatch",K)],(),["on_panic calls, stop reasons"])
p("C13","Startup and shutdown waiters always resolve, with the true outcome",
"Waiting for startup resolves for every waiter once on_start has finished and what the actor sent itself meanwhile was handled (or the actor ended first), and its result variant reports a start failure exactly when on_start failed. Waiting for shutdown resolves for every waiter once the actor has stopped, never earlier than the end of its on_stop, and its result variant reports an error exactly when on_stop failed. No waiter ever waits forever on an actor that has started or ended, whatever the mailbox kind, load or way of ending.",
["schedules","fault_sequences","configurations"],"any number of waiters arriving at any time; any way and instant of ending; full and empty mailboxes",
"The tests await these on an idle actor; the hangs need a full mailbox or a kill before startup finished.",
[S,R,K],[("startup semaphore and startup_error cell",S),("mailbox closed() and shutdown_error cell",R)],[("startup_semaphore","closed to waiters until startup finished",R)],["waiter return events against on_start/on_stop exits"])
p("C14","Linked actors get exactly one death notification, with the right id and reason",
"When an actor ends for any reason, every actor that was linked with it when its end began, and that is still running, has its on_link_died hook called exactly once for that death, with the dead actor's id and the reason it stopped for. Links are symmetric whichever side made them. After an unlink has completed, neither side is notified of the other's later death, and an actor that was never linked is never notified.",
["schedules","fault_sequences","histories"],"all interleavings of link, unlink, and ends of either side",
"Tests link two idle actors and end one.",
[S,K,R],[("links map drained on end, LinkDied signal to each",S)],[("links","sibling id to its mailbox",R)],["on_link_died calls against the link history"])
p("C15","Default supervision propagates abnormal death and only abnormal death",
"With the default on_link_died hook, an actor stops when a linked actor ends for any reason other than a normal stop, and keeps running when the linked actor stopped normally. Its own stop reason names the actor whose death caused it, with that actor's reason nested inside, along chains and cycles of links of any shape.",
["schedules","fault_sequences","configurations"],"all link graphs (chains, stars, cycles), ends and interleavings",
"The tests use pairs; cycles and simultaneous deaths are not reached.",
[K,S,"src/actor.rs"],[("default on_link_died",("src/actor.rs"))],(),["stop reasons in the link graph"])
p("C16","Link, unlink and death in any interleaving never deadlock",
"Linking, unlinking and ending actors concurrently, in any direction, between any actors and under any mailbox load always completes once handlers return. In particular two actors linking to each other at once, or linked actors with full mailboxes ending together, all finish stopping.",
["schedules","configurations"],"all interleavings of link operations and deaths, and all mailbox capacities",
"A deadlock needs two tasks to interleave inside lock acquisition or two full mailboxes at once.",
[R,S],[("per-actor links mutex",R),("link notification sends",S)],(),["every operation completes before the simulated deadline"])
p("C17","The actor registry is linearizable",
"The local registry behaves like one atomic map from name to actor, whatever tasks and threads use it: registering a name makes it resolve to that actor, replacing an earlier entry of the same name; a lookup finds exactly the actor registered last under that name, or nothing; a lookup with the wrong actor type fails with a type error without removing or altering the entry; removing reports truly whether the name was there. No operation changes what other names resolve to, panics or hangs.",
["schedules","histories"],"all concurrent histories of register, lookup, insert, remove, contains, names and clear over shared names from many tasks and threads",
"The tests register one actor sequentially.",
[REG,R],[("one mutex-protected map",REG)],(),["operation history checked against a sequential map model"])
p("C18","Attached streams deliver every item once, in order, then finish",
"A stream attached to an actor delivers exactly one 'started' message, then each item once in stream order, then one 'finished' message when the stream ends, all in the order of other messages from that source. The stream task ends when the actor stops, with the stream and its messages dropped; while the stream runs it keeps the actor alive.",
["schedules","fault_sequences"],"stream items at any times, with any mailbox kind, racing with other senders and with stop or kill",
"The tests attach a finite immediate stream to an otherwise idle actor.",
[R,MSG],[("attach_stream task selecting between items and shutdown",R)],(),["handler log of stream messages, stream task result"])
p("C19","Delegated and forwarded replies reach the original asker exactly once",
"When a handler delegates its reply, takes the reply sender, or forwards the message to another actor (any forward variant), the original asker receives exactly the value eventually produced, or an error if it can no longer be produced, and receives it once. For a tell no reply is produced and nothing is leaked to another request. A failed non-waiting forward gives the message and its reply obligation back or reports the error to the asker.",
["schedules","fault_sequences"],"forward chains and delegated replies with stops, kills, full mailboxes at any point",
"Tests do not forward under faults.",
[MSG,"src/reply.rs",ASK,TELL],[("Context::forward moves the reply channel",MSG)],(),["ask history against final handlers"])
p("C20","Pool: each job runs on one worker, broadcasts on all, dead workers replaced",
"A job dispatched to the pool is handled by exactly one worker and its reply is returned to the dispatcher; an idle worker is preferred over a busier one; a broadcast is handled once by every live worker and returns one result per worker. When a worker dies the pool replaces it so that the pool returns to its configured size, and the pool itself keeps running. A dispatch never hangs.",
["schedules","fault_sequences","configurations"],"all pool sizes, concurrent dispatches, worker deaths and replacements",
"There are no tests of the pool under worker failure.",
[POOL],[("least-connections choice and on_link_died replacement",POOL)],(),["worker handler logs, replies"])
p("C21","Pub/sub delivers each publication once to every subscriber whose filter matches",
"A message published to a pubsub actor is delivered exactly once to each live actor subscribed at that moment whose filter accepts it and to no other actor, and each subscriber receives publications in publication order (publishing waits for mailbox capacity, so a slow or full subscriber loses nothing). Subscribing again replaces the filter instead of adding a second delivery. A dead subscriber never prevents delivery to the others and is dropped from the subscriber list; a publication never hangs once its subscribers make progress.",
["schedules","fault_sequences","configurations"],"subscribers joining, changing filter, dying and filling up during publication, for every mailbox size and filter",
"Tests publish to idle live subscribers.",
[PS],[("publish loop and removal of dead subscribers",PS)],(),["subscriber handler logs against publications"])
p("C22","Broker delivers to exactly the subscribers whose topic pattern matches",
"A message published to a broker topic is delivered exactly once per matching subscription to live subscribers whose pattern matches the topic, and to nobody else, under the chosen delivery strategy: guaranteed, timed and best-effort delivery keep each subscriber's publications in order; only the best-effort strategy (mailbox full) and the timed ones (no room in time) may skip a recipient, and then only that recipient; only the guaranteed and timed strategies make the publisher wait, and the timed one no longer than its timeout per recipient. Unsubscribing (from one pattern or from all) takes effect for every later publication, and a dead subscriber is removed without disturbing other subscriptions.",
["schedules","fault_sequences","histories"],"all histories of subscribe, unsubscribe, publish and subscriber death for every delivery strategy",
"Tests cover no deaths, no unsubscribe races and one strategy.",
[BR,AL],[("glob subscriptions table",BR)],(),["subscriber handler logs against a subscription model"])
p("C23","Message bus delivers each message to exactly the recipients of its type",
"A message published on the bus is delivered exactly once to each live actor registered for that message type and to none registered only for other types, under the same delivery-strategy rules as the broker (only best-effort and timed delivery may skip a recipient, and only one that had no room). Unregistering takes effect for later publications only for that type, and a dead recipient is removed without disturbing the others.",
["schedules","fault_sequences","histories"],"all histories of register, unregister, publish and recipient death for every delivery strategy",
"Tests cover no deaths or strategies other than the default.",
[MB,AL],[("type-keyed subscription table",MB)],(),["recipient handler logs against a registration model"])
p("C24","Remote requests get their own reply or an error, and never run twice",
"A request sent through a remote reference is handled by the intended actor at most once, and exactly once if it reported success; an ask that succeeds returns exactly the reply to that request. If the actor is stopped or unknown, its mailbox is full, a timeout passes, its content cannot be encoded or decoded, or the peer or connection is lost, the request completes with an error of that kind; it never hangs, whatever the network does.",
["schedules","fault_sequences","histories"],"all interleavings, delays, connection losses, partitions, peer crashes and restarts",
"Tests use no network faults (and none run with two nodes).",
[SW,INT,ASK,TELL,REM],[("request-response protocol over libp2p, one in-flight oneshot per request id",SW)],[("requests","outgoing request id to the waiting caller",SW)],["caller results against remote handler logs"],"per-node copies of three process-wide statics, so that several nodes fit in one simulated process")
p("C25","Awaited remote requests to one actor are handled in order",
"Requests that one caller sends to one remote actor, awaiting the success of each before the next, are handled in that order, and their messages arrive with unchanged content.",
["schedules","fault_sequences"],"all network delays and connection losses",
"No test sends a sequence over a faulty network.",
[SW,INT],[("acknowledged requests",INT)],(),["remote handler log against caller order"],"as C24")
p("C26","Remote registration: a registered actor can be found from every connected peer",
"Once register has completed, a lookup of that name from any connected peer (one which has discovered the node) finds that actor, with its true id, once the network is quiet; a lookup of a name nobody registered finds nothing; a lookup with the wrong actor type reports a type error. After the actor is unregistered or its node is gone, the name stops resolving to a wrong or unrelated actor, and register or lookup calls never hang.",
["schedules","fault_sequences","histories"],"all histories of register, unregister and lookup on several nodes under delays, partitions and crashes",
"The tests never look up across nodes.",
[SW,R,REM],[("kademlia records name to actor registration",SW)],(),["lookup results against registrations"],"as C24")
p("C27","Remote links report death, and peer disconnection, exactly once",
"When one of two actors linked across nodes ends while they are connected, the other's on_link_died hook is called once with its id and reason; when the connection to a peer is lost entirely, every link to an actor on that peer is reported once as peer disconnected. Losing one of several connections to a peer is not a disconnection. Links to other peers are unaffected.",
["schedules","fault_sequences"],"actor ends, connection losses, multiple connections, partitions and crashes in any order",
"No test has two connected nodes.",
[SW,INT,S],[("SignalLinkDied requests and ConnectionClosed handling",SW)],(),["on_link_died calls on each node"],"as C24")
p("C28","Malformed or unexpected remote input never takes a node down",
"Bytes received from a peer that do not decode as a valid id, registration record, message or message type make only that one request or lookup fail with an error; a message with an unknown actor or message type, or with an id or payload that does not decode, is never answered with success. The node keeps serving all other local and remote requests.",
["inputs","fault_sequences"],"all byte strings in ids, records and payloads, corrupted or unknown message types, and storage limits of the record table",
"The tests feed only well-formed input.",
[SW,ID,INT,REM],[("fallible decoding",ID)],(),["node still answers after the input"],"as C24")
p("C31","Bootstrapping happens once, at any time, and keeps local actors' identity",
"Of all bootstrap calls exactly one succeeds and the others are told about the running swarm; before it, registering and looking up fail with a not-bootstrapped error instead of hanging or panicking. Actors spawned before it keep their identity: their ids stay equal to themselves, in hash maps and after encoding too, links made and removed before and after it take effect alike, and they can be registered, found, messaged and linked from other nodes under their true id.",
["schedules","histories"],"all orders of concurrent bootstraps and operations of local actors, before, during and after them",
"A test compares ids once; nothing runs actors across a bootstrap.",
[ID,SW,"src/actor/actor_ref.rs"],[("the peer of a local id is that of the swarm, once there is one",ID)],(),["results, ids in hash maps and on_link_died calls"],"none: ids of running actors change their peer while they are in use")
p("C32","Every failing on_start and on_stop reaches the error hook once",
"The function installed with set_actor_error_hook is called exactly once, with the actual error or panic, for each on_start or on_stop which fails, whether or not somebody waits for the result, and not for anything else; once a hook was replaced, only the new one is called.",
["schedules","histories"],"all ways of starting and ending actors, with hooks which fail, panic, wait and are replaced meanwhile",
"The tests never install a hook.",
["src/error.rs",S],[("invoke_actor_error_hook",S)],(),["calls of the error hook"])
p("C33","Actors that override next or on_message keep every guarantee",
"However an actor takes its signals out of its mailbox in its own next (one by one, by polling, in batches, after others of its own), the guarantees of delivery, order, startup, stopping, killing and linking hold. What next returns is what the actor does next: a message of its own is handled once, a stop signal or none ends it normally after what was held back for its startup. While next waits nothing else of the actor runs, and only a kill interrupts it. A panic in next or on_message reaches on_panic once, whose decision is obeyed. A message which on_message holds back is answered when it is handled, or fails its caller when it is dropped. After the mailbox was closed nothing is accepted any more, and what was accepted before is still handled.",
["schedules","histories"],"all ways of receiving, timers, panics, closing and kills, in the worlds of C01 to C16",
"The tests never override next or on_message.",
["src/actor.rs",S,"src/actor/kind.rs","src/mailbox.rs"],[("abortable_actor_loop",S),("ActorBehaviour::next","src/actor/kind.rs"),("MailboxReceiver","src/mailbox.rs")],(),["handlers, hooks and calls of next"])
p("C34","Dialing a peer, or adding its address, is enough to be part of the system",
"Without multicast discovery: once a node has dialed a peer (by its id, by its address alone, or both), or was given the peer's address and has something to look up, the nodes connected in that way, directly or through one another, are one system. Registering an actor succeeds on each of them, an actor registered on one before or after they met is found by its name from every other, under its true identity and type, and answers requests; this holds again after idle connections were closed, or connections broke and the peers were dialed again.",
["schedules","fault_sequences","histories"],"all shapes and orders of dials, registrations and lookups, with delays, resets, partitions and idle times",
"The tests never connect two nodes.",
[SW,REM],[("Dial, AddPeerAddress, ConnectionEstablished",SW)],(),["results of registrations, lookups and requests of each node"],"as C24; nodes listen; dials leave from the socket that listens, as with QUIC")
# pure functions: listed, not claimed
p("C29","Ids and errors survive serialisation unchanged",
"An actor id, with or without a peer, and every remote error value decode from their own encoding to an equal value, and two different ids never encode or compare as equal.",
["inputs"],"all ids and error values","Tests sample a few values.",
[ID,E],[("to_bytes/from_bytes, serde implementations",ID)])
p("C30","Derive and attribute macros generate the implementations they document",
"For every supported struct, enum and impl block, the derive and attribute macros expand to code that compiles and behaves as the hand-written implementation shown in their documentation.",
["programs"],"all input programs accepted by the macros","Tests compile a few fixed inputs.",
["macros/src/lib.rs","macros/src/messages.rs","macros/src/derive_actor.rs"],[("proc macros","macros/src/lib.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
