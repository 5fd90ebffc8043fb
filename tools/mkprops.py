#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the property texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
S,I,H,PR,C,F,CP="schedules","inputs","histories","programs","configurations","fault_sequences","crash_points"

p("C01","A failed tell hands back the caller's message and the true cause",
 "Whenever a tell-style request to a local actor (async, immediate, or blocking; bounded or unbounded mailbox; with or without a mailbox timeout) cannot be delivered, the caller gets an error that carries exactly the message it tried to send. The error names the real cause: actor not running when the mailbox is closed, mailbox full when an immediate send finds no room, timeout when the mailbox timeout expires. The call never panics and never reports success for a message that was not enqueued.",
 [S,F,PR],"every message type, every tell variant, every moment at which the actor stops or its mailbox is full",
 "the tests send to live actors with free mailboxes; the failure branches depend on a race with the actor stopping and on type-erased downcasts that only some message types reach",
 ["src/request/tell.rs","src/error.rs","src/mailbox.rs","src/message.rs","src/actor/actor_ref.rs"],
 [("tell request send methods","src/request/tell.rs"),("mailbox error to SendError conversions","src/error.rs")],["return value of the request"])
p("C02","A failed ask delivery hands back the caller's message and the true cause",
 "Whenever an ask-style request to a local actor (async, immediate, or blocking; bounded or unbounded; with or without timeouts) cannot be delivered, the caller gets an error carrying exactly the message it tried to send, naming the real cause (not running, mailbox full, mailbox timeout). The call never panics and never waits for a reply to a message that was not enqueued.",
 [S,F,PR],"every message type, every ask variant, every moment at which the actor stops or its mailbox is full",
 "tests exercise a few of the method/mailbox combinations against live actors; failed delivery needs a race or a full mailbox",
 ["src/request/ask.rs","src/error.rs","src/mailbox.rs"],[("ask request send methods","src/request/ask.rs")],["return value of the request"])
p("C03","An ask resolves to exactly what the handler replied, or to the true failure",
 "An ask that was delivered resolves to the handler's success value on success and to the handler's own error on failure, at the declared types. If the actor drops the request without replying the asker gets an actor-stopped error, if the reply timeout expires it gets a timeout error, and in no case does the asker panic or hang once the reply channel is resolved.",
 [S,PR,F],"every reply type and handler outcome, and every point at which the actor can die between delivery and reply",
 "tests check a few reply types; the channel is type-erased, so a mismatch shows only for a particular reply type and outcome",
 ["src/request/ask.rs","src/reply.rs","src/error.rs"],[("reply channel awaits","src/request/ask.rs"),("reply downcasts","src/reply.rs")],["result of ask"])
p("C04","A deferred ask fails cleanly at enqueue time and resolves like an ask",
 "Enqueueing an ask for later awaiting either returns a pending reply for the message that was enqueued or an error naming the real cause; it never panics. The pending reply, awaited or blocked on, resolves exactly as the corresponding ask would.",
 [S,F,PR],"every message type, every enqueue variant, every moment at which the actor stops or the mailbox is full",
 "no test enqueues to a stopped actor or a full mailbox",
 ["src/request/ask.rs","src/error.rs"],[("enqueue methods and PendingReply","src/request/ask.rs")],["result of enqueue and of the pending reply"])
p("C05","Forwarding transfers the asker's reply right to the target, or returns it",
 "Forwarding a message delivers it to the target together with the original asker's reply channel, so the asker receives exactly the target's reply and nothing from the forwarder. If the forward cannot be delivered, the error returns both the message and the reply channel (or, from within a handler, the asker gets the delivery error); it never panics and never leaves the asker with a wrongly typed answer, however many actors forward in turn.",
 [S,F,PR],"every chain of forwarding handlers, every reply type, every moment at which the target stops",
 "tests forward once to a live actor",
 ["src/request/ask.rs","src/message.rs","src/reply.rs"],[("forward methods","src/request/ask.rs"),("Context::forward","src/message.rs"),("ForwardedReply","src/reply.rs")],["the original asker's result"])
p("C06","Configured timeouts bound exactly the wait they are configured for",
 "A mailbox timeout bounds the wait for mailbox space and a reply timeout bounds the wait for the reply; each is applied with the configured duration, whenever one was configured, and no other deadline is imposed. Immediate (try) variants never wait for mailbox space, and setting one timeout never drops or replaces the other.",
 [I,S,PR],"every request variant and every combination of timeouts",
 "tests cover a few variants with short sleeps and cannot observe a missing bound on an untested variant",
 ["src/request/ask.rs","src/request/tell.rs","src/request.rs"],[("timeout builder methods and send impls","src/request/ask.rs, src/request/tell.rs")],["when the request returns"])
p("C07","Bounded and unbounded mailboxes offer the same queue operations faithfully",
 "Every mailbox operation acts on the underlying queue of the same actor with the meaning its name promises, for bounded and unbounded mailboxes alike: sends enqueue the given signal, immediate sends do not wait, receives dequeue, closing closes, and capacity and liveness queries describe that queue. Weak handles upgrade only to the same queue.",
 [PR,C],"both mailbox kinds and every operation on them",
 "tests use mostly one mailbox kind per feature",
 ["src/mailbox.rs"],[("MailboxSender, WeakMailboxSender, MailboxReceiver","src/mailbox.rs")],["mailbox operations"])
p("C08","Type-erased recipients behave exactly like the actor reference they wrap",
 "Every operation on a recipient or weak recipient (identity, liveness, counts, tell, waiting, stopping, killing) has the effect and result of the same operation on the actor reference it was made from. Downgrading and upgrading preserve the target, and no operation panics.",
 [PR,H],"every operation on every actor and message type",
 "tests use a recipient for tell only",
 ["src/actor/actor_ref.rs"],[("MessageHandler / WeakMessageHandler impls","src/actor/actor_ref.rs")],["Recipient API"])
p("C09","Self-detection: requests from inside an actor to itself are recognised",
 "A request carries the mark of having been sent from within the target actor exactly when it is issued in that actor's own task; current-actor checks on actor references, weak references and recipients answer for that very actor.",
 [PR,S],"every request variant, any task it is issued from",
 "only observable through buffering order during start-up and debug warnings, which tests do not reach for all variants",
 ["src/actor/actor_ref.rs","src/request/ask.rs","src/request/tell.rs","src/actor/spawn.rs"],[("CURRENT_ACTOR_ID scope and is_current","src/actor/spawn.rs, src/actor/actor_ref.rs")],["message order, is_current"])
p("C10","The start hook runs once, before any message, and its failure prevents handling",
 "For every spawned actor the start hook runs exactly once and no message, link notification or stop request is handled before it succeeds. If it fails or panics the actor stops without handling anything, with that failure as its stop reason (or, after a panic, the reason its panic hook gives).",
 [S,F],"every interleaving of sends with start-up, every start-hook outcome",
 "tests sample a few schedules of start-up against early sends",
 ["src/actor/spawn.rs","src/actor/kind.rs"],[("run_actor_lifecycle","src/actor/spawn.rs")],["order of hook and handler calls"])
p("C11","The stop hook runs exactly once at the end of every started actor",
 "Every actor whose start hook succeeded has its stop hook run exactly once, after its last handler, however it ends: graceful stop, all references dropped, kill, link death, handler panic or error. The hook and the shutdown result receive the true stop reason.",
 [S,F,CP],"every way and moment for an actor to end",
 "tests exercise single exits on quiet actors",
 ["src/actor/spawn.rs"],[("run_actor_lifecycle exit paths","src/actor/spawn.rs")],["on_stop calls and reason"])
p("C12","A panic in user code never escapes the actor uncontrolled",
 "A panic in a message handler, start hook or link-died hook is caught, turned into a stop reason or handed to the panic hook, and never takes down the task silently: the panic hook decides between continuing with unchanged queue order and stopping. An error from a message handled by tell is handed to the panic hook in the same way.",
 [F,S],"every hook or handler that panics or errors at any message",
 "tests panic in one handler at a time and mostly with the default panic hook",
 ["src/actor/kind.rs","src/actor/spawn.rs"],[("catch_unwind wrappers","src/actor/kind.rs, src/actor/spawn.rs")],["on_panic calls"])
p("C13","Waiting for start-up always resolves, with the true start-up result",
 "Every call that waits for an actor's start-up returns once the start hook has finished, whether it succeeded or failed, however full the mailbox is and however early the actor is stopped or killed. The result delivered is the start hook's own outcome.",
 [S,F],"every interleaving of waiting, sending, stopping and killing with start-up",
 "tests wait on idle actors only",
 ["src/actor/spawn.rs","src/actor/actor_ref.rs","src/actor/kind.rs"],[("startup semaphore and result","src/actor/spawn.rs, src/actor/kind.rs")],["wait_for_startup*"])
p("C14","Waiting for shutdown resolves after the stop hook, with its result",
 "Every call that waits for an actor's shutdown returns only when the actor's task is over and always returns then; the stop hook's outcome is recorded before waiters are released, so result-bearing waits see it. Reported liveness agrees with the mailbox being open.",
 [S,F],"every interleaving of waiters with termination on every exit path",
 "tests wait on a normal stop only",
 ["src/actor/spawn.rs","src/actor/actor_ref.rs"],[("shutdown result cell and mailbox close","src/actor/spawn.rs, src/actor/actor_ref.rs")],["wait_for_shutdown*","is_alive"])
p("C15","Graceful stop finishes what was queued; dropping all references stops the actor",
 "A graceful stop is queued behind messages already in the mailbox, so each of them is handled before the actor ends with a normal reason. Stopping an already stopped actor reports not running and does not panic. An actor whose references are all gone ends with a normal reason after handling what was queued.",
 [S,H],"every queue content at the moment of stopping",
 "tests stop nearly empty mailboxes",
 ["src/actor/actor_ref.rs","src/actor/spawn.rs","src/actor/kind.rs"],[("stop_gracefully, Signal::Stop, mailbox None","src/actor/actor_ref.rs, src/actor/spawn.rs")],["handled messages, stop reason"])
p("C16","Kill stops handling at once but still runs the full termination protocol",
 "Killing an actor aborts its current handler at its next suspension point, handles no further message, and ends with the killed reason. Everything that accompanies termination (stop hook, link notifications, shutdown result) still takes place.",
 [S,CP],"every moment of the kill",
 "one kill at one moment is tested",
 ["src/actor/spawn.rs","src/actor/actor_ref.rs"],[("Abortable scope","src/actor/spawn.rs")],["on_stop after kill"])
p("C17","Messages are handled one at a time, in mailbox order, none lost or duplicated",
 "An actor handles its messages strictly one after the other with exclusive access to its state, in the order in which they entered the mailbox. Messages that arrive while the actor is starting are kept and handled in arrival order before later ones (messages the actor sends to itself while starting are handled ahead of the kept ones); none is dropped or handled twice, even when handlers of earlier ones fail and the actor continues.",
 [S,F,H],"every schedule of sends around start-up and every failing handler",
 "tests cannot enumerate the start-up window",
 ["src/actor/spawn.rs","src/actor/kind.rs"],[("actor loop and startup buffer","src/actor/spawn.rs, src/actor/kind.rs")],["order of handler calls"])
p("C18","A handler's outcome goes to the asker or to the panic hook, never to both",
 "For each handled message exactly one party learns the handler's outcome: with an asker present, the asker receives the value or the error; without one, a success is discarded and an error is treated as an actor panic. A reply the handler delegated or forwarded is not answered a second time.",
 [PR,F],"every message and reply type, sent by ask or tell",
 "tests look at individual reply types",
 ["src/message.rs","src/reply.rs","src/actor.rs"],[("DynMessage::handle_dyn, Context","src/message.rs")],["asker results, on_panic calls"])
p("C19","A running actor does not keep itself alive",
 "The framework's own machinery around a running actor holds no strong reference to it: when every reference held by users is dropped the actor stops, for task-spawned and thread-spawned actors alike. Links between actors do not keep either side alive.",
 [PR,S],"every spawn method and link structure",
 "tests drop the last reference for one spawn method",
 ["src/actor/spawn.rs","src/actor/kind.rs","src/actor/actor_ref.rs"],[("weak self reference","src/actor/spawn.rs")],["actor stops"])
p("C20","All handles derived from an actor reference denote the same actor",
 "Cloning, downgrading, upgrading, converting to recipients or to remote references yields handles to the same actor: same id, mailbox, abort right, links and start-up/shutdown state. Upgrading a weak handle yields nothing once no strong reference is left.",
 [PR,H],"every chain of conversions",
 "tests check ids of a few handles",
 ["src/actor/actor_ref.rs","src/mailbox.rs"],[("Clone/downgrade/upgrade","src/actor/actor_ref.rs")],["handle API"])
p("C21","Every overridable actor hook is actually used",
 "When an actor overrides a lifecycle hook (start, stop, panic, link died, next-message selection, message dispatch) the framework calls the override at the documented point with the documented arguments and obeys its result; the provided defaults behave as documented.",
 [PR],"every actor that overrides any subset of the hooks",
 "tests override few hooks, never message dispatch",
 ["src/actor.rs","src/actor/kind.rs","src/actor/spawn.rs"],[("Actor trait","src/actor.rs")],["hook calls"])
p("C22","An attached stream arrives as started, items in order, finished",
 "An attached stream delivers to the actor a started notice, then every item in stream order, then a finished notice, each exactly once with the given start and finish values, as long as the actor runs; a delivery failure ends the forwarding with the failed message returned. The attached task does not outlive a stopped actor by more than one pending item.",
 [S,I],"every stream and every moment at which the actor stops",
 "tests attach one short stream",
 ["src/actor/actor_ref.rs","src/message.rs"],[("attach_stream","src/actor/actor_ref.rs")],["StreamMessage sequence"])
p("C23","Every linked actor is told of a death exactly once, with id and reason",
 "When an actor ends, each actor linked to it at that time receives exactly one link-died notification carrying the dead actor's id and its stop reason, whichever way the actor ended, including a failed start. Delivery to one linked actor does not depend on delivery to another.",
 [S,F,CP],"every exit path and link set",
 "tests link two actors and panic one",
 ["src/actor/spawn.rs","src/actor/actor_ref.rs","src/mailbox.rs"],[("link notification at termination","src/actor/spawn.rs")],["on_link_died calls"])
p("C24","Linking and unlinking are symmetric",
 "Linking two actors records each in the other's links and unlinking removes both entries, for the async and the blocking variants alike; linking or unlinking an actor with itself changes nothing. Remote links record the remote peer's identity on the local side and request the converse on the remote side.",
 [H,PR],"every sequence of link and unlink calls",
 "tests link once and only observe one direction",
 ["src/actor/actor_ref.rs"],[("link/unlink family","src/actor/actor_ref.rs")],["link notifications after either side dies"])
p("C25","A link-died notification is processed once and obeys the hook",
 "On a link-died notification the actor forgets the link, calls its link-died hook with the dead actor's id and reason, and stops if and only if the hook asks for it, with the reason the hook gave. The default hook continues after a normal death and stops with a link-died reason otherwise.",
 [F,H],"every reason and hook outcome",
 "tests use the default hook and one reason",
 ["src/actor/kind.rs","src/actor.rs"],[("handle_link_died","src/actor/kind.rs"),("Actor::on_link_died default","src/actor.rs")],["on_link_died, stop reason"])
p("C26","Framework locks never deadlock actors",
 "No sequence of concurrent link, unlink, register, lookup or termination operations can deadlock on the framework's own locks (link tables and registries): no task acquires a second lock of the same kind while holding one unless all tasks use one global order, no thread-blocking lock is held across a suspension point, and none of these locks is held while an actor's hooks or handlers run.",
 [S],"every interleaving of operations by any number of tasks",
 "a deadlock needs a particular interleaving of opposite-direction operations",
 ["src/actor/actor_ref.rs","src/actor/spawn.rs","src/registry.rs","src/remote.rs","src/remote/swarm.rs","src/remote/_internal.rs"],[("links mutex","src/actor/actor_ref.rs"),("registries","src/registry.rs, src/remote.rs")],["operations return"])
p("C27","Actor ids are unique within a process",
 "Every actor spawned in a process receives an id no other actor spawned in that process ever receives, however many threads spawn at the same time.",
 [S],"every interleaving of spawns",
 "uniqueness under concurrency cannot be sampled",
 ["src/actor/id.rs"],[("ActorID::generate","src/actor/id.rs")],["ActorRef::id"])
p("C28","Actor ids survive encoding, and malformed encodings are rejected",
 "Decoding an encoded id yields an equal id with the same peer; at any one moment equal ids hash alike and equality compares both the sequence number and the peer. Decoding arbitrary bytes, directly or through deserialisation, returns an error for malformed input and never panics.",
 [I],"every id and every byte string",
 "tests encode a few ids and decode valid input",
 ["src/actor/id.rs","src/error.rs"],[("to_bytes/from_bytes, serde impls","src/actor/id.rs")],["ActorID API"])
p("C29","The local registry returns exactly what was registered",
 "(Without remoting.) Registering a name makes lookups of that name return that actor at its own type until it is removed or replaced; registering a taken name replaces the entry and reports that it did; looking up at the wrong actor type reports a bad type and never panics or returns another actor; an unknown name yields nothing. Queries of the registry (contains, names, count, clear) describe its content, and actor-reference level register and lookup act on it.",
 [H,PR],"every sequence of register, lookup, remove with any actor types",
 "tests cover one register and lookup",
 ["src/registry.rs","src/actor/actor_ref.rs"],[("ActorRegistry","src/registry.rs")],["registry API"])
p("C30","Error conversions keep the failure kind and its payload",
 "Mapping, flattening, boxing, unboxing, downcasting and converting request errors preserves which failure occurred and carries the original message or error payload along; a conversion that cannot apply returns the original error intact. Converting local errors into remote errors maps each failure kind to its counterpart.",
 [PR,I],"every error variant and payload type through every conversion",
 "tests touch a few variants of a few conversions",
 ["src/error.rs"],[("SendError and RemoteSendError combinators","src/error.rs")],["error values"])
p("C31","Panic and hook errors remain inspectable and are reported",
 "A captured panic or handler error can always be read, even after a reader panicked: a panic as text when it was a string, a handler error by downcast at its own type, any other payload as it is. Errors from start and stop hooks are delivered to waiters and reported to the configured error hook exactly once each.",
 [F,PR],"every payload type and hook outcome",
 "tests read one panic payload",
 ["src/error.rs","src/actor/spawn.rs"],[("PanicError","src/error.rs"),("error hook","src/error.rs, src/actor/spawn.rs")],["PanicError API, error hook"])
p("C32","A reply sender delivers one value unchanged; built-in replies tell the truth",
 "A reply sent through a delegated reply sender reaches the asker as the value or error that was passed, at most once by construction. Every built-in reply type reports success or failure according to its own content: plain values always succeed, results follow their variant, delegated and forwarded replies report no error of their own once handed off.",
 [PR,I],"every reply type and value",
 "tests use a handful of reply types",
 ["src/reply.rs","src/message.rs"],[("Reply impls, ReplySender, Context::reply_sender","src/reply.rs, src/message.rs")],["asker results"])
p("C33","Every command given to the swarm is answered exactly once",
 "Each request a caller makes of the actor swarm (listen, dial, lookup, register, ask, tell, link, unlink and the like) is either answered, kept pending until its network event arrives, or handed to a task that answers it; none is dropped and none answered twice. A pending entry is removed when answered.",
 [S,F],"every command in every connection state",
 "tests do not run a swarm",
 ["src/remote/swarm.rs"],[("SwarmCommand handling","src/remote/swarm.rs")],["SwarmFuture results"])
p("C34","Every inbound peer request receives exactly one response of its own kind",
 "For each request received from a peer the node sends exactly one response, of the kind that belongs to the request (ask gets an ask result, tell a tell result, link a link result, and so on), whether handling succeeds or fails.",
 [I,F,S],"every inbound request and handling outcome",
 "tests do not run two nodes",
 ["src/remote/swarm.rs"],[("inbound request handling","src/remote/swarm.rs")],["network responses"])
p("C35","Remote requests reach the addressed handler with every field intact",
 "A remote ask, tell, link, unlink or link-died notification arrives at the handling function of the remote node with the same actor id, message id, payload, timeouts and immediacy the caller gave; link-type requests keep apart who is the notified and who is the sibling or dead actor at every hop. The stop reason of a link-died notification keeps its kind (a panic error arrives as its text).",
 [I,PR],"every field value of every remote operation",
 "fields of equal type can be swapped or dropped without any test noticing",
 ["src/remote/swarm.rs","src/remote/_internal.rs","src/request/ask.rs","src/request/tell.rs","src/actor/actor_ref.rs"],[("SwarmCommand, SwarmRequest, internal dispatch","src/remote/swarm.rs, src/remote/_internal.rs")],["remote handler arguments"])
p("C36","Responses and failures resolve the caller they belong to, with the true error",
 "A response or failure from the network resolves exactly the pending request with that request id, and with its own content: replies with the reply, each outbound failure kind with its matching remote error. A caller of a remote operation receives decode errors and remote failures as errors, not panics.",
 [I,F,S],"every response, failure kind and order of arrival",
 "tests do not exercise network failures",
 ["src/remote/swarm.rs","src/error.rs","src/request/ask.rs","src/request/tell.rs"],[("outbound response and failure handling","src/remote/swarm.rs")],["remote request results"])
p("C37","Input from peers cannot crash a node and is dispatched only where it fits",
 "Arbitrary message bytes, ids, names and records received from peers produce error results, never a panic of the swarm: unknown actor types, unknown messages, unknown or stopped actors, wrong actor types and undecodable payloads are each reported as such. A message is handled only by a running actor of the addressed type.",
 [I,F],"every byte string a peer can send",
 "tests send none",
 ["src/remote/_internal.rs","src/remote/swarm.rs","src/actor/id.rs"],[("remote dispatch functions, ActorRegistration","src/remote/_internal.rs, src/remote/swarm.rs")],["swarm keeps running, error results"])
p("C38","Losing a peer notifies every actor linked to actors on it",
 "When the last connection to a peer closes, every local actor linked to an actor on that peer is sent a notice that the link died because the peer disconnected, and the link is forgotten when the notice is handled; links to other peers or local actors are untouched. A closed connection while others to the same peer remain signals nothing.",
 [F,S],"every connection history and link set",
 "tests do not run a swarm",
 ["src/remote/swarm.rs","src/actor/actor_ref.rs"],[("connection closed handling","src/remote/swarm.rs")],["on_link_died with peer disconnected"])
p("C39","Remote registration makes an actor addressable, and only while it runs",
 "Registering an actor with the swarm makes that actor addressable by peers under that name at its own type, and lookups return the registered actor with the requested type checked. While peers are connected a registration or unregistration is published to the network; a node on its own decides it by itself. When an actor ends, however it ends, it stops being addressable: its node's entry for it is removed.",
 [H,F],"every registration history and exit path",
 "tests do not register remotely",
 ["src/remote/swarm.rs","src/actor/spawn.rs","src/remote.rs","src/actor/actor_ref.rs"],[("REMOTE_REGISTRY upkeep","src/actor/spawn.rs, src/remote/swarm.rs")],["remote lookup results"])
p("C40","Ambiguous remote ids are refused",
 "If two actor types or two message handlers of one actor share a remote id, building the routing table (on its first use) panics naming the duplicate instead of routing requests to an arbitrary one; distinct ids are all routable and no registered entry is skipped.",
 [PR],"every set of linked-in remote actors and messages",
 "the table is assembled at link time; tests contain no duplicates",
 ["src/remote/swarm.rs","src/remote/_internal.rs","src/remote.rs"],[("distributed slices and lookup maps","src/remote/_internal.rs, src/remote/swarm.rs")],["first dispatch"])
p("C41","An actor pool keeps its size and answers every dispatched message",
 "A pool dispatches each message to a running worker, tries another when one turns out to be dead, and passes the worker's reply or error to the asker; with no live worker the asker gets a not-running error with its message back. A worker that dies is replaced by a fresh linked worker in the same slot, and a broadcast reaches every worker and reports each result.",
 [S,F,H],"every pattern of worker deaths",
 "tests use live workers",
 ["actors/src/pool.rs"],[("ActorPool","actors/src/pool.rs")],["asker results, pool size"])
p("C42","A broker delivers each message to exactly the matching subscriptions",
 "A published message is delivered once to every subscription whose topic pattern matches and to no other, under each delivery strategy; one recipient's failure does not keep others from being served. Subscriptions end only when unsubscribed or when their recipient is gone, and every subscription of that recipient under the named scope goes.",
 [H,F,I],"every history of subscriptions, deaths and publishes",
 "tests check a few patterns",
 ["actors/src/broker.rs"],[("Broker","actors/src/broker.rs")],["delivered messages"])
p("C43","A message bus delivers each message to every registered actor for its type",
 "A published message is delivered once per registration to every recipient registered for its type and to no other, under each delivery strategy; one recipient's failure does not keep others from being served. Registrations end only when unregistered or when the recipient is gone.",
 [H,F,PR],"every history of registrations, deaths and publishes",
 "tests check a few recipients",
 ["actors/src/message_bus.rs"],[("MessageBus","actors/src/message_bus.rs")],["delivered messages"])
p("C44","A pub-sub delivers each message to every subscriber whose filter accepts it",
 "A published message is delivered once to each subscriber whose filter accepts it and to no other; one subscriber's failure does not keep others from being served. Subscribers are removed only when gone.",
 [H,F,I],"every history of subscriptions, deaths and publishes",
 "tests check a few subscribers",
 ["actors/src/pubsub.rs"],[("PubSub","actors/src/pubsub.rs")],["delivered messages"])
p("C45","Generated message types call the annotated method with the sender's fields",
 "For every method turned into a message, the generated message carries one field per parameter and its handling calls exactly that method on the actor with those fields in parameter order, awaits it if it is async, and replies with its return value.",
 [PR],"every method signature the macro accepts",
 "tests expand a few signatures; same-typed parameters can be swapped unnoticed",
 ["macros/src/messages.rs"],[("expand_msg_impls","macros/src/messages.rs")],["handler calls"])
p("C46","Remote handlers are registered under their own ids and functions",
 "Each remote message annotation registers exactly one entry keyed by the actor type's remote id and the given message id, whose ask, immediate ask, tell and immediate tell entries dispatch that message to that actor type; each remote actor derive registers exactly one entry under its id with its own link, unlink and link-died functions. Ids default to the type's full path.",
 [PR],"every actor and message type using the macros",
 "the table is assembled at link time and never invoked by tests",
 ["macros/src/remote_message.rs","macros/src/derive_remote_actor.rs","src/remote/_internal.rs"],[("linkme registrations","macros/src/remote_message.rs, macros/src/derive_remote_actor.rs")],["REMOTE_MESSAGES, REMOTE_ACTORS"])
p("C47","Derived actors and replies behave as documented",
 "Deriving an actor yields the default hooks and the given or type-derived name; deriving a reply yields a reply that always succeeds with the value itself. Generic parameters and where clauses are preserved.",
 [PR],"every type the derives accept",
 "tests derive on a few types",
 ["macros/src/derive_actor.rs","macros/src/derive_reply.rs"],[("derive(Actor), derive(Reply)","macros/src/derive_actor.rs, macros/src/derive_reply.rs")],["Actor::name, Reply"])
p("C48","Spawn variants all start the given actor with the given mailbox and link",
 "Every way of spawning (plain, with explicit mailbox, linked, in a thread, prepared) runs exactly the given actor on exactly the given mailbox (by default a bounded one of capacity 64), and returns a reference to it. Linked variants establish the link before the actor can run, so no death goes unnoticed; a prepared actor's reference works before it is spawned.",
 [PR,S],"every spawn method",
 "tests use two of the variants",
 ["src/actor/spawn.rs","src/actor.rs"],[("spawn functions, PreparedActor","src/actor/spawn.rs")],["ActorRef, links"])
# properties of the system that this technique cannot decide
p("C60","Remote messaging is delivered at most once and in order per sender",
 "Messages sent by one node to one remote actor are handled at most once each and in the order sent while the connection lasts.",
 [S,F,H],"every network schedule","needs the transport's behaviour",["src/remote/swarm.rs"],[("libp2p request-response","src/remote/swarm.rs")])
p("C61","A registered name becomes visible to all connected nodes",
 "After a successful registration every connected node's lookup eventually finds the actor, and after it ends eventually does not.",
 [S,F,H],"every network schedule","eventual propagation is a property of the DHT run",["src/remote/swarm.rs"],[("Kademlia records","src/remote/swarm.rs")])
p("C62","A pool gives each message to a least busy running worker",
 "Each message dispatched through a pool goes to a worker which, when the choice is made, has no more outstanding pool messages than any other worker found running. A message counts as outstanding for its worker from when it is dispatched or broadcast to it until that worker's actor has answered it or the delivery has failed; it counts for no other worker.",
 [H,S],"every dispatch history","unit tests send to idle workers",["actors/src/pool.rs"],[("least-connections choice","actors/src/pool.rs"),("the worker's handler","actors/src/pool.rs")])
p("C63","An actor makes progress while its mailbox is non-empty",
 "An actor with queued messages whose handlers terminate eventually handles each of them, and a stop, kill or timeout takes effect within bounded time.",
 [S],"every fair schedule","liveness under the async runtime's scheduler",["src/actor/spawn.rs"],[("tokio scheduling","src/actor/spawn.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
ids=[x["id"] for x in P]; assert len(ids)==len(set(ids))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(out,"w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
