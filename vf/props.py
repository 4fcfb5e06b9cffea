"""The properties: what they say, where they are anchored, how they are run.
Single source of properties.jsonl and MANIFEST.json (tools/generate.py)."""

PROPS = {}


def P(pid, title, statement, over, text, why, files, mech, harness, passes, rule, observe, oracle,
      assumptions=(), must=(), state=(), **k):
    assert len(title) <= 80, (pid, len(title))
    PROPS[pid] = dict(
        title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(text.split()),
        why=" ".join(why.split()), files=files, mechanism=mech, state=list(state), observe=observe,
        harness=harness, case=pid, passes=passes, rule=" ".join(rule.split()),
        oracle=" ".join(oracle.split()), assumptions=[" ".join(a.split()) for a in assumptions],
        must_observe=list(must), **k)


def run(flavour, quick, thorough, **k):
    return dict(flavour=flavour, cases=(quick, thorough), **k)


RAWD = "src/lamppost/messages/RawDatagram.cpp"
RAWDH = "include/lamppost/messages/RawDatagram.h"
DGRAM = "include/lamppost/messages/Datagram.h"
DGRAMC = "src/lamppost/messages/Datagram.cpp"
DATA = "include/lamppost/messages/Data.h"
MSG = "src/lamppost/messages/Message.cpp"
BUS = "src/lamppost/bus/Bus.cpp"
BUSH = "include/lamppost/bus/Bus.h"
SUB = "src/lamppost/bus/Subscriber.cpp"
PUB = "src/lamppost/bus/Publisher.cpp"
CONS = "src/lamppost/bus/ActionConsumer.cpp"
PROV = "src/lamppost/bus/ActionProvider.cpp"
LP = "src/lamppost/LampPost.cpp"
PM = "src/lamppost/plugin/PluginManager.cpp"
PT = "src/lamppost/plugin/PluginTemplate.cpp"
PI = "src/lamppost/plugin/PluginInstance.cpp"
PIH = "include/lamppost/plugin/PluginInstance.h"
LINK = "src/plugins/link/Link.cpp"
SYSI = "src/plugins/sysinfo/SysInfo.cpp"
FS = "src/lamppost/Filesystem.cpp"

GEN = "The cases are what the seeded generators make; nothing outside them was looked at."
SCHED = """Schedules are those the operating system and the injected delays (function entry and exit of the code under
test) produced; absence of a violation is no statement about other schedules."""

# ================================================================ structured data
P("D01", "Structured data behaves like a plain tree of values under any operations",
  """Whatever sequence of reads, writes, additions, removals and replacements is applied to a datagram, its content as
  seen through its interface is that of an ordinary tree of lists, dictionaries and typed values under the same
  sequence. Operations that make no sense for the kind of element (wrong type, missing key, index out of bounds)
  are refused with the documented exception and change nothing.""",
  ["inputs", "histories"],
  "all finite sequences of operations on datagrams, including references shared between trees",
  """The tests apply a handful of fixed operations to one or two fixed datagrams; the guarantee is over all sequences,
  kinds and values, and over elements reached by several references.""",
  [RAWD, RAWDH, DGRAM, DGRAMC, DATA],
  [("type checked access of elements", RAWD), ("typed values", DATA), ("exceptions for misuse", "src/lamppost/exceptions")],
  "h_data", [run("asan", 5000, 100000)],
  """One case is a random history of about 40 operations on up to a few trees with shared elements; after every
  operation the outcome and every tree are compared with a reference model. Counted as distinct by a hash of the
  operations and the resulting content.""",
  ["return values and exceptions of the datagram interface", "content of every tree after every operation"],
  "online comparison with a reference model of value trees (in lock step), AddressSanitizer and UBSan underneath",
  [GEN], ["operations", "states_compared", "refusals_checked"])

P("D02", "Copies of structured data are equal in content; equality means equal content",
  """Two datagrams, messages or values compare equal exactly when their content (structure, types and values) is
  equal, symmetrically, and whatever way they were made. A copy made for storing does not change when the
  original is replaced or assigned, and the other way round.""",
  ["inputs", "histories"],
  "all pairs of trees, and pairs that differ in exactly one element, in all ways of making a copy",
  """The tests compare a few fixed datagrams; a comparison that ignores one kind of element or one position is right on
  all of them.""",
  [RAWD, DGRAM, DATA, MSG],
  [("recursive comparison", RAWD), ("comparison of messages", MSG), ("typed value comparison", DATA)],
  "h_data", [run("asan", 700, 12000)],
  """One case makes random trees and their single-change mutants and compares every pair in both directions, through
  every way of copying; distinct by a hash of the trees.""",
  ["results of the equality operators", "content after changing the other copy"],
  "reference model: equality of the trees the datagrams were made from; sanitizers underneath",
  [GEN, "NaN values are left out of equality."], ["comparisons", "equalities", "independence_checks"])

P("D03", "Path lookup gives the element at the path, or else the default",
  """Looking up a value by a path of keys separated by slashes gives exactly the value stored there if it exists and
  has the requested type, and exactly the given default otherwise. A lookup never changes the datagram and never
  fails, whatever the path and whatever elements lie on the way.""",
  ["inputs"],
  "all trees and all paths: existing, missing, running through values or lists, with odd separators",
  "The tests look up a few fixed paths in fixed datagrams of dictionaries.",
  [DGRAM, RAWD, RAWDH],
  [("path splitting and descent", DGRAM), ("typed retrieval with default", RAWDH)],
  "h_data", [run("asan", 8000, 120000)],
  """One case looks up about 40 paths, of each type, in a random tree: paths taken from the tree, extended, cut, with
  wrong types and odd separators. Distinct by a hash of tree and paths.""",
  ["values returned by lookups", "content of the datagram afterwards"],
  "reference model: descent in the model tree; sanitizers underneath",
  [GEN, "Paths that end in an empty component are only required not to fail."],
  ["lookups_hit", "lookups_missing", "lookups_inner_node", "nameless_components", "special_keys"])

P("D04", "JSON documents are read exactly; damaged ones give an empty result",
  """Every well-formed JSON document is read into a datagram of exactly the document's structure, types and values.
  A document that is cut short or has mismatched brackets gives an empty datagram, and no text of any kind makes
  reading fail, crash or produce a datagram that cannot be used.""",
  ["inputs"],
  "all JSON documents up to the size and depth limits of the parser, and all damaged variations of them",
  "The tests read a few small fixed documents; configuration files and their mistakes are arbitrary text.",
  [DGRAMC, RAWD],
  [("conversion of parsed elements", RAWD), ("handling of parse errors", RAWD)],
  "h_data", [run("asan", 800, 16000)],
  """One case writes a random tree as JSON text with random formatting and escapes, reads it and compares; then cuts,
  splices and damages the text in about 30 ways. Distinct by a hash of the text.""",
  ["content of the datagram read", "that damaged text gives an empty datagram"],
  "the tree the text was written from; sanitizers underneath",
  [GEN, "Numbers are written so that they have one exact value as int or double.",
   "Text that json-c accepts although it is not strict JSON is only required to be usable."],
  ["documents", "truncations", "mismatched_brackets", "damaged_documents"])

P("D05", "Messages survive the wire unchanged",
  """A message that is serialized and deserialized again has the same sender, topic and content, for every content
  that can be built, and compares equal to the original. Serializing does not change the message, and two messages
  that differ never become equal on the wire.""",
  ["inputs"],
  "all messages: all trees, strings of any bytes and length, all integers and doubles, empty and large containers",
  "The tests send two fixed messages through serialization; encodings fail at edge values and shapes they do not use.",
  [MSG, RAWD, "schemas/FBDatagram.fbs", "schemas/FBMessage.fbs", "src/lamppost/data/RawBytes.cpp"],
  [("encoding of elements", RAWD), ("decoding of elements", RAWD), ("message envelope", MSG)],
  "h_data", [run("asan", 800, 16000)],
  """One case serializes and deserializes a random message (and a mutant of it, and a second trip) and compares field
  by field. Distinct by a hash of the message.""",
  ["fields and content of the deserialized message"],
  "the tree the message was made from; sanitizers underneath",
  [GEN], ["round_trips", "pairs_kept_apart"])

P("D06", "Hostile bytes never do more than fail to decode",
  """Decoding any sequence of bytes as a message either gives a usable message or is refused with an exception of the
  system; it never reads outside the bytes, never uses memory or stack out of proportion to them, and never fails
  in another way. A message accepted from such bytes keeps its content when encoded and decoded again.""",
  ["inputs"],
  "all byte sequences: random, cut, spliced, bit-flipped, with edited offsets and crafted nesting",
  "The tests decode only bytes the system itself just encoded.",
  [MSG, RAWD, "src/lamppost/data/RawBytes.cpp"],
  [("verification before access", MSG), ("refusal by exception", MSG)],
  "h_data", [run("asan", 1000, 30000)],
  """One case makes about 30 byte sequences from a valid encoding (bit flips, edited words and vtables, cuts, splices,
  crafted tables, cycles and repeated references) and decodes each. Distinct by a hash of the sequences.""",
  ["outcome of decoding", "memory accesses (AddressSanitizer)", "peak memory"],
  "AddressSanitizer, UBSan and a memory limit; only documented exceptions may leave the decoder; stability of accepted messages",
  [GEN], ["buffers", "accepted", "refused"])

P("D07", "Byte buffers hold exactly what was put in",
  """A byte buffer contains exactly the bytes appended to it, in order, at every moment, and owns them: neither the
  source of the bytes nor another buffer changes it or is changed by it. Making a buffer from nothing is refused,
  appending nothing changes nothing.""",
  ["inputs", "histories"],
  "all sequences of appends and uses of buffers, of all sizes including none",
  "The tests append once or twice to one buffer.",
  ["src/lamppost/data/RawBytes.cpp", "include/lamppost/data/RawBytes.h"],
  [("growing and owning storage", "src/lamppost/data/RawBytes.cpp")],
  "h_data", [run("asan", 20000, 400000)],
  """One case is a random history of operations on several buffers, each compared with a model after every operation.
  Distinct by a hash of the history.""",
  ["size and content after every operation"], "reference model of byte strings; AddressSanitizer underneath",
  [GEN], ["operations", "states_compared"])

P("D08", "The sender of a message records its route, name by name",
  """Prepending a name to a message's sender and removing it again, in any order and across the wire, leaves exactly
  the route that results from these steps. A message is said to come through a name exactly when that name is the
  last one prepended and not removed, never because one name begins like another.""",
  ["inputs", "histories"],
  "all sequences of prepending, removing and querying names, including names that are prefixes of others",
  "The tests prepend and remove one fixed name.",
  [MSG, "include/lamppost/messages/Message.h"],
  [("prefix comparison including the separator", MSG)],
  "h_data", [run("asan", 24000, 360000)],
  """One case is a random history over a small pool of similar names; after every step the sender and the answers for
  all names are compared with a stack of names, or, where names have several parts themselves, with the text. Distinct by a hash of the history.""",
  ["sender text", "answers to came-through queries"], "reference model: a stack of names", [GEN],
  ["prepends", "removals_effective", "queries", "wire_hops", "removals_of_several_parts"])

P("D09", "Printing shows the content, all of it, and changes nothing",
  """A datagram or message written to a stream shows all of its content: every value in its place, lists in their order,
  dictionaries with their keys, strings in quotes, nothing as null, a message with sender and topic. Equal content
  prints equally. Printing changes neither the datagram nor how the stream prints what follows.""",
  ["inputs"],
  "all contents, and streams of any precision",
  "The tests print nothing, or fixed values.",
  [RAWD, "include/lamppost/messages/RawDatagram.h", "include/lamppost/messages/Message.h"],
  [("printing of a datagram", "include/lamppost/messages/RawDatagram.h"), ("printing of a message", "include/lamppost/messages/Message.h"), ("printing of a value", "include/lamppost/messages/Data.h")],
  "h_data", [run("asan", 3000, 60000)],
  """One case is a random tree, half the time printed with another precision, alone and as a message. Distinct by a hash
  of the tree.""",
  ["the text printed", "the datagram afterwards"], "differential oracle: a printer of the model tree; AddressSanitizer and UBSan",
  [GEN, "Streams with other flags than precision are left out."], ["texts", "values_printed"])

# ================================================================ the bus
BUSFILES = [BUS, BUSH, SUB, PUB]
P("B01", "Every published message reaches every matching subscriber exactly once",
  """Every message published on a bus of a running tree reaches each subscriber of the tree whose topic pattern matches
  and that exists from before the publish until after the delivery, exactly once, wherever in the tree publisher and
  subscriber are. It reaches nobody else, and nothing is delivered that nobody published.""",
  ["schedules", "inputs", "programs"],
  """all interleavings of publishing, subscribing and creating busses from several threads and from handlers, all tree
  shapes, topics and patterns""",
  """The tests publish single messages on one or two busses from one thread; loss and duplication depend on
  interleavings of publishing with distribution and with changes of the tree.""",
  BUSFILES + ["src/lamppost/utilities/AntMatcher.cpp"],
  [("queue of the root bus under its lock", BUS), ("distribution to subscribers and child busses", BUS), ("pattern matching", "src/lamppost/utilities/AntMatcher.cpp")],
  "h_bus", [run("plain", 160, 3200)],
  """One case is a tree of up to 12 busses with 1-5 threads publishing, subscribing and creating busses, and handlers
  publishing in turn, under injected delays; every fifth sends messages that are alike in everything, now and then
  more than a hundred thousand, and counts them. Distinct by a hash of the delivery history.""",
  ["publish calls and returns, handler entries and exits, at the client boundary, on one logical clock"],
  "offline checker: required deliveries by call/return order, no duplicates, no misrouting, no inventions",
  [GEN, SCHED, "A pattern matches the equal topic only, except /**/*, which matches every topic: this is what the code supports today."],
  ["messages", "deliveries", "required_deliveries", "restarts", "alike_deliveries"])

P("B02", "All subscribers see messages in one order that respects cause and time",
  """Any two subscribers that receive the same two messages receive them in the same order. A message whose publishing
  returned before another's began is delivered first, and a message published in reaction to another is delivered
  after it.""",
  ["schedules", "programs"],
  "all interleavings of concurrent publishers on all busses of a tree, including publishing handlers",
  "The tests use one publisher and never compare orders; reordering needs concurrency or bursts.",
  BUSFILES,
  [("one queue for the whole tree", BUS), ("first in first out distribution", BUS)],
  "h_bus", [run("plain", 160, 3200)],
  """One case is a tree with 2-6 publishing threads and bursts, under injected delays; every subscriber's sequence is
  compared with one rank order; every fifth piles up to thousands of messages behind a slow handler or a bus not
  started. Distinct by a hash of the order.""",
  ["publish calls and returns, handler entries, on one logical clock"],
  "offline checker: common total order, real-time order, causal order",
  [GEN, SCHED], ["order_comparisons", "real_time_pairs", "causal_pairs", "backlog_messages"])

P("B03", "Subscribers get what was published, attributed, and cannot alter it for others",
  """Every handler is given the topic, the name of the bus published on and the content at the time of publishing,
  exactly. What a handler or the publisher does afterwards with its datagram by replacing or rebuilding it is not
  seen by anybody else.""",
  ["inputs", "schedules"],
  "all contents, all topics, all numbers of receivers, handlers that assign to what they were given",
  "The tests publish one string and look at it in one handler.",
  BUSFILES + [MSG, DGRAM, RAWD],
  [("message by value", BUS), ("copy of the datagram", DGRAM)],
  "h_bus", [run("asan", 130, 2600)],
  """One case publishes random trees from several threads to many subscribers, some of which change what they receive;
  each delivery is compared with the published tree. Distinct by a hash of the contents delivered.""",
  ["topic, sender and content seen by every handler"],
  "the tree each message was made from; AddressSanitizer underneath",
  [GEN, SCHED], ["contents_compared", "attributions_compared"])

P("B04", "After deletion returns, a subscriber is never called and a publisher is mute",
  """Once deleting a subscriber has returned, none of its handlers runs or will start, even if messages were queued or
  being delivered at the time, so what the handler uses can be destroyed. Once deleting a publisher has returned,
  publishing with it has no effect. Nobody else's messages are affected, and containment queries tell the truth.""",
  ["schedules", "histories"],
  "all interleavings of deletions with delivery, publishing and creation on other threads",
  "The tests delete one subscriber of an idle bus.",
  BUSFILES,
  [("deletion waits for delivery in progress", BUSH), ("callback cleared on deletion", SUB), ("publishing function cleared", PUB)],
  "h_bus", [run("asan", 130, 2600)],
  """One case deletes subscribers (freeing what their handlers use) and publishers while several threads publish and
  handlers run slowly. Distinct by a hash of the delivery history.""",
  ["handler entries and exits against deletion returns", "accesses to freed handler state (AddressSanitizer)"],
  "offline checker over the recorded history, AddressSanitizer on the state the handlers own",
  [GEN, SCHED], ["subscriber_deletions", "publisher_deletions", "deletions_overlapping_a_handler", "publishes_with_deleted_publishers"])

P("B05", "Stopping a running bus always works, once and for all, and it can run again",
  """Once a root bus has been told to stop, from any thread, handler or at any moment since it was created, running
  it returns after at most the message being delivered, however many are waiting or still come, and no handler runs
  after that. A bus that was stopped can be started again and then delivers
  as before.""",
  ["schedules", "histories"],
  "stops before, during and after entering the loop, from handlers, from several threads, repeated, under load",
  "The tests stop an idle bus after a fixed delay.",
  BUSFILES,
  [("stop flag checked by loop and distribution", BUS), ("stop requests remembered", BUS)],
  "h_bus", [run("plain", 400, 8000)],
  """One case runs and stops a bus three times, each in one of eight ways (one of them with handlers that never let the queue run dry), under injected delays. Distinct by a hash of
  ways and outcomes.""",
  ["return of the running call", "handler entries after it and after the stop request", "deliveries of the next run"],
  "online monitor with a bound on progress (a bus that stays idle in its loop after a stop), order of events on one clock",
  [GEN, SCHED], ["stops", "stops_followed", "stops_mode_7", "waiting_before_start", "further_runs", "subscribers_asked_in_further_runs", "handlers_before_stop"])

P("B06", "Using busses from many threads is free of data races and memory errors",
  """Busses, publishers and subscribers can be created, used, given new callbacks, looked up, deleted and detached from
  any number of threads at once, while the bus is running, without a data race, a deadlock or an access to memory
  that is not theirs.""",
  ["schedules", "programs"],
  "all interleavings of all public operations of busses and participants",
  "The tests use one thread besides the bus and no detector; races stay invisible until they corrupt.",
  BUSFILES + ["include/lamppost/bus/Subscriber.h", "include/lamppost/bus/Publisher.h"],
  [("one lock per collection", BUSH), ("locks of participants", SUB), ("publishing lock", BUS)],
  "h_bus", [run("tsan", 600, 8000), run("asan", 150, 2500)],
  """One case is about 5 threads doing random operations on a shared tree of busses, ended in order or torn down under
  load. Distinct by a hash of the operations.""",
  ["every memory access and synchronization (ThreadSanitizer, AddressSanitizer)"],
  "ThreadSanitizer happens-before detection, AddressSanitizer, watchdog for deadlocks",
  [GEN, SCHED, "Operations on one bus from a handler of that same bus are limited to publishing (see DESIGN.md)."],
  ["operations", "orderly_ends", "teardowns_under_load"])

P("B07", "A detached or destroyed bus is inert, whatever is still referenced",
  """Once detaching a bus has returned, nothing published on it or below it is delivered, while the rest of the tree
  works on; attaching new children to it is refused. Publishers, subscribers and busses that outlive the tree can be
  used and released without effect and without touching what is gone.""",
  ["schedules", "histories"],
  "detaching and destroying at any moment, under load, with references to any part kept",
  "The tests destroy an idle bus in the right order.",
  BUSFILES,
  [("publishing function cleared under its lock", BUS), ("participants reset on destruction", BUS)],
  "h_bus", [run("asan", 300, 6000)],
  """One case detaches part of a tree, publishes above and below, destroys the root under load or idle and goes on
  using what was kept. Distinct by a hash of the events.""",
  ["deliveries after detaching", "accesses to destroyed busses (AddressSanitizer)"],
  "order of events on one clock; AddressSanitizer",
  [GEN, SCHED], ["published_below_detached", "published_elsewhere", "destroyed_under_load", "kept_busses_used"])

P("B08", "Child bus names are unique per parent and find the bus they name",
  """Of any number of concurrent attempts to create a child bus with the same name on one parent exactly one succeeds,
  and the others are refused; looking the name up gives that very bus from then on. Names are compared exactly,
  absent names and empty names are refused, and equal names under different parents are different busses.""",
  ["schedules", "inputs"],
  "all interleavings of creations and lookups, all names",
  "The tests create two names one after the other.",
  [BUS, BUSH, "src/lamppost/Identifiable.cpp"],
  [("check and insert under one lock", BUS), ("exceptions for duplicate and missing names", BUS)],
  "h_bus", [run("plain", 4000, 80000)],
  """One case lets several threads create and look up the same random names on several parents at once, then checks
  all of them, also once nobody refers to the busses any more. Distinct by a hash of names and winners.""",
  ["outcome of every creation and lookup"], "offline checker: one winner per name, identity of lookups",
  [GEN, SCHED], ["names", "duplicates_refused", "lookups_while_creating", "absent_lookups", "unreferenced_children"])

P("B09", "A message published to an idle bus is delivered without waiting for another",
  """A message published while the bus is idle, or just about to become idle, wakes the bus and is delivered without
  any further publish and without waiting for a periodic check. No message stays in the queue of a running bus while
  nothing else happens.""",
  ["schedules"],
  "all interleavings of publishing with the bus going to sleep",
  "The bus looks at its queue periodically, which hides a lost wakeup behind a delay no test measures.",
  [BUS, BUSH],
  [("notification after queueing under the lock", BUS), ("predicate of the wait", BUS)],
  "h_bus", [run("plain", 500, 10000)],
  """One case publishes single messages from 1-4 threads to a bus that keeps falling asleep; the periodic timeout of
  the bus is stretched to many seconds, so that only a wakeup delivers. Distinct by a hash of the interleaving.""",
  ["waits of the bus thread (interposed)", "delivery of every message"],
  "online monitor: every message is delivered while no timed wait is allowed to expire",
  [GEN, SCHED, "The wait of the bus is the C library's condition variable wait, which the harness interposes."],
  ["publishes_to_idle_bus", "stretched_waits"])

P("B10", "Handlers run one at a time on the bus's thread; publishing never waits for them",
  """All handlers of a bus tree run one after the other on the thread that runs the root bus, so they need no locks
  among themselves. Publishing returns without waiting for handlers, from any thread and from within a handler, and
  what a handler publishes is delivered after the handler has returned.""",
  ["schedules", "programs"],
  "all interleavings of publishing with handlers that take arbitrarily long",
  "The tests have single, immediate handlers.",
  BUSFILES,
  [("queueing instead of direct delivery", BUS), ("one distributing thread", BUS)],
  "h_bus", [run("plain", 500, 10000)],
  """One case either records all handler intervals of a free running world, or holds one handler at a gate while
  other threads publish. Distinct by a hash of the history.""",
  ["thread, entry and exit of every handler", "return of publish calls during a handler"],
  "offline checker for overlap and thread; online monitor: publishes return while the gate is closed",
  [GEN, SCHED], ["handler_runs", "publishes_during_a_handler", "gated_worlds", "free_running_worlds"])

P("B11", "Handlers can be replaced at any moment; every message meets exactly one",
  """The handler of a subscriber can be replaced or taken away at any moment, by any thread and by the handler itself
  while it runs, without waiting for a handler that runs and without losing or repeating a message. A message
  published after the replacement has returned meets the new handler only, or none if there is none. A replaced
  handler, with what it holds, stays alive while it runs and is released then.""",
  ["schedules", "histories"],
  "all interleavings of replacing with publishing and delivery, all numbers of replacements",
  "The tests set a handler once, before anything is published.",
  [SUB, "include/lamppost/bus/Subscriber.h", BUS],
  [("handler copied under the lock, run without it", SUB), ("handlers swapped under the lock", SUB)],
  "h_bus", [run("asan", 300, 5000)],
  """One case is up to four subscribers whose numbered handlers are replaced by threads, by themselves or for a time by
  none, while up to three threads publish. Distinct by a hash of which handler met which message.""",
  ["which handler met which message", "calls and returns of publishing and replacing", "lifetime of what handlers hold"],
  "offline checker: exactly once, no message behind its handler's successor, release; AddressSanitizer; watchdog for deadlocks",
  [GEN, SCHED], ["handler_runs", "replacements_by_threads", "replacements_from_within", "messages_for_nobody", "handlers_released", "messages_required"])

P("B12", "Busses that do not belong together do not affect each other",
  """Any number of root busses, each with its children, can be used in one program at the same time: no message, request
  or answer of one ever appears on another, under whatever equal names and topics, and a bus that is held up in a
  handler, stopped, restarted, not run or detached neither stops nor holds up the others.""",
  ["schedules", "histories"],
  "all numbers of busses used side by side, and all that can happen to one of them",
  "The tests use one root bus at a time.",
  [BUS, BUSH, CONS, PROV],
  [("state of a bus", BUSH), ("publishing function handed to child busses", BUS), ("open requests of a consumer", CONS)],
  "h_bus", [run("asan", 300, 5000), run("tsan", 60, 900)],
  """One case is two to four root busses with equally named children, topics and actions, used by up to four threads
  at once, while one of them mostly is out of order. Distinct by a hash of all deliveries.""",
  ["every delivery, request and answer on each bus", "whether the busses run"],
  "offline checker: nothing foreign, exactly once, all there on the busses in order; ThreadSanitizer and AddressSanitizer",
  [GEN, SCHED], ["deliveries_required", "requests", "busses_side_by_side", "held_up", "restarted", "stopped_and_detached"])

# ================================================================ actions
ACTFILES = [CONS, PROV, BUSH, "include/lamppost/bus/ActionConsumer.h", "include/lamppost/bus/ActionProvider.h"]
P("A01", "Each asynchronous request gets its own response, exactly once",
  """The callback of every asynchronous request that a provider answers is called exactly once, with a response made
  for that very request, however many requests are open, in whatever order and how often providers answer. Providers
  are given exactly the content that was requested.""",
  ["schedules", "histories"],
  "all numbers of consumers, providers, open requests and orders of answering, and requests made from callbacks",
  "The tests make one request and answer it at once.",
  ACTFILES + ["include/lamppost/utilities/Uuid.h"],
  [("open requests by invocation id", CONS), ("answers carry the invocation id", PROV)],
  "h_action", [run("plain", 300, 4000)],
  """One case lets several consumers and threads send numbered requests to several providers that answer at once,
  later, repeatedly and out of order. Distinct by a hash of the history.""",
  ["requests seen by providers, responses sent, callbacks"],
  "offline checker: correlation by number, exactly once, content compared with the request tree",
  [GEN, SCHED], ["requests", "responses_checked", "duplicate_responses", "requests_from_callbacks", "requests_open_at_once", "empty_responses", "bare_responses"])

P("A02", "A blocking request returns its own response, or nothing after its timeout",
  """A blocking request returns the response made for it as soon as it is there. It returns an empty datagram only if
  no response came within the timeout given, and never before that time has passed.""",
  ["schedules", "fault_sequences"],
  "all timings of response and timeout, concurrent requests on one consumer, spurious wakeups of the wait",
  "The tests make one answered request and one unanswered one.",
  ACTFILES,
  [("wait with predicate for the response", CONS)],
  "h_action", [run("plain", 600, 8000)],
  """One case makes blocking requests from several threads with timeouts short and long, answered or not, while the
  waits are woken spuriously. Distinct by a hash of outcomes.""",
  ["return value and duration of every request", "injected spurious wakeups"],
  "online monitor: correlation by number, no empty result of an answered request, no early timeout",
  [GEN, SCHED, "Spurious wakeups are injected at the C library's condition variable wait."],
  ["answered", "timed_out", "spurious_wakeups", "empty_responses_waited_for"])

P("A03", "Late, repeated and unknown responses are harmless and leave nothing behind",
  """Responses that come after the timeout, more than once, or for requests nobody made change nothing: no callback is
  called for them, open requests are still answered correctly, and nothing crashes. What the system keeps for a
  request is released once it is answered or has timed out.""",
  ["schedules", "fault_sequences"],
  "all timings and numbers of late, repeated and unknown responses, also after the bus is gone",
  "The tests have no late, repeated or unknown response.",
  ACTFILES,
  [("removal of the open request on response and on timeout", CONS)],
  "h_action", [run("asan", 60, 1500)],
  """One case mixes requests that time out with responses sent late, repeatedly and for unknown ids, then measures
  what is left; then hands in responses to one request from several threads at once. Distinct by a hash of
  outcomes.""",
  ["callbacks and results", "allocated bytes over repeated timeouts", "references to callbacks"],
  "correlation monitor, live byte counts over repeated rounds, AddressSanitizer",
  [GEN, SCHED], ["late", "in_time", "late_responses", "unknown_responses", "timed_out_for_memory", "concurrent_responses"])

P("A04", "Anything published on an action's topics is tolerated",
  """Messages of any content published on an action's request and response topics by anybody neither end the bus nor
  disturb requests made before, between and after them. Only messages that carry an invocation id reach a provider.""",
  ["inputs"],
  "all contents: no datagram, values, lists, dictionaries with wrong, missing and surplus entries",
  "The tests only send what the action classes themselves make.",
  ACTFILES,
  [("malformed messages are ignored", BUSH)],
  "h_action", [run("asan", 100, 2500)],
  """One case publishes about 50 malformed or foreign messages between numbered requests. Distinct by a hash of the
  messages.""",
  ["that the bus keeps running", "every request between is answered"],
  "online monitor of bus thread and requests; AddressSanitizer and UBSan",
  [GEN], ["malformed_or_foreign_messages", "requests_between", "wellformed_foreign_requests"])

P("A05", "Invocation identifiers never repeat, across threads and processes",
  """No two requests ever get the same invocation identifier, whether they are made by one thread, by several threads
  at once, or by different processes started at the same moment.""",
  ["schedules", "histories"],
  "all numbers of threads and processes drawing identifiers at the same time",
  "The tests draw two identifiers.",
  ["include/lamppost/utilities/Uuid.h", "src/lamppost/utilities/Uuid.cpp", CONS],
  [("random bits of the identifier", "include/lamppost/utilities/Uuid.h")],
  "h_action", [run("plain", 32, 160)],
  """One case draws thousands of identifiers in several threads and in several processes started together, and
  compares all of them. Distinct by a hash of the identifiers.""",
  ["identifiers drawn directly and seen in requests"], "offline checker: set of all identifiers",
  [GEN, "Uniqueness is observed on sets of 2*10^6 identifiers (8*10^6 in the thorough tier); fewer than some 40 random bits are seen, more look the same as enough."],
  ["identifiers", "processes", "forked_processes", "threads_of_one_identifier", "via_requests"])

P("A06", "Using actions from many threads is free of data races and memory errors",
  """Consumers and providers can be created, used, answered and given new callbacks from any number of threads while
  the bus runs and while it is torn down, without a data race, a deadlock or an access to memory that is gone.""",
  ["schedules", "programs"],
  "all interleavings of all public operations of actions",
  "The tests use actions from one thread and no detector.",
  ACTFILES + [BUS],
  [("locks of consumer and provider", CONS), ("reset on destruction", BUS)],
  "h_action", [run("tsan", 100, 1500), run("asan", 60, 1000)],
  """One case is several threads doing random action operations, ended in order or torn down under load. Distinct by a
  hash of the operations.""",
  ["every memory access and synchronization (ThreadSanitizer, AddressSanitizer)"],
  "ThreadSanitizer happens-before detection, AddressSanitizer, watchdog for deadlocks",
  [GEN, SCHED], ["operations", "teardowns_under_load"])

# ================================================================ plugin hosting
PLUGFILES = [LP, PM, PT, PI, PIH]
HOSTED = """Plugins are probes of this suite, built against the repository's headers and loaded as shared libraries."""

P("L01", "Every plugin instance lives its life in order, once, and is always cleaned up",
  """Each configured plugin instance is created once, initialized before it runs, run once on a thread of its own,
  deinitialized once after its work has ended and destroyed after that, whatever the plugin does: returning early,
  failing to initialize, taking long to stop, publishing while it ends. None of its handlers runs before its
  initialization or after its deinitialization, and initialization, handlers and deinitialization run on the thread
  that runs the system. A stop during startup changes none of this, and running always comes to its end.""",
  ["histories", "schedules", "programs"],
  "all plugins and configurations, and all moments of a stop request",
  "The tests start one or two well-behaved plugins and stop them when all is quiet.",
  PLUGFILES + [BUS],
  [("instantiate, initialize, start", LP), ("teardown order", LP), ("stop, join, deinitialize, release", PT), ("worker thread", PI)],
  "h_plugin", [run("asan", 400, 8000), run("tsan", 160, 3000)],
  """One case is one run of the system with up to ten probe instances of random behaviour, random configuration and a
  stop at a random moment, with injected delays. Distinct by a hash of the recorded history.""",
  ["events written by the probe plugins: creation, initialization, run, handlers, deinitialization, destruction, with threads"],
  "offline checker of lifecycle order over recorded event logs; AddressSanitizer and ThreadSanitizer; watchdog",
  [GEN, SCHED, HOSTED], ["events", "instances", "stopped_during_startup", "failing_initializations", "self_ended_plugins"])

P("L02", "Only proper plugin libraries are loaded; whatever else lies there is harmless",
  """Of the files in a search path exactly those named like plugin libraries which export a usable plugin are offered,
  under the identifier they give. Anything else - foreign names, text, empty files, directories, pipes, dangling links,
  libraries without the entry points or whose entry points return nothing - is passed over. Asking for a template that
  is not there gives nothing; one that cannot be instantiated reports a failure.""",
  ["inputs"],
  "all contents of search paths, also given repeatedly, missing or unreadable, and all identifiers asked for",
  "The tests use a directory with one good library.",
  [PM, PT, FS],
  [("file name filter", PM), ("entry points", PM), ("instantiation", PT)],
  "h_plugin", [run("asan", 800, 20000)],
  """One case is a directory with a random selection of good, foreign and hostile entries, loaded and unloaded up to
  three times, asked for some 13 identifiers each time. Distinct by a hash of directory and history.""",
  ["results of instantiation", "events of the probes", "memory accesses"],
  "model of which templates a directory offers; lifecycle checker; AddressSanitizer",
  [GEN, HOSTED, "Two libraries with the same identifier are not generated: which one wins is not specified."],
  ["requests", "requests_for_nothing", "libraries_that_are_none", "foreign_names", "instances_held_on_to"])

P("L03", "Instances are told apart: unique names, own configuration, own bus",
  """Every plugin instance gets an identifier no other living instance has, made of its template's identifier and a
  number, receives exactly the configuration written for it, and everything it publishes carries its identifier, even
  when the names of templates run into each other.""",
  ["inputs", "histories"],
  "all numbers of instances, template names including those that end in digits, and configurations",
  "The tests instantiate one template.",
  [PT, PM, LP, BUS],
  [("index of the instance", PT), ("child bus of the instance", PT), ("custom configuration", LP)],
  "h_plugin", [run("asan", 400, 8000)],
  """One case is a run of the system with instances of templates whose names collide, each with a random configuration
  which the probe writes down as it received it. Distinct by a hash of configurations and history.""",
  ["identifiers, received configurations and the senders of messages, as recorded by the probes"],
  "offline checker over recorded events: uniqueness, equality with the written configuration, attribution",
  [GEN, HOSTED], ["instances", "configurations_compared", "attributions_compared", "colliding_names"])

P("L04", "Every well-formed entry of the configuration files is carried out, in order",
  """Whatever configuration files contain or lack, the well-formed plugin entries in them are instantiated exactly once
  each, in their order, with exactly the configuration written there, and malformed entries, unknown plugins, unreadable or missing files and files that are not JSON
  are passed over without ending or blocking the system.""",
  ["inputs"],
  "all contents and combinations of configuration files",
  "The tests use no or one valid configuration file.",
  [LP, RAWD, PM],
  [("reading of configuration files", LP), ("JSON decoding", RAWD)],
  "h_plugin", [run("asan", 500, 10000)],
  """One case is a run of the system with up to a few files mixing well-formed, malformed and unusable entries of up to
  megabytes. Distinct by a hash of entries and history.""",
  ["instances made, in order, and their configurations, as recorded by the probes", "end of the run"],
  "model of the entries to be carried out, compared with recorded events; AddressSanitizer; watchdog",
  [GEN, HOSTED], ["files", "wellformed_entries", "malformed_entries", "unusable_files", "contents_compared", "touchy_strings", "big_entries"])

P("L05", "The program ends gracefully on SIGINT and SIGTERM, at any moment",
  """After it has begun to handle signals, the program told to end by any number of termination signals, on whichever of
  its threads they arrive and whatever it does at that moment (starting plugins, waiting to write its log), ends all
  plugins in order and exits with status 0. Without a signal it keeps running.""",
  ["schedules", "faults", "programs"],
  "all moments, numbers and receiving threads of SIGINT and SIGTERM, and all configurations",
  "No test starts the program.",
  ["src/main.cpp", "src/lamppost/platformspecific/xnix/Xnix.cpp", LP, BUS, PM, LINK, SYSI],
  [("signal handler", "src/lamppost/platformspecific/xnix/Xnix.cpp"), ("request to stop", BUS), ("teardown", LP)],
  "h_process", [run("asan", 80, 1600), run("tsan", 80, 1600), run("plain", 80, 1600)],
  """One case is one process with up to four probes and the shipped plugins, sent 1 to 20 signals during startup, while
  running, or while its standard output is blocked. Distinct by a hash of circumstances and history.""",
  ["exit status, standard error, recorded events of the plugins, state of threads and output pipe"],
  "monitor of the process's end; offline lifecycle checker; AddressSanitizer and ThreadSanitizer inside the process",
  [GEN, SCHED, HOSTED, "Signals are only directed at threads that accept them."],
  ["processes", "signals", "signalled_during_startup", "signals_while_output_is_blocked", "with_shipped_plugins", "instances"])

P("L06", "The system says it has stopped when, and only when, all of it has",
  """A system says that it has stopped only after its shutdown is complete - all plugins ended and released - and then
  keeps saying so; it does not say so before it was started, while it runs, or while it shuts down.""",
  ["schedules"],
  "all moments of asking, from any thread",
  "The tests ask once before and once after.",
  [LP, "include/lamppost/LampPost.h", "include/lamppost/RunState.h"],
  [("run state", LP)],
  "h_plugin", [run("plain", 400, 8000), run("tsan", 120, 2000)],
  """One case is one run of the system polled all the time by two threads. Distinct by a hash of history and
  perturbation.""",
  ["every answer, next to the events of the plugins"], "online monitor of the answers against the recorded events",
  [GEN, SCHED, HOSTED], ["polls", "stopped_while_running", "stopped_during_startup"])

P("L07", "Plugins hear each other: every message once, complete, with its sender",
  """What a running plugin publishes reaches every plugin that listens, exactly once, unchanged and attributed to the
  instance that published it, however many plugins talk at the same time.""",
  ["schedules", "histories"],
  "all numbers of plugins publishing at once, and all interleavings",
  "The tests contain no two plugins talking to each other.",
  PLUGFILES + [BUS, BUSH],
  [("child bus per instance", PT), ("distribution", BUS)],
  "h_plugin", [run("plain", 240, 5000), run("tsan", 120, 2400)],
  """One case is one run of the system with talking and listening probes. Distinct by a hash of the recorded history.""",
  ["publications and handler calls as recorded by the probes"],
  "offline checker over recorded event logs: exactly once, attribution, nothing invented",
  [GEN, SCHED, HOSTED], ["messages_said", "deliveries_required", "deliveries", "floods"])

P("L08", "Plugins can ask each other: requests reach who offers, answers come back",
  """A request of a running plugin for an action reaches every plugin that offers this action, once, and no other, and
  the plugin that asked is given one answer, to just that request, by one that offers it - however many ask and offer
  at the same time, blocking and not.""",
  ["schedules", "histories"],
  "all numbers of plugins, names of actions, offers by several, and orders of asking and answering",
  "The tests ask one provider on a bus of its own.",
  ["include/lamppost/plugin/PluginInstance.h", BUS, BUSH, CONS, PROV, LP],
  [("actions of a plugin's bus", "include/lamppost/plugin/PluginInstance.h"), ("topics of an action", BUSH), ("invocation identifiers", CONS)],
  "h_plugin", [run("asan", 200, 4000)],
  """One case is a run of the system with two to six plugins of which some offer actions, under names that run into each
  other, and some make up to ten requests each. Distinct by a hash of the history of events.""",
  ["every request, where it arrives, and every answer"],
  "offline checker of the recorded events: each request once at each that offers, one answer, matched; AddressSanitizer",
  [GEN, SCHED, HOSTED], ["requests", "requests_received", "answers", "offered_by_several"])

P("L09", "Systems in one program do not affect each other",
  """Any number of systems can run in one program at the same time, from the same or different libraries and
  configurations: each makes exactly the plugins configured for it, what a plugin says or asks stays in its system,
  and a system that is held up by a plugin, stopped, released or made later neither disturbs, delays nor ends the
  plugins of the others.""",
  ["schedules", "histories", "programs"],
  "all numbers, configurations and lifetimes of systems in one program",
  "The tests run one system after the other.",
  PLUGFILES + [BUS, BUSH],
  [("root bus of a system", LP), ("templates of a system", PM), ("instances of a template", PT), ("run state", LP)],
  "h_plugin", [run("asan", 160, 3000), run("tsan", 60, 1200)],
  """One case is two or three systems with plugins of the same names, topics and actions, one of which may be held up, one
  of which ends while the others go on, and one of which may be made meanwhile. Distinct by a hash of the histories.""",
  ["events written by the probe plugins, for each system apart", "answers about the run state"],
  "offline checkers of lifecycle, messages and requests over each system's recorded events; AddressSanitizer and ThreadSanitizer; watchdog",
  [GEN, SCHED, HOSTED], ["systems", "instances", "messages_said", "deliveries_required", "requests", "held_up", "made_later"])

# ================================================================ shipped plugins
LINKH = "src/plugins/link/Link.h"
PEERS = "Peers are real ZeroMQ sockets on the loopback network; delays and losses of real networks are not produced."

P("K01", "A link carries every message to every peer once, and never sends one back",
  """A link sends every message on its host's bus to each connected peer exactly once, in order and unchanged, except
  those that it received itself, and puts every message received from a peer on the host's bus exactly once, unchanged
  and in the peer's order, marked with its own name in front of the sender.""",
  ["inputs", "schedules", "histories"],
  "all messages, numbers of links and peers, and roles (server, client, both)",
  "No test covers the link.",
  [LINK, LINKH, MSG, BUS],
  [("outbound filter and frames", LINK), ("inbound frames and sender mark", LINK), ("sender prefix", MSG)],
  "h_link", [run("asan", 96, 2000)],
  """One case is a host with one or two links in random roles and up to six peers, exchanging some dozens of random
  messages, some of several megabytes, in both directions at the same time, single and split in parts. Distinct by a hash of layout and messages.""",
  ["everything the peers receive", "everything on the host's bus"],
  "offline checker over the records of both ends: exactly once, order, content, attribution, no echo; AddressSanitizer",
  [GEN, SCHED, PEERS], ["messages_of_the_host", "messages_of_peers", "deliveries_to_peers", "deliveries_to_the_host", "messages_in_several_parts", "large_messages_in_several_parts", "senders_like_a_link"])

P("K02", "A link drops whatever peers send that is no message, and carries on",
  """Whatever bytes and frames peers send, a link puts on its host's bus exactly the messages among them, keeps carrying
  messages in both directions, and neither ends nor corrupts the host.""",
  ["inputs"],
  "all frames: damaged, truncated, empty, split, joined and random bytes",
  "No test covers the link.",
  [LINK, MSG, RAWD],
  [("received bytes are verified", MSG), ("undecodable messages are dropped", LINK)],
  "h_link", [run("asan", 96, 2000)],
  """As K01, with about two fifths of what happens being frames of damaged or random content. Distinct by a hash of
  layout and frames.""",
  ["everything the peers receive", "everything on the host's bus"],
  "offline checker of records, with decoding (decided by D06) as oracle of what is a message; AddressSanitizer and UBSan",
  [GEN, PEERS], ["frames_of_any_content", "frames_that_are_none", "frames_that_are_messages", "messages_of_peers"])

P("K03", "A host with links always shuts down, and leaves nothing open",
  """A host with links comes to its end in bounded time in any state of its peers - absent, mute, stalled, sending
  garbage, gone - with any amount of messages under way, and afterwards its ports are free and no thread, socket or
  descriptor is left.""",
  ["faults", "schedules", "histories"],
  "all states of peers and amounts of unsent messages at shutdown, and repeated runs",
  "No test covers the link.",
  [LINK, LINKH, PT],
  [("linger limit and context termination", LINK), ("closing of sockets", LINK)],
  "h_link", [run("asan", 64, 1200)],
  """One case is up to two runs of a host with stalled, mute, garbage-sending or leaving peers and bulk messages, ended
  under load. Distinct by a hash of the circumstances.""",
  ["time to the end, ports, descriptors and threads of the process"],
  "monitor of progress and of the process's resources; AddressSanitizer",
  [GEN, SCHED, PEERS, "Bounded means 30 seconds here; the longest shutdown seen is in the evidence (maxima)."],
  ["shutdowns", "stalled_peers", "bulk_messages", "peers_that_left"])

P("K04", "SysInfo answers every request and tolerates anything on its topics",
  """The system information plugin answers each request on its action with its response, asked on its own host or from
  another across a link, whatever else is published on its topics; it publishes its datagram if, and only if, it was
  configured to, under its own name.""",
  ["inputs", "histories"],
  "all requests, all messages on its topics, and its configurations",
  "No test covers the plugin.",
  [SYSI, "src/plugins/sysinfo/SysInfo.h", BUSH, LINK],
  [("subscriber of any content", SYSI), ("action provider", SYSI), ("configuration", SYSI)],
  "h_link", [run("asan", 32, 480)],
  """One case is a host with the plugin (and half the time another one linked to it), some 8 requests and random
  messages on its topics. Distinct by a hash of messages.""",
  ["responses", "messages on the topic of the plugin"],
  "online monitor of responses; checker over the recorded messages; AddressSanitizer",
  [GEN, PEERS], ["requests", "messages_of_any_content", "told_to_send", "asked_across_a_link"])

P("K05", "Linked hosts form one network: everyone hears once what it should, actions too",
  """In any tree of linked hosts, what is published on one arrives exactly once, in order, on every host reachable
  without leaving a link the way it came in, with the route in its sender, and nowhere else; and actions offered on one
  host answer requests made on another with the response to just that request.""",
  ["schedules", "histories"],
  "all trees of hosts, publishing and asking at the same time",
  "No test covers the link.",
  [LINK, BUS, BUSH, MSG, CONS, PROV],
  [("forwarding and its loop protection", LINK), ("route in the sender", MSG), ("invocation identifiers", CONS)],
  "h_link", [run("asan", 64, 1200)],
  """One case is a tree of two to four hosts, all publishing at once, some asking the action of one. Distinct by a hash
  of layout and messages.""",
  ["every message on every host", "responses"],
  "offline checker of the records against a model of the network's routes; AddressSanitizer",
  [GEN, SCHED, PEERS, "Hosts linked in a circle are not generated: loops are not excluded by design."],
  ["deliveries_across_links", "requests_across_links", "hosts"])

P("K06", "A link outlives its peers: who comes late or returns is heard again",
  """Peers may come late, go at any moment and return, and servers that a link looks for may be restarted: as soon as a
  peer is connected again, every message is carried in both directions exactly once, in order and unchanged, as if it
  had never been away.""",
  ["histories", "faults"],
  "all sequences of peers coming, going in the middle of talking, and returning, in every role",
  "No test covers the link.",
  [LINK, LINKH, BUS],
  [("sockets of both roles", LINK), ("receiving loop", LINK)],
  "h_link", [run("asan", 48, 1000)],
  """One case is a host with a link in a random role and two to five rounds of up to three peers that connect, talk and
  are torn down, half the time while messages are under way. Distinct by a hash of what happened.""",
  ["everything the peers of a round receive", "everything on the host's bus"],
  "offline checker over the records of each round: exactly once, order, content, attribution; AddressSanitizer",
  [GEN, SCHED, PEERS, "What is said before a peer is connected, or while it goes, may be lost: ZeroMQ keeps nothing for it."],
  ["rounds", "deliveries", "servers_that_returned"])

# ================================================================ utilities, resources
P("U01", "File system questions are answered as the file system has it",
  """Existence, kind and directory listings agree with the file system for every path and every kind of entry, file
  names, directories and extensions are taken apart as they were put together, and the program's own path and working
  directory are right or, when they cannot be found out, empty.""",
  ["inputs", "faults"],
  "all paths, directory contents, filters, and failures of the underlying calls",
  "The tests look at two fixed paths.",
  [FS, "include/lamppost/Filesystem.h"],
  [("filters of listings", FS), ("failure of readlink", FS), ("splitting of paths", FS)],
  "h_util", [run("asan", 6000, 160000)],
  """One case is a random directory tree with files, directories, links, pipes and sockets, asked about completely, and
  40 random paths. Distinct by a hash of the entries.""",
  ["results of all functions"], "differential oracle: the tree as it was made; injected failure of readlink; AddressSanitizer",
  [GEN, "Paths without a separator and paths above 1023 bytes are left out (documented limits)."],
  ["questions", "listings", "entries_listed", "paths", "failed_calls", "long_paths"])

P("U02", "Log lines are written whole and none is lost, whoever writes at once",
  """Every line logged by the system, by plugins or by any thread appears in the output exactly once, in one piece, with
  its prefix and indentation, and a message of several lines stays together, however many write at the same time. It is out when the logging call returns, so that not
  even an abrupt end of the program loses it.""",
  ["schedules"],
  "all numbers of writers, in the program and in plugin libraries, at the same time",
  "The tests write single lines.",
  ["src/lamppost/log/Log.cpp", "include/lamppost/log/Log.h"],
  [("one write per line", "src/lamppost/log/Log.cpp")],
  "h_plugin", [run("plain", 600, 12000)],
  """One case is up to four threads and three plugins logging some hundred lines of up to 6000 characters of any bytes at once.
  Distinct by a hash of the lines.""",
  ["the output, line by line"], "offline checker of the output against the multiset of lines written",
  [GEN, SCHED], ["lines", "lines_out_at_once", "own_lines_checked", "with_plugins", "lines_of_any_bytes", "messages_of_several_lines"])

P("U03", "Configurations are equal exactly when all of their parts are",
  """Two configurations compare equal if, and only if, their search paths, their configuration files (in order) and
  their bus are the same; inequality is the opposite.""",
  ["inputs"],
  "all pairs of configurations",
  "The tests compare a few fixed pairs.",
  ["include/lamppost/LampPostConfiguration.h", "include/lamppost/plugin/PluginManagerConfiguration.h"],
  [("comparison operators", "include/lamppost/plugin/PluginManagerConfiguration.h")],
  "h_util", [run("asan", 1500, 40000)],
  """One case is 12 configurations, mostly one change apart, compared pairwise. Distinct by a hash of their content.""",
  ["results of the comparisons"], "reference model: comparison of the parts",
  [GEN], ["equal_pairs", "different_pairs"])

P("R01", "Working does not use anything up: memory, descriptors, threads",
  """Doing the same work again and again - reading JSON and wire data, good and damaged, messages, participants coming
  and going, actions answered, late and never answered, busses, whole systems and links started and stopped - takes no
  more memory, descriptors or threads the hundredth time than the third.""",
  ["histories"],
  "all repeated work",
  "The tests do everything once, and no detector of leaks runs.",
  [RAWD, MSG, BUS, CONS, PROV, PT, PM, LINK, "src/lamppost/data/RawBytes.cpp"],
  [("release of JSON objects", RAWD), ("release of open requests", CONS), ("release of participants", BUS), ("release of instances", PT)],
  "h_resource", [run("asan", 32, 320)],
  """One case is 12 to 16 rounds (thorough: 60) of one kind of work with the same random choices in each. Distinct by
  kind and seed.""",
  ["bytes allocated, descriptors and threads after every round, at rest"],
  "AddressSanitizer's counter of allocated bytes, /proc; violated when it goes up round after round",
  [GEN, "Plugin libraries once loaded stay loaded, by design."],
  ["rounds", "rounds_of_json", "rounds_of_wire", "rounds_of_actions", "rounds_of_participants", "rounds_of_busses", "handlers_holding_their_own", "rounds_of_systems", "rounds_of_links"])
