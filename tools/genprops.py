#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=st,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe, hook_needed=None)))

# ---- statistics and logging
p("S01", "Rolling averages are the mean of the most recent samples",
  "After any sequence of samples, a rolling average of window n (durations or floats) reports the arithmetic mean of the last n samples, or of all of them while fewer than n have been added, and 0 before the first sample. Adding a sample returns the same value that a following read returns.",
  ["inputs", "histories"], "every sequence of samples over a small alphabet, every window size, both kinds of average",
  "No existing test adds a sample; the warm-up phase, the wrap of the ring and long histories are unbounded.",
  ["skyobject/statutil/average.go"], [("incremental mean over a ring of bins", "skyobject/statutil/average.go")],
  ["Duration.Add/Value", "Float.Add/Value", "container and node Stat()"])
p("S02", "Rolling averages stay exact under concurrent use",
  "When several goroutines add samples and read a rolling average at the same time, no sample is lost or counted twice, every read returns a value of some sequential order of the completed calls, and no call blocks forever. This holds for durations and for floats.",
  ["schedules"], "every interleaving, at lock granularity, of up to three goroutines with a few calls each",
  "Interleavings are never controlled by the tests; lost updates need a preemption inside an update.",
  ["skyobject/statutil/average.go"], [("mutex around the ring", "skyobject/statutil/average.go")],
  ["Duration.Add/Value", "Float.Add/Value"])
p("S03", "Amount and volume strings show the right magnitude and unit",
  "The text of an amount (steps of 1000) or a volume (steps of 1024) denotes the number it was made from to within the two printed decimals: the unit is the largest one not exceeding the value, and parsing the text back gives the value up to rounding. No trailing zeros or trailing point are printed, zero prints as zero, and a larger number never prints as a smaller quantity.",
  ["inputs"], "every value of the small ranges, all powers of the unit steps with their neighbourhoods, the extremes of the type, every two-decimal fraction of each unit",
  "One test prints a handful of volumes; amounts and boundaries of the units are not covered.",
  ["skyobject/statutil/statutil.go"], [("unit ladder and trimming", "skyobject/statutil/statutil.go")],
  ["Volume.String", "Amount.String"])
p("L01", "Log output is gated exactly by the debug flag and the pins",
  "A debug message is written if and only if debugging is on and the message's pin bits intersect the configured pins in the way the configuration defines; every other kind of message is always written. Each call writes its message once, with the configured prefix, flags and output, and formats its arguments as the corresponding standard formatting (print, printf, println) would; a suppressed message writes nothing.",
  ["configurations", "inputs", "histories"], "all combinations of debug on/off, pin masks, configured pins, prefix, flags, formatting variant and argument shapes, and sequences of reconfiguration",
  "The tests check a few combinations with one pin and one argument.",
  ["node/log/log.go"], [("pin mask test before formatting", "node/log/log.go")],
  ["log.Logger methods writing to Config.Output"])
p("L02", "Logged errors show the error and the message verbatim",
  "An error report contains the error tag, the error's own text unchanged, and the caller's message formatted as usual, whatever characters the error text contains (including formatting verbs and line breaks). A nil error is not an exception: the message is still written once.",
  ["inputs"], "error texts over an alphabet containing formatting verbs, all formatting variants, argument shapes",
  "No test exercises the error variants.",
  ["node/log/log.go"], [("Error/Errorf/Errorln", "node/log/log.go")], ["Logger.Error*, output"])
p("L03", "Log configuration given on the command line takes effect",
  "After the log flags are registered and a command line parsed, the configuration holds exactly the values given there (prefix, debug, pins), and the previous values for flags not given. A logger made from that configuration behaves accordingly.",
  ["configurations"], "all subsets of the flags in every order with representative values, from different initial configurations",
  "No test parses flags.",
  ["node/log/log.go"], [("FromFlags", "node/log/log.go")], ["Config after flag.Parse", "output of NewLogger(config)"])

# ---- storage
p("D01", "Object stores keep exact values and reference counts",
  "Both object stores (in memory and on disk) behave as a map from key to value and reference count: get, set, increment, decrement, delete, iteration and iterate-with-delete return what the preceding operations imply, a count never goes below zero, a missing key is reported as not found, a blank value is rejected, and a deleted key is gone. The two stores give the same answers to the same operations.",
  ["histories", "inputs"], "every operation sequence up to a depth over a few keys, values and increments, on both implementations",
  "The tests run each method once on a fresh store.",
  ["data/cxds.go", "data/cxds/memory.go", "data/cxds/drive.go"],
  [("in-memory map with counters", "data/cxds/memory.go"), ("bolt bucket with rc-prefixed values", "data/cxds/drive.go")],
  ["data.CXDS interface"])
p("D02", "Object store statistics equal what is stored",
  "At every moment the reported number and total size of all objects, and of objects with a non-zero reference count, equal the numbers computed by enumerating the store, in both implementations, including after closing and reopening the on-disk store.",
  ["histories", "crash_points"], "every operation sequence up to a depth, with close/reopen at any point and a crash after any committed operation",
  "Tests compare statistics after one or two operations and never after reopening a populated store.",
  ["data/cxds/memory.go", "data/cxds/drive.go", "data/cxds/cxds.go"],
  [("running counters", "data/cxds/memory.go av/incr"), ("meta bucket saved on close", "data/cxds/drive.go saveStat")],
  ["CXDS.Amount, CXDS.Volume vs Iterate"])
p("D03", "On-disk stores survive a crash at any point",
  "If the process dies at any point of a history of operations on the on-disk object store or root index, including between the writes of one operation and with a torn last write, then reopening the files succeeds and shows the state after all operations that had returned, with the interrupted operation either entirely done or not done at all.",
  ["crash_points", "histories"], "every write and sync boundary, and torn final writes, of every short history",
  "No test crashes anything; close-and-reopen of an idle database is the most they do.",
  ["data/cxds/drive.go", "data/idxdb/drive.go"],
  [("one bolt transaction per operation", "data/cxds/drive.go"), ("one bolt transaction per Tx", "data/idxdb/drive.go")],
  ["NewDriveCXDS/NewDriveIdxDB on the crashed files"])
p("D04", "The root index stores feeds, heads and roots exactly and in order",
  "The index behaves as a set of feeds, each with a set of heads, each with an ordered map from sequence number to root record: adding is idempotent, missing feeds, heads and roots are told apart by their errors, ascending and descending enumerate by sequence number, deletion removes everything underneath, lengths agree with enumeration, and enumeration stops when asked to. Setting a root again updates nothing but its access time, and invalid roots are refused.",
  ["histories", "inputs"], "every operation sequence up to a depth over a few feeds, heads and sequence numbers, with extreme sequence numbers",
  "Tests run each method on nearly empty databases.",
  ["data/idxdb.go", "data/idxdb/drive.go", "data/data.go"],
  [("nested bolt buckets keyed by big-endian seq", "data/idxdb/drive.go")], ["data.IdxDB interface"])
p("D05", "Root index transactions are all or nothing",
  "If a transaction function on the root index returns an error, none of its changes are visible afterwards, and the error is returned; if it returns nil all of them are. Changes made inside are visible to the rest of the same transaction.",
  ["histories", "fault_sequences"], "every short sequence of changes with the failure injected after each one",
  "Tests never fail a transaction after it changed something.",
  ["data/idxdb/drive.go"], [("bolt Update rollback", "data/idxdb/drive.go Tx")], ["IdxDB.Tx then reads"])

# ---- registry
p("R01", "A registry's identity depends only on the types it describes",
  "Two registries made from the same set of registered types have the same reference and encoding whatever the order of registration, decoding an encoded registry gives a registry with the same reference, names and schemas, and registries that differ in any registered name, field, field type, kind or reference target have different references.",
  ["inputs", "programs"], "all registration orders of a type family, and all pairs from a family of single-change variants",
  "Tests encode a few registries in one order.",
  ["skyobject/registry/registry.go", "skyobject/registry/reg.go", "skyobject/registry/schema.go"],
  [("ordered encoding and hash", "skyobject/registry/registry.go")], ["NewRegistry, Encode, DecodeRegistry, Reference"])
p("R02", "Tree traversal visits exactly the objects a root refers to",
  "For every tree of typed values, the tree walk and the parallel split both visit exactly the set of objects reachable from the root through references, arrays, slices, structs, lists and dynamic references: nothing reachable is missed and nothing else is visited.",
  ["inputs", "programs"], "all value shapes to a depth over a schema family that uses every kind of reference in every kind of container",
  "Tests walk one or two hand-made values; arrays and slices of references are not covered.",
  ["skyobject/registry/walk.go", "skyobject/registry/split.go", "skyobject/registry/refs_walk.go", "skyobject/registry/split_refs.go", "skyobject/registry/dynamic.go"],
  [("schema driven walk", "skyobject/registry/walk.go"), ("schema driven split", "skyobject/registry/split.go")],
  ["Root.Walk, Dynamic.Walk, Dynamic.Split"])
p("R03", "Malformed data from outside is refused with an error",
  "Whatever bytes are given as an encoded registry, root, object, list or message value, decoding, sizing, walking and printing them ends with a result or an error: never a panic, endless loop or allocation out of proportion to the input.",
  ["inputs"], "all truncations, all single-byte substitutions by boundary values, and length/index field corruptions of a family of valid encodings, for every decoding entry point",
  "Tests only decode what they encoded.",
  ["skyobject/registry/registry.go", "skyobject/registry/schema.go", "skyobject/registry/root.go", "skyobject/registry/walk.go", "skyobject/registry/split.go", "skyobject/registry/refs.go", "skyobject/registry/root_tree.go"],
  [("bounds checks in size/walk/split", "skyobject/registry/schema.go")], ["DecodeRegistry, DecodeRoot, Schema.Size, Walk, Split, Refs methods, Root.Tree"])
p("R04", "A reference list behaves as an ordinary list",
  "Under every sequence of appends, replacements, deletions by index or by content, slicing, clearing, degree changes and reads, a reference list reports the same length, elements, positions, membership and slices as a plain sequence of hashes, for every degree and every mode flag, before and after saving and reloading it. Deleting, replacing or reading out of range or a missing hash is an error and changes nothing.",
  ["histories", "configurations"], "every operation sequence to a depth, for degrees 2 to 4 and above, all flag combinations, with save/reload at any point",
  "Tests use a few lengths with one operation each.",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go", "skyobject/registry/refs_index.go"],
  [("Merkle tree with lazy loading and hash index", "skyobject/registry/refs.go, refs_node.go")], ["Refs methods"])
p("R05", "A reference list's hash identifies its content and is always loadable",
  "After any operations, once a list is brought up to date its hash is the hash of an object that is stored, from which a fresh list with the same elements and degree can be loaded; two lists with the same degree built by appending the same elements (at once, one by one, or as a slice of another list) have the same hash, different contents give different hashes, and an empty list has the blank hash. Lazy updating changes when hashes are computed, never what they become.",
  ["histories", "configurations"], "every operation sequence to a depth, for several degrees, with and without lazy updating",
  "Tests compare hashes for a few lists without modifications.",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go"],
  [("bottom-up hash update", "skyobject/registry/refs_node.go")], ["Refs.Hash, Refs.Rebuild, reload from Hash"])
p("R06", "Iteration over a reference list visits each element once, in order",
  "Ascending and descending iteration, from the start or from any index, visits exactly the elements from there on, in order, with correct indices, and stops when the callback asks; an error of the callback is returned. Modifying the list during iteration never causes a panic, a hang or a visit to an element outside the list.",
  ["inputs", "histories"], "every length to a bound, every start index and stop position, every degree, before and after modifications, with one modification at each step of the iteration",
  "Tests iterate over a few lengths from the beginning.",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go"],
  [("recursive branch iteration with shift", "skyobject/registry/refs_node.go")], ["Refs.Ascend, AscendFrom, Descend, DescendFrom"])

# ---- container
p("C01", "The object cache is invisible except for speed",
  "Whatever the cache limits and replacement policy, every read, write, reference-count change and count query made through the container returns the same values, counts and errors as the same operation on a plain reference-counted store, and once the container is closed the backing store holds exactly those values and counts.",
  ["histories", "configurations"], "every operation sequence to a depth over a few keys, for both policies and several tight limits including none",
  "Tests use one policy, ample limits and few operations; eviction with pending counts is not reached.",
  ["skyobject/cache.go"], [("write-back of counts on eviction", "skyobject/cache.go delete/cleanDown"), ("ranking by policy", "skyobject/cache.go")],
  ["Container.Get/Set/Inc/Finc", "CXDS after Close"])
p("C02", "The object cache stays within its limits",
  "The number and total size of cached objects never exceed the configured maxima, apart from objects being filled or waited for; an object larger than the per-item limit is never cached; and the statistics of the cache equal its real content.",
  ["histories", "configurations"], "every operation sequence to a depth over keys of different sizes, several limits, both policies",
  "Tests never fill the cache beyond its limit.",
  ["skyobject/cache.go"], [("cleanDown", "skyobject/cache.go")], ["Container.Stat cache figures, IsCached"])
p("C03", "Everyone waiting for an object receives it",
  "An object that was asked for and is stored later is delivered exactly once to every asker that has not cancelled, with its correct value and count, and to nobody else; an object already present is delivered at once; a cancelled asker receives nothing afterwards and leaks nothing. This holds however asking, cancelling, storing and cache eviction are interleaved.",
  ["schedules", "histories"], "all operation sequences to a depth and all interleavings of a few askers, cancellers and one storer",
  "Tests have one asker and one storer in a fixed order.",
  ["skyobject/cache.go"], [("wanted items", "skyobject/cache.go Want/Unwant/SetWanted")], ["Container.Want/Unwant/Set/SetWanted"])
p("C04", "Publishing makes an authentic, complete, chained root",
  "Every successful save stores a root that is signed by the feed's key, whose sequence number is one more than the previous root of that head (zero for the first), that names the previous root's hash, and from which every referenced object and the registry can be read back; it becomes the last root of its head. A failed save leaves the index and the stored counts as they were.",
  ["histories", "fault_sequences"], "every history of saves over a few feeds and heads and trees with shared objects, with a storage failure injected at every storage call",
  "Tests save one or two roots without failures.",
  ["skyobject/unpack.go", "skyobject/index.go", "skyobject/container.go"],
  [("Save", "skyobject/unpack.go"), ("AddRoot", "skyobject/index.go")], ["Container.Save, LastRoot, Root, Walk, Get"])
p("C05", "Reference counts equal the references from stored roots",
  "After any history of saving, abandoning, filling and deleting roots, heads and feeds, the count of every object equals the number of references to it from the roots still stored, so deleting every root leaves every count at zero and an object needed by any remaining root never reaches zero.",
  ["histories"], "every history to a depth over roots that share objects and registries, including re-saving the same content",
  "Tests check a few counts after one save.",
  ["skyobject/unpack.go", "skyobject/del_pack.go", "skyobject/container.go", "skyobject/index.go", "skyobject/fill.go"],
  [("increment on save", "skyobject/unpack.go"), ("decrement on root removal", "skyobject/del_pack.go, container.go")],
  ["CXDS counts vs walk of stored roots"])
p("C06", "The container's index of feeds, heads and roots is always right",
  "After any sequence of adding and deleting feeds, heads and roots, the container's lists of feeds and heads, the last root of every head, the active head and each root lookup equal those of a plain model fed with the same operations, and equal what a container reopened on the same files reports. The last root of a head is the one with the greatest sequence number whatever order roots arrive in, and the active head is the one with the most recently dated last root.",
  ["histories", "inputs"], "every operation sequence to a depth over a few feeds, heads, sequence numbers and times, roots arriving in any order, with reopening at any point",
  "The tests add roots in order to one head.",
  ["skyobject/index.go", "skyobject/container.go"],
  [("in-memory index", "skyobject/index.go")], ["Container.Feeds/Heads/LastRoot/LastRootSeq/ActiveHead/Root, reopened container"])
p("C07", "Filling a received root is all or nothing",
  "Filling a root succeeds only when every object reachable from it is in the store, in which case the root becomes available and the counts include it; if any object cannot be obtained, or the filling is cancelled or fails at any point, the root is not available and every count is what it was before. This holds for every order in which objects arrive and every place of failure.",
  ["schedules", "fault_sequences", "inputs"], "all trees of a family, all arrival orders, failure or cancellation after each request, parallelism limits",
  "Tests fill one tree with all objects at hand.",
  ["skyobject/fill.go", "skyobject/registry/split.go", "skyobject/cache.go"],
  [("split with filling counts", "skyobject/fill.go"), ("apply/reject", "skyobject/fill.go, cache.go Finc")],
  ["Container.Fill, Filler.Run, LastRoot, CXDS counts"])
p("C08", "Only authentic roots enter the index",
  "A received root is accepted only if it decodes, belongs to the feed it is presented for, and carries a valid signature of that feed's key over exactly its content; anything else is refused with an error and leaves the container unchanged. A root already held is recognised as such and is not added twice.",
  ["inputs"], "all single-field and single-byte alterations of valid root messages, all pairings of feeds, signers, contents and prior index states",
  "Tests receive valid roots only.",
  ["skyobject/index.go", "skyobject/container.go", "skyobject/registry/root.go"],
  [("signature check on receive", "skyobject/index.go ReceivedRoot")], ["Container.ReceivedRoot, PreviewRoot"])
p("C09", "Previewing a feed changes nothing",
  "Reading a root and its objects through a preview returns the same data as the owner has, obtains only objects that are missing locally from the peer, and leaves the local store, counts and index unchanged. A failure of the peer is reported as an error.",
  ["inputs", "fault_sequences"], "all trees of a family, all subsets of locally present objects, peer failure at each request",
  "No test previews a partially present tree.",
  ["skyobject/preview.go"], [("preview pack", "skyobject/preview.go")], ["Container.Preview, Preview.Get, CXDS before/after"])
p("C10", "Clean-up removes only what is no longer needed",
  "Keeping the last n roots removes exactly the older roots of every head and nothing else, and removing unreferenced objects removes exactly the objects whose count is zero, so every remaining root can still be read completely.",
  ["histories", "inputs"], "all histories to a depth over heads with gaps in their sequence numbers, every n, both stores",
  "There is no test of the clean-up helpers.",
  ["cxoutils/cxoutils.go", "skyobject/container.go"], [("RemoveRootObjects, RemoveObjects", "cxoutils/cxoutils.go")],
  ["container roots and objects after clean-up"])

# ---- node
p("N01", "Protocol messages survive encoding, and anything else is refused",
  "Decoding an encoded message gives an equal message of the same type, every type has a distinct code and name, and a byte string that is empty, of unknown type, truncated or followed by extra bytes is refused with an error, never a panic.",
  ["inputs"], "every message type over small field domains; every truncation, extension and type byte",
  "There is no test of the message package.",
  ["node/msg/msg.go"], [("type-prefixed encoding", "node/msg/msg.go")], ["msg.Decode, Msg.Encode"])
p("N02", "Connections are established only between compatible, distinct nodes",
  "A connection is established only after a handshake with the same protocol version, at most one connection exists per peer identity and per address, the configured limits on all and on pending connections are never exceeded, and a refused, failed or closed connection leaves nothing behind that counts against the limits. A handshake that gets no answer ends by the configured timeout, or waits without harm if there is none.",
  ["schedules", "inputs", "configurations"], "all handshake scripts of a peer up to a length, all orders of simultaneous connections, all small limits",
  "Tests connect two well-behaved nodes.",
  ["node/handshake.go", "node/node.go", "node/transports.go"],
  [("Syn/Ack exchange", "node/handshake.go"), ("pending and established tables", "node/node.go")], ["Node.Connections, TCP.Connect, messages on the wire"])
p("N03", "Subscriptions on both ends follow the requests exactly",
  "After any sequence of share, unshare, subscribe, unsubscribe, disconnect and remote subscription messages, the feeds of each connection, the connections of each feed and the shared feeds are exactly those implied by the sequence; a node never sends roots of a feed to a connection that is not subscribed to it, refuses subscriptions to feeds it does not share, and lists its feeds only if it is public.",
  ["histories", "schedules"], "every sequence of events to a depth over two feeds and two connections",
  "Tests perform single subscriptions.",
  ["node/feeds.go", "node/feed.go", "node/conn.go"], [("feeds actor", "node/feeds.go")],
  ["Node.Feeds/IsSharing/ConnectionsOfFeed, Conn.Feeds, messages on the wire"])
p("N04", "Subscribers converge to the publisher's last root",
  "When connections stay up and all parties keep running, a node subscribed to a feed ends up with the publisher's last root of the feed, complete and readable, whatever the order and timing of subscriptions, publications and message delivery, directly or through an intermediate node. Roots already held are not replaced by older ones.",
  ["schedules", "histories"], "all bounded schedules of publishing, subscribing and delivery for two nodes and a chain of three",
  "Tests have one schedule, with sleeps.",
  ["node/conn.go", "node/feeds.go", "node/feed.go", "node/head.go"], [("push of roots, pull of objects", "node/head.go, conn.go")],
  ["OnRootFilled, Container.LastRoot of the subscriber"])
p("N05", "A misbehaving peer cannot crash or wedge a node",
  "Whatever messages a connected peer sends, and whatever it answers or fails to answer, the node does not panic, its other connections and local calls keep working, and nothing the peer sent becomes part of a feed unless it is signed by that feed's owner and complete.",
  ["fault_sequences", "inputs", "histories"], "every sequence of peer messages to a depth from an alphabet of valid, malformed, duplicate, unsolicited and delayed messages",
  "Tests have no misbehaving peer.",
  ["node/conn.go", "node/head.go", "node/feeds.go"], [("message dispatch and request table", "node/conn.go")],
  ["the node's API and a second, well-behaved connection"])
p("N06", "Every request gets its own answer, or an error, in time",
  "A request made over a connection returns the peer's reply to that very request, or an error when the peer refuses, the timeout passes or the connection closes; late, duplicate and unrelated replies never reach another request and never block the connection.",
  ["schedules", "histories"], "all orders of replies, duplicates, timeouts and closure for a few concurrent requests",
  "Tests make one request at a time.",
  ["node/conn.go"], [("sequence-numbered request table", "node/conn.go sendRequest")], ["Conn.RemoteFeeds, Conn.Subscribe, Conn.Preview"])
p("N07", "A swarm's peer list is valid, bounded and current",
  "The list of known peers of a swarm holds only valid peers under their own identity, never the node itself, never more than the configured maximum, with the most recently announced addresses; failures count up and success resets the count, expired peers are dropped and fresh ones kept; and what is told to other peers never includes the asking peer.",
  ["histories", "inputs"], "every sequence to a depth of add, remove, announcements, failures, successes and clock steps",
  "There is no test of peer exchange bookkeeping.",
  ["node/swarm.go"], [("peer table", "node/swarm.go")], ["Swarm.Peers, messages on the wire"])

p("N09", "Discovery servers know exactly what the node shares, and the nodes they find are connected and subscribed",
  "Every discovery server a node is connected with is asked for, and told, exactly the feeds the node shares now — with the address the node listens on over that transport if the node is public and listens, and nothing to connect to otherwise. The nodes a server finds are connected over that transport and subscribed to the found feed if and only if the feed is shared at that time; an answer never brings back a feed that is not shared any more, never connects the node with itself, and failing to reach a node changes nothing else. A server connected anew is told everything again, and after Close nothing stays connected.",
  ["histories", "schedules"], "every sequence to a depth of sharing, listening, connecting, answers of servers, lost servers and closed connections, and schedules of simultaneous ones",
  "There is no test of service discovery, it needs servers.",
  ["node/transports.go", "node/node.go"], [("service discovery", "node/transports.go"), ("updateServiceDiscovery", "node/node.go")], ["what servers are asked and told, connections, subscriptions"])

p("N08", "The RPC does and returns exactly what the node does and returns locally",
  "Every method of the RPC client has exactly the effect of the local method it stands for, on the transport it names (TCP methods act on TCP, UDP methods on UDP), and returns the same results: feeds, connections, subscriptions, addresses, configuration, statistics and trees of Root objects. A call that fails locally fails over RPC with the same text and changes nothing, and no call, failing or not, disturbs other calls of the same or another client. The command line tool does with each of its commands what the RPC method does.",
  ["histories", "inputs"], "every sequence to a depth of RPC calls on a node with peers over TCP and UDP, compared with the local API and with a model; every command of the command line tool",
  "There is no test of the RPC or of the command line tool.",
  ["node/rpc.go", "node/rpc_client.go", "cmd/cxocli/cxocli.go"], [("RPC server", "node/rpc.go"), ("RPC client", "node/rpc_client.go"), ("cxocli", "cmd/cxocli/cxocli.go")], ["results of RPC methods, output of cxocli, local API"])

p("N10", "Starting works with exactly the given configuration, or fails and leaves nothing behind",
  "Every command-line flag sets exactly the configuration field it names and leaves the others as they were; Validate refuses exactly the configurations outside the documented limits; defaults are the documented ones. NewNode and NewContainer either yield a node with exactly that configuration, those listening addresses and those store files, or return an error, leaving existing data unchanged and nothing open — database files, addresses, goroutines — so that the next start with the cause removed succeeds; the same holds after Close.",
  ["inputs", "configurations", "fault_sequences"], "every flag over values of its type, every field at, inside and outside its limits, alone and in pairs, every single and double cause of failure of a start",
  "There is no test of flags or of failing starts.",
  ["node/config.go", "node/node.go", "skyobject/config.go", "skyobject/container.go", "data/cxds/drive.go", "data/idxdb/drive.go"],
  [("flags and limits", "node/config.go, skyobject/config.go"), ("start and its undoing", "node/node.go NewNode, skyobject/container.go NewContainer")],
  ["Config after flag parsing, errors of Validate, NewNode and NewContainer, addresses, files, goroutines"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
