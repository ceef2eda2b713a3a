BE = "bounded exhaustive enumeration of operation sequences on the real code against an exact model"
FE = "exhaustive enumeration of operation sequences and of every single failing storage or peer call on the real code against an exact model"
CLAIMS = {
 "S01": (BE, "model_checking", "Every sample sequence up to the stated depth over several alphabets, and every periodic history up to a period, for a range of windows, is run on the real averages and compared with the exact mean at every step."),
 "S02": ("stateless model checking of the implementation under a controlled scheduler (deviation-bounded), linearizability oracle, happens-before race detection", "model_checking", "All schedules within the deviation bound, interleaving at every statement that touches shared variables; each execution is checked for linearizability against the sequential model, for data races and for deadlock."),
 "S03": ("exhaustive enumeration of the input space on the real code against an exact parser", "model_checking", "Thorough: all 2^32 values of both types. Quick: all small values, every rounding boundary of every unit with its neighbours, and every 37th value."),
 "L01": (BE, "model_checking", "The full product of configurations, flags, pins, call kinds and argument shapes, and every reconfiguration history up to a depth, on one and two loggers."),
 "L02": (BE, "model_checking", "Every error text over an alphabet of formatting-sensitive symbols up to a length, times call variants and message shapes."),
 "L03": (BE, "model_checking", "Every command line up to a length over all flag settings, from several initial configurations, followed by use of the resulting logger."),
 "D01": (BE, "model_checking", "Every operation history up to a depth on both stores, from fresh stores, each compared in full with a map model; deletion patterns over hundreds of objects."),
 "D02": (BE, "model_checking", "As D01, comparing the reported statistics with an enumeration of the store after every history, including reopening, and with a failure of every single write and sync of the database file."),
 "D03": ("exhaustive enumeration of crash points, torn writes and lost unsynced writes over every operation history up to a depth, on the real code and files", "fault_enumeration", "Every write and sync of the database file is recorded; every crash image is reopened by the real code and compared with the model states around the interrupted operation."),
 "D04": (BE, "model_checking", "Every operation history up to a depth over feeds, heads and roots with extreme keys, merged by state and unmerged, compared in full with a model inside the transaction, after it and after reopening."),
 "D05": (BE, "model_checking", "Every operation sequence up to a depth inside one transaction, ending in success, error, the stop error or a panic, from several committed states, and with a failure of every single write and sync of the commit."),
 "R01": (BE, "model_checking", "Every registry made from an enumerated space of field types (kinds, names, nesting, references), pairs of fields and sets of types, in every order of registration; identity compared with an independent description of the types."),
 "R02": (BE, "model_checking", "Every type tree nested up to three deep over atoms of every kind, pairs and triples of fields, several values each; walks with every object pruned, missing or failing, splits with every task order up to a bound; compared with the set of objects noted while the tree was made."),
 "R03": ("exhaustive enumeration of malformed inputs (structured to a nesting depth, every single mutation of valid encodings) on the real code under time, memory and stack limits", "model_checking", "Every structured registry of the space, every single cut, byte, word and piece mutation of valid registries, roots, values and lists, and every malformed list over a space of depths, degrees, lengths and nodes, through every reading operation."),
 "R04": (BE, "model_checking", "Every operation history up to a depth on lists from several starts, degrees and flags, compared in full with a plain sequence, before and after reloading."),
 "R05": (BE, "model_checking", "As R04, comparing the hash with the one of a canonical build (by appending, at once and one by one, and as slices), that every node is stored, and that lazy and eager updating agree."),
 "R06": (BE, "model_checking", "Every iteration kind and start, with every single modification at every step, nested iterations, stops and errors, compared with a plain sequence."),
 "C01": (BE, "model_checking", "Every operation sequence up to a depth over a few keys, for many cache limits and both policies, with plain store operations in between; each compared with a reference-counted map, then with the store after closing."),
 "C02": (BE, "model_checking", "Every operation sequence up to a depth over keys of several sizes, limits and policies; the content of the cache, its statistics and limits are checked after every step."),
 "C03": ("stateless model checking of the implementation under a controlled scheduler (deviation-bounded), exactly-once delivery oracle, happens-before race detection", "model_checking", "All schedules within a deviation bound of asking, cancelling, storing and evicting, and all sequential histories up to a depth."),
 "C04": (FE, "fault_enumeration", "Every history up to a depth of saving on two feeds and heads, every variant of a Save (wrong key, feed, registry, missing objects, reused roots), and a failure of every single storage call of it."),
 "C05": (BE, "model_checking", "Every history up to a depth of saving, abandoning, filling (also failing), deleting and cleaning over a catalogue of shared contents; all counts compared with the references noted independently."),
 "C06": (BE, "model_checking", "Every operation sequence up to a depth over feeds, heads and roots, in memory and on files, compared in full with a map model, and after reopening."),
 "C07": ("stateless model checking of the implementation under a controlled scheduler (deviation-bounded), with injected storage failures and happens-before race detection", "model_checking", "All schedules within a deviation bound of fillings that succeed, lack any single object, are closed at any moment, fail at any storage call or run two at a time; roots, counts, held objects and goroutines compared afterwards."),
 "C08": (BE, "model_checking", "Every history up to a depth, then stored, conflicting, forged and foreign roots, and every single mutation of valid ones, judged by an independent decoder."),
 "C09": (FE, "fault_enumeration", "Every history up to a depth that leaves part of the objects local, every content previewed, every single request of the peer or call of the store failing."),
 "C10": (BE, "model_checking", "Every history up to a depth of saving, filling, deleting and both clean-ups, on heads with gaps; the set of objects, counts and roots compared with a model, every remaining root read completely."),
 "C11": ("stateless model checking of the implementation under a controlled scheduler (deviation-bounded), with happens-before race detection", "model_checking", "All schedules within a deviation bound of small programs of two or three concurrent saves, fillings, deletions, clean-ups, previews and reads, from several start states and cache limits, judged by what remains afterwards."),
 "N01": ("exhaustive enumeration of byte strings (every encoded message of small field domains, every cut, extension and replaced byte, every short string) on the real code", "model_checking", "What is accepted must be the encoding of the message it is accepted as; what was encoded must be accepted as an equal message of its type."),
 "N02": ("stateless model checking of the real nodes under a controlled scheduler with virtual time and network (deviation-bounded), plus every script of a peer and every history of peers to a depth against a model", "model_checking", "Every handshake script of a peer to a length, incoming and outgoing; every history of connecting, answering, leaving and time of three peers under six pairs of limits; every schedule within a deviation bound of simultaneous connections."),
 "N03": ("model replay: every transition of an explicit model of subscriptions, and every history to a depth, replayed on the real node; stateless model checking of two real nodes under a controlled scheduler (deviation-bounded)", "model_checking", "After every event the lists of feeds and connections and every frame to both peers are compared with the model; after simultaneous calls of two nodes both ends must agree."),
 "N04": ("model replay and stateless model checking of real nodes under a controlled scheduler with virtual time and network (deviation-bounded)", "model_checking", "Every state and transition of a model of three nodes; every history to a depth of announcements, leaving and time of two peers that serve objects in seven ways each; every schedule within a deviation bound of simultaneous publishing, subscribing and leaving. At the end every node that could get the newest root must have it complete."),
 "N05": ("exhaustive enumeration of frame sequences of a misbehaving peer, of floods, and of schedules (deviation-bounded) on the real node under a controlled scheduler with virtual time and network", "model_checking", "Every sequence of frames to a depth from four states of the connection; afterwards another peer, local calls, every stored root and object, and closing are checked."),
 "N06": ("exhaustive enumeration of reply histories, and stateless model checking under a controlled scheduler (deviation-bounded), on the real node with virtual time and network", "model_checking", "Every history to a depth of replies of every kind to every request, answered or not, of time and of closing, for one to three waiting calls; every schedule within a deviation bound of replies, time-out and closing at once."),
 "N07": (BE + ", and schedules under a controlled scheduler (deviation-bounded)", "model_checking", "Every history to a depth of calls, announcements, requests, ticks and ways peers meet the node, compared with a model of the peer list; schedules of simultaneous calls."),
 "N09": ("stateless model checking of the implementation under a controlled scheduler (deviation-bounded), and every sequence of events to a depth", "model_checking", "Every sequence to a depth of sharing, listening, answers of in-process discovery servers, lost servers and closed connections, compared with a model of what servers were told, connections and subscriptions; schedules of simultaneous ones."),
 "N08": ("exhaustive enumeration of operation sequences to a depth on the real code over real RPC connections, differential against the local API", "model_checking", "Every sequence to a depth (merged by state) of RPC calls, or of commands of the built cxocli, and of peers' actions, on a node with two peers over both transports; results, effects on all nodes and every answer compared with the local API on a twin; malformed command lines and requests, calls during blocked ones and after Close."),
 "N10": ("exhaustive enumeration of flags, configurations and of failing starts on the real code", "model_checking", "Every flag over values of its type from two configurations, every configuration field at, inside and outside its limits, alone and in pairs, and every single and double cause of failure of a start (files, addresses, stores, sizes) followed by a good start; addresses, files, goroutines and stored data compared."),
}
NOT = {}
