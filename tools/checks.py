NOTES = "All checks drive the real library through its public API from worker processes and judge every execution with monitors (reference decoders, shadow models, guarded memory, race detector). No hooks in /repo are needed."
NA = {}
_X = "Explores many generated executions, no proof; trusts the harness's reference codecs and model. "
CHECKS = {
 "C01": ("runtime monitor: reference JSON reader as oracle over generated documents, guarded input memory", _X + "Every entry point is compared with the expected tree; inputs lie in read-only memory at a guard page."),
 "C02": ("runtime monitor: strict RFC 8259 parser judging every encoder output", _X + "Both writers and escaping styles, trees of every origin."),
 "C03": ("runtime monitor: fault injection on documents, crash/hang/allocation watchdogs, reference acceptor", _X + "Worker processes are supervised for crashes and hangs; allocation is metered per call."),
 "C04": ("runtime monitor: strict MsgPack decoder judging every encoder output", _X + "Header minimality and trailing bytes are checked too."),
 "C05": ("runtime monitor: generated equivalent MsgPack encodings against expected trees, guarded input memory", _X),
 "C06": ("runtime monitor: fault injection on MsgPack, crash/hang/allocation watchdogs, reference acceptor", _X),
 "C07": ("runtime monitor: strict BSON decoder judging every encoder output", _X),
 "C08": ("runtime monitor: generated conforming BSON against expected trees, guarded input memory", _X),
 "C09": ("runtime monitor: fault injection on BSON, crash/hang/allocation watchdogs, reference acceptor", _X),
 "C10": ("runtime monitor: YAML generator with the denoted tree as oracle", _X + "Documents are generated together with the tree they denote; anchored copies are mutated to show independence."),
 "C11": ("runtime monitor: fault injection on YAML, crash/hang/allocation watchdogs, parse-isolation check", _X + "A probe document is parsed after each hostile one and must come out unchanged."),
 "C12": ("runtime monitor: shadow insertion-ordered map compared online over random operation histories", _X),
 "C13": ("runtime monitor: shadow list compared online over random operation histories", _X),
 "C14": ("runtime monitor: shadow tree for path look-ups and forced paths", _X),
 "C15": ("runtime monitor: shadow scalar over setter/reader histories", _X),
 "C16": ("runtime monitor: shadow trees, node-identity and buffer-overlap checks, mutation of either side", _X),
 "C17": ("runtime monitor: algebraic laws checked on equal, perturbed and renumbered trees against a model equality", _X),
 "C18": ("runtime monitor: recorded decision calls and reference merge over related trees", _X),
 "C19": ("runtime monitor: shadow models of all live values plus node-identity tracking over lifecycle histories", _X),
 "C20": ("race detector plus shadow models and sequential replay over concurrent programs", _X + "Schedules are sampled (yields, delays, collections), not enumerated."),
 "C21": ("runtime monitor: raw-memory watch of the constants under API attack sequences, race detector", _X),
 "C22": ("runtime monitor: memory protection of caller buffers (writes and late reads fault), canaries around destinations", _X),
 "C23": ("runtime monitor: answers of read-only operations compared across random orders and twins", _X),
 "C24": ("runtime monitor: generated Go types and values with the expected tree as oracle", _X),
 "C25": ("runtime monitor: generated target types with expected field contents as oracle", _X),
 "C26": ("runtime monitor: random format chains judged by independent decoders at each hop", _X),
 "C27": ("runtime monitor: instants tracked through storage and wire formats in processes under several zones", _X + "Sixteen local zones, eight of them with changing offsets."),
 "C28": ("runtime monitor: real files in scratch directories, pipes, failing paths", _X),
 "C29": ("runtime monitor: load histories compared with fresh decoding and models", _X),
}
