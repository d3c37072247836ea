CLAIMS.update({
 'C05': ('TLA+ spec TypeMux: TLC trace acceptance of recorded concurrent histories', 'Recorded histories of the real multiplexer under a seeded schedule must be behaviours of the abstract multiplexer.' + TRACE),
 'C06': ('TLA+ spec Producer: TLC trace acceptance of recorded concurrent histories', 'Recorded histories of NewSubscription must be behaviours of the abstract producer subscription.' + TRACE),
 'C07': ('TLA+ spec Resub: TLC trace acceptance of recorded concurrent histories', 'Recorded histories of Resubscribe and ResubscribeErr with virtual time must be behaviours of the abstract loop.' + TRACE),
 'C08': ('TLA+ spec Scope: TLC trace acceptance of recorded concurrent histories', 'Recorded histories of SubscriptionScope must be behaviours of the abstract scope.' + TRACE),
 'C09': ('TLA+ spec SimClock: TLC trace acceptance of recorded histories', 'Random programs over the simulated clock, with callbacks that use it and concurrent waiters; every history must be a behaviour of the abstract clock.' + TRACE),
 'C10': ('TLA+ specs Alarm and AlarmImpl: TLC refinement check and trace acceptance', 'The alarm algorithm over timers is checked exhaustively within bounds to refine the abstract alarm; recorded histories must be behaviours of the abstract alarm.' + TRACE),
})
CLAIMS.update({
 'C11': ('TLA+ spec LogTree: TLC trace acceptance of recorded histories', 'Random programs over trees of loggers, sequential and concurrent; every delivered record and every argument slice must be what the specification says.' + TRACE),
 'C12': ('TLA+ spec Handlers: TLC evaluates each composition and compares with what the real handlers did', 'Random compositions (depth up to 4) of all handler kinds, with failing and panicking leaves, lazies, files and asynchronous parts.' + TRACE),
 'C13': ('TLA+ spec Glog: TLC trace acceptance of recorded histories', 'Random rule sets, verbosities and locations, over several call sites, sequential and concurrent; the rule language is parsed and matched in TLA+.' + TRACE),
 'C14': ('TLA+ specs Text, LogText: TLC reads each formatted line and compares it with the record', 'A TLA+ reader of the text formats.' + REC),
 'C23': ('TLA+ spec LogJson: TLC parses each formatted record and compares it with the record', 'A JSON parser written in TLA+.' + REC),
})
CLAIMS.update({
 'C15': ('TLA+ specs Hex, HexCodec: TLC re-computes every recorded encoding and decoding', 'The hex grammar, with its error classes, is a TLA+ acceptor; every decoder and encoder of hexutil is compared with it on generated valid, nearly valid and arbitrary texts.' + REC),
 'C16': ('TLA+ specs HashAddr, Keccak: TLC re-computes every recorded conversion', 'Constructors, text, JSON, format verbs, EIP-55 checksums and ICAP-free address parsing are defined in TLA+ (Keccak-f included).' + REC),
 'C17': ('TLA+ spec ByteOps: TLC re-computes every recorded call', 'Every byte helper and bit operation is defined over sequences.' + REC),
 'C18': ('TLA+ specs Nat256, BigMath: TLC re-computes every recorded call', 'Arbitrary-size arithmetic over limbs in TLA+, including two-complement words, exponentiation and the text forms.' + REC),
 'C19': ('TLA+ specs Keccak, KeccakHash: TLC replays each recorded history of the hash', 'The sponge and Keccak-f[1600] are written in TLA+ bit by bit; every digest of random write/read/reset/clone histories must equal the specified one.' + REC),
 'C20': ('TLA+ spec Curve: TLC re-computes every recorded curve operation', 'The affine group law on small curves is checked for every pair of points; on the predefined curves operations are recomputed with limb arithmetic.' + REC),
})
CLAIMS.update({
 'C21': ('TLA+ spec Mnemonic: TLC re-computes every recorded encoding and decoding', 'Base-1626 digits over limbs; values around every boundary of a group, and arbitrary word sequences.' + REC),
 'C22': ('TLA+ spec RlpTags: TLC decides each recorded struct by a declarative reading of the tag rules', 'Random structs of random types and tags, half of them nearly acceptable.' + REC),
 'C26': ('TLA+ specs JsonText, Solc: TLC parses each recorded compiler output and derives the contracts', 'A JSON parser in TLA+; old and new format, damaged texts, members of wrong types.' + REC),
 'C27': ('TLA+ spec Pretty: TLC re-computes every recorded text', 'Exact binary fractions, durations and ages printed by TLA+ arithmetic.' + REC),
 'C28': ('TLA+ spec SysTimer: TLC folds recorded histories of the system clock over its timers', 'Exact instants in virtual time, lower bounds and eventual firing in real time.' + REC),
})
CLAIMS.update({
 'C24': ('TLA+ spec RlpGen: TLC re-computes the outcome of every generation, encoding and decoding', 'Random struct types are given to the real generator; the generated code is compiled and run over a small stand-in for the missing RLP runtime, and the specification (support, encoding and decoding by structural recursion on the type) decides every outcome.' + REC),
})
CLAIMS.update({
 'C29': ('TLA+ spec Sinks: TLC trace acceptance of recorded histories', 'Files (several handlers per file), slow and failing writers in virtual time, and real loopback connections, Unix sockets and a stand-in system log; what each holds in the end must be explained by the records, one write each between call and return.' + TRACE),
})
SALV = ' The package does not compile as a whole; the declarations that do are built unchanged through an overlay.'
CLAIMS.update({
 'C30': ('TLA+ spec BlockParam: TLC re-computes every recorded reading and writing', 'The accepted language, JSON included, is a TLA+ acceptor.' + SALV + REC),
 'C31': ('TLA+ spec RpcMsg: TLC re-computes every recorded classification, answer and batch', 'Messages are parsed by a JSON parser in TLA+.' + SALV + REC),
 'C32': ('TLA+ spec Services: TLC replays recorded registrations and calls', 'Random receiver types are generated as Go code; which methods are exposed and what a call does is computed from a description of their signatures.' + SALV + REC),
 'C33': ('TLA+ specs Notify, RpcClient, RpcIds: TLC trace acceptance of recorded concurrent histories', 'Random programs over the notifiers and the handler at the server, and over the handler and client subscriptions at the client, with failing writes and close.' + SALV + TRACE),
})
CLAIMS.update({
 'C34': ('TLA+ spec RpcServer: TLC trace acceptance of recorded concurrent histories', 'Random programs that track, let go, serve single requests and stop concurrently, with codecs that record what is read, written and closed.' + SALV + TRACE),
})
CLAIMS.update({
 'C35': ('TLA+ spec LogEntry: TLC computes the record each call must make and compares', 'Chains of functions, closures and methods of random length that end in every entry point; child processes for Crit and for a program that sets no handler.' + REC),
})
CLAIMS.update({
 'C36': ('TLA+ spec Files: TLC re-computes every recorded result', 'JSON is a pushdown automaton in TLA+ that finds the first impossible byte of damaged texts; paths are cleaned and boxes drawn in TLA+.' + REC),
})
NA['C25'] = 'At this commit the functions that serve connections (handleMsg, handleBatch, the codec, HTTP, dial and serve loops) are empty or break off in the middle, so there is no implementation to bind a specification to; the finished parts of the package are C30 to C34.'
