#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as data here so that the file is easy to edit)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
FEED=["event/feed.go","event/feedof.go"]
p("C01","Feeds deliver every sent value exactly once to every live subscription",
 "For the dynamically typed feed and the generic feed alike, a value passed to Send is delivered exactly once to every channel whose subscription is active during the whole Send, never to a channel whose subscription was cancelled before the Send began or made after the Send returned, and never twice. Send returns exactly the number of deliveries it made. Slow receivers are waited for, never skipped, however subscriptions come and go during the Send.",
 ["schedules","histories"],"every interleaving of concurrent Send, Subscribe, Unsubscribe and receive operations, any number of senders, any buffer sizes, including one channel subscribed more than once",
 "The tests run a handful of fixed goroutine patterns under whatever schedule the Go scheduler picks; delivery is a statement about all interleavings of cancel/subscribe with an in-progress Send.",
 FEED,[("pending-subscriber inbox merged at the start of each Send","event/feed.go Send"),("select over the remaining cases, swap-to-end on delivery","event/feed.go Send/deactivate"),("removal during a Send through an interrupt channel","event/feed.go remove")],
 [("sendCases","active subscriptions","event/feed.go"),("inbox","subscriptions not yet seen by a Send","event/feed.go")],["return value of Send","values received from subscribed channels"])
p("C02","Feeds serialise sends: all subscribers see one common order",
 "Concurrent Sends on one feed take effect one after the other: the values arriving at any two subscribers never contradict each other's order, each channel sees the values in that order without gaps between its first and its last, and a Send that returned before another was called comes first. A blocked Send delays other Sends but never loses or reorders them.",
 ["schedules","histories"],"every interleaving of any number of concurrent senders and receivers on one feed",
 "The tests use one sender at a time or only count values; an order inversion needs a particular interleaving of two senders.",
 FEED,[("single-token send lock","event/feed.go Send")],[("sendLock","token that serialises Sends","event/feed.go")],["values received from subscribed channels"])
p("C03","Cancelling a feed subscription is isolated, prompt and final",
 "Unsubscribe on a feed subscription may be called any number of times, from any goroutine, at any moment including during a Send or before the first one; it always returns without waiting for any receiver, closes that subscription's error channel, and once it has returned nothing more is ever sent on the channel by that subscription. It affects no other subscription, and a Send that was only waiting for cancelled subscriptions completes. No combination of these calls deadlocks or panics.",
 ["schedules","histories"],"every interleaving of Unsubscribe (also repeated and concurrent) with Sends, Subscribes and other Unsubscribes",
 "The tests cancel subscriptions in two or three fixed situations; the dangerous cases are cancels that land between the internal steps of a Send.",
 FEED,[("removal from the inbox, through the running Send, or under the send lock","event/feed.go remove"),("once-guarded cancel","event/feed.go Unsubscribe")],(),["return of Unsubscribe","error channel","later receives"])
p("C04","Feeds are type safe and survive rejected calls",
 "The first successful Send or Subscribe fixes the element type of a feed; every later Send or Subscribe with another element type panics, and so does subscribing anything that is not a channel that can be sent to. A rejected call has no effect: nothing is delivered or subscribed by it, and the feed stays fully usable by correctly typed callers, also when correct and incorrect calls run concurrently.",
 ["histories","schedules"],"every sequence and interleaving of correctly and incorrectly typed Send and Subscribe calls on the dynamically typed feed",
 "Tests check one panic per fresh feed and never use the feed afterwards or concurrently.",
 ["event/feed.go"],[("type check under the feed mutex","event/feed.go typecheck"),("send lock released before panicking","event/feed.go Send")],[("etype","element type fixed by first use","event/feed.go")],["panic values","later deliveries"])
p("C05","The type multiplexer delivers by type, exactly once, until closed",
 "An event posted to the type multiplexer is delivered exactly once to every subscription that registered the event's type, was created before the post began and stays open, and to nothing else; Post returns only after that. After Stop, Post fails with the closed-mux error, every subscription channel is closed and new subscriptions are born closed; Unsubscribe and Stop may be called repeatedly and concurrently with posts, wait for deliveries in progress, never panic or deadlock, and nothing is delivered after they return.",
 ["schedules","histories"],"every interleaving of Subscribe, Post, Unsubscribe, Stop and receives over several event types",
 "The tests exercise a few scenarios under the default scheduler; closing a channel while a post is in flight is a narrow race.",
 ["event/event.go"],[("copy-on-write subscriber lists","event/event.go Subscribe/del"),("post lock and closing channel","event/event.go deliver/closewait")],[("subm","subscriptions by type","event/event.go"),("stopped","mux closed","event/event.go")],["channel contents and closure","Post results"])
p("C06","Producer subscriptions report one outcome and wait on cancel",
 "A subscription made from a producer function runs the producer exactly once; if the producer returns an error before being cancelled exactly that error is delivered once on the error channel and then the channel is closed, and otherwise the channel is closed without a value. The cancelling Unsubscribe signals the producer, suppresses its error and returns only after the producer has returned; Unsubscribe is idempotent and safe to call at any time from any goroutine, including before the producer has started and after it has ended.",
 ["schedules","histories"],"every interleaving of the producer's steps and return value with any number of concurrent Unsubscribe calls and error-channel reads",
 "Two tests run two schedules; the outcome depends on the race between the producer's return and a cancel.",
 ["event/subscription.go"],[("unsubscribed flag under mutex, buffered error channel","event/subscription.go NewSubscription/Unsubscribe")],[("unsubscribed","cancelled or ended","event/subscription.go")],["error channel","return of Unsubscribe relative to producer return"])
p("C07","Resubscription keeps one subscription alive until success or cancel",
 "A resubscribing subscription calls its connect function one call at a time, never holds more than one live inner subscription, passes to each call after the first the error with which the last inner subscription failed, waits between failed attempts for a time that grows but never exceeds the maximum, and stops for good, closing its error channel, when an inner subscription ends without error. Unsubscribe cancels a pending connect call's context, always returns, can be called at any moment (also twice and after the end), and after it has returned no connect call is running or made any more and every inner subscription ever obtained has been unsubscribed.",
 ["schedules","histories","fault_sequences"],"every sequence of connect failures, inner errors and clean endings, and every moment of Unsubscribe, including while connect is running or during the back-off",
 "The tests script one sequence each and unsubscribe at one point; leaks and deadlocks depend on when the cancel lands.",
 ["event/subscription.go"],[("loop alternating subscribe and wait","event/subscription.go loop"),("back-off timer","event/subscription.go backoffWait"),("cancel channel","event/subscription.go Unsubscribe")],[("lastSubErr","error of the last inner subscription","event/subscription.go"),("waitTime","current back-off","event/subscription.go")],["calls of the connect function with arguments and times","inner Unsubscribe calls","error channel"])
p("C08","A subscription scope cancels everything it tracks, exactly until closed",
 "Closing a scope cancels every subscription still tracked by it before Close returns, and from then on tracking yields nothing and leaves the given subscription alone; cancelling a tracked wrapper cancels the underlying subscription and removes just that one from the scope. The count always equals the number of tracked, not yet cancelled wrappers (zero once closed), and all operations may be mixed concurrently and repeated without panic or deadlock.",
 ["schedules","histories"],"every sequence and interleaving of track, wrapper cancel, close and count operations",
 "One test closes one scope with a fixed number of subscriptions; nothing covers concurrent tracking and closing.",
 ["event/subscription.go"],[("set of wrappers under a mutex, closed flag","event/subscription.go SubscriptionScope")],[("subs","tracked wrappers","event/subscription.go"),("closed","scope closed","event/subscription.go")],["Track results, Count, cancel calls on the underlying subscriptions"])
p("C09","The simulated clock fires each timer exactly once, at its deadline, in order",
 "The simulated clock's time is exactly the sum of all Run durations; a timer fires during the first Run that reaches its deadline and not before, timers due in one Run fire in order of deadline, each armed timer fires at most once, channel timers deliver their deadline, and a timer that was stopped does not fire. Stop reports whether it prevented a firing, resetting a channel timer re-arms it relative to the current time whether it is pending, fired or stopped, the number of active timers is exact at all times, waiting for n timers returns as soon as n are scheduled, and timer callbacks may themselves use the clock.",
 ["histories","schedules"],"every sequence of create, stop, reset and run operations over any number of timers and durations (including zero and equal deadlines, and operations made by callbacks), and concurrent waiters",
 "There are no tests of the simulated clock in the repository; its heap bookkeeping matters only for particular orders of stop/reset/run.",
 ["common/mclock/simclock.go"],[("heap of pending timers with stored positions","common/mclock/simclock.go schedule/Stop/Reset"),("Run pops due timers then calls them unlocked","common/mclock/simclock.go Run")],[("now","virtual time","common/mclock/simclock.go"),("scheduled","pending timers","common/mclock/simclock.go")],["fire times and order, Stop results, ActiveTimers, WaitForTimers"])
p("C10","An alarm never fires later than scheduled and never loses a deadline",
 "After scheduling an alarm for a time, its channel becomes readable no later than that time (immediately for times not in the future), whatever was scheduled before, including earlier, later, already fired or stopped deadlines; it becomes readable only at some time for which it was scheduled. Notifications never block the clock and never accumulate beyond one, stopping cancels the pending deadline and empties the channel, and a stopped or fired alarm can be scheduled again.",
 ["histories"],"every sequence of schedule (any times), stop, channel reads and clock advances",
 "There are no tests of the alarm in the repository; a lost wake-up needs a specific order of reschedules around the current deadline.",
 ["common/mclock/alarm.go"],[("reuse of an earlier pending timer, otherwise re-arm","common/mclock/alarm.go schedule")],[("deadline","time of the pending timer","common/mclock/alarm.go")],["alarm channel readability at each virtual time"])
p("C11","Loggers accumulate context, inherit handlers live, and never alter arguments",
 "A record written through a logger carries the message and level of the call, the logger's own context (inherited from its ancestors, oldest first) followed by the call's key/value pairs, with odd-length contexts completed by a nil value and an error marker and a single context map expanded to its pairs. A child logger writes to its parent's current handler, also when the parent's handler is replaced later, until it gets its own; logging before any handler is configured is harmless. Neither creating loggers nor logging ever changes the caller's argument slices or another logger's context.",
 ["histories","schedules"],"every tree of loggers, every sequence (and interleaving) of New, SetHandler and log calls, and every context shape",
 "There are no tests of the logger tree; aliasing of context slices and handler inheritance show only for particular trees and orders.",
 ["log/logger.go","log/root.go","log/handler_go14.go"],[("context copied on every New and write","log/logger.go newContext"),("swappable handler chained to the parent's","log/handler_go14.go")],[("ctx","accumulated context","log/logger.go"),("h","current handler cell","log/logger.go")],["records reaching handlers"])
p("C12","Composed log handlers route each record exactly as composed",
 "Handlers composed from filters, level filters, key matching, multi, failover, lazy, synchronising, buffered, channel, discard and function handlers deliver each record to exactly the leaf handlers that the composition prescribes, each at most once and in order: multi reaches all of its parts even when some fail, failover reaches a part only if all earlier ones failed and adds one error note per failed part, lazy values are evaluated (or replaced by an error note) before the record goes on, and filters pass exactly the matching records. Results and errors propagate as prescribed, buffered and channel handlers keep order and lose nothing, and the synchronising handler never runs its inner handler concurrently.",
 ["programs","inputs","schedules"],"every composition tree of the library's handlers, every record (level, message, context shape including lazy values) and every pattern of leaf failures",
 "There are no tests of any handler; routing is defined by the whole composition tree and failure pattern.",
 ["log/handler.go"],[("combinators over a one-method handler interface","log/handler.go")],(),["records and return values at leaf handlers and at the root of the composition"])
p("C13","The glog filter passes exactly what verbosity or the first matching rule allows",
 "A record passes the glog-style filter iff its level is within the global verbosity or within the level of the first per-module rule, of the most recent rule set, that matches its call site; rejected rule sets or backtrace locations leave the filter unchanged. This holds at all times under reconfiguration, repeated logging from the same call site and concurrent use; hitting the configured backtrace location raises the record to info and appends the stacks.",
 ["histories","inputs","schedules"],"every sequence of verbosity, rule-set and backtrace changes interleaved with logging from any call sites (also concurrently), and every rule-set string",
 "There are no tests of the glog handler; a stale call-site cache or wrong pattern translation shows only after particular reconfigurations.",
 ["log/handler_glog.go"],[("pattern to regular expression translation","log/handler_glog.go Vmodule"),("call-site level cache reset on each rule set","log/handler_glog.go Log/Vmodule")],[("siteCache","remembered levels per call site","log/handler_glog.go"),("patterns","active rules","log/handler_glog.go")],["records reaching the wrapped handler"])
p("C14","Text log lines encode every record on one parseable line",
 "Formatting a record as logfmt yields one line, ended by one newline, made of time, level, message and every context pair in order as key=value separated by spaces, from which each key and string value can be recovered unambiguously: a key or value is quoted and escaped whenever it contains a space, quote, equals sign, control or non-ASCII character. The terminal format prints level, time, optional call origin, the message (escaped when it is unsafe) and the same pairs, with and without colour; integers of any size are printed in decimal with a comma before every group of three digits once they have six digits, and non-string keys and odd values never cause a panic or a dropped pair.",
 ["inputs"],"every message, every sequence of context keys and values of any type, every integer, with and without colour and origins",
 "Tests check a few strings and integers; the encoding must be unambiguous for all inputs, including quotes, separators and multi-byte text.",
 ["log/format.go"],[("quoting decision per string","log/format.go escapeString/escapeMessage"),("key/value loop","log/format.go logfmt"),("digit grouping","log/format.go formatLogfmtUint64/formatLogfmtBigInt")],(),["bytes returned by the formats"])
p("C15","Hex encoding round-trips and decoding accepts exactly the canonical grammar",
 "Encoding any byte string, 64-bit number or big number and decoding it again yields the same value, and every quantity has exactly one encoding: minimal lower-case digits after 0x. Decoders (direct, text and JSON forms, for bytes, fixed-size bytes, big, uint64 and uint) accept exactly the strings of the documented grammar, within range and without leading zeros for quantities, report the documented error for every other string, never panic, and leave the target unchanged when they reject fixed-size input.",
 ["inputs"],"every byte string, number and every input string of any length and character content",
 "Tests sample a few dozen strings per decoder; acceptance is a statement about all strings and all boundary sizes.",
 ["common/hexutil/hexutil.go","common/hexutil/json.go"],[("prefix, emptiness and leading-zero checks","common/hexutil/hexutil.go checkNumber, json.go checkNumberText/checkText"),("word-wise nibble decoding","common/hexutil/hexutil.go DecodeBig, json.go UnmarshalText")],(),["decoded values and errors"])
p("C16","Hashes and addresses convert faithfully and reject malformed text",
 "Making a 32-byte hash or 20-byte address from bytes, a big integer or hex text keeps the low-order bytes of longer input and left-pads shorter input with zeros, and converting back to bytes, hex, text, JSON, database or formatted form reproduces exactly those bytes. Parsing from text, JSON, GraphQL or database values accepts exactly correctly sized values (prefixed hex; optionally unprefixed where documented) and otherwise fails without changing the target; hex validity checks, mixed-case addresses and the unprefixed forms agree with these rules.",
 ["inputs"],"every byte string, big integer, hex string and database value, of every length",
 "Tests use a few literal values; cropping, padding and rejection are rules over all lengths and characters.",
 ["common/types.go"],[("crop from the left, copy to the right","common/types.go SetBytes"),("fixed-size text decoding","common/types.go UnmarshalText/UnmarshalJSON/Scan")],(),["resulting values, texts and errors"])
p("C17","Byte-string helpers pad, trim, parse and copy without altering their input",
 "Padding returns the input unchanged when it is long enough and otherwise a slice of exactly the requested length holding the input flush right (left-pad) or flush left (right-pad) with zeros elsewhere; trimming removes exactly the leading or trailing zero bytes; hex helpers decode with optional prefix and odd length, crop or pad to fixed length, and treat unprefixed text as raw bytes where documented. Copies never share memory with the original, and no helper changes the bytes it was given.",
 ["inputs"],"every byte string and hex string and every requested length",
 "Tests check one or two literals per helper.",
 ["common/bytes.go"],[("slice copies with computed offsets","common/bytes.go")],(),["returned slices and the caller's buffers afterwards"])
p("C18","256-bit integer arithmetic and parsing match integer mathematics",
 "Exponentiation equals the mathematical power modulo 2^256, wrapping and signed interpretation are reduction modulo 2^256 and two's complement, byte extraction, lowest-set-bit, fixed-width and padded big-endian encodings, minimum and maximum all equal their mathematical definitions for arguments of every size. Decimal and prefixed-hex parsing accept exactly the integers of at most 256 bits, printing and parsing round-trip, and no function changes an argument unless it is documented as destructive.",
 ["inputs"],"every big integer argument (zero, word boundaries, 256-bit boundaries, larger), every position and width, every input string",
 "There are no tests of this package in the repository.",
 ["common/math/big.go"],[("word-by-word square and multiply","common/math/big.go Exp"),("word to byte conversion","common/math/big.go ReadBits/PaddedBigBytes/Byte")],(),["results and the arguments afterwards"])
p("C19","Keccak hashes equal the specification for any way of feeding the data",
 "For every message the 224, 256, 384 and 512-bit Keccak digests equal the sponge function of the Keccak specification (original padding), however the message is split over writes. Taking a sum does not disturb the running hash and appends to the given slice without changing its content, reset restores the initial state, and different hash objects are independent.",
 ["inputs","histories"],"every message length and content, every division into writes, every sequence of write, sum and reset",
 "There are no tests of the hash in the repository; block-boundary and unaligned-write bugs depend on the exact lengths and splits.",
 ["crypto/sha3/sha3.go","crypto/sha3/keccakf.go"],[("lane-wise absorb with unaligned head and tail","crypto/sha3/sha3.go Write"),("unrolled permutation","crypto/sha3/keccakf.go")],[("a","sponge state","crypto/sha3/sha3.go"),("absorbed","bytes absorbed","crypto/sha3/sha3.go")],["digests"])
p("C20","Curve operations obey the group law and point encoding round-trips",
 "Adding, doubling and multiplying points of a short Weierstrass curve y^2=x^3+b over a prime field computes the elliptic-curve group operation for all points, including equal, opposite and infinite ones (infinity being (0,0)), and multiplication agrees with repeated addition for every non-zero scalar of any size or leading zeros. The predefined 160, 192, 224 and 256-bit curves have their standard parameters with a base point on the curve of the stated order, generated keys are non-trivial points matching their private scalar, marshalling round-trips with fixed width and unmarshalling accepts only that form; no operation changes its arguments.",
 ["inputs"],"every curve of this shape, every pair of points, every scalar and byte string",
 "There are no tests of the curve code in the repository; formula exceptions occur only at special points and scalars.",
 ["crypto/curve.go"],[("Jacobian addition and doubling with exceptional cases","crypto/curve.go addJacobian/doubleJacobian"),("double-and-add","crypto/curve.go ScalarMult"),("fixed-width encoding","crypto/curve.go Marshal/Unmarshal")],(),["resulting affine points and encodings"])
p("C21","Mnemonic encoding is lossless for 32-byte values",
 "Encoding any 64-digit lower-case hexadecimal value gives 24 words from the word list and decoding those words gives back exactly that value; distinct values give distinct word sequences. The word list consists of 1626 distinct words.",
 ["inputs"],"all 32-byte values written in hex",
 "The test covers two fixed values; losslessness depends on the modular arithmetic for every 32-bit group and on every list entry.",
 ["crypto/mnemonic.go","crypto/mnemonic_words.go"],[("three-word base-1626 encoding of each 32-bit group","crypto/mnemonic.go")],(),["word sequences and decoded strings"])
p("C22","RLP struct tags are interpreted exactly as documented",
 "Processing a struct's fields yields exactly the exported, non-ignored fields in order with their tag meanings: the nil tags are allowed only on pointers and choose the empty string for pointed-to unsigned integers, strings, booleans and byte arrays or slices and the empty list otherwise (or the kind named explicitly), optional fields may only be followed by optional or tail fields, tail is allowed only on a last exported slice field and not together with optional. Every other combination, and every unknown tag, is rejected with an error naming the field.",
 ["inputs","programs"],"every struct shape: any number of fields, kinds, exportedness and tag strings",
 "There are no tests of tag processing in the repository; the rules interact across fields.",
 ["rlp/internal/rlpstruct/rlpstruct.go"],[("per-field tag parsing and cross-field optional check","rlp/internal/rlpstruct/rlpstruct.go")],(),["returned fields, tags and errors"])
p("C23","JSON log lines carry every field and stay valid JSON",
 "Formatting a record as JSON yields exactly one valid JSON object per record, newline-terminated iff so configured, whose members are the time, level name, message and every context pair, with numbers and strings preserved and all other values rendered as text; the ordered variant keeps the context as an ordered list of keys and values. Any keys and values, including non-string keys, nil pointers, errors, text with arbitrary characters and values that cannot be marshalled, still give one valid JSON object and never a panic.",
 ["inputs"],"every message and context with keys and values of any type",
 "There are no tests of the JSON formats.",
 ["log/format.go"],[("value normalisation before marshalling","log/format.go formatJSONValue/formatShared")],(),["bytes returned by the formats"])
p("C24","Generated RLP code encodes and decodes exactly as the type prescribes",
 "For every struct type built from bool, fixed-size unsigned integers, strings, byte slices and byte arrays, big.Int and *big.Int, rlp.RawValue, pointers to types with their own EncodeRLP and DecodeRLP, slices, pointers and structs (named or not, from this or other packages), the RLP code generator emits a Go file that compiles, whose encoder writes the RLP of the exported, not ignored fields in order (omitting trailing zero optional fields, writing the prescribed empty value for nil pointers, refusing negative numbers) and whose decoder inverts it, leaving missing optional fields zero and rejecting too short, too long and non-canonical input. Every other type and the tail tag are refused with an error, without panic. Generation is deterministic, and encoder and decoder can be generated separately.",
 ["programs","inputs"],"every struct type with any nesting, tags and number of fields, every value of it, and every input to its decoder",
 "The generator's tests do not run at this commit (the package they load does not exist); correctness is a statement about all types and values.",
 ["rlp/rlpgen/gen.go","rlp/rlpgen/types.go","rlp/internal/rlpstruct/rlpstruct.go"],[("operation tree per field type emitting write/read code","rlp/rlpgen/gen.go"),("non-zero check of optional fields","rlp/rlpgen/types.go")],(),["generated source, and bytes and values it produces when run"])
p("C25","RPC connections read, dispatch and answer every request",
 "Every incoming JSON-RPC call or batch read from a connection gets exactly one response per call with the matching id, notifications get none, malformed input is answered by the standard error codes, and client calls over HTTP or a stream return the answer to their own request.",
 ["inputs","histories","schedules"],"every message, batch and interleaving of calls on a connection",
 "The package has no tests and does not compile at this commit.",
 ["rpc/handler.go","rpc/json.go","rpc/http.go","rpc/client.go"],[("message dispatch and per-call goroutines","rpc/handler.go handleMsg/handleBatch"),("codec","rpc/json.go")],(),["messages written to the connection"])
p("C26","Solidity compiler output is parsed losslessly into contracts",
 "Parsing the compiler's combined JSON output yields one entry per contract under its full name, with its code, runtime code, source map, hashes, ABI, user and developer documentation and metadata taken from that contract, for both the old format (documents as embedded JSON strings) and the new one (documents as JSON values), together with the given source, language, versions and options. Malformed output is reported as an error without a panic and without a partial result.",
 ["inputs"],"every combined-JSON document of either format, with any number of contracts, and every malformed document",
 "There are no tests of the parser that run without an installed compiler.",
 ["common/compiler/solidity.go"],[("version-dependent document parsing","common/compiler/solidity.go ParseCombinedJSON/parseCombinedJSONV8")],(),["returned contract map or error"])
p("C27","Sizes, durations and ages print in the documented unit with bounded precision",
 "A storage size prints with exactly two decimals in the largest binary unit it exceeds; a duration prints as the standard form cut (not rounded) to at most three decimals of its smallest unit; an age prints its largest non-zero units of year, month, week, day, hour, minute and second, at most three, and 0 below one second.",
 ["inputs"],"every size, duration and age",
 "Tests sample a few sizes and no durations or ages near unit boundaries.",
 ["common/size.go","common/format.go"],[("threshold cascade","common/size.go"),("unit table","common/format.go")],(),["returned strings"])
p("C28","System timers never fire early or twice and stop reliably",
 "With the system clock, time never runs backwards, a sleep or timer never ends before its duration has passed, each arming fires at most once, a timer stopped before firing does not fire, and a reset timer fires again after the new duration. An alarm on the system clock keeps its guarantees.",
 ["schedules","histories"],"every sequence of create, stop and reset operations with any durations",
 "There are no tests of the system clock in the repository.",
 ["common/mclock/mclock.go"],[("wrappers over the runtime's timers with one-slot channels","common/mclock/mclock.go")],(),["times and values delivered by timers"])
p("C29","Log sinks write every record whole, once and in order",
 "The handlers that write to a file, a connection, the system log or any other writer write the formatted bytes of each record whole and exactly once, in an order that fits the order of the calls, however many goroutines use them; lazy values are evaluated first. A file keeps what it held before, also when several handlers write to it, and a new one is created with mode 0644. The call returns an error exactly when its write failed, and a failed write does not affect later ones. The system log receives the text without white space around it, with the given facility and tag and the severity of the record's level; trace records are dropped. A handler is created exactly when its target can be opened; otherwise its constructor returns an error, or panics in the Must variant.",
 ["inputs","schedules","faults"],"every set of handlers over files, connections and writers that fail at any write after any number of bytes, every format, and every interleaving of callers",
 "There are no tests of these handlers in the repository.",
 ["log/handler.go","log/syslog.go"],[("serialised writes of formatted records","log/handler.go StreamHandler/SyncHandler"),("target creation","log/handler.go FileHandler/NetHandler"),("level to severity","log/syslog.go sharedSyslog")],(),["bytes, packets and system log messages received","returned errors"])
p("C30","Block parameters are read and written in canonical form",
 "A block number is read from exactly the names earliest, latest, pending, finalized and safe, or a hex number without leading zeros up to 2^63-1, quoted or not and with white space around it, and written back as the same name or canonical hex number, so that every value it can hold survives the round trip. A block reference is read from a name, a hex number, a 32-byte hash, or an object with at most one of number and hash and an optional canonical flag; anything else is an error, without panic, and number and hash accessors tell which one was given.",
 ["inputs"],"every JSON value, every byte string and every block number",
 "There are no tests of the package; the accepted language is a statement about all inputs.",
 ["rpc/types.go"],[("text forms of block numbers","rpc/types.go BlockNumber"),("union of number, hash and object","rpc/types.go BlockNumberOrHash.UnmarshalJSON")],(),["values, errors and texts returned"])
p("C31","RPC messages are classified and answered in standard form",
 "A JSON-RPC message of version 2.0 is a notification exactly when it has a method and no id, a call when it has a method and an id that is neither an object nor an array, and a response when it has such an id, no method and no parameters, and a result or an error; its namespace is what stands before the first underscore. An answer carries version, the request's id byte for byte, and either the marshalled result or an error with the code, message and data of the error given (or the default code; a result that cannot be marshalled is an internal error), and nothing else. A batch is answered once, with the answers of its finished calls in order and, on a timeout, a timeout error for each unfinished call but no answer for notifications.",
 ["inputs","histories"],"every message, result, error and batch, and every moment of a timeout",
 "There are no tests of the package.",
 ["rpc/json.go","rpc/errors.go","rpc/handler.go"],[("classification by the members present","rpc/json.go isNotification/isCall/isResponse"),("answers","rpc/json.go response/errorMessage"),("batch buffer shared with a timer","rpc/handler.go batchCallBuffer")],(),["classification, marshalled messages, errors"])
p("C32","RPC services expose exactly the suitable methods and call them faithfully",
 "Registering a receiver under a name exposes exactly its exported methods with suitable results (none, a value, an error, or a value and an error last), under their name with a lower-case first letter, as subscriptions those that take a context first and return a subscription and an error, and as calls the others; a receiver without any and an empty name are refused. Later registrations under the same name add to and replace earlier ones, other names are unaffected. Calling passes the receiver, the context if the method takes one, and exactly the given arguments in order, and returns the method's value and error; a panic in the method becomes an internal error.",
 ["programs","inputs","histories"],"every receiver type, registration history, method name and argument list",
 "There are no tests of the package; the rules are about all method signatures.",
 ["rpc/service.go","rpc/server.go"],[("selection of methods by reflection","rpc/service.go suitableCallbacks/newCallback/isPubSub"),("call by reflection","rpc/service.go callback.call")],[("services","name -> callbacks and subscriptions","rpc/service.go serviceRegistry")],["callbacks found, arguments received and results returned"])
p("C33","RPC subscriptions deliver in order after their id until cancelled",
 "Subscription identifiers are distinct random hex quantities of up to 128 bits. At the server notifications are held back until the identifier has been sent and then written in order, each once, under the subscription's method and identifier, and a failed write is reported; cancelling succeeds exactly once per live subscription and closes its error channel, closing the connection ends every subscription with the error after the running calls have finished. At the client values are forwarded in order, each once, however slow the subscriber is (up to 20000 waiting values); a value that does not fit, too many of them, and the end of the connection end the subscription with the documented error, unsubscribing closes the error channel after the server was asked to cancel, and none of this blocks the handling of other messages. Every answer reaches the request waiting for it and no other, and closing ends all waiting requests but the one being sent.",
 ["schedules","histories","inputs","faults"],"every interleaving of notify, activation, cancel, delivery, answers and close, and failing writes at any point",
 "There are no tests of the package; the guarantees are about interleavings.",
 ["rpc/subscription.go","rpc/handler.go","rpc/client.go"],[("buffer until activation under a lock","rpc/subscription.go Notifier"),("forwarding loop with quit, in and out channels","rpc/subscription.go ClientSubscription"),("request table and close","rpc/handler.go cancelAllRequests/handleResponse")],[("buffer","notifications held back","rpc/subscription.go"),("clientSubs, serverSubs, respWait","live subscriptions and requests","rpc/handler.go")],["messages written, values and errors received"])
p("C34","A stopped RPC server closes its connections and serves nothing more",
 "While a server runs, every connection that is served is tracked, until it is let go. The first stop closes every tracked connection exactly once before it returns, and no other; from then on no connection is tracked and no request is read or answered. Stopping again does nothing. A single request that cannot be read is answered by one parse error with a null id, unless the connection is at its end. Closing a client's end of a connection first ends the running calls and then closes the connection.",
 ["schedules","histories"],"every interleaving of tracking, letting go, single requests and stops",
 "There are no tests of the package; the guarantees are about interleavings with a stop.",
 ["rpc/server.go","rpc/client.go"],[("run flag and codec table under a lock","rpc/server.go trackCodec/untrackCodec/Stop"),("single requests","rpc/server.go serveSingleRequest")],[("codecs","connections being served","rpc/server.go Server"),("run","cleared by the first stop","rpc/server.go Server")],["connections closed, requests read and answers written"])
p("C35","Log entry points record level, call site and time; Crit ends the process",
 "Every entry point of the log, of the package or of a logger, makes exactly one record with its own level, the message, the logger's context followed by the given one (an odd one completed by an error entry), the time of the call and the file and line of the caller; Output takes the level and reports the caller the given number of frames up, whatever functions, closures, methods and interfaces lie between. Crit makes its record first, whatever the handler does with it, and then ends the process with status 1 without running anything else. Before a handler is set nothing is printed. Each level has its four-letter and its aligned name, and is read back from its names, short or long; any other text is an error that names it.",
 ["inputs","programs"],"every entry point, context, call chain and depth, and every level and level name",
 "The tests check no call sites, times or exits.",
 ["log/root.go","log/logger.go"],[("frames to skip","log/root.go Output, log/logger.go write"),("exit after the record","log/logger.go Crit")],(),["records given to the handler","exit status and output of the process"])
p("C36","File, name, warning and random helpers do exactly what they say",
 "A JSON file is loaded exactly when its text is valid JSON that fits the target; a syntax error names the file and the line of the first byte that no JSON text can have there, other errors name the file, and a missing file is reported as such. A path exists exactly when a file, directory or the target of a link is there. A relative file name is joined to the data directory and cleaned, an absolute one is returned as it is. Node names, deprecation boxes and bug reports have their documented form, the latter with the caller's position. Random bytes come in the requested number, every one of them random, into exactly the given buffer.",
 ["inputs"],"every file content, path, text and length",
 "There are no tests of these helpers.",
 ["common/path.go","common/test_utils.go","common/debug.go","crypto/randentropy/rand_entropy.go"],[("line of an offset","common/test_utils.go findLine")],(),["values, errors and texts returned or printed"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for r in P:
        assert len(r['title'])<=80,(r['id'],len(r['title']))
        f.write(json.dumps(r,ensure_ascii=False)+'\n')
print(len(P))
