AI = "abstract interpretation of the SSA form (linear relations, trace partitioning, inferred invariants and summaries)"
SOUND = ("Sound over all inputs and heap contents within the stated assumptions (non-nil receivers and options, non-aliasing arguments, lengths up to 2^40, "
         "documented behaviour of the standard library); what cannot be decided is reported as a violation. Trusts go/ssa and the analyzer. ")
HARN = ("The assertions are written independently of the code, from the standard, over the exported API; each must hold on every path that reaches it, and every one must be reached.")
PROPS = [
 dict(id="C01", title="Decoding arbitrary input never panics",
  statement="Whatever octets, headers, segments, character sets and options they are given, the operations that decode (binary and hex PDU unmarshalling, user data and message decoding, unpacking, reassembly) return a value or an error and never panic.",
  over=["inputs", "histories"], quant="every byte string, every TPDU content, every option combination, every sequence of collected segments",
  why="The inputs come from the network; tests sample some truncations of some TPDUs, while a missing guard fires on one particular length, nibble or header.",
  files=["encoding/tpdu/tpdu.go", "encoding/tpdu/userdata.go", "encoding/tpdu/address.go", "encoding/gsm7/gsm7.go", "encoding/gsm7/7bit.go", "encoding/ucs2/ucs2.go", "encoding/semioctet/semioctet.go", "encoding/pdumode/pdu.go", "collect.go", "sms.go"],
  mech=[("length guards before each read", "encoding/tpdu/tpdu.go: TPDU.unmarshal*"), ("UDH element bounds", "encoding/tpdu/userdata.go: UserDataHeader.UnmarshalBinary"), ("segment number range check", "collect.go: Collector.Collect")],
  technique=AI + ": panic freedom", level="proof",
  note=SOUND + "Every index, slice, division, shift, make, map write, nil dereference, type assertion and panic reachable from decoding is an obligation."),
 dict(id="C02", title="Encoding arbitrary content never panics",
  statement="Whatever message, number, template, header and options they are given, the operations that build, segment, encode, pack and marshal return a value or an error and never panic.",
  over=["inputs", "configurations"], quant="every message, number, TPDU template content, header and option combination",
  why="Tests use a handful of messages and templates; a panic needs a particular length, header size or template.",
  files=["encode.go", "encoding/tpdu/tpdu.go", "encoding/tpdu/userdata.go", "encoding/tpdu/address.go", "encoding/gsm7/gsm7.go", "encoding/gsm7/7bit.go", "encoding/semioctet/semioctet.go", "encoding/pdumode/pdu.go"],
  mech=[("block size and chunking", "encoding/tpdu/tpdu.go: TPDU.Segment"), ("table lookups", "encoding/gsm7/charset"), ("number formatting", "encoding/tpdu/address.go")],
  technique=AI + ": panic freedom", level="proof",
  note=SOUND + "Same obligations as C01, for the code reachable from building, encoding and marshalling."),
 dict(id="C03", title="Every call terminates",
  statement="Every operation of the library returns after finitely many steps for every input: no loop can run for ever, no recursion is unbounded, and no operation waits for a lock it already holds.",
  over=["inputs", "histories"], quant="every input of every exported function and method",
  why="A loop that stops making progress does so on one particular length or digit, which a test has to hit.",
  files=["encoding/tpdu/tpdu.go", "encoding/tpdu/userdata.go", "encoding/semioctet/semioctet.go", "encoding/ucs2/ucs2.go", "encoding/gsm7/7bit.go", "collect.go"],
  mech=[("chunking loops advance by a positive block", "encoding/tpdu/tpdu.go: chunk7Bit, chunk8Bit, chunkUCS2"), ("element parsing advances", "encoding/tpdu/userdata.go: UserDataHeader.UnmarshalBinary")],
  technique=AI + ": ranking functions", level="proof",
  note=SOUND + "Each loop needs a lexicographic linear ranking function bounded by something other than the assumed limit of lengths."),
 dict(id="C04", title="TPDU fields are decoded from the octets the standard gives them",
  statement="For every octet string that decoding accepts, each field of the TPDU (first octet, reference, status, address type, PID, DCS, time stamps, parameter indicator, validity period format, user data, header) comes from the octets that the layout of its message type in 3GPP TS 23.040 9.2.2 gives it. The user data length accounts for exactly the octets that remain, so short and overlong strings are rejected, and optional fields that are absent are left clear.",
  over=["inputs"], quant="every octet string, for every message type, coding scheme, header flag, validity period format and parameter indicator",
  why="A field read from a neighbouring octet, or a length that is off by one, shows for particular address lengths, formats and combinations of optional fields.",
  files=["encoding/tpdu/tpdu.go", "encoding/tpdu/address.go", "encoding/tpdu/userdata.go", "encoding/tpdu/validityperiod.go"],
  mech=[("per type layout", "encoding/tpdu/tpdu.go: TPDU.UnmarshalBinary"), ("length of user data and header", "encoding/tpdu/tpdu.go: TPDU.unmarshalUD")],
  technique=AI + ": assertions over the exported API, for arbitrary octets", level="proof",
  note=SOUND + HARN + " The digits of addresses and time stamps and the values of unpacked septets are not covered."),
 dict(id="C05", title="Marshalled TPDUs have the layout and the lengths the standard gives them",
  statement="Every TPDU that marshalling accepts is written with each field (first octet, reference, status, addresses, PID, DCS, time stamps, parameter indicator, validity period in the format flagged, header, user data) at the octet that the layout of its message type in 3GPP TS 23.040 9.2.2 gives it, and optional fields exactly when the parameter indicator says so. The length octets account for exactly the octets that follow; content that does not fit in them is rejected, never truncated, and content that fits is accepted.",
  over=["inputs", "histories"], quant="every content of every field, for every message type, validity period format, parameter indicator and size",
  why="A length that is off by one, wraps at 256, or counts septets instead of octets shows for particular sizes and combinations of optional fields.",
  files=["encoding/tpdu/tpdu.go", "encoding/tpdu/address.go", "encoding/tpdu/userdata.go", "encoding/tpdu/validityperiod.go"],
  mech=[("per type layout", "encoding/tpdu/tpdu.go: TPDU.MarshalBinary"), ("length of user data and header", "encoding/tpdu/tpdu.go: TPDU.marshalUD, encodeUD")],
  technique=AI + ": assertions over the exported API, for arbitrary content", level="proof",
  note=SOUND + HARN + " The digits of addresses and time stamps and the values of packed septets are not covered; that content which fits is accepted is shown for submit and command TPDUs with 8-bit data."),
 dict(id="C06", title="Flags and type fields sit at their standard bits, and setters alter only them",
  statement="Every flag and field of the first octet and of the parameter indicator is read from and written to the bits that 3GPP TS 23.040 gives it, the message type follows from direction and MTI exactly, and each setter or template option alters only the bits it names. Setting a user data header sets the UDHI exactly when the header is not empty, setting a validity period sets the matching format, and setting PID, DCS or user data maintains the parameter indicator.",
  over=["inputs", "histories"], quant="every octet value, every prior content of the TPDU, every argument including out-of-range types, formats and empty headers",
  why="Tests set a flag on a clear octet; a setter that disturbs a neighbouring bit, or fails to clear its own, shows only for particular prior contents.",
  files=["encoding/tpdu/firstoctet.go", "encoding/tpdu/tpdu.go", "encoding/tpdu/parameterindicator.go", "encoding/tpdu/options.go"],
  mech=[("first octet accessors", "encoding/tpdu/firstoctet.go: FirstOctet"), ("setters that keep dependent fields in step", "encoding/tpdu/tpdu.go: TPDU.SetUDH, TPDU.SetVP, TPDU.SetPID, TPDU.SetDCS, TPDU.SetUD, TPDU.SetSmsType")],
  technique=AI + ": assertions over the exported API, for arbitrary arguments", level="proof",
  note=SOUND + HARN),
 dict(id="C08", title="Septets are packed and unpacked bit for bit",
  statement="Packing puts septet i in the seven bits from bit fill+7i on (3GPP TS 23.038 section 6.1.2.1), leaves fill and spare bits zero and uses no more octets than needed; unpacking yields every whole septet of the octets after the fill bits, and nothing else. USSD packing changes only bits that no septet uses: it fills exactly seven spare bits with CR, and adds a CR after a CR that ends on an octet boundary; USSD unpacking removes that filler and only it (a text that ends in two CR, the first at an octet boundary, cannot be told from one that ends in one).",
  over=["inputs"], quant="every content, each of the fill bits 0 to 6, each length (quick: 1 to 32 and 151 to 160 septets or octets; thorough: 1 to 160, more than a TPDU holds; USSD: 1 to 18)",
  why="The residual bits take eight phases for each of seven fills, and what the final octet must hold depends on the phase and on the last septets; tests sample a few texts.",
  files=["encoding/gsm7/7bit.go"],
  mech=[("residual bits", "encoding/gsm7/7bit.go: Pack7Bit, Unpack7Bit"), ("filler", "encoding/gsm7/7bit.go: Pack7BitUSSD, Unpack7BitUSSD")],
  technique=AI + ": generated assertions, one function for each length and number of fill bits", level="other",
  note="Complete for every content at each of the lengths listed; lengths beyond 160 are not covered. " + SOUND + HARN),
 dict(id="C09", title="UCS-2 text is converted unit for unit",
  statement="Octets decode to the characters that their big-endian UTF-16 units stand for, in order: one for each unit or pair, U+FFFD for half a pair with no effect on its neighbours; decoding fails exactly for an odd number of octets and for half a pair at the end. Characters encode to exactly their units, U+FFFD for what is no character, and what is encoded decodes to the same characters.",
  over=["inputs"], quant="every unit and character, in sequences of up to 4 units or 3 characters (thorough: 6 and 4)",
  why="Surrogates in the wrong place, and characters at the edges of the ranges, are not among the texts of the tests.",
  files=["encoding/ucs2/ucs2.go"],
  mech=[("units to characters", "encoding/ucs2/ucs2.go: Decode"), ("characters to units", "encoding/ucs2/ucs2.go: Encode")],
  technique=AI + ": generated assertions, one function for each sequence of classes of units or characters", level="other",
  note="Complete for sequences up to the lengths stated; longer ones are not covered. unicode/utf16 is modelled from its documentation. " + SOUND + HARN),
 dict(id="C10", title="Segments hold exactly the message and fit in a TPDU",
  statement="Segmenting yields TPDUs whose user data, joined in order, is exactly the user data given; each fits the 140 octets with its header and is as full as it can be without splitting an escape sequence or a surrogate pair. Several segments are numbered 1 to n with the same total and the same reference (8 or 16 bit as asked), keep the template's fields and own header elements, and are more than one only if the whole does not fit in one.",
  over=["inputs", "configurations"], quant="every content, reference and template field, 7 bit, 8 bit and UCS-2, each reference width, own header elements of 0 to 3 octets, for lengths around each multiple of the capacity up to three segments; 8 bit also for 17, 130, 255 and more segments",
  why="What decides is where an escape or surrogate pair falls relative to the boundary of a segment, whose place depends on the header, the reference width and the fill bits.",
  files=["encoding/tpdu/tpdu.go", "encoding/tpdu/options.go", "encoding/tpdu/userdata.go"],
  mech=[("capacity of a segment", "encoding/tpdu/tpdu.go: TPDU.Segment, TPDU.UDBlockSize"), ("boundaries", "encoding/tpdu/tpdu.go: chunk functions for each alphabet")],
  technique=AI + ": generated assertions, one function for each length, alphabet and header", level="other",
  note="Complete for every content at each of the lengths listed; other numbers of segments are not covered. " + SOUND + HARN),
 dict(id="C11", title="Options select what they name, for the call they are given to",
  statement="The options of an encoder select its type, alphabet, template, addresses and counters, a later option overrides an earlier one, options given to one call do not outlive it, and each TPDU and each long message takes the next value of its counter. Language options allow exactly the tables they name, and a message whose characters are all in the default table carries no language element.",
  over=["configurations", "histories"], quant="every option of Encoder, Encode and Unmarshal, in pairs, and successive calls; template fields and numbers arbitrary",
  why="Options alter shared state in the order given; tests use one or two at a time.",
  files=["encode.go", "options.go", "encoding/tpdu/options.go", "encoding/tpdu/userdata.go"],
  mech=[("options of the encoder", "encode.go: NewEncoder, Encoder.Encode"), ("language options", "encoding/tpdu/userdata.go: EncodeUserData options")],
  technique=AI + ": assertions over the exported API, for arbitrary fields", level="proof",
  note=SOUND + HARN),
 dict(id="C12", title="Every DCS octet has the alphabet, class and compression the standard gives it",
  statement="For every one of the 256 data coding schemes the alphabet, message class and compression reported are those of its coding group in 3GPP TS 23.038 section 4, with reserved groups reported as errors. Setting an alphabet or class yields a scheme that reads back as the value set with all its other bits unchanged, or fails and leaves the scheme alone exactly when the group cannot represent it.",
  over=["inputs", "configurations"], quant="every DCS octet, every alphabet and class value including out-of-range ones",
  why="The coding groups partition 256 octets irregularly; a mistaken mask shows for a few octets only.",
  files=["encoding/tpdu/dcs.go"],
  mech=[("coding group decoding", "encoding/tpdu/dcs.go: DCS.Alphabet, DCS.Class, DCS.Compressed"), ("coding group updates", "encoding/tpdu/dcs.go: DCS.WithAlphabet, DCS.WithClass")],
  technique=AI + ": assertions over the exported API, for arbitrary arguments", level="proof",
  note=SOUND + HARN),
 dict(id="C13", title="A message is complete exactly when all its segments are there",
  statement="A sequence of TPDUs is reported complete exactly when it is one TPDU that is not a segment, or when it holds as many segments as each of them says there are, in order from 1, with one reference; the text of an 8 bit message is the text of its segments joined in order.",
  over=["inputs", "histories"], quant="every total, number and reference in concatenation elements of either width, for up to 3 segments (thorough: 5)",
  why="The agreement must hold for each field of each segment, in every mixture of element widths; tests break one field at a time in one place.",
  files=["sms.go", "collect.go", "encoding/tpdu/tpdu.go"],
  mech=[("agreement of segments", "sms.go: IsCompleteMessage"), ("joined text", "sms.go: Decode")],
  technique=AI + ": generated assertions, one function for each number of segments and kind of elements", level="other",
  note="Complete for every value of the fields, for the numbers of segments stated; longer messages are not covered. " + SOUND + HARN),
 dict(id="C14", title="Operations never write to memory the caller owns",
  statement="Encoding, decoding, segmenting, marshalling and collecting never modify the octets of messages, user data, headers, numbers, templates, options, charset tables or segments that the caller passes in, including the spare capacity beyond the length of a slice. Exceptions are only the receivers and destinations that an operation exists to fill.",
  over=["inputs", "histories"], quant="every input, including slices with spare capacity that share an array with other data",
  why="A write into the caller's backing array shows only when the slice has spare capacity that something else uses.",
  files=["encode.go", "encoding/tpdu/tpdu.go", "encoding/gsm7/gsm7.go", "encoding/ucs2/ucs2.go", "collect.go", "sms.go"],
  mech=[("copies and capped slices before append", "encoding/tpdu/tpdu.go: TPDU.Segment; encode.go: Encoder.Encode; sms.go: Decode")],
  technique=AI + ": ownership of every memory object written", level="proof",
  note=SOUND + "Every store, append and copy reachable from the API is an obligation: its target is not memory reachable from an argument. A store through a value that the analysis cannot trace counts as a violation."),
 dict(id="C15", title="Unmarshalled values do not share memory with the input buffer",
  statement="What unmarshalling returns or fills in (TPDUs, addresses, user data, headers, PDU mode frames) never shares memory with the octets it was given, so reusing or changing the input buffer afterwards cannot change a decoded value.",
  over=["inputs", "histories"], quant="every input and every later use of the buffer",
  why="Aliasing shows only when the caller reuses the buffer after decoding, which tests of decoding do not do.",
  files=["encoding/tpdu/tpdu.go", "encoding/tpdu/address.go", "encoding/tpdu/userdata.go", "encoding/pdumode/pdu.go", "sms.go"],
  mech=[("copies while unmarshalling", "encoding/tpdu: UnmarshalBinary methods; encoding/pdumode/pdu.go: UnmarshalBinary")],
  technique=AI + ": may-alias of results with arguments", level="proof",
  note=SOUND + "For every path of every unmarshalling operation, the memory reachable from the results and the receiver is disjoint from that reachable from the input."),
 dict(id="C16", title="Every operation returns a usable result or an error, never both or neither",
  statement="When an operation returns an error its other results are empty (nil pointers, slices and maps, empty strings, zero values), and when it returns no error a pointer result is not nil. Only operations documented to return the part decoded before the error are exempt.",
  over=["inputs", "fault_sequences"], quant="every input and every path that detects an error",
  why="Callers test the error and use the result; a path that returns a nil pointer without an error, or a result with one, needs a particular malformed input.",
  files=["sms.go", "encode.go", "encoding/tpdu/tpdu.go", "encoding/tpdu/userdata.go", "encoding/gsm7/gsm7.go", "encoding/bcd/bcd.go", "encoding/pdumode/pdu.go", "collect.go"],
  mech=[("error returns", "every exported function and method with an error result")],
  technique=AI + ": relation between error and other results at every return", level="proof",
  note=SOUND + "Per exported function and method, on every path: pointer result nil exactly when the error is not; slices and strings empty with an error. Exempt: ucs2.Decode, tpdu.DecodeUserData and semioctet.Decode, which document partial results."),
 dict(id="C17", title="Errors are never swallowed",
  statement="Whenever a step inside an encode, decode, segment, collect or option operation fails, the operation itself reports an error: no error value of an inner step is dropped, overwritten or replaced by success. The only exceptions are documented fallbacks (an unknown coding scheme reads as the default alphabet; text that one alphabet cannot represent is encoded with the next; a dangling surrogate is completed by the next segment).",
  over=["inputs", "fault_sequences"], quant="every input for which any inner step fails",
  why="A dropped error turns malformed input into silently wrong output; a test has to make exactly that inner step fail.",
  files=["encode.go", "sms.go", "collect.go", "encoding/tpdu/tpdu.go", "encoding/tpdu/options.go", "encoding/tpdu/userdata.go", "encoding/pdumode/pdu.go"],
  mech=[("error propagation", "each call that returns an error"), ("template errors kept until Encode reports them", "encode.go: Encoder.Encode; encoding/tpdu/options.go")],
  technique=AI + ": typestate of error values along every path", level="proof",
  note=SOUND + "An error that a call may return is pending until it, or an error made under the knowledge that it is not nil, is returned or stored in an error field that is reported. Every path of every exported operation ends with nothing pending."),
 dict(id="C18", title="Shared package state is never raced on",
  statement="Concurrent calls on separate values are safe: package-level tables and default options are never written after initialisation except under one common lock or atomically, and lookups that build tables on demand are locked on both the read and the write. Sharing one encoder between goroutines cannot race on anything but its documented concatenation counter, which is atomic.",
  over=["schedules"], quant="every interleaving of calls from any number of goroutines",
  why="A race needs two goroutines inside the same few instructions; the race detector sees only the schedules that a test runs.",
  files=["encoding/gsm7/charset/charset.go", "encode.go", "encoding/tpdu/options.go", "sms.go"],
  mech=[("mutex around lazily built tables", "encoding/gsm7/charset/charset.go"), ("atomic counter", "encode.go: Counter")],
  technique=AI + ": lock sets of every access to package-level state", level="proof",
  note=SOUND + "Every read and write of package-level memory reachable from the API, with the locks held at it; a variable that is written after initialisation needs a common lock or atomic access everywhere."),
 dict(id="C19", title="7 bit text is converted with the tables its header names",
  statement="7 bit user data is decoded with exactly the locking and shift table that the language elements of its header name when the options provide them, and with the default table otherwise; encoding uses only tables the options allow, prefers the default tables when they suffice, and produces a header that names exactly the tables used, so that what is encoded is decoded with the same tables.",
  over=["inputs", "configurations"], quant="every text and header, every language from 0 to 255, options that allow none, one or several locking and shift tables",
  why="The choice depends on pairs of optional tables and on two different header elements, of which tests try a few combinations.",
  files=["encoding/tpdu/userdata.go", "encoding/gsm7/gsm7.go", "encoding/gsm7/charset/charset.go"],
  mech=[("tables for decoding", "encoding/tpdu/userdata.go: DecodeUserData"), ("tables for encoding", "encoding/tpdu/userdata.go: EncodeUserData")],
  technique=AI + ": generated assertions over which table each conversion uses", level="other",
  note="Tables are identified by the language and kind they are registered for; which characters they hold is not examined (C24). Complete for every text; combinations of at most two options of each kind. " + SOUND + HARN),
 dict(id="C20", title="Collector operations are atomic and its state stays private",
  statement="Everything a collector keeps (its sets, their segments and timers, whether it is closed) is read and written only with its lock held; every operation, and every timer callback, is one critical section that ends with the lock released on every path; the expiry handler is called without the lock, so it may use the collector; and the maps and slices handed out are never ones that the collector goes on using.",
  over=["schedules"], quant="every interleaving of Collect, Pipes, Close and timer expiries from any number of goroutines",
  why="The windows are a few instructions wide and need a timer to fire, or another goroutine to run, inside them.",
  files=["collect.go"],
  mech=[("the lock", "collect.go: Collector.Collect, Pipes, Close"), ("expiry callback", "collect.go: Collect, time.AfterFunc")],
  technique=AI + ": lock sets, critical sections and sharing of results", level="proof",
  note=SOUND + "Every exported method of Collector, and the callbacks of the timers it starts, for arbitrary collector contents. A callback is analysed with arbitrary later contents of the collector's map."),
 dict(id="C21", title="Reassembly timers follow their set",
  statement="A set of segments is only extended once its timer was stopped before firing; a set left incomplete has exactly one timer of the configured duration, and none when the duration is zero; a complete set, a rejected segment and a single segment message leave no timer behind. Expiry removes only the very set that the timer belongs to and hands exactly its segments to the handler, once; and closing the collector stops the timer of every set.",
  over=["schedules", "histories", "fault_sequences"], quant="every sequence of segments, every point at which a timer fires, every duration",
  why="A timer that fires while a segment arrives, or a set replaced under the same key, is a matter of microseconds that no test can stage reliably.",
  files=["collect.go"],
  mech=[("timer start and stop", "collect.go: Collector.Collect"), ("expiry", "collect.go: the callback given to time.AfterFunc"), ("close", "collect.go: Collector.Close")],
  technique=AI + ": typestate of timers and event counts along every path", level="proof",
  note=SOUND + "When timers fire in real time is not covered; that Stop reports whether it prevented the callback is assumed."),
 dict(id="C22", title="Segments of different messages are never mixed",
  statement="Two segments end up in the same set only when they agree in message type, in type and digits of the address of the other party (the destination of a submit, the originator of a deliver), in concatenation reference and in number of segments, with no two combinations confused. A segment is kept at the place its sequence number gives and never takes the place of another, and what is returned is a message of one segment or has exactly as many segments as the message announced.",
  over=["inputs", "histories"], quant="every sequence of segments from any number of senders, with any addresses, references, numbers and counts",
  why="Confusing two messages takes two senders whose segments coincide in all but one field, or counts and numbers that contradict each other.",
  files=["collect.go"],
  mech=[("key of a set", "collect.go: pduKey"), ("place of a segment", "collect.go: Collector.Collect")],
  technique=AI + ": composition of map keys, lengths of map entries by inductive invariant", level="proof",
  note=SOUND + "References of 8 and of 16 bits with the same value are not told apart, by design of the key."),
 dict(id="C23", title="A rejected segment leaves the collector as it was",
  statement="When Collect returns an error (closed, inconsistent numbers, unsupported type, duplicate) the collector is exactly as before: no set is created, changed or removed and no timer started, stopped or extended, so repeated or bogus segments can neither keep a set alive nor destroy it. Inspecting the collector with Pipes changes nothing either.",
  over=["inputs", "histories"], quant="every rejected segment, in every state of the collector",
  why="The effect of a rejected segment shows only in what happens to the set later, or in memory that is never released.",
  files=["collect.go"],
  mech=[("checks before effects", "collect.go: Collector.Collect"), ("snapshot", "collect.go: Collector.Pipes")],
  technique=AI + ": effects on every path that returns an error", level="proof",
  note=SOUND + "Effects are writes to anything reachable from the collector, map entries added or removed, and timers started or stopped."),
 dict(id="C24", title="The character tables are those of the standard",
  statement="For each language the locking and shift tables hold, for every septet, the character that 3GPP TS 23.038 gives it, and the tables for encoding are the inverses of those for decoding, with the lowest septet where a character has several.",
  over=["inputs", "configurations"], quant="every language, kind of table, septet and character",
  why="There are some 3000 entries, of which tests sample some.",
  files=["encoding/gsm7/charset/charset.go", "encoding/gsm7/charset/default.go"],
  mech=[("tables", "encoding/gsm7/charset/*.go"), ("inverses", "encoding/gsm7/charset/charset.go: generateEncoder, generateEncoderFromRunes")],
  na="The entries are data whose only oracle is the text of the standard, which is not available here: a copy taken from the tables would confirm itself. That generated tables are inverses quantifies over the contents of maps built in loops, of which the analysis keeps no more than a few entries."),
 dict(id="C25", title="Text survives encoding and decoding as a whole",
  statement="Any valid UTF-8 text that is encoded, segmented, marshalled, unmarshalled, collected in any order and decoded comes back unchanged.",
  over=["inputs", "histories"], quant="every text, of every length up to the maximum, and every order of its segments",
  why="It composes every part of the library over texts of any length.",
  files=["encode.go", "collect.go", "sms.go"],
  mech=[("encoding", "encode.go: Encoder.Encode"), ("reassembly", "collect.go: Collector.Collect"), ("decoding", "sms.go: Decode")],
  na="Equality of two sequences of unbounded length through maps of characters, bit packing and reordering is beyond the relations the analysis infers. Its parts are decided one by one, some up to a bound: C04, C05, C08 to C10, C13, C19, C22, C30."),
 dict(id="C26", title="Collections expire when their time has passed",
  statement="A partial collection is dropped no earlier than the duration given after its last segment, and not much later.",
  over=["schedules"], quant="every duration and arrival time",
  why="Tests use one duration and wait for it.",
  files=["collect.go"],
  mech=[("expiry", "collect.go: Collector.Collect")],
  na="The moments at which timers fire belong to the runtime and clock; that a timer is started, stopped and its effect confined to its own collection is decided by C20 to C22."),
 dict(id="C27", title="BCD octets and semi-octet strings convert exactly, with full range checks",
  statement="For every octet, BCD decoding (plain and signed) yields the value of its two digits or rejects it exactly when a nibble is not a digit; for every integer, BCD encoding is the inverse or rejects it exactly when it does not fit. Semi-octet encoding gives one octet per two digits, and decoding never reads past the source, never returns more digits than asked for or than two per octet read, and stops only when either is exhausted.",
  over=["inputs"], quant="every octet, every int, every digit string and buffer length",
  why="Off-by-one digits, signs and lengths show for a handful of values out of the whole range.",
  files=["encoding/bcd/bcd.go", "encoding/semioctet/semioctet.go"],
  mech=[("BCD conversion", "encoding/bcd/bcd.go"), ("semi-octet conversion", "encoding/semioctet/semioctet.go")],
  technique=AI + ": assertions over the exported API, for arbitrary arguments", level="proof",
  note=SOUND + HARN + " The digit characters of semi-octets are not covered here."),
 dict(id="C28", title="Validity periods encode and decode as the standard lays down",
  statement="Every relative octet decodes to the period of 3GPP TS 23.040 9.2.3.12.1 and back to itself, and every duration encodes to the longest relative period that does not exceed it (the shortest, when there is none). Enhanced periods are seven octets with the functionality indicator first, unused octets zero and reserved formats rejected, seconds clipped to 0 to 255, and every decoded period records the format it was read in, or none after an error.",
  over=["inputs", "histories"], quant="every octet, every duration including negative and very long ones, every functionality indicator, every prior content",
  why="The relative format is piecewise; errors sit at the boundaries of pieces and at durations that are not multiples of the step.",
  files=["encoding/tpdu/validityperiod.go"],
  mech=[("relative conversion", "encoding/tpdu/validityperiod.go: durationToRelative, relativeToDuration"), ("enhanced format", "encoding/tpdu/validityperiod.go: ValidityPeriod.MarshalBinary, unmarshalVPEnhanced")],
  technique=AI + ": assertions over the exported API, for arbitrary arguments", level="proof",
  note=SOUND + HARN + " The hours:minutes:seconds octets of the enhanced format and the absolute time stamp's digits are not covered (floating point and the time package)."),
 dict(id="C29", title="User data headers keep every element, octet for octet",
  statement="A user data header is read from and written to exactly the octets that its length octet gives, each information element as identifier, length and contents in order; headers and elements that extend past their end are rejected, and sizes that do not fit their length octet are rejected. Concatenation information is found in the last concatenation element, with 8-bit and 16-bit references read as the standard lays them out, and absent or malformed elements reported as no concatenation.",
  over=["inputs"], quant="every octet string, every element identifier and content",
  why="Element lengths that disagree with the header length, repeated elements and empty contents are rare in tests and common in the wild.",
  files=["encoding/tpdu/userdata.go"],
  mech=[("element parsing", "encoding/tpdu/userdata.go: UserDataHeader.UnmarshalBinary"), ("concatenation lookup", "encoding/tpdu/userdata.go: UserDataHeader.ConcatInfo, ConcatInfo8, ConcatInfo16, IE")],
  technique=AI + ": assertions over the exported API, for arbitrary octets and elements", level="proof",
  note=SOUND + HARN + " The octet for octet correspondence is shown for headers of none, one and two elements."),
 dict(id="C30", title="Addresses and PDU frames carry the lengths and types the standard gives them",
  statement="An address field is a length in semi-octets, a type octet and exactly the octets for that length, and an SMSC address is a length in octets that includes its type; what does not fit is rejected and what is cut short is rejected. The TPDU of a PDU mode frame is exactly the octets after the SMSC address, the type of number and numbering plan sit at their standard bits and setting one alters nothing else, and a leading + stands for an international number.",
  over=["inputs", "histories"], quant="every octet string, every number of any length, every type and plan including out-of-range ones",
  why="Odd digit counts, alphanumeric addresses and lengths at the limit of the octet need particular numbers.",
  files=["encoding/tpdu/address.go", "encoding/pdumode/pdu.go", "encoding/pdumode/smscaddress.go", "encoding/semioctet/semioctet.go"],
  mech=[("address lengths", "encoding/tpdu/address.go: Address.MarshalBinary, UnmarshalBinary"), ("frame", "encoding/pdumode/pdu.go: PDU.MarshalBinary, UnmarshalBinary")],
  technique=AI + ": assertions over the exported API, for arbitrary arguments", level="proof",
  note=SOUND + HARN + " The digit characters and the septets of alphanumeric addresses are not covered."),
]
NOTES = "One analyzer (/verif/analyzer, Go, dependencies vendored) decides every property from the type-checked SSA form of /repo's current source; nothing of /repo is executed."
