TV = "Trusts the reference in spec/ (transcribed from SCTE 35 2022b), the models of the standard library, iobit and x/text in analyzer/intrinsics.go, and slice lengths up to 2^24."

prop("C01", "Section header and trailer decode to the values on the wire",
 "Decoding a byte buffer as a splice_info_section yields, for every buffer that decodes (or fails only its checksum), exactly the SAP type, protocol version, encryption algorithm, PTS adjustment, control word index, tier, command, descriptors and alignment stuffing that SCTE 35 places at those bit positions. The command occupies exactly splice_command_length bytes, the legacy length 0xFFF meaning as many bytes as the command itself needs, and the descriptor loop exactly descriptor_loop_length bytes. The bytes between the descriptor loop and the trailer (CRC_32, preceded by E_CRC_32 when the encrypted flag is set) are alignment stuffing.",
 ["inputs"], "every byte buffer up to 16 MiB and every earlier content of the receiver",
 TESTS + "bit positions, the 0xFFF length, encrypted trailers and stuffing combine in ways only a handful of which they contain.",
 [S], [("Decode", S), ("command and descriptor factories", L + "splice_command.go, " + L + "splice_descriptor.go")], note=TV)

prop("C02", "Splice commands decode to the fields SCTE 35 defines",
 "For each splice command type, decoding the command's bytes yields exactly the field values SCTE 35 defines for that bit layout: optional program or component times, break durations, loop counts, cancel indicators that end the command or event early, UTC splice times, and private bytes. A cancelled splice_insert or schedule event has none of the fields that follow its cancel indicator.",
 ["inputs"], "every byte string handed to every command type",
 TESTS + "flag combinations and loop counts are exponential and most branches are never taken with data that would expose a wrong width or order.",
 CMDS, [("decode of each command", ", ".join(CMDS))], note=TV)

prop("C03", "Splice descriptors decode to the fields SCTE 35 defines",
 "For each splice descriptor type, decoding the descriptor's bytes yields exactly the field values SCTE 35 defines for that bit layout, including delivery restrictions, component lists, segmentation duration, UPIDs (single, several inside MID, none), sub-segment numbers and audio channel lists. Sub-segment numbers are present exactly when two bytes remain and the segmentation type allows them. A cancelled segmentation descriptor has none of the fields that follow its cancel indicator.",
 ["inputs"], "every byte string handed to every descriptor type",
 TESTS + "only a few segmentation layouts and no audio, time or private descriptors with unusual counts occur in them.",
 DESCS, [("decode of each descriptor", ", ".join(DESCS))], note=TV)

prop("C04", "The descriptor loop is split into descriptors by tag and length",
 "Decoding a section splits its descriptor loop into consecutive descriptors, each taking exactly its declared length plus two bytes, in order and without skipping or repeating one. Each descriptor becomes the type SCTE 35 assigns to its tag under the CUEI identifier, and a private descriptor keeping its tag, identifier and bytes otherwise. A descriptor that cannot be decoded, or one that runs past the loop, makes decoding fail.",
 ["inputs"], "every descriptor loop: any number of descriptors, any tags, identifiers and lengths",
 TESTS + "their loops hold at most a few well-formed CUEI descriptors.",
 [L + "splice_descriptor.go", S], [("descriptor loop", L + "splice_descriptor.go"), ("Decode", S)], note=TV)

prop("C05", "Encoded sections have the SCTE 35 header, loop and trailer layout",
 "Encoding a section that has a command yields table_id 0xFC, zero syntax and private indicators, the section's SAP type, exact section_length, protocol version, encryption fields, PTS adjustment, CW index, tier, exact command length and type, the command's bytes, exact descriptor loop length, the descriptors' bytes in order, alignment stuffing and the checksums, each at its SCTE 35 bit position. E_CRC_32 is present, and the encrypted flag set, exactly when an encryption algorithm is set.",
 ["inputs"], "every section value with a command, any number of descriptors and any stuffing",
 TESTS + "no test encodes stuffing, encryption or extreme lengths, so lengths and offsets are checked for a few sizes only.",
 [S], [("Encode", S), ("section length arithmetic", S)], note=TV)

prop("C06", "Splice commands encode to the SCTE 35 bit layout",
 "For each splice command type, encoding any value of it yields the SCTE 35 bit layout of its fields: flags that state which optional parts are present, reserved bits set to one, times and durations in 33 bits, counts equal to the number of entries that follow, and nothing after a set cancel indicator. Values wider than their field are truncated to the field and never disturb neighbouring fields.",
 ["inputs"], "every value of every command type, any number of components and events",
 TESTS + "no test encodes component lists, schedules or cancelled events.",
 CMDS, [("encode of each command", ", ".join(CMDS))], note=TV)

prop("C07", "Splice descriptors encode to the SCTE 35 bit layout",
 "For each splice descriptor type, encoding any value of it that fits the one-byte descriptor length yields tag, exact descriptor_length, identifier and the SCTE 35 bit layout of its fields: flags that state which optional parts are present, reserved bits set to one, counts equal to the number of entries that follow, UPIDs as a single UPID or as a MID of several, and nothing after a set cancel indicator. Sub-segment numbers are written exactly when one of them is set and the segmentation type allows them.",
 ["inputs"], "every value of every descriptor type, any number of components, UPIDs and audio channels",
 TESTS + "no test encodes audio descriptors, delivery restrictions with components, or sub-segments in every combination.",
 DESCS, [("encode of each descriptor", ", ".join(DESCS))], note=TV)

prop("C08", "Declared lengths equal the bytes emitted",
 "The command length, descriptor lengths, descriptor loop length and section length written into an encoded section equal the number of bytes actually emitted for those parts. A buffer of exactly the computed size is filled completely by every encoder: no trailing padding and no overflow.",
 ["inputs"], "every section, command and descriptor value",
 TESTS + "length functions and encoders are separate code that must agree for every combination of optional fields and counts.",
 [S] + CMDS + DESCS, [("length of each command and descriptor", ", ".join(CMDS + DESCS)), ("section and loop length", S)], note=TV)

prop("C09", "Decoding succeeds only when the input is consumed exactly",
 "Decoding a section succeeds only if every length-delimited part (section, command, descriptor loop, each descriptor) is consumed to its last bit and never read past its end. Left-over bits give an error that errors.Is identifies as buffer underflow, missing bits one identified as buffer overflow, and the two are never confused or swallowed. The only tolerated left-over is the one implied by a legacy 0xFFF command length.",
 ["inputs"], "every byte buffer, in particular every truncation and extension of a valid one",
 TESTS + "three tests feed a truncated or over-long section; every other cut point is untested.",
 [S, L + "scte35.go", L + "splice_descriptor.go"], [("end-of-input check", L + "scte35.go"), ("Decode", S)], note=TV)

prop("C10", "Every encoded section ends in a correct CRC_32",
 "Whenever encoding a section succeeds, its last four bytes are the MPEG-2 CRC-32 (polynomial 0x04C11DB7, initial value all ones, no reflection, no final inversion) of all bytes before them. When an encryption algorithm is set, the four bytes before those are the same CRC-32 of the bytes before them.",
 ["inputs"], "every section value of any length",
 TESTS + "a wrong table entry or a checksum over the wrong range shows only for particular bytes or lengths.",
 [L + "crc_32.go", S], [("CRC computation and table", L + "crc_32.go"), ("Encode", S)], note=TV)

prop("C11", "A checksum mismatch is reported, and only then",
 "Decoding a section whose structure is valid returns an error that errors.Is identifies as the invalid-CRC error exactly when its last four bytes differ from the MPEG-2 CRC-32 of all bytes before them. The decoded fields are filled in all the same.",
 ["inputs"], "every structurally valid byte buffer",
 TESTS + "one buffer with a bad checksum is tested; the comparison must hold for all 2^32 values and every length.",
 [L + "crc_32.go", S], [("CRC verification", L + "crc_32.go"), ("Decode", S)], note=TV)

prop("C12", "Decoding never panics",
 "Decoding any byte buffer, base64 text or hex text as a section returns normally: no index or slice out of range, nil dereference, failed type assertion, negative allocation or explicit panic, whatever the bytes are.",
 ["inputs"], "every byte buffer and string, of any length including zero",
 TESTS + "panics hide behind particular truncations, counts and UPID contents.",
 [S, L + "scte35.go", L + "segmentation_upid.go", L + "crc_32.go"] + CMDS + DESCS, [("Decode and everything it calls", S)],
 technique="abstract interpretation: every index, slice, dereference, assertion and allocation reachable from the decoders is an obligation proved from path conditions", level="proof",
 note="Panics inside the standard library, iobit and x/text are judged from models of their documented preconditions; allocation failure and stack depth are out of scope.")

prop("C13", "A decoded or unmarshalled section can be used without panicking",
 "Encoding, converting to base64 or hex, printing the table, asking for durations and names, and marshalling never panic for any section value that decoding binary, JSON or XML can produce, including sections without a command, with empty lists, absent optional parts, and UPIDs of any type with any text.",
 ["inputs"], "every section value with any combination of absent optional parts, any list lengths and any strings",
 TESTS + "they use values decoded from well-formed sections only.",
 [S, L + "segmentation_upid.go", L + "table.go", L + "segmentation_descriptor.go"] + CMDS, [("Encode, Table, Duration and name methods", S)],
 technique="abstract interpretation: every index, slice, dereference, assertion and allocation reachable from the exported methods is an obligation proved from path conditions", level="proof",
 note="Elements of the descriptor list and the receiver are taken to be non-nil, which is what the decoders produce; panics inside dependencies are judged from models of their documented preconditions.")

prop("C14", "Base64 and hex entry points accept exactly the valid encodings",
 "Decoding a section from base64 text gives what decoding the bytes of the standard padded base64 gives, and from hex text what decoding the bytes of the hexadecimal (upper or lower case, with or without a leading 0x) gives. Text that is not valid in the encoding gives the unsupported-encoding error. Both always return a non-nil section next to the error.",
 ["inputs"], "every string", TESTS + "a few valid strings and one invalid one are tested.",
 [L + "scte35.go"], [("base64 and hex entry points", L + "scte35.go")], note=TV)

prop("C15", "UPID bytes and UPID text correspond for every UPID type",
 "A segmentation UPID is presented by type: ISAN (0x05, 0x06) and MPU payloads as base64, MPU with its 4-byte format identifier, TI as a decimal number, 12-byte EIDR in canonical 10.<prefix>/XXXX-XXXX-XXXX-XXXX-XXXX form, and all others as ISO 8859-1 text; encoding inverts that by type. An MPU without a format identifier encodes it as zero. The ASCII form of a UPID is those bytes with unprintable ones shown as dots.",
 ["inputs"], "every UPID type, byte content and text",
 TESTS + "a handful of UPIDs of some types are tested.",
 [L + "segmentation_upid.go"], [("UPID from bytes and to bytes", L + "segmentation_upid.go")], note=TV)

prop("C16", "Type codes map to the same types in binary, JSON and XML",
 "Each splice command type code and each CUEI descriptor tag creates the same type in binary and JSON decoding, each type reports that same code as its own, and each XML element name creates the type of that name. Unknown command types become private commands, unknown tags and non-CUEI identifiers private descriptors. No code maps to a type that reports a different code, apart from those private fallbacks.",
 ["inputs", "programs"], "every 32-bit code, tag and identifier, every XML element name",
 TESTS + "a few of the codes occur; the fallback is hardly touched.",
 [L + "splice_command.go", L + "splice_descriptor.go", S], [("factories", L + "splice_command.go, " + L + "splice_descriptor.go"), ("Type and Tag methods", L)], note=TV)

prop("C17", "What the wire format cannot count is refused, never truncated",
 "Encoding a section fails with an error, instead of writing a wrong count or length, when section_length would exceed 4095, a descriptor 255 bytes, a splice schedule 255 events, a component list of an insert or event 255 entries, an audio descriptor 15 channels, or a DTMF descriptor 7 characters, or when an audio language code is not three bytes. Nothing that fits is refused for its size.",
 ["inputs"], "every section value, at and around each limit",
 TESTS + "no test builds a value near any limit.",
 [S, L + "splice_schedule.go", L + "splice_insert.go", L + "audio_descriptor.go", L + "dtmf_descriptor.go"], [("limit checks", L)], note=TV)

prop("C18", "JSON carries every field of a section both ways",
 "Marshalling a section to JSON includes the encryption fields, SAP type and tier, the command and each descriptor with its numeric type and all its fields under their documented names, and protocol version, PTS adjustment and descriptors when non-empty; unmarshalling restores each from the same name and defaults the SAP type to not-specified. No field is read from another field's name, and errors from malformed documents are returned.",
 ["inputs"], "every section value and every JSON document",
 TESTS + "round trips of the fixed sections leave most fields at zero, where a lost field does not show.",
 [S, L + "splice_descriptor.go"], [("JSON marshalling", S), ("descriptor list unmarshalling", L + "splice_descriptor.go"), ("struct tags", L)], note=TV)

prop("C19", "XML carries every field of a section both ways",
 "Marshalling a section to XML and unmarshalling the result uses one element or attribute name per field, the same in both directions and the one the SCTE 35 schema gives: every command, descriptor and section attribute read from XML lands in the field that is written under that name, an absent SAP type means not-specified, and unknown descriptor elements or malformed documents are reported as errors.",
 ["inputs"], "every section value and every XML document",
 TESTS + "round trips of the fixed sections leave most fields at zero.",
 [S, L + "splice_descriptor.go"], [("XML unmarshalling", S), ("struct tags", L)], note=TV)

prop("C20", "The table shows every field with its label and true value",
 "The textual table of a section lists the section's header fields, its command and every descriptor in order, each field under its SCTE 35 syntax name with the section's own value, loop entries numbered from zero, optional parts exactly when they are present, and lengths as they are encoded. Every line starts with the given prefix and is indented by the given indent once per nesting level.",
 ["inputs"], "every section value, prefix and indent",
 TESTS + "a few tables are compared, without components, schedules, audio or private parts.",
 [S, L + "table.go"] + CMDS + DESCS, [("Table", S), ("rows of each type", ", ".join(CMDS + DESCS)), ("formatting", L + "table.go")], note=TV)

prop("C21", "Codes are named as SCTE 35 names them",
 "Segmentation type ids, UPID types (with the EIDR kind from its prefix), SAP types, device restrictions and encryption algorithms are given the SCTE 35 name of exactly that code, and an explicit unknown, not-specified or reserved name for every other code.",
 ["inputs"], "every 32-bit code", TESTS + "only the names of codes in the fixed sections occur.",
 [L + "segmentation_descriptor.go", L + "segmentation_upid.go", S, L + "delivery_restrictions.go", L + "encrypted_packet.go"], [("name methods", L)], note=TV)

prop("C22", "Independent sections can be used concurrently and deterministically",
 "Operations on different sections share no mutable state: no package-level variable is modified after initialisation (other than by replacing the logger), no goroutines are started, and results do not depend on time, randomness, environment, map order or earlier calls.",
 ["schedules", "histories"], "every interleaving of calls on distinct sections, every earlier history",
 "Tests run one call at a time; a shared cache or buffer gives wrong results only under particular interleavings.",
 [L + "scte35.go", L + "crc_32.go", S], [("package variables and their writers", L)],
 technique="effect analysis over the call graph: writes reaching package-level variables, goroutines, map iteration order and ambient inputs", level="proof",
 note="Sees every function of the module through the type-checked call graph; dependencies are judged by a list of the packages and functions used. Sharing one section between goroutines is out of scope (marshalling records the type code).")

prop("C23", "Decoding neither modifies nor keeps the caller's buffer",
 "Decoding a section never writes to the caller's byte buffer, and the section keeps no reference into it: changing or reusing the buffer after decoding leaves the section, and everything later encoded or printed from it, unchanged.",
 ["histories", "inputs"], "every buffer and every later modification of it",
 "Tests never modify a buffer after decoding it.",
 [S, L + "private_command.go", L + "private_descriptor.go", L + "segmentation_upid.go"], [("Decode and the byte fields it fills", S)],
 technique="alias and effect analysis by abstract interpretation: stores into the argument's memory, and reachability of it from the receiver", level="proof", note=TV)

prop("C24", "What a section held before decoding does not show afterwards",
 "Decoding a buffer into a section that was used before gives the same header fields, command, descriptors, stuffing, encodings and error as decoding it into a new one, also when the earlier or the later decode failed; and unmarshalling a JSON or XML document into it gives the same section as unmarshalling into a new one (the pre-roll, which JSON does not carry, excepted).",
 ["histories"], "every earlier content of the section, every buffer and document",
 "Tests decode and unmarshal into fresh sections only.",
 [S], [("Decode, UnmarshalJSON, UnmarshalXML", S)], note=TV)

prop("C25", "Encoding and presenting a section leave it as it was",
 "Encoding, converting to base64 or hex, printing a table, marshalling and asking for durations or names change nothing in the section that any of them shows: repeating any of them, in any order, gives the same result.",
 ["histories"], "every sequence of read operations on every section",
 "Tests call each operation once or in one order.",
 [S] + CMDS + DESCS, [("Encode, Table, Duration, MarshalJSON", S)],
 technique="effect analysis by abstract interpretation: stores that survive a read operation", level="proof",
 note="The recorded type code used for marshalling is the one permitted write, and it must be the type's own code.")

prop("C26", "Diagnostics go to the package logger and nowhere else",
 "The library reports diagnostics only through its replaceable logger: it never writes to standard output or standard error itself, never exits the process, and never reads or writes files, the network or the environment.",
 ["inputs", "programs"], "every call path of the library",
 "Tests do not observe output or exits.",
 [L + "scte35.go", L + "segmentation_upid.go", S], [("Logger", L + "scte35.go")],
 technique="effect analysis over the type-checked call graph: every reference to a printing, exiting, file, network or environment function", level="proof",
 note="Every reference to a function or variable outside the module is judged by package and name.")

prop("C27", "The command line tool decodes and encodes what it is given",
 "The decode command treats an argument starting with 0x as hex and anything else as base64, and prints the section to standard output as a table, or as JSON or XML when asked; the encode command takes one argument or else all of standard input, reads it as XML or JSON by its first non-blank character, and prints both the base64 and the hex of the encoded section. Errors are reported on standard error, not as a result.",
 ["inputs", "configurations"], "every argument, input and flag value",
 "The commands have no tests.",
 ["cmd/decode.go", "cmd/encode.go", "cmd/scte35.go"], [("commands", "cmd/")], note=TV)

prop("C28", "Every operation terminates",
 "Decoding, encoding, printing and naming terminate on every input: each loop runs at most as often as its input has bytes, bits or entries, and no call recurses without bound.",
 ["inputs"], "every buffer, string and section value",
 TESTS + "a loop that stops advancing needs a particular remainder or zero length to hang.",
 [S, L + "splice_descriptor.go", L + "segmentation_descriptor.go"], [("loops", L)],
 technique="abstract interpretation: a ranking argument for every loop and acyclicity of the call graph", level="proof",
 note="Loops inside dependencies are taken to terminate.")

prop("C29", "UTC splice times convert exactly and stay in UTC",
 "Every 32-bit utc_splice_time (seconds since 6 January 1980, with no leap second correction) becomes the instant that many seconds after 1980-01-06T00:00:00Z, in UTC regardless of the local time zone, and converts back to the same 32-bit value, over the whole range including values beyond 2^31.",
 ["inputs", "configurations"], "all 2^32 values and every local time zone",
 TESTS + "a few values in one time zone are tested.",
 [L + "scte35.go", L + "splice_schedule.go"], [("GPS time conversion", L + "scte35.go")], note=TV)

prop("C30", "A section's duration is its break duration or its segments' sum",
 "The duration of a section is the break duration of its splice_insert if it has one, and otherwise the sum of the segmentation durations of all its segmentation descriptors, zero if there is none.",
 ["inputs"], "every section value, any number and order of descriptors",
 TESTS + "three sections with durations are tested.",
 [S], [("Duration", S)], note=TV)

prop("C31", "Encoding failures are reported, never hidden in output",
 "If a command or descriptor cannot be encoded, encoding the section returns an error, and base64 and hex conversion return the empty string; otherwise those return exactly the standard padded base64 and the lower-case hexadecimal of the encoded section.",
 ["inputs", "fault_sequences"], "every section value, a failure at any command or descriptor",
 TESTS + "no test makes an encoder fail.",
 [S], [("Encode, Base64, Hex", S)], note=TV)

prop("C32", "Tick and duration conversions agree",
 "Converting a 33-bit count of 90 kHz ticks to a duration gives the exact duration rounded down to a nanosecond, and converting a duration in that range to ticks the smallest count that is not shorter. Both are therefore monotonic, ticks survive conversion to a duration and back unchanged, and a duration survives conversion to ticks and back within one tick.",
 ["inputs"], "every 33-bit tick count and every duration in that range",
 TESTS + "the round trip is tested for 29 to 61 seconds.",
 [L + "scte35.go"], [("conversion", L + "scte35.go")], level="proof",
 technique="abstract interpretation with affine forms: the result of the conversion is a linear combination of its argument and one bounded noise symbol per rounding; the bounds of its distance from the exact value decide the obligation")

prop("C33", "Private bytes travel as hex text without loss",
 "Private bytes marshal to lower-case hexadecimal text of exactly those bytes and unmarshal from hexadecimal text to exactly the bytes it spells; malformed hex is an error and leaves the earlier value.",
 ["inputs"], "every byte string and every text",
 TESTS + "a few values occur.",
 [L + "scte35.go"], [("hex text codec", L + "scte35.go")], note=TV)

prop("C34", "Decoding and re-encoding reproduces every well-formed section",
 "Encoding the result of decoding a valid section reproduces its bytes, for sections whose reserved bits are one and whose UPIDs are in canonical form.",
 ["inputs"], "every valid section",
 TESTS + "the identity is checked for those only.",
 [S], [("Decode and Encode", S)], claim=False,
 reason="The exact side conditions under which the identity holds (canonical UPIDs, MID of one, TI of eight bytes, known command types) cannot be separated statically from inputs that legitimately re-encode differently; C01-C07, C10 and C15 decide each direction against SCTE 35 instead.")
