import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ENC=["encoder.go","encoder_bin.go","encoder_borsh.go","encoder_compact-u16.go"]
DEC=["decoder.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"]
p("C01","Acknowledged records read back exactly and in order after any crash",
 "Whenever an encoding call on a record returns no error and the storage under the writer keeps what it accepted, a decoder of the same encoding reading that storage later gets back every acknowledged record, equal to what was encoded, in order, each read ending exactly where the next record starts. This holds across writer failures followed by rollback to the last acknowledged record and retry, crashes that cut the stored bytes at an arbitrary point, restarts with a new encoder, several encodings in one stream, and readers that poll a growing stream and retry after an incomplete read. The records range over every supported shape: scalars, the library's own types, strings, arrays, slices, maps, structs with every field tag, required and optional pointers, Borsh enums and user codecs, nested at most 10,000 levels deep. (A nil pointer in a field not marked optional has no encoding outside Borsh; slices and maps whose elements occupy no bytes at all, so that nothing in the input bounds their number, are not covered.)",
 ["histories","crash_points","fault_sequences","inputs"],
 "every history of encode, sync, fail, crash, restart, roll back, retry and read over every supported record shape, in all three encodings",
 "The tests encode and decode fixed values once, into memory that never fails; they do not mix failed and successful records in one stream, never restart or tail a stream, and reach few combinations of field tags, types and length boundaries.",
 ENC+DEC+["types.go","u128.go","interface.go","tags-parser.go","tags-options.go","compact-u16.go"],
 [("reflective encoders","encodeBin, encodeBorsh, encodeCompactU16 and their struct variants"),("reflective decoders","decodeBin, decodeBorsh, decodeCompactU16 and their struct variants"),("length prefixes","WriteLength/ReadLength, WriteUVarInt, WriteCompactU16Length, WriteUint32"),("per-field options","parseFieldTag and option")],
 ["Encode/Write* return value","bytes accepted by the io.Writer","Decode result, Position, Remaining"],
 [("Encoder.currentFieldOpt / Decoder.currentFieldOpt","options of the field being processed; read by the library types' codecs","encoder.go, decoder.go")])
p("C02","A failing writer is reported at once and leaves a clean prefix",
 "If any write to the underlying writer fails (an error, with none, some or all of that write's bytes accepted), the encoding call in progress returns an error that carries the writer's error, and issues no further write. At every instant the bytes the writer has accepted during a call are a prefix of the one encoding that the format defines for the value (maps in the Bin and compact-u16 encodings: for some order of their entries), and all of it when the call returns no error. If no write fails and the value is encodable, the call returns no error; a value the format cannot represent (a type without an encoding, a Borsh NaN or enum discriminant out of range, a length that does not fit its prefix) is refused with an error. (Required nil pointers outside Borsh, which have no encoding and write nothing, are not covered.)",
 ["fault_sequences","inputs","histories"],
 "every placement of writer errors and partial writes within every sequence of encoding calls, for every value",
 "Every test writes into a bytes.Buffer or recorder that never fails, so none of the error paths after a write is ever taken.",
 ENC+["types.go","u128.go","interface.go"],
 [("write path","Encoder.toWriter, Encoder.Write, WriteBytes"),("error propagation","each `if err := ...; err != nil { return err }` after a write; %w wrapping in encodeStruct*")],
 ["error returned by Encode/Write*","sequence of Write calls and bytes seen by the io.Writer"])
p("C03","Written and the byte-count helpers match what the writer accepted",
 "At every instant, including after failed and partial writes and inside user codecs, the count an encoder reports as written equals the number of bytes its underlying writer has accepted from it since it was created. The byte-count helpers report, for every encodable value, exactly the number of bytes an encoder of that encoding writes for it, and an error when encoding fails.",
 ["fault_sequences","histories","inputs"],
 "every history of encoding calls and raw writes with failures and partial writes anywhere",
 "One test checks Written after two successful writes; nothing checks it after a failure, and the helpers are compared with constants for two structs.",
 ["encoder.go","interface.go"],
 [("byte counter","Encoder.count in toWriter and Write"),("counting writer","byteCounter, BinByteCount, BorshByteCount, CompactU16ByteCount")],
 ["Encoder.Written","*ByteCount results","bytes accepted by the io.Writer"],
 [("Encoder.count","bytes written so far","encoder.go")])
p("C04","A torn record is always detected",
 "If storage holds only a strict prefix of a record's encoding, cut at any byte by a crash or an interrupted delivery, decoding the record from it returns an error: it neither succeeds with a partial or zero-filled value nor panics, whatever complete records precede it. Trailing fields declared as binary extensions are the one exception: a record cut exactly at the start of such a field decodes, with that and the later extension fields absent.",
 ["crash_points","inputs"],
 "every byte offset at which every record's encoding can be cut, in all three encodings",
 "Tests truncate a handful of primitive reads; no test cuts a composite record at each offset.",
 DEC+["compact-u16.go","types.go","u128.go"],
 [("bounds checks","Remaining() checks in the fixed-size reads, readNBytes, ReadByteSlice"),("element-count checks","l > Remaining() in slices, reflect_readArrayOfUint_")],
 ["error returned by Decode and the Unmarshal helpers"])
p("C05","Damaged input never panics, hangs, over-allocates or yields wrong data",
 "Decoding bytes damaged in any way (flipped, overwritten, dropped, inserted, misplaced or hostile length and tag bytes) into any supported type (slices and maps whose elements occupy no bytes excepted) ends within a number of steps and an amount of memory proportional to the input, without a panic and with the position inside the buffer. It returns either an error or exactly the value those bytes denote in the encoding, having consumed exactly the bytes of that value; nesting beyond 10,000 levels is refused. The input bytes themselves are never modified.",
 ["fault_sequences","inputs"],
 "every damage to every stored encoding, for every supported type and all three encodings",
 "Tests feed well-formed data plus a few fixed malformed inputs; lengths that lie about the data that follows are not explored across types.",
 DEC+["compact-u16.go","types.go","u128.go","variant.go"],
 [("length limits","ReadLength, ReadRustString, l > Remaining() checks"),("bounded reads","readNBytes, reflect_readArrayOfUint_"),("enum range check","deserializeComplexEnum")],
 ["panic / error / value of Decode","Position","allocation during Decode"])
p("C06","Decoder reads are all-or-nothing and track one cursor through any history",
 "For every history of reads, peeks, skips, discards, seeks, resets and encoding switches on a decoder over a buffer that ends anywhere, each successful operation returns what the bytes at the current position denote and advances the position by exactly their size, and peeks, queries, refused seeks and skips, and fixed-size, varint and compact-u16 reads that fail for lack of data leave the position unchanged. No operation panics, and the position always stays between 0 and the buffer length, with the remaining count equal to the difference. Any other failed read never moves the position backwards or past the end. A raw read that fails reports no bytes, and decoding into anything but a non-nil pointer to a supported type is refused with an error.",
 ["histories","fault_sequences","inputs"],
 "every sequence of decoder operations over every buffer, with the data ending at any point",
 "Tests call each read once or twice at fixed positions; sequences that mix failures, seeks, resets and extreme arguments are not explored.",
 ["decoder.go","compact-u16.go"],
 [("cursor","Decoder.pos updates in each Read*, Peek, SkipBytes, Discard, SetPosition, Reset")],
 ["results, errors, Position, Remaining, HasRemaining, Len of the Decoder"],
 [("Decoder.pos","current offset","decoder.go")])
p("C07","Concurrent sessions do not affect each other",
 "Any number of goroutines, each with its own encoder or decoder, or calling any of the package's functions, get the same results under every interleaving as they would alone, even when they encode the same value, decode the same input bytes or use the same variant definition. No package-level or shared-definition state is accessed without synchronisation, the bytes handed to a writer stay unchanged until that write returns, and a panic in one goroutine's user codec or writer leaves the others unaffected.",
 ["schedules","fault_sequences"],
 "every interleaving of the statements of concurrently running sessions, and every placement of failures and panics in their callbacks",
 "No test runs two sessions at the same time, and the suite is not run under the race detector.",
 ENC+DEC+["variant.go","types.go","u128.go","sighash.go","heck.go","compact-u16.go","interface.go","tools.go","logging.go"],
 [("no shared mutable state","per-session Encoder and Decoder structs; package variables written only at init; VariantDefinition read-only after construction")],
 ["results of each session","data-race reports over the simulated schedule","contents of p during Write"],
 None,"none committed: yield points are inserted at build time through a compiler overlay")
p("C08","Map encodings do not depend on map iteration order",
 "Encoding a map in Borsh yields the same bytes, with entries in ascending key order, whatever order the runtime enumerates its keys in and whatever insertions and deletions built it. In the other two encodings the bytes hold each entry exactly once after the entry count, whatever the order, so they always have the same length and decode to an equal map. This holds for maps nested anywhere in a record.",
 ["schedules","histories","inputs"],
 "every enumeration order of the keys and every construction history of the map",
 "Tests encode maps of two or four entries once, under whatever order the runtime happens to pick.",
 ["encoder_borsh.go","encoder_bin.go","encoder_compact-u16.go","decoder_bin.go","decoder_borsh.go","decoder_compact-u16.go"],
 [("key sort","sort.Slice(keys, vComp(keys)) in encodeBorsh"),("entry loop","for range rv.MapKeys() in the three encoders")],
 ["encoded bytes under controlled key enumeration order","decoded map"],
 None,"none committed: key enumeration is redirected at build time through a compiler overlay")
p("C09","Reused encoders, decoders and targets carry nothing over",
 "After any mix of successful and failed calls, the next record written by an encoder whose writer works again, and the next message read by a decoder that was reset or repositioned, come out exactly as from a new encoder or decoder. Decoding into a variable that already holds another record leaves exactly the new record in the fields it transmits, including those it leaves empty or absent (absent extension fields excepted). Strings, numbers and other non-raw-byte values decoded earlier stay intact when the input buffer is overwritten for the next message. Encoding leaves the value it is given unchanged.",
 ["histories","fault_sequences","inputs"],
 "every history of successes and failures preceding a record on the same encoder, decoder, buffer or target variable",
 "Tests use a fresh encoder, decoder and target for nearly every case, and never continue after a failure.",
 ENC+DEC+["types.go","u128.go","interface.go"],
 [("reset","Decoder.Reset, SetPosition"),("option reset per value","currentFieldOpt assigned at the start of each value; newDefaultOption"),("target overwrite","Set/MakeSlice/MakeMap/Zero in the decoders")],
 ["bytes written and values decoded compared with fresh sessions"],
 [("Encoder.currentFieldOpt / Decoder.currentFieldOpt","options of the last field processed","encoder.go, decoder.go")])
p("C10","Compact-u16 lengths read from a stream take exactly their own bytes",
 "Reading a compact-u16 length from a byte stream consumes exactly the bytes of that length and never one more, returns the value that was encoded, and stops at the first byte at which the stream fails, returning the stream's own error. Overlong, aliased and out-of-range forms are refused, and the stream reader, the slice reader and the decoder agree on every input. Lengths that cannot be represented are refused when writing, with nothing written.",
 ["fault_sequences","inputs","histories"],
 "every sequence of lengths, with the stream ending, failing or stalling before any byte",
 "Tests use an in-memory reader that fails only at its end.",
 ["compact-u16.go","decoder.go","encoder.go"],
 [("stream reader","DecodeCompactU16LengthFromByteReader"),("slice reader","DecodeCompactU16, Decoder.ReadCompactU16"),("writer","EncodeCompactU16Length, WriteCompactU16, WriteLength")],
 ["value, error and number of ReadByte calls"])
p("C11","Variant dispatch never picks a wrong type",
 "Reading a variant decodes the payload as exactly the type registered for the type identifier at the current position and records that identifier, its name and the decoded payload; an identifier that is not registered, is cut short or does not fit its encoding is an error, whatever damage produced it. This holds for every identifier encoding, for streams of many variants, and when one definition is shared by concurrent readers.",
 ["inputs","fault_sequences","schedules","histories"],
 "every stream of variants, every damage to their identifiers, every set of registered types, and every interleaving of readers sharing a definition",
 "Tests decode one variant at a time from well-formed bytes plus one unknown identifier.",
 ["variant.go","sighash.go","decoder.go"],
 [("type lookup","typeIDToType in UnmarshalBinaryVariant"),("identifier construction","NewVariantDefinition, TypeIDFrom*"),("identifier read","ReadUvarint32, ReadUint32, ReadUint8, ReadTypeID")],
 ["BaseVariant.TypeID, Impl and Obtain after UnmarshalBinaryVariant","its error","Decoder.Position"])
p("C12","Failures in user codecs surface unchanged and stop the record",
 "Each user-supplied codec in a record (elements of unsigned-integer arrays and slices excepted: they are written raw) is called exactly once, in field order, on the encoder or decoder of the session, and sees the stream exactly at its own position. When one fails, before, between or after its own writes or reads, the call in progress returns an error that carries the codec's error, no later codec of that record is called, and nothing more is written. This holds at every nesting level: behind pointers, optional fields, arrays, slices, map keys and values, enums and codecs calling back into the session.",
 ["fault_sequences","inputs"],
 "every placement of codec failures in every record shape, in all three encodings",
 "Tests use user codecs that never fail, in two positions.",
 ENC+DEC+["interface.go"],
 [("codec dispatch on encode","rv.Interface().(BinaryMarshaler)"),("codec dispatch on decode","indirect and the Implements checks in decodeStructBorsh")],
 ["order and count of codec calls","Written/Position seen inside the codec","error returned by Encode/Decode"])
p("C13","The write recorder keeps exactly what was written",
 "The recording writer returns, at any later time, exactly the bytes passed to its successive writes, in order and grouped by write, even when callers overwrite and reuse the buffers they wrote from, or modify bytes the recorder returned.",
 ["histories","inputs"],
 "every history of writes, buffer reuse and reads of the record",
 "Tests read the record back immediately and never touch the written buffers again.",
 ["tools.go"],
 [("recording","WriteByWrite.Write, Bytes, String")],
 ["WriteByWrite.Bytes and String"])
p("C14","Anchor discriminators and case conversion match the Anchor SDK",
 "For every name, the snake-case and Pascal-case conversions give what the Rust crate used by Anchor gives, and the sighash helpers give the first eight bytes of the SHA-256 of namespace, colon and converted name.",
 ["inputs"],"every string","Tests list about forty names.",
 ["heck.go","sighash.go"],[("case conversion","ToRustSnakeCase, ToPascalCase, transform"),("hash","Sighash")],["returned strings and bytes"])
p("C15","Text and JSON forms of the library's types denote their value",
 "For every value of the 128-bit, 64-bit, boolean, float and hex types, the decimal, hex and JSON text denotes exactly that value, and parsing the JSON text gives the value back.",
 ["inputs"],"every value","Tests list a few values per type.",
 ["u128.go","types.go","utils.go"],[("128-bit text","Uint128.Bytes, BigInt, twosComplement, unmarshalJSON_*"),("JSON wrappers","MarshalJSON/UnmarshalJSON in types.go")],["returned text and parsed values"])
p("C16","Type identifiers convert to and from numbers without loss",
 "For every 8-bit and 32-bit number and both byte orders, converting it to a type identifier and back gives the same number, and distinct numbers give distinct identifiers within one identifier encoding.",
 ["inputs"],"every number","Tests convert a few constants.",
 ["variant.go"],[("conversions","TypeIDFrom*, *FromTypeID")],["returned identifiers and numbers"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
