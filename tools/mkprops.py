import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=[{"name":x,"meaning":x} for x in state]
    if hook is not None: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
W="wdns/"
p("P01","Parsing any byte string as a DNS message is safe and terminates",
"For every byte string handed to the message parser, the parser reads only inside that byte string, terminates, and returns either success or one of the documented error codes. A failed parse leaves nothing allocated and an empty result that may be cleared again; a successful result is released completely by the clear call. The input bytes are never modified.",
["inputs"],"all byte strings of any length (0 to past 64 KiB), random, structured and mutated",
"Tests parse a handful of well-formed packets; out-of-bounds reads, endless loops and leaks appear only for particular truncations, pointer layouts and length fields.",
[W+"parse_message.c",W+"parse_message_rr.c",W+"parse_rdata.c",W+"parse_edns.c",W+"unpack_name.c",W+"skip_name.c",W+"insert_rr_rrset_array.c",W+"clear.c"],
[("bounds checks on every name, fixed field and rdata length","wdns/parse_message_rr.c, wdns/parse_rdata.c"),("strictly backward compression pointers","wdns/unpack_name.c"),("error path releases partial results","wdns/parse_message.c")],
["return code and result of the message parser on an exactly sized heap buffer under AddressSanitizer/UBSan, live allocation count before and after"])
p("P02","Well-formed messages parse to exactly the records they encode",
"Parsing a well-formed DNS message yields the message's id, flags and response code, and for every section exactly the encoded records in order: owner name, type, class, TTL and data, with all compressed names expanded. The result does not depend on which legal compression choices the encoder made. Records of unknown types, and class-specific types under another class, keep their data bytes unchanged.",
["inputs"],"all well-formed messages over all known and unknown types, all legal compression layouts, 0..65535 records",
"The tests never run the message parser; fidelity must hold for every combination of type, section, name and compression layout.",
[W+"parse_message.c",W+"parse_message_rr.c",W+"parse_rdata.c",W+"unpack_name.c",W+"skip_name.c",W+"record_descr.c",W+"wdns.h.in"],
[("type layout table driving rdata expansion","wdns/record_descr.c"),("name expansion","wdns/unpack_name.c")],
["fields of the parsed message compared with the generated model"])
p("P03","The message parser accepts exactly the well-formed messages",
"A message is accepted if and only if its header is complete and every record it announces, up to the first record boundary that coincides with the end of the message, is well-formed: names of at most 255 octets with labels of at most 63 and only strictly backward pointers, fixed parts and record data inside the message, and data matching the layout of its type. Data of a known type may stop early only at a field boundary, must leave no bytes over, and may not exceed 65535 octets once its names are expanded; anything else is rejected with an error.",
["inputs"],"all byte strings, in particular single- and multi-byte mutations and truncations of well-formed messages",
"Acceptance is a predicate over all byte strings; a handful of samples cannot show that no malformed message slips through and no valid one is refused.",
[W+"parse_message.c",W+"parse_message_rr.c",W+"parse_rdata.c",W+"unpack_name.c",W+"record_descr.c"],
[("length and leftover checks per field","wdns/parse_rdata.c"),("service parameter validation","wdns/parse_rdata.c"),("name limits and pointer rule","wdns/unpack_name.c")],
["accept/reject compared with an independently written reference decoder"])
p("P04","Records are grouped into RRsets by name, type and class",
"In every section other than the question section, the RRsets partition the records: two records share an RRset if and only if their owner names are equal ignoring ASCII case and their types and classes are equal. An RRset lists its records' data in order of arrival, carries the lowest TTL of its records and the name as spelled in its first record, and RRsets appear in order of first arrival. Question records each form an RRset of their own, without data.",
["inputs","histories"],"all sequences of records within a section, including interleavings, case variants and differing TTLs",
"Grouping depends on the arrival order and combination of many records; no test exercises it.",
[W+"insert_rr_rrset_array.c",W+"compare_rr_rrset.c",W+"downcase_name.c",W+"parse_message.c"],
[("lookup of the matching RRset and TTL minimum","wdns/insert_rr_rrset_array.c"),("case-insensitive comparison","wdns/compare_rr_rrset.c")],
["record and RRset arrays of the parsed message; the comparison function on a record and an RRset"])
p("P05","EDNS information is taken from the first OPT record",
"If a message contains OPT records, the first one parsed sets the EDNS state: UDP size from its class, version, flags and options from its TTL and data, and the 12-bit response code combines the header's low four bits with the record's eight extended bits above them. That record does not appear among the section's records, while every later OPT record does, as an ordinary record. Without an OPT record EDNS is absent and the response code is the header's.",
["inputs"],"all messages with 0, 1 or several OPT records in any section and any TTL/class/options",
"Bit placement and first-versus-later handling must hold for every TTL value and position; the tests contain no message with OPT.",
[W+"parse_edns.c",W+"parse_message.c"],
[("EDNS field extraction","wdns/parse_edns.c"),("first OPT versus later ones","wdns/parse_message.c")],
["EDNS fields, response code and section contents of the parsed message"])
p("P06","Name decompression is exact, bounded and rejects illegal pointers",
"Expanding a possibly compressed name at any position of any buffer succeeds exactly when following its labels and strictly backward pointers reaches the root inside the buffer with at most 255 octets in total, and then yields precisely those labels and that length. It never reads outside the buffer, never writes more than 255 octets, and always terminates; otherwise it returns an error. Skipping a name moves to the first octet after its terminator or pointer, or to the end of the buffer if there is none, never beyond.",
["inputs"],"all buffers and start positions, including forward, self and chained pointers and names ending at the buffer end",
"Pointer graphs and exact buffer ends form an unbounded space; tests have none of them.",
[W+"unpack_name.c",W+"skip_name.c"],
[("pointer rule and length accounting","wdns/unpack_name.c"),("skip loop","wdns/skip_name.c")],
["results of name expansion and skipping compared with a reference, on exactly sized buffers under AddressSanitizer"])
p("P07","Uncompressed names are measured and copied exactly within bounds",
"Copying or measuring an uncompressed name succeeds exactly when a complete name of at most 255 octets made of labels of at most 63 octets lies inside the buffer, and then yields its exact octets and length. Names that are unterminated, too long, contain pointers or reserved length octets are rejected with an error. Neither operation reads outside the buffer.",
["inputs"],"all byte buffers and start positions, including names ending exactly at the buffer end",
"The failing inputs are exact-boundary layouts that samples miss.",
[W+"copy_uname.c",W+"len_uname.c"],
[("bounds and limits","wdns/copy_uname.c, wdns/len_uname.c")],
["results compared with a reference on exactly sized buffers"])
p("P08","Every wire name survives conversion to text and back",
"Every valid uncompressed domain name converts to printable text without blanks, in at most 1024 characters plus terminator, reporting the number of octets it occupied; dots and backslashes inside labels and non-printing octets are escaped. Converting the text back without case folding yields the identical octets, and with case folding yields the name with ASCII upper-case letters lowered. Distinct names have distinct texts.",
["inputs"],"all valid names: any octet values, label lengths 1..63, total length 1..255",
"Round trips must hold for all 256 octet values in all positions and at the length limits.",
[W+"domain_to_str.c",W+"str_to_name.c"],
[("escaping","wdns/domain_to_str.c"),("unescaping and case folding","wdns/str_to_name.c")],
["text produced, octets re-read, reported length"])
p("P09","Reading a name from any text gives a valid name or a clean error",
"For every text, reading it as a domain name either yields a valid uncompressed name - labels of 1 to 63 octets, at most 255 octets, ended by the root label - whose labels are exactly those the text spells with its escapes decoded, or fails with an error, leaves a null pointer in place of data and allocates nothing. It reads no character beyond the terminator. Texts with an empty label, an over-long label or name, or a broken escape are rejected.",
["inputs"],"all NUL-terminated texts: random characters, dots, backslash escapes, digits, lengths around 63 and 255",
"Broken escapes at the end and limits on labels need inputs the tests do not include.",
[W+"str_to_name.c"],
[("label/escape scanner","wdns/str_to_name.c")],
["return code, name octets versus a reference reader; allocation balance"])
p("P10","Label operations on names are exact and bounded",
"For valid names: the label count is the number of non-root labels, chopping removes exactly the first label (the root stays the root), reversing lists the same labels in opposite order and is its own inverse, and folding case changes exactly the ASCII upper-case letters. For malformed names, counting and reversing return an error, and chopping too unless its first label fits. None of them touches memory outside the name given.",
["inputs"],"all valid names and all byte strings passed as names of the stated length",
"Algebraic laws over all names and boundary layouts of malformed ones.",
[W+"count_labels.c",W+"left_chop.c",W+"reverse_name.c",W+"downcase_name.c"],
[("label walks","wdns/count_labels.c, wdns/left_chop.c, wdns/reverse_name.c")],
["returned counts, names and codes versus a reference on exactly sized buffers"])
p("P11","Subdomain relation is the strict label-suffix order",
"One valid name is reported to be a subdomain of another exactly when it has more labels and its rightmost labels are octet-for-octet equal to all labels of the other; hence the relation is irreflexive and transitive, every non-root name is below the root, and label boundaries matter. A malformed name gives an error. The names are not modified.",
["inputs"],"all pairs (and chains) of names, including near-suffixes where octets match but label boundaries do not",
"Near misses such as suffixes that do not align with label boundaries are not in the tests.",
[W+"is_subdomain.c",W+"count_labels.c"],
[("right-to-left label comparison","wdns/is_subdomain.c")],
["boolean result versus a reference over generated pairs"])
p("P12","Record data survives conversion to text and back",
"For every supported type (all types known to the library except OPT, plus unknown types in generic form) and every well-formed record data that the presentation format can express, converting the data to text and reading the text back with the same type and class yields the identical octets. The text contains no error marker.",
["inputs"],"all well-formed record data of all types in their class, all field values",
"The tests hold about a hundred fixed samples; the law must hold for all field values, lengths and octets.",
[W+"rdata_to_ubuf.c",W+"str_to_rdata_ubuf.c",W+"rdata_to_str.c",W+"svcparamkeys_to_str.c",W+"record_descr.c","libmy/b32_encode.c","libmy/b64_encode.c","libmy/b32_decode.c","libmy/b64_decode.c"],
[("field printers","wdns/rdata_to_ubuf.c"),("field readers","wdns/str_to_rdata_ubuf.c")],
["octets after printing and re-reading"])
p("P13","Record data text follows the presentation format of its type",
"For every well-formed record data, the text lists its fields in order, separated by single blanks, in the presentation format: decimal integers, dotted or RFC 5952 style addresses, escaped names with a trailing dot, quoted escaped strings, upper- or lower-case hexadecimal, base64 or base32 as the type prescribes, type mnemonics (or TYPEn) for types and type bit maps, key=value service parameters, and dig-style EDNS options. Unknown types use the generic form with length and hexadecimal octets.",
["inputs"],"all well-formed record data of all types",
"A differential against an independent printer is needed because both directions could be wrong together in a round trip.",
[W+"rdata_to_ubuf.c",W+"edns_options.c",W+"svcparamkeys_to_str.c",W+"rdata_to_str.c","libmy/my_format.c","libmy/fast_inet_ntop.c"],
[("field printers","wdns/rdata_to_ubuf.c"),("EDNS option printers","wdns/edns_options.c")],
["text compared with an independently written printer (trailing blanks ignored)"])
p("P14","Reading record data from any text is safe and yields well-formed data",
"For every text, type and class, reading record data terminates without touching memory outside the text, and either fails with an error and no output, or succeeds with data of at most 65535 octets that is well-formed for the type (complete up to a field boundary), so that the message parser would accept it and printing it shows no error marker. The outcome depends only on the text, type and class.",
["inputs"],"all texts (random tokens, mutated valid texts, extremes of length and numbers) for all types and classes",
"Malformed text is unbounded; the tests check a few dozen rejected samples.",
[W+"str_to_rdata_ubuf.c",W+"str_to_name.c",W+"svcparamkeys_to_str.c","libmy/b32_decode.c","libmy/b64_decode.c"],
[("field readers and rollback on error","wdns/str_to_rdata_ubuf.c")],
["return code, output octets checked by an independent well-formedness test and by parsing them inside a message"])
p("P15","Equivalent record data texts read alike; invalid fields are rejected",
"All presentation variants of the same field values - extra blanks between fields, leading zeros, either hexadecimal case, quoted or unquoted strings, decimal escapes for any octet, mnemonics in any case or TYPEn, any order in type bit maps, any legal IPv6 spelling, names with or without trailing dot - read as the same octets, those of the values. A text in which one field is out of range or malformed (number too large, bad address, bad name, over-long string, unknown type name, length or digit mismatch) is rejected.",
["inputs"],"all value assignments and spelling variants; one invalid field in any position of any type",
"Tests hold one spelling per value; equivalence ranges over all spellings and every single-field fault.",
[W+"str_to_rdata_ubuf.c",W+"str_to_name.c"],
[("field readers","wdns/str_to_rdata_ubuf.c")],
["octets read compared with the generated values; rejection of texts with one invalid field"])
p("P16","Printing record data from arbitrary bytes is safe and flags truncation",
"For every byte string, type and class, printing it as record data terminates, reads only those bytes, and returns text made of printable ASCII (and line breaks between EDNS options) only. If the bytes end in the middle of a field of a known type in its class, or a field violates its format, the text ends with the parse-error marker. Class-specific types under another class print as empty text.",
["inputs"],"all byte strings up to 65535 octets for all types and classes",
"Bounds errors in printing appear only for particular truncations and length octets.",
[W+"rdata_to_ubuf.c",W+"edns_options.c",W+"len_uname.c",W+"domain_to_str.c",W+"rdata_to_str.c"],
[("bounds checks per field and error marker","wdns/rdata_to_ubuf.c")],
["text for byte strings in exactly sized buffers under AddressSanitizer; reference truncation predicate"])
p("P17","RRsets survive serialization exactly",
"Serializing an RRset reports the exact number of bytes needed (also without an output buffer), writes exactly that many bytes, and leaves the RRset unchanged. Deserializing them yields an RRset equal in name, type, class, TTL and every data item in order, and serializing that again gives identical bytes.",
["inputs"],"all RRsets: any name, type, class, TTL, 0..65535 data items of 0..65535 octets",
"The law ranges over all RRset shapes; tests only check a fixed hex example outside the suite.",
[W+"serialize_rrset.c",W+"deserialize_rrset.c"],
[("size computation and copy","wdns/serialize_rrset.c"),("copy with bounds","wdns/deserialize_rrset.c")],
["reported size, bytes written into an exactly sized buffer, re-read RRset"])
p("P18","Deserializing any bytes is safe and rejects truncated input",
"For every byte string, deserializing it terminates, reads only those bytes, and succeeds exactly when the bytes contain the complete name, fixed fields and all announced data items (extra bytes are ignored); then the RRset holds exactly those values. On failure it returns an error, frees everything and leaves an RRset that can be cleared again. Printing, sorting or clearing a deserialized RRset is safe whatever bytes it came from.",
["inputs"],"all byte strings: truncations at every position, random counts and lengths",
"Truncation points and length fields form a space samples do not cover.",
[W+"deserialize_rrset.c",W+"clear.c",W+"rrset_to_ubuf.c",W+"domain_to_str.c",W+"sort_rrset.c"],
[("bounds macro and clean-up","wdns/deserialize_rrset.c")],
["return code and RRset fields versus a reference decoder; allocation balance"])
p("P19","Case folding of record data changes exactly the embedded name letters",
"Folding the case of record data lowers exactly the ASCII upper-case letters inside the domain names embedded in the types for which DNSSEC canonical form requires it, in their class, and changes nothing else, for every other type nothing at all; folding again changes nothing and lengths never change. Folding an RRset folds its owner name and all its data likewise. Malformed data is reported with an error and never read or written outside its bounds.",
["inputs"],"all record data of all types and classes, well-formed and malformed; all RRsets",
"Which octets may change depends on every field layout; malformed data needs boundary cases. No test calls it.",
[W+"downcase_rdata.c",W+"downcase_rrset.c",W+"downcase_name.c",W+"record_descr.c"],
[("field walk restricted to the canonical type list","wdns/downcase_rdata.c")],
["octets before and after versus a reference; exactly sized buffers under AddressSanitizer"])
p("P20","Sorting an RRset is a canonical permutation",
"Sorting an RRset permutes its data items - none lost, duplicated or altered - into ascending order by length and, for equal lengths, by unsigned octets. The outcome is the same for every initial order, sorting twice changes nothing, and the RRset's other fields are untouched.",
["inputs"],"all multisets of data items in all orders, 0..65535 items",
"Order laws range over all permutations; there is no test.",
[W+"sort_rrset.c"],[("comparison","wdns/sort_rrset.c")],
["data items before and after sorting"])
p("P21","Mnemonics for types, classes, response codes and opcodes are exact inverses",
"Each registered type, class, response code and opcode has its registered mnemonic and every other number has none. Reading a mnemonic in any letter case gives its number, TYPEn and CLASSn are understood for every n up to 65535, and any other text is unknown (zero, or a failure for response codes). Every result code has a distinct description, and the version number encodes the version string.",
["inputs"],"all 65536 numbers for each registry; all texts near and far from mnemonics",
"Exhaustive over the 16-bit ranges and an unbounded set of near-miss texts; tests sample a few.",
[W+"gen_rrtype_to_str",W+"gen_rrclass_to_str",W+"gen_rcode_to_str",W+"opcode_to_str.c",W+"res_to_str.c",W+"wdns.h.in"],
[("generated switch and sorted tables searched by bisection","wdns/gen_rrtype_to_str, wdns/gen_rrclass_to_str, wdns/gen_rcode_to_str")],
["conversion functions in both directions"])
p("P22","Message text shows exactly the parsed header, EDNS data and records",
"The text of a parsed message states opcode and response code (mnemonic or number), id, exactly the set flags, the record counts, the EDNS pseudo-section if and only if EDNS is present (version, do bit, size, each option on its own line), and then the four sections in order with one line per record. It depends only on the parsed content.",
["inputs"],"all messages the parser accepts",
"Every flag, count, option and record combination must be rendered; there is no test.",
[W+"message_to_str.c",W+"rrset_array_to_ubuf.c",W+"rr_to_ubuf.c",W+"edns_options.c"],
[("header and pseudo-section rendering","wdns/message_to_str.c")],
["text compared with an independently written rendering"])
p("P23","Record, RRset and section text agree and are complete",
"The text of a record is one line: owner, TTL, class, type (mnemonic or generic number) and data, with question records shown as a semicolon, owner, class and type only. An RRset prints one such line per data item with the RRset's TTL (question RRsets one line), a section prints its records in order, and the print functions write exactly the string the corresponding conversion returns. Nothing passed in is modified.",
["inputs"],"all records, RRsets and sections obtained from parsing or deserializing",
"Must hold for all record kinds and both kinds of section; there is no test.",
[W+"rr_to_ubuf.c",W+"rrset_to_ubuf.c",W+"rrset_array_to_ubuf.c",W+"print_rr.c",W+"print_rrset.c",W+"print_rrset_array.c",W+"print_message.c",W+"rr_to_str.c",W+"rrset_to_str.c",W+"rrset_array_to_str.c"],
[("line rendering","wdns/rr_to_ubuf.c, wdns/rrset_to_ubuf.c")],
["returned strings and bytes written to a stream versus a reference rendering"])
p("P24","Ownership of memory is exact over any sequence of API calls",
"Over every sequence of parsing, printing, serializing, deserializing, folding, sorting and clearing of messages, records, RRsets and names, each object is released exactly once by its clear call or by freeing the returned string, clearing an already cleared object is harmless, and objects never share memory with the input or with each other. After everything is released no allocation remains.",
["histories"],"all interleavings of API calls on several live objects, including failed calls and repeated clears",
"Leaks, double frees and aliasing appear only in particular histories.",
[W+"clear.c",W+"parse_message.c",W+"insert_rr_rrset_array.c",W+"deserialize_rrset.c",W+"rdata_to_str.c",W+"str_to_name.c",W+"message_to_str.c"],
[("clear functions reset pointers","wdns/clear.c"),("deep copies for records, moves for RRsets","wdns/insert_rr_rrset_array.c")],
["live allocation count, AddressSanitizer, content of all other live objects after each step"],
state=["set of live messages, RRsets, names and strings"])
p("P25","Results never depend on uninitialized or stale memory",
"Every byte of every result - parsed messages, names, record data, serialized bytes, texts - and every decision the library takes is determined by its inputs alone, never by uninitialized memory, earlier calls or their order. Repeating any call in a different context gives the identical outcome.",
["inputs","histories"],"all API calls on generated valid and malformed inputs, repeated after unrelated calls",
"Uninitialized reads usually return plausible values in a test run.",
[W+"str_to_rdata_ubuf.c",W+"rdata_to_ubuf.c",W+"parse_rdata.c",W+"parse_message_rr.c",W+"deserialize_rrset.c","libmy/b64_encode.c","libmy/b32_decode.c"],
[("value initialisation before use","all conversion functions")],
["MemorySanitizer on decisions and on every output byte; outcome of repeated calls"])
p("P26","The library is reentrant: concurrent use of separate objects is safe",
"Threads that call any library functions at the same time on objects of their own obtain the same results as when the calls run one after another, without data races.",
["schedules","inputs"],"all interleavings of calls from several threads, including the very first calls in the process",
"Races depend on scheduling and on who calls first; the tests are single-threaded.",
["libmy/b32_decode.c","libmy/b32_encode.c","libmy/b64_decode.c","libmy/fast_inet_ntop.c","libmy/my_format.c",W+"rdata_to_ubuf.c",W+"str_to_rdata_ubuf.c",W+"rrtype_to_str.c"],
[("no mutable shared state","whole library")],
["ThreadSanitizer reports and results of concurrently executed operation lists in a fresh process compared with sequential ones"])
p("P27","IP address text is the canonical form and stays in its buffer",
"For every IPv4 and IPv6 address the fast formatter yields the same text as the platform's standard conversion, which reads back as the same address. It writes nothing beyond the given buffer size and reports an error without output if the text and terminator do not fit; unknown address families are refused.",
["inputs"],"all addresses (special patterns of zero runs, embedded IPv4) and all buffer sizes",
"2^128 addresses and every zero-run pattern; tests cover a few.",
["libmy/fast_inet_ntop.c","libmy/fast_inet_ntop.h"],[("zero-run selection and digit output","libmy/fast_inet_ntop.c")],
["text versus the platform conversion, guarded buffers of every size"])
p("P28","Base32 coding is exact, inverse and bounded",
"Encoding any bytes gives their base32hex digits without padding, and decoding any such digits (in either letter case) gives the bytes back. Neither direction writes beyond the given destination size, nor reads beyond the given source length.",
["inputs"],"all byte strings and digit strings, all source and destination sizes",
"All lengths modulo 5 and all values are needed.",
["libmy/b32_encode.c","libmy/b32_decode.c"],[("bit packing","libmy/b32_encode.c, libmy/b32_decode.c")],
["results versus a bitwise reference, guarded buffers"])
p("P29","Base64 coding is exact, inverse and independent of block splits",
"Encoding any bytes, in one block or split anywhere into several, gives their standard padded base64 text, and decoding that text, in one block or split anywhere, gives the bytes back. Characters outside the alphabet are skipped when decoding. No access goes outside the given buffers or tables for any input character.",
["inputs"],"all byte strings and texts (all 256 character values), all splits into blocks",
"Stream state carried across splits and all character values need generated inputs.",
["libmy/b64_encode.c","libmy/b64_decode.c"],[("streaming state machines","libmy/b64_encode.c, libmy/b64_decode.c")],
["results versus a reference codec under AddressSanitizer"])
p("P30","Decimal and hexadecimal formatting is exact within the buffer",
"Formatting a number in decimal or bytes in hexadecimal yields the exact digits, truncated in the documented way when the buffer is too small, always terminated and never writing outside the buffer; the reported length and start position describe the digits written.",
["inputs"],"all 64-bit numbers, all byte strings, all buffer sizes",
"All digit counts and too-small buffers are needed.",
["libmy/my_format.c","libmy/my_format.h"],[("digit loops","libmy/my_format.c")],
["text and lengths versus a reference, guarded buffers"])
p("P31","Growable buffers behave as sequences",
"Over every sequence of operations (add, append, reserve, advance, clip, reset, extend, detach, formatted and string appends, packing through the protobuf-c adapter, terminator handling) a growable buffer's content equals that of the model sequence, its write pointer is at its end, and no access goes outside its storage.",
["histories"],"all sequences of buffer operations with generated arguments",
"Growth and truncation interact over histories.",
["libmy/vector.h","libmy/ubuf.h","libmy/ubuf-pb.h"],[("capacity doubling and pointers","libmy/vector.h"),("string helpers","libmy/ubuf.h")],
["content, size and pointer after every step versus a model"],state=["buffer content and capacity"])
p("P32","Loading a file of names delivers every name once, in order",
"Loading a file of domain names reports each name line exactly once and in order, lower-cased, skipping empty lines, lines starting with a blank and comment lines of any length, whether or not the last line is terminated. A malformed line stops the load with an error after all names before it; an unreadable file is an error. It is safe for arbitrary file contents.",
["inputs"],"all file contents: valid, commented, very long lines, NUL bytes, missing final newline",
"File content is unbounded; there is no test.",
[W+"file_load_names.c",W+"str_to_name.c"],[("line reader","wdns/file_load_names.c")],
["names delivered to the callback and return code versus a reference reader"])
p("P33","Variable-length integers encode uniquely and decode exactly",
"Encoding any 32- or 64-bit unsigned integer writes exactly the number of bytes the length function reports, and decoding those bytes gives the integer back and consumes exactly them, whatever bytes follow. The length scan finds the end of an encoding inside the given bytes or reports none.",
["inputs"],"all 64-bit values, arbitrary trailing bytes, truncated encodings",
"All width boundaries and trailing contexts are needed; there is no test.",
["libmy/varint.c","libmy/varint.h"],[("7-bit groups","libmy/varint.c")],
["encoded bytes, lengths and decoded values versus a reference, guarded buffers"])
p("P34","The heap always yields a minimum and loses nothing",
"Over every sequence of heap operations (push, pop, replace, peek, get, size) the heap holds exactly the multiset of elements put in and not yet taken out, and each element taken or peeked is a minimum under the given order.",
["histories"],"all operation sequences with duplicate keys and any sizes",
"Heap order violations appear only after particular histories; there is no test.",
["libmy/heap.c","libmy/heap.h"],[("sift up and down","libmy/heap.c")],
["elements taken and content versus a model multiset"],state=["heap content"])
p("P35","CRC-32C is correct for every input, alignment and implementation",
"The checksum of any bytes at any alignment and length equals the CRC-32C of those bytes, computed identically by the portable, the hardware and the automatically selected implementation.",
["inputs"],"all byte strings, lengths and alignments",
"The fixed vectors in the test do not cover all lengths and alignments of both implementations.",
["libmy/crc32c.c","libmy/crc32c-slicing.c","libmy/crc32c-sse42.c"],[("table and hardware loops","libmy/crc32c-slicing.c, libmy/crc32c-sse42.c")],
["checksums of all implementations versus a bitwise reference"])
p("P36","IP arithmetic: successors and prefix bounds are exact",
"Incrementing an IPv4 or IPv6 address gives the next address as an unsigned number, and the lower and upper bounds of a prefix of any length from 0 to the full width are the address with the remaining bits cleared or set.",
["inputs"],"all addresses and all prefix lengths",
"Carries and the extreme prefix lengths need generation; there is no test.",
["libmy/ip_arith.h"],[("mask and carry computation","libmy/ip_arith.h")],
["results versus big-integer arithmetic"])
p("P37","The queue is a lossless FIFO between one producer and one consumer",
"Both queue implementations accept any power-of-two number of slots from two up, hold up to one element less than that, refuse insertion when full and removal when empty, report the space or count that remains, and deliver every element inserted exactly once, intact and in order, also while one producer and one consumer run concurrently; then the space and count reported are exact for some moment during the call.",
["histories","schedules"],"all operation sequences, element sizes and capacities; concurrent producer/consumer runs",
"Wrap-around and concurrency need histories; there is no test.",
["libmy/my_queue.c","libmy/my_queue_mb.c","libmy/my_queue_mutex.c"],[("head/tail arithmetic and ordering","libmy/my_queue_mb.c, libmy/my_queue_mutex.c")],
["results of each call versus a bounded FIFO model; sequence received by a concurrent consumer"],state=["queue content"])
p("P38","Small string utilities: hexadecimal decoding and string replacement",
"Decoding hexadecimal text gives exactly the bytes it spells and fails, allocating nothing, for empty text, odd length or any non-digit. Replacing a substring gives the text with every non-overlapping occurrence, found left to right, replaced; an empty substring leaves the text as it is.",
["inputs"],"all texts, patterns and replacements, including empty and adjacent ones",
"Edge cases of length and overlap need generation; there is no test.",
["libmy/hex_decode.h","libmy/string_replace.h"],[("digit pairs","libmy/hex_decode.h"),("scan and copy","libmy/string_replace.h")],
["results versus a reference, AddressSanitizer"])
p("P39","Ordered sets: red-black and splay trees",
"The tree macros implement sets ordered by the comparison function: insertion yields the element already there, or nothing and takes the new one; removal takes out exactly the given element (from a splay tree: the one equal to it); search, first element not below, minimum, maximum, next, previous and walks in both directions agree with the sorted sequence; a red-black tree stays balanced.",
["histories"],"all histories of insertions, removals and searches",
"Rebalancing depends on the shape reached by the whole history; there is no test.",
["libmy/tree.h"],[("rebalancing after insertion and removal, splaying","libmy/tree.h")],
["results of each call versus an ordered map; links, colours and order of the whole structure"],state=["tree shape"])
p("P40","Linked lists keep their elements in order",
"The list macros keep a doubly linked sequence: prepend, append, insertion before and after an element, unlinking and joining of lists change exactly the order they describe; head, tail, next and previous agree with it in both directions, and the linked test tells whether an element is in a list.",
["histories"],"all histories of list operations over several lists",
"Head, tail and middle positions in all combinations need histories; there is no test.",
["libmy/list.h"],[("link updates","libmy/list.h")],
["heads, tails, both directions and link tests after each operation versus sequences"],state=["list content"])
p("P41","The lookup3 hashes are the published functions",
"hashword, hashword2, hashlittle, hashlittle2 and hashbig give the values of the published algorithm for every key, length and seed, whatever the alignment of the key, and use no octet outside it.",
["inputs"],"all keys, lengths, alignments and seeds",
"Alignment and length of the last block select different code; there is no test.",
["libmy/lookup3.c"],[("last blocks","libmy/lookup3.c")],
["values versus a block-wise reference and the published test values"])
p("P42","Time arithmetic and rate limiting",
"Adding and subtracting time values is exact and leaves nanoseconds below one second; conversion from and to seconds as a floating number keeps the value to the nanosecond (as far as the floating number carries it); an interrupted sleep goes on for the time that remained. A rate limiter never waits longer than one period, lets no more events through within a second of its clock than its rate (and the one the truncated period adds), and, when it adjusts itself every ten or more events, keeps a busy caller near its rate, at any rate from one event per second.",
["inputs","histories","fault_sequences"],"all time values; all rates and adjustment intervals on a simulated clock; interrupted sleeps",
"Real clocks cannot be tested exactly; there is no test.",
["libmy/my_time.h","libmy/my_rate.c"],[("carry and borrow","libmy/my_time.h"),("adjustment","my_rate.c adjust_rate")],
["results versus integer arithmetic; sequence of sleeps and wake-ups on a simulated clock"])
p("P43","File sets follow the set file",
"After a reload of a changed set file, the entries are exactly the existing files it names, each once and in order of their names; files that are new are loaded once, files no longer named or gone are unloaded once with the pointer that loading gave, and files that stay keep their pointer without either. A set file that did not change, is missing, or cannot be opened or read in full changes nothing; in the last two cases the next reload looks at it again. Destroying the set unloads every entry.",
["histories","fault_sequences"],"all histories of files appearing and vanishing, set files rewritten, and reloads",
"Correct unloading depends on the history of reloads; there is no test.",
["libmy/my_fileset.c"],[("reload","my_fileset_reload")],
["load and unload calls and entries after each step versus a model"],state=["entries"])
p("P44","Spool directories hand out each waiting file exactly once",
"Every regular file in the incoming directory whose name does not start with a dot is yielded exactly once, also with several threads asking, after being moved to the active directory with its content, replacing a file of that name there; other entries are left alone; when nothing waits, nothing is yielded. A file that cannot be moved is not yielded: it goes on waiting, and the active directory stays as it is.",
["histories","schedules","fault_sequences"],"all histories of arriving files and requests, by one or two threads",
"Depends on the history of the directory; there is no test.",
["libmy/spooldir.c"],[("next file","spooldir_next")],
["files yielded, their content and the directories versus a model"],state=["directories"])
p("P45","Helpers for text, input, environment and byte order",
"print_string writes the octets in double quotes with quotes escaped and octets that are not printable in hexadecimal; read_bytes succeeds exactly when all octets asked for arrive, through partial and interrupted reads, and takes no more; getenv_int gives the number of an environment variable in decimal, octal or hexadecimal and fails for unset variables and trailing garbage; the byte order helpers convert as named, and the wire buffer macros read 8-, 16- and 32-bit fields in network order and move on by their size.",
["inputs","fault_sequences"],"all octet strings, all scripts of partial reads, all numbers",
"Partial reads and odd octets need generation; there is no test.",
["libmy/print_string.h","libmy/read_bytes.h","libmy/getenv_int.h","libmy/my_byteorder.h","wdns/buf.h"],[("escapes","print_string.h"),("read loop","read_bytes.h")],
["results versus reference models"])
p("P46","Command-line parsing does what the option table says",
"argv_process and its variants set, for every option of the table given in any of its accepted spellings (short letters alone or bundled, long names or unambiguous beginnings, values attached, behind '=' or in the next argument, options read from an argument file or the environment), exactly the variable the table names to exactly the value the text spells; positional arguments fill the mandatory and optional entries in order, arrays and lists collect every value in order, mandatory and either-or entries are enforced, and any command line that does not fit is refused with the documented status. The caller's argument vector stays as it was, whatever is allocated is released by argv_cleanup, and no access leaves the table, the arguments or the variables.",
["inputs","configurations"],"all option tables (types, spellings, mandatory, either-or and multi-value entries) and command lines for them",
"The combinations of spellings, types and entry kinds are endless; there is no test.",
["libmy/argv.c","libmy/argv.h"],[("processing of tokens and options","argv.c do_list, do_arg, file_args, process_env"),("values","argv.c string_to_value"),("constraints","argv.c check_mand, check_or, check_xor, check_opt")],
["status, every variable, the argument vector and remaining allocations versus a reference parser"])
p("P47","Option values, types and usage texts come out as documented",
"The text argv_value_string gives for a variable spells the value it holds, cut to the buffer and always terminated; argv_type_info describes each known type and refuses the others; the usage texts name every option and argument of the table with its spellings, comments and kind, wrap at the width of the screen (79) and do not run past their buffers; the global argv settings (environment use, error and usage modes, version and help strings, interactive mode) act as the header says.",
["inputs","configurations"],"all option tables, variable values, buffer sizes and settings",
"Cut-off texts, escapes and modes combine freely; there is no test.",
["libmy/argv.c","libmy/argv.h"],[("display of values","argv.c value_to_string, display_variables, argv_value_string"),("usage","argv.c usage_short, usage_long")],
["texts and status versus a reference; AddressSanitizer"])
p("P48","Atomic counters and pointers, thread numbers",
"Every history of operations on an atomic counter (32 or 64 bits wide, all amounts) by concurrent threads is what the same operations give one after another in some order that keeps each thread's own: nothing added is lost, taking the value and leaving zero hands out each unit once, and the tests for zero and below zero speak about the operation's own result. An atomic pointer is replaced exactly when the call reports it and was not changed meanwhile. Registering a thread gives it the next number, never one given before, which stays its own until it registers again.",
["histories","schedules"],"all operation lists and amounts; concurrent runs of up to four threads",
"Lost updates need concurrent histories; there is no test.",
["libmy/atomic.h","libmy/atomic_64.h","libmy/atomic_ptr.h","libmy/threadnum.c"],[("read-modify-write operations","libmy/atomic.h, libmy/atomic_64.h"),("compare and swap","atomic_ptr_set"),("next number","my_threadnum_register")],
["results and final value versus all orders of the operations; ThreadSanitizer"],state=["counter"])
p("P49","Zone files give their records, count, serial and end",
"Opening a zone file, plain or compressed (name ending in .gz) and whatever octets its name has, succeeds exactly when its first record is a SOA record and the file can be read. Reading then gives every record up to the next SOA record or the end of the file, each once and in order, with its owner completed by the origin, its TTL and its data; after that only the end. A malformed line gives an error and reading goes on behind it; a read error, or damage to a compressed file, is reported and is never taken for the end. Zone name, serial and the number of records so far are right at any time. Destroying the reader at any point closes the file, ends the process and frees everything.",
["inputs","histories","fault_sequences"],"all zone files and file names, read in part, completely or beyond the end, in parts and with read errors, or cut or damaged when compressed",
"Records, directives, ends and errors combine freely; there is no test.",
["libmy/zonefile.c","libmy/zonefile.h"],[("search for the SOA record","zonefile.c read_soa"),("opening and decompression","zonefile_init_fname"),("reading","zonefile_read")],
["records, count, serial, name, open files, processes and memory versus a model; ldns is replaced by a stand-in"],state=["position in the file"])
p("P50","Running out of memory is never followed by a wrong result",
"Whichever request for memory fails while the library works, alone or with all later ones, the call stops the program at its check of the memory, or reports a failure and keeps nothing of what it allocated, or gives exactly the result it gives with memory. It never uses the missing memory, reports success with another result, or leaks. This holds for parsing, printing, reading, folding, sorting, serializing, loading, the containers and helpers of libmy, and the command-line parser.",
["inputs","fault_sequences"],"all inputs of the library calls, each with any of its requests for memory refused, alone or with all later ones",
"No test makes an allocation fail; each call makes many, and each of them must be looked after.",
["libmy/my_alloc.h","libmy/vector.h","wdns/str_to_rdata_ubuf.c","wdns/rdata_to_ubuf.c","wdns/file_load_names.c","libmy/argv.c"],[("checked allocation","libmy/my_alloc.h"),("growing buffers","libmy/vector.h"),("memory errors of the command-line parser","argv.c string_copy, file_args, string_to_value, queue_arg, preprocess_env_args")],
["status, results and remaining allocations of each call versus the run with memory; AddressSanitizer"])
p("P51","A file that fails to be read is never taken as complete",
"When reading a file of domain names fails with an error, wherever that happens, loading it reports a failure, after delivering at most the names whose lines were read in full, in order. When reading an argument file of the command line fails, the command line is refused and nothing stays allocated.",
["inputs","fault_sequences"],"all files of names and argument files, read in pieces of any size, failing after any number of octets",
"Read errors do not happen in tests, and can hit any octet.",
["wdns/file_load_names.c","libmy/argv.c"],[("line reader","wdns/file_load_names.c"),("argument file","argv.c file_args")],
["names delivered, status and remaining allocations versus the run without the fault"])
p("P52","The example programs show what their input holds, whatever it is",
"Given any hexadecimal argument, file or packet capture, the example programs stay within the octets they were given, show exactly the messages and RRsets the library finds in them, in order, report broken input by their status, and wdns-dump-pcap writes exactly the packets with broken messages (Ethernet, IPv4 and UDP headers present, message no shorter than its header) to its output. What cannot be read completely is never taken as complete.",
["inputs","fault_sequences"],"all hexadecimal texts, files up to the size the program reads, and captures of packets with any header lengths, cut anywhere",
"The programs are not tested, and read packets from the network.",
["examples/wdns-dump-pcap.c","examples/wdns-dump-file.c","examples/wdns-hex-driver.c","examples/wdns-test-serialize-rrset.c"],[("packet handler","examples/wdns-dump-pcap.c packet_handler"),("file reader","examples/wdns-dump-file.c"),("hexadecimal driver","examples/wdns-hex-driver.c")],
["output, status, packets written; the programs run as functions with their streams and libpcap replaced"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        n=x["statement"]
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
