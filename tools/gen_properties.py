#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to review)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
DER=["rx509/src/der/parser.rs","rx509/src/der/types.rs","rx509/src/der/reader.rs"]
X=["rx509/src/x509/mod.rs","rx509/src/x509/ext.rs"]
p("C01","Damaged or hostile bytes never crash, hang or exhaust the stack",
 "Whatever bit flips, lost, torn, repeated or misdirected writes, or deliberate rewriting have done to stored certificate bytes, every operation a user can run on them - walking the DER elements, decoding the certificate, reading names, extensions, bit strings and integers, formatting, printing, the validity decision - ends with a value or an error. None panics, aborts, runs past the end of its thread's stack however deeply elements are nested, or fails to finish.",
 ["inputs","fault_sequences"],"every sequence of storage faults and rewrites on every stored certificate or DER document, and every order of reading the result",
 "Tests decode four fixed good certificates and a few hand-written fragments; none reads a damaged file, nests deeply, or touches the lazily read parts (extensions, names, bit iteration, printing).",
 DER+X+["rx509/src/der/parse_all.rs","rx509/src/der/calendar.rs","rx509/src/x509/printer.rs"],
 [("bounds-checked cursor","rx509/src/der/reader.rs"),("content parsers","rx509/src/der/parser.rs parse_*"),("element walk","rx509/src/der/parse_all.rs")],
 ["der::parse_all","Certificate::parse","Name::parse","Extensions::parse","Printable::print"])
p("C02","Missing bytes are never taken for a complete structure",
 "If bytes of a stored certificate are missing - the file ends early at any point, or any element inside it declares more bytes than its container still holds - decoding the structure that contains the gap fails. It never succeeds with the cut-off element, or the elements after it, silently left out of a name, an extension list, an alternative-name list or a key-purpose list.",
 ["crash_points","fault_sequences","inputs"],"every truncation point (crash point of the write) of every certificate, and every element of it cut inside its enclosing structure",
 "One test cuts one sequence header; no test cuts a certificate, and no test ever reads a list-valued structure, where end-of-input doubles as end-of-list.",
 DER+X,[("end of list vs end of input","rx509/src/der/parser.rs expect_or_end, expect_any_or_end"),("outer sequence","rx509/src/der/parser.rs unwrap_outer_sequence, parse_all")],
 ["Certificate::parse","Name::parse","Extensions::parse"])
p("C03","Left-over bytes are never ignored",
 "If a stored certificate carries bytes its structure does not define - the stale tail of a longer file it overwrote, a repeated block, or data following the last field of any structure or of a time value inside it - decoding the structure that carries them fails. They are never silently skipped.",
 ["fault_sequences","inputs"],"every place in every certificate where a fault can leave surplus bytes, and every surplus content",
 "No test appends anything to anything.",
 DER+X,[("end-of-structure check","rx509/src/der/parser.rs Parser::parse_all, expect_end"),("per-structure parsers","rx509/src/x509/mod.rs, ext.rs")],
 ["Certificate::parse","Extensions::parse","Name::parse"])
p("C04","Every byte of an accepted certificate is accounted for",
 "Whenever a stored file is accepted as a certificate, damaged or not, the signed portion, the signature algorithm with its parameters and the signature value that are handed out are exactly the stored ones: putting them back together gives the file byte for byte. So no damage to an accepted file escapes a signature check made on what was handed out.",
 ["fault_sequences","inputs"],"every file content accepted after any storage fault sequence",
 "Tests only check that four good files are accepted; none compares what was handed out with what was stored.",
 X+DER,[("raw signed bytes kept","rx509/src/x509/mod.rs Constructed, TBSCertificate::parse"),("outer structure","rx509/src/x509/mod.rs Certificate::parse, AlgorithmIdentifier::parse")],
 ["Certificate.tbs_certificate.bytes","Certificate.signature_algorithm","Certificate.signature_value"])
p("C05","Written fields are read back; damage stays in the field it hit",
 "A well-formed certificate read back undamaged reports exactly the fields that were written: version, serial number, names, validity, key, unique identifiers and every supported extension with its flags and values. If one stored content byte of a field is damaged, decoding either fails or reports a change in that field and no difference in any other field.",
 ["inputs","fault_sequences"],"every certificate in the supported profile and every damaged content byte of it",
 "Tests never look at a decoded field: they only unwrap the result.",
 X+DER+["rx509/src/der/calendar.rs"],[("field decoders","rx509/src/x509/mod.rs"),("extension decoders","rx509/src/x509/ext.rs"),("value decoders","rx509/src/der/parser.rs, types.rs, calendar.rs")],
 ["public fields of Certificate, Name::parse, Extensions::parse"])
p("C06","Decoding does not depend on history, threads or other decodes",
 "Decoding, walking and printing given bytes always has the outcome it has in a fresh process. It does not depend on what was decoded before (successfully or not, from the same recycled buffer or another), on walks or reports abandoned half way by their receiver, on decodes started from inside a notification, or on how decodes in other threads - including of the same shared certificate - interleave with it. A decoded certificate can be shared between threads.",
 ["schedules","histories","fault_sequences"],"every interleaving of decoding tasks, every earlier history in the process, every point of abandonment or re-entry",
 "Each test does one decode in isolation; nothing interleaves, re-enters, abandons or repeats.",
 ["rx509/src/der/parse_all.rs"]+DER+X,[("no shared mutable state","whole crate"),("borrowed views","rx509/src/der/types.rs, rx509/src/x509/mod.rs")],
 ["der::parse_all","Certificate::parse","Name::parse","Extensions::parse","Printable::print"])
p("C07","Element notifications are exact, ordered, nested, and cut cleanly",
 "Walking a DER document notifies the receiver of every element once, parents before children, in stored order, with matching enter and leave notifications; at the first malformed element it sends exactly one error notification, equal to the error returned, and nothing after it. If the receiver abandons the walk, what it saw is exactly the beginning of the full sequence; if bytes are damaged, everything notified before the damaged element is unaffected.",
 ["fault_sequences","crash_points","inputs"],"every document, every notification at which the receiver stops, every damaged byte",
 "The two walk tests use a receiver that ignores all notifications.",
 ["rx509/src/der/parse_all.rs","rx509/src/der/parser.rs"],[("walk","rx509/src/der/parse_all.rs"),("error stops the cursor","rx509/src/der/parser.rs Iterator::next")],
 ["der::ParseHandler callbacks","result of der::parse_all"])
p("C08","Reports are well nested, repeatable, complete and cut cleanly",
 "Printing a decoded certificate sends the output sink the same correctly nested blocks and lines every time, one for every field present in fixed order, with names and extensions that cannot be decoded shown raw or flagged without losing the rest. Of a report abandoned by its sink at any call, or taken while other reports of the same certificate are in progress, each sink has received exactly the beginning of (or all of) that sequence.",
 ["schedules","crash_points","inputs"],"every certificate (damaged parts included), every call at which the sink gives up, every interleaving of reports",
 "No test prints anything.",
 ["rx509/src/x509/printer.rs"]+X,[("Printable implementations","rx509/src/x509/mod.rs, rx509/src/x509/ext.rs"),("nesting helper","rx509/src/x509/printer.rs print_type")],
 ["x509::printer::LinePrinter calls"])
p("C09","Memory and notifications are bounded by the bytes present",
 "Decoding, walking or printing n stored bytes never asks for more memory at once than a fixed small multiple of n plus a constant, and a walk never sends more than a fixed small multiple of n notifications. This holds whatever lengths, counts or nesting damaged or hostile headers declare.",
 ["inputs","fault_sequences"],"every damaged or hostile byte string and every declared length in it",
 "No test measures allocation, and none declares a length larger than the data beyond one 15-byte case.",
 DER+["rx509/src/der/parse_all.rs"]+X,[("borrowed, not copied, contents","rx509/src/der/types.rs"),("length check before use","rx509/src/der/reader.rs take")],
 ["allocator","der::ParseHandler callbacks"])
p("C10","The tool's result depends only on the file's bytes, not their delivery",
 "The command-line decoder gives the same output and exit status for the same file content however the system delivers it: in reads of any size, interrupted any number of times, with a wrong or changing file size, with sluggish or interrupted output. Nor do its environment variables, working directory, terminal, clock or user, the file's name, age, owner or kind (pipe or device included), or the name it was started under matter. Once such transient faults stop, it finishes within a number of I/O calls bounded by the amount of data.",
 ["schedules","fault_sequences","inputs"],"every way of splitting, interrupting and mis-sizing the delivery of every file, in both modes",
 "The tool has no tests at all.",
 ["decoder/src/main.rs","decoder/src/der_printer.rs"],[("read whole file","decoder/src/main.rs get_bytes")],
 ["process stdout, stderr, exit status"])
p("C11","A failed read is reported and never decoded as if complete",
 "If opening or reading the input file fails at any point, the command-line decoder exits with a failure status and a message on its error stream and prints nothing decoded. It never decodes the part it happened to read before the failure.",
 ["fault_sequences","crash_points"],"every error at every system call that opens or reads the file, in both modes",
 "The tool has no tests; an I/O error in the middle of a file cannot be arranged with a real file system.",
 ["decoder/src/main.rs"],[("errors propagated from the read","decoder/src/main.rs get_bytes, main")],
 ["process stdout, stderr, exit status"])
p("C12","Lost output is never reported as success",
 "What the command-line decoder manages to deliver on its output is always exactly the beginning of the full report, in order, with nothing repeated or skipped. If any part of the report could not be delivered because a write failed, the exit status is a failure.",
 ["fault_sequences","crash_points"],"every error or partial write at every output call, in both modes, for every file",
 "The tool has no tests; write errors need a failing device.",
 ["decoder/src/main.rs","decoder/src/der_printer.rs","rx509/src/x509/printer.rs"],[("console sink","rx509/src/x509/printer.rs ConsoleLinePrinter"),("element printer","decoder/src/der_printer.rs")],
 ["bytes accepted on stdout, exit status"])
p("C13","A clean finish means a complete decode",
 "The command-line decoder finishes with success status and a silent error stream only if the whole file was read, accepted, and its full report delivered; a file that is not accepted always leaves a diagnostic on the error stream or a failure status, and wrong usage gives both and no output. This holds under any mix of damaged content, read, write and memory faults. Where nothing fails, every acceptable file gets the full report that follows from its bytes and a clean finish.",
 ["fault_sequences","inputs"],"every combination of damaged file content, I/O faults on all streams, memory faults and command lines",
 "The tool has no tests.",
 ["decoder/src/main.rs","decoder/src/der_printer.rs"],[("diagnostics","decoder/src/main.rs parse_der, parse_x509, main")],
 ["process stdout, stderr, exit status"])
p("C14","Running out of memory stops the tool, never corrupts its answer",
 "If any memory request is refused while the command-line decoder runs, it either still produces the full correct report with success status or ends with a failure status (or abort) having delivered only an exact beginning of that report. It never finishes with success and a wrong or shortened report, and refused memory never turns a good file into a refused one.",
 ["fault_sequences"],"every allocation of every run refused, once or from then on, or above a size limit",
 "No test runs the tool or fails an allocation.",
 ["decoder/src/main.rs","rx509/src/der/parser.rs","rx509/src/x509/ext.rs"],[("infallible collections abort; the file buffer reports an error","decoder/src/main.rs get_bytes")],
 ["process stdout, stderr, exit status"])
p("C15","The current time is the wall clock at the moment of asking",
 "Asking for the current time gives the whole seconds since the Unix epoch that the system's wall clock shows at that moment, truncated to the second, after any forward or backward jump and for any date the clock can show. If the clock stands before the epoch the answer is an error, never an instant and never a crash.",
 ["schedules","fault_sequences","histories"],"every sequence of clock steps, jumps and resets interleaved with queries from any number of threads",
 "No test reads the clock.",
 ["rx509/src/der/types.rs"],[("clock reading","rx509/src/der/types.rs UtcTime::now")],
 ["UtcTime::now"])
p("C16","Validity is decided exactly at the instants the certificate names",
 "At any clock reading, a decoded certificate is valid if and only if the reading lies between the two instants written in it, both included, where two-digit years mean 1950-2049 and the Gregorian calendar in UTC applies. The decision follows the clock through every jump and never depends on earlier decisions.",
 ["schedules","inputs","histories"],"every pair of written instants from 1970 to 9999 in either notation, and every course of the clock around them",
 "Tests convert about six dates, and never take a validity decision.",
 ["rx509/src/x509/mod.rs","rx509/src/der/calendar.rs","rx509/src/der/parser.rs","rx509/src/der/types.rs"],[("validity window","rx509/src/x509/mod.rs Validity::is_valid, Validity::parse"),("calendar","rx509/src/der/calendar.rs"),("time notations","rx509/src/der/parser.rs parse_time")],
 ["Validity::is_valid(UtcTime::now())"])
p("C17","Only strict DER encodings are accepted",
 "Whatever damage or rewriting has done to the encoding of any element of stored bytes, an element is accepted only as strict DER of a supported type: longer-than-needed, indefinite or over-long lengths, unsupported or wrong-form tags, booleans other than all-zeros or all-ones, non-empty nulls, empty integers, malformed bit strings or object identifiers, invalid UTF-8 and malformed or impossible times are rejected wherever they stand, and every well-formed encoding in the supported profile is accepted with the value it denotes. The profile is wider than DER in few points, which are accepted: integers with redundant leading octets, unused bits of a bit string that are not zero, any UTF-8 text in every string type, default values that are written out, and sets in any order.",
 ["fault_sequences","inputs"],"every encoding fault at every element of every stored certificate or DER document, and every well-formed encoding at the edges of what its type allows",
 "Tests sample about ten length encodings and a handful of values, none of them inside a certificate.",
 DER+X,[("length and tag parsers","rx509/src/der/parser.rs parse_one_type, parse_length"),("content parsers","rx509/src/der/parser.rs parse_*"),("calendar","rx509/src/der/calendar.rs")],
 ["der::parse_all","Certificate::parse","Name::parse","Extensions::parse"])
p("C19","The certificate schema is enforced",
 "A stored certificate whose elements are misplaced, repeated, lost or replaced by others is not taken for a good one: unknown versions, fields missing, out of order or of a wrong type, repeated name attributes of a known type, empty attribute sets, unsupported alternative-name kinds, unknown key purposes and path lengths too large for the field make the structure that holds them fail. Unknown name attributes are ignored, unknown extensions are handed out raw, and a certificate in the supported profile is never refused.",
 ["fault_sequences","inputs"],"every misplacement, repetition, loss or replacement of elements in every stored certificate",
 "Tests contain no schema violation.",
 X+DER,[("schema parsers","rx509/src/x509/mod.rs Certificate::parse, TBSCertificate::parse, Name::parse"),("extension parsers","rx509/src/x509/ext.rs")],
 ["Certificate::parse","Name::parse","Extensions::parse"])
p("C23","Work is proportional to the bytes present",
 "Decoding, walking, reading or printing n stored bytes takes a number of execution steps, bytes moved and bytes of memory requested in total that is at most a fixed multiple of n plus a constant; four times as many bytes of the same kind take about four times the work. This holds for every list, nesting depth, length of a value and damage, so no stored bytes keep a decoder busy for longer than their size warrants.",
 ["inputs","fault_sequences"],"every family of growing inputs (lists of every kind of element, nests, long values of every type, in every place of a certificate), damaged or not",
 "No test measures work, and no test input is longer than two kilobytes.",
 DER+["rx509/src/der/parse_all.rs"]+X+["rx509/src/x509/printer.rs"],[("single pass over borrowed bytes","rx509/src/der/reader.rs, parser.rs"),("one visit per element","rx509/src/der/parse_all.rs"),("list decoders","rx509/src/x509/mod.rs Name::parse, ext.rs")],
 ["der::parse_all","Certificate::parse","Name::parse","Extensions::parse","Printable::print"])
p("C24","The tool only reads",
 "Whatever it is given and whatever fails, the command-line decoder opens no file but the one named on its command line, and that one only for reading; it creates, changes, moves or removes nothing, reads nothing from standard input, starts no process, opens no connection, and writes to its output and error streams only.",
 ["fault_sequences","inputs"],"every system call of every execution, under every mix of damaged content, I/O faults on all streams, memory faults and command lines",
 "The tool has no tests.",
 ["decoder/src/main.rs","decoder/src/der_printer.rs"],[("read-only open","decoder/src/main.rs get_bytes")],
 ["system calls of the process"])
p("C25","A file replaced while it is read is never mixed with its successor",
 "If the file named on the command line is replaced by another one, or removed, at any moment while the command-line decoder runs, its output, diagnostics and exit status are exactly those for the old file or exactly those for what took its place; never a mixture of the two.",
 ["schedules","crash_points","inputs"],"every moment of replacement or removal relative to the tool's calls, every pair of file contents, slow and interrupted delivery",
 "The tool has no tests, and a replacement cannot be timed between two system calls from outside.",
 ["decoder/src/main.rs"],[("one open, read to the end","decoder/src/main.rs get_bytes")],
 ["process stdout, stderr, exit status"])
p("C26","Histories leave no memory behind",
 "Once the results of decoding, walking and printing are dropped, the memory obtained for them is given back, whether the operations succeeded, failed or were abandoned by their receiver. Repeating a history does not add to the memory held, and after any history of different inputs at most a fixed small amount is held.",
 ["histories","fault_sequences"],"every history of operations on good, damaged and hostile inputs, with abandonment at any notification",
 "Each test does one decode and ends.",
 DER+["rx509/src/der/parse_all.rs"]+X,[("borrowed views, owned vectors dropped with their result","rx509/src/der/types.rs, rx509/src/x509/mod.rs, ext.rs")],
 ["allocator"])
# pure functions of the input: not claimed
def pure(id,title,statement,why,files,mech,obs):
    p(id,title,statement,["inputs"],"every input value",why,files,mech,obs)
pure("C18","Integers convert and display as their two's-complement value",
 "An integer of one to four content bytes converts to the signed value those bytes denote and displays as it; longer ones are reported as not convertible and display as hex octets.",
 "No test converts an integer.",["rx509/src/der/types.rs"],[("conversion","rx509/src/der/types.rs ASNInteger")],["ASNInteger::as_i32","Display"])
pure("C20","Known object identifiers display by their right names",
 "Every object identifier in the built-in table displays as the name of that object and every other one as its dotted numbers.",
 "No test displays an identifier.",["rx509/src/der/oid.rs","rx509/src/der/types.rs"],[("table","rx509/src/der/oid.rs get_oid")],["Display of an object identifier"])
pure("C21","Bit strings iterate in order and exactly to their length",
 "Iterating a bit string yields its bits most significant first, as many as its content bytes hold minus the unused ones; whole octets are offered exactly when no bit is unused.",
 "No test iterates a bit string.",["rx509/src/der/types.rs"],[("iterator","rx509/src/der/types.rs ASNBitStringIterator")],["ASNBitString::iter, size, octets"])
pure("C22","Error messages name what was wrong",
 "Every decoding error displays a message that identifies the kind of malformation and the offending value.",
 "No test formats an error.",["rx509/src/der/types.rs"],[("Display","rx509/src/der/types.rs ASNErrorVariant")],["Display of ASNError"])
P.sort(key=lambda x:x["id"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
