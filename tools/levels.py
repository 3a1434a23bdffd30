ENG = "value-graph dataflow (gated SSA evaluation with linear-inequality facts)"
CODEC = ENG + " against a record layout table"
TRUST = " Trusts the analyser, the Go SSA form and the models of the standard library it names."
TECH = {}
NOTE = {}
NA = {
 "C40": "needs a model of what a partially persisted write leaves on disk; no rule over the source decides it, and the code makes no attempt at atomic replacement whose ordering could be checked",
 "C41": "equivalence of multi-process histories to a sequential order quantifies over runtime interleavings of separate system calls; the lock rule that is visible in the source is claimed as C13",
 "C42": "depends on the conversion tables of golang.org/x/text, which are outside this repository; no construct of the repository decides it",
}
for i in ["C01", "C02", "C03", "C04", "C06"]:
    TECH[i] = CODEC
    NOTE[i] = "Decides, for a symbolic record, that every attribute decoded and every byte encoded equals the layout entry; covers all inputs of the codec functions." + TRUST

TRACE = "typestate automaton over the event traces of every outcome of every exported operation (value-graph dataflow)"
SIM = "file-effect simulation over the event traces of every outcome (value-graph dataflow with linear-inequality facts)"
TECH["C12"] = TECH["C13"] = TECH["C14"] = TECH["C18"] = TRACE
TECH["C15"] = TECH["C16"] = TECH["C17"] = SIM
NOTE["C12"] = "Every acquisition event on every path of every exported operation is followed by its release or is handed to the caller; loops to a fixpoint." + TRUST
NOTE["C13"] = "Every change of a shared file lies between lock and unlock events of the same file on every path; that the lock excludes another handle of the same process is a recorded finding." + TRUST
NOTE["C14"] = "No outcome with a failed file operation is reported as success, on any path; files are opened, read, written, sought, truncated, locked, inspected." + TRUST
NOTE["C15"] = "Single O_APPEND write of exactly the encoded record, on every path; that the kernel appends atomically is assumed." + TRUST
NOTE["C16"] = "Positions are linear terms of the symbolic index; file sizes below 1 TiB." + TRUST
NOTE["C17"] = "Symbolic content of the file after each successful write." + TRUST
NOTE["C18"] = "Exclusive creation and retry rule; that random names eventually differ is not decided." + TRUST

TECH["C10"] = "value-graph dataflow of the path operations compared with a table of PTT path templates"
NOTE["C10"] = "Symbolic home and identifiers; treasure paths of 0..4 components (0..10 thorough). First characters are compared as bytes, so identifiers starting with a non-ASCII byte are not told apart." + TRUST
TECH["C11"] = "value-graph dataflow under assumed improper identifiers; taint of composed paths to file operations"
NOTE["C11"] = "One improper identifier at a time in each position; treasure paths of 0..4 components (0..10 thorough). Symbolic links inside the home directory are out of scope." + TRUST
TECH["C19"] = "wiring table against the invoke events of every outcome (value-graph dataflow, symbolic driver)"
NOTE["C19"] = "Covers the 16 single-object operations of DB for every driver." + TRUST
TECH["C20"] = "value-graph dataflow under a symbolic driver without the capability; type-assertion obligations"
NOTE["C20"] = "Every operation that needs an optional capability, with the capability absent and present." + TRUST

TECH["C21"] = "lockset and reference-flow analysis over the SSA of every exported operation (must-locks, receivers and package variables not written without one)"
NOTE["C21"] = "Flow-insensitive points-to of references from receivers and package variables; read-only after start-up or always under a lock. Driver objects supplied by users are outside." + TRUST
TECH["C22"] = "value-graph dataflow of Open (the connector of a database is fresh) and reference-flow effect analysis of the path operations"
NOTE["C22"] = "Independence is for drivers that make a connector per database, which includes the PTT driver." + TRUST
TECH["C28"] = "interprocedural taint analysis from the password-hash bytes to prints, logs and responses"
NOTE["C28"] = "Field- and byte-range-sensitive; a printed pointer inside a list prints an address and is no leak." + TRUST
TECH["C29"] = "scan of the call graph of the library for constructs that end the process"
NOTE["C29"] = "Every function reachable from an exported operation of a library package; runtime faults are C08/C09." + TRUST

TECH["C24"] = "value-graph dataflow of the verification operation: decision facts and what each compared value derives from"
NOTE["C24"] = "Accept implies the two complete hashes are equal and the digest was computed without error; comparison is the library's, the DES digest itself is C25." + TRUST
TECH["C26"] = "value-graph dataflow and decision facts of the token issuing and checking operations, from the registered handlers"
NOTE["C26"] = "Signature and expiry checks themselves are the JWT library's; that it is asked, with the issuing key, and that its refusal is obeyed is decided." + TRUST
TECH["C27"] = "event traces of every registered handler: which value each answered attribute comes from and which decision precedes it"
NOTE["C27"] = "Every outcome of every handler registered by the server; the permission check that accepts everything is a recorded finding." + TRUST
TECH["C30"] = "bit-level dataflow of every flag predicate against a table of PTT flag bits"
NOTE["C30"] = "Each predicate is decided for every value of the flag words." + TRUST

TECH["C32"] = "value-graph dataflow of the score update with linear-inequality facts"
NOTE["C32"] = "Every stored score within range and every change; one update at a time." + TRUST
TECH["C33"] = "value-graph dataflow of the two converters; call-site scan for other conversions"
NOTE["C33"] = "That the library's replacing encoder converts every text it is given is assumed." + TRUST
TECH["C36"] = "value-graph dataflow of the record constructors; wiring of the facade operations"
NOTE["C36"] = "Every combination of present, missing and non-text arguments." + TRUST
TECH["C37"] = "value-graph dataflow of the line codecs under each form of a line"
NOTE["C37"] = "Lines are symbolic byte strings of any length; time.Parse and Format are uninterpreted." + TRUST
TECH["C34"] = "loop-fold dataflow: each iteration of the line loop compared with the line's own reading, counting invariant on the comment number"
NOTE["C34"] = "Every article text; regular expressions and date parsing are uninterpreted." + TRUST
TECH["C35"] = "loop-fold dataflow over boards, articles and comments with owner-equality facts"
NOTE["C35"] = "Every list of boards, articles and comments a driver can return." + TRUST
TECH["C07"] = "loop-fold dataflow of the loaders: record per iteration, exit conditions on read errors, deep comparison with the record decoding"
NOTE["C07"] = "Every file content and every error a read can report; that a read reports the end of the file at its end is assumed." + TRUST
TECH["C05"] = "value-graph dataflow of each decoder and encoder of the tree with contracts for its parts; loop-fold rule for items and sub-folders; inductive loop invariants on the read position"
NOTE["C05"] = "Every file content and every tree. The numbers given to folders and lines while reading are not part of the property." + TRUST

TECH["C31"] = "abstract interpretation of the cache constructor and its readers (symbolic users, positions and memory; alignment, cool-down, hash bits and id length enumerated): bytes read = the structure's offset polynomial; linear-arithmetic proof that every slice stays inside the memory"
NOTE["C31"] = "alignments 0..16, hash bits 0..30 and twenty id lengths enumerated, each with a symbolic number of users (below 2^32) in every residue class of the alignment; the memory is any byte sequence"
TECH["C25"] = "abstract interpretation in a bit domain: value numbering of every bit in algebraic normal form over unknown password and salt bits with hash-consed box functions, compared bit by bit with DES crypt(3) built from the tables of the standard"
NOTE["C25"] = "passwords of 0..10, 16, 50 and 255 bytes with every place of the first zero byte up to 8, every byte value; both salt characters any of the alphabet; longer passwords are covered in so far as the code treats them like these; equality of normal forms rests on 128-bit hashes"
TECH["C08"] = "abstract interpretation of decoders, record methods, cache methods and reading operations with linear-inequality facts and loop invariants: every panicking construct is a proof obligation"
NOTE["C08"] = "Content, length and number of stored bytes symbolic; recursion of the favorites decoder by contract with a progress obligation. Exhaustion of memory or stack is outside." + TRUST
TECH["C09"] = "abstract interpretation of every exported operation with unknown arguments and linear-inequality facts: every panicking construct is a proof obligation"
NOTE["C09"] = "All arguments symbolic except nil objects in place of receivers, records and drivers; the values a driver returns are unknown." + TRUST
TECH["C38"] = "abstract interpretation of every registered handler on an unknown request with the path the server routes to it: every panicking construct is a proof obligation"
NOTE["C38"] = "Request fields other than the routed path are unknown; loaded records are unknown values; the methods of the records are C08/C09." + TRUST
TECH["C39"] = "event traces of every command evaluated from the tool's main function, with decision facts on failed steps and missing arguments; every panicking construct is a proof obligation"
NOTE["C39"] = "Operations of the database are opaque steps that may fail; command line and file contents are unknown." + TRUST
TECH["C23"] = "reference flow (forward aliasing over the SSA form, through calls and fields) of every slice and map an exported operation is given, with no write or append reachable through it; abstract interpretation of every decoder and cache method with a typed walk of the result for slices rooted in the input, the shared memory or common storage"
NOTE["C23"] = "What library functions write is a table (io, encoding/binary, sort, bytes.Buffer, transformers, copy, append); a wrapper that hands bytes on as they are (UserDraft) is not a decoded record." + TRUST
import json, re, glob
# a property without a checker yet
_have = set(re.findall(r'checks\["(C\d+)"\]', "".join(open(f).read() for f in glob.glob('/verif/analyzer/*.go'))))
for _l in open('/verif/properties.jsonl'):
    _p = json.loads(_l)["id"]
    if _p not in _have and _p not in NA:
        NA[_p] = "no check yet"

TECH["C43"] = "automata decision on the constant patterns (product of the prioritised pattern threads with the line format, language inclusion) and span dataflow from their groups to the record's accessors"
NOTE["C43"] = "Covers every line of the stated format as a sequence of characters (invalid UTF-8 bytes count as one character). Whether a date is valid is left to time.Parse; the layout given to it is compared." + TRUST
TECH["C44"] = "value-graph dataflow of Open and Register over a symbolic driver table; syntax of the driver's registration"
NOTE["C44"] = "Every name, data source and driver behaviour. That registered drivers work is the subject of the other properties." + TRUST
TECH["C47"] = "value-graph dataflow of the answers of the registered handlers against a table of JSON keys and accessors; loop recurrence for the search of a record; event trace of the server's main function"
NOTE["C47"] = "The description of errors is not judged; what the database returns is decided by the other properties." + TRUST
TECH["C46"] = "value-graph dataflow of every registered command of the tool from flags and argument list to the database call and the printed values; loop recurrence for parsing and printing"
NOTE["C46"] = "What the database calls themselves do is decided by the other properties; the layout of the printed lines is not judged." + TRUST
TECH["C45"] = "value-graph dataflow of the cache constructors for each form of connection string with an argument-provenance rule on the system calls; structure layout comparison"
NOTE["C45"] = "Linux on amd64; what the kernel does for each call is taken from its manual." + TRUST
TECH["C48"] = "value-graph dataflow of the state given to the hash, byte by byte, against the layout of the standard library's stored state"
NOTE["C48"] = "That the standard library's FNV-1a continues from the state it is given is trusted." + TRUST
