#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
W="src/io/file_writer.rs"; R="src/io/file_reader.rs"; D="src/data_set.rs"; V="src/data_set/variable.rs"
DIM="src/data_set/dimension.rs"; A="src/data_set/attribute.rs"; E="src/error.rs"; IO="src/io.rs"; DV="src/data_vector.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
      "why_tests_cant":why,"anchors":{"files":files,
      "state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],
      "mechanism":[{"name":n,"where":w} for n,w in mech],
      "observe_at":list(observe),"hook_needed":None}})

p("C01","Write, close, reopen returns the same data set",
"For every valid definition (dimensions, attributes, variables, either file version, any minimum header size) and every history of accepted whole-variable and per-record writes, a file that was written and successfully closed opens again with exactly the same version, dimensions, attributes and variables, in order. Every variable and every record, read with any of the read calls, returns bit for bit the last value written to it, and what was never written returns the type's documented fill value. This holds however the operating system splits or interrupts the individual reads and writes.",
["histories","inputs","configurations","fault_sequences"],
"all definitions x versions x header_min_size x write histories (order, repetition, overwriting, omission) x benign I/O behaviours (short transfers, EINTR)",
"The suite round-trips a few fixed files with one write call per variable on a real disk that never delivers short or interrupted transfers; overwrites, omitted variables next to records, NaN or odd-length attributes and mixed record/variable write histories are never exercised.",
[W,R,D,V,A],
[("header encoding, data encoding and fill on close","FileWriter::write_header / write_var_* / write_record_* / close"),
 ("header parsing and data decoding","FileReader::parse_header / read_var / read_record"),
 ("layout","ComputedDataSetMetadata::new; DataSet::record_size; Variable::chunk_size")],
[("written_records","which records of which variable were already written, so that close fills only the rest","FileWriter")],
["FileReader::data_set/read_var/read_record/read_all_vars results after FileWriter::close returned Ok"])

p("C02","Written files are the NetCDF-3 encoding of what was written",
"For every valid definition and write history, the bytes of a successfully closed file are exactly the NetCDF-3 (classic or 64-bit offset) encoding of that definition and data: header grammar, zero header padding, fixed variables before interleaved records, four-byte alignment (no alignment between records when a single record variable exists), fill values in padding and in unwritten data, and no byte beyond. The bytes never depend on how the operating system splits, interrupts or fails-and-retries the writes that produced them.",
["histories","inputs","configurations","fault_sequences"],
"all definitions x versions x header_min_size x write histories x benign I/O behaviours",
"The suite compares against four pre-generated files; it cannot cover the product of types, paddings, record layouts and minimum header sizes, and never sees a short write.",
[W,IO,D,V],
[("header encoder","FileWriter::write_header, write_dims_list, write_attrs_list, write_vars_list, write_name_string"),
 ("data encoder and padding","write_chunk_* / write_chunk_nc_fill_* / compute_padding_size"),
 ("begin offsets","ComputedDataSetMetadata::new, compute_header_required_size")],
[("begin_offset","where each variable's data starts","ComputedVariableMetadata")],
["bytes of the file after FileWriter::close returned Ok"])

p("C03","Any conforming NetCDF-3 file is read as its content",
"Every conforming classic or 64-bit-offset file whose definition the definition API can express, including ones laid out as other writers do (gaps and any order between variables, spare header space, recorded or indeterminate record count and variable size, unpadded single record variable), opens and yields exactly the definition and data its bytes encode, through whole-variable, per-record, typed and read-everything calls alike. The result never depends on how many bytes each underlying read delivers or on interruptions.",
["inputs","configurations","fault_sequences"],
"all conforming files x read-call sequences x benign read behaviours (short reads down to one byte, EINTR)",
"The suite reads four files produced by one tool with one layout policy from a disk that always delivers full reads; headers longer than the read step, foreign layouts and short reads are not sampled.",
[R,D,V,DV],
[("incremental header loading and parsing","FileReader::open, parse_header and the parse_* functions"),
 ("data location and stride","FileReader::read_var, read_record"),("indeterminate record count","parse_header")],
[("vars_info","begin offset of every variable as found in the header","FileReader")],
["FileReader::open, data_set, read_* results"])

p("C04","Damaged or hostile files are refused cleanly or decoded exactly",
"Opening and reading a file with arbitrary content (truncated, bit-flipped, torn, spliced or crafted) always terminates, never panics or aborts, and uses memory and I/O bounded by the size of the file rather than by numbers claimed in it. It returns either an error or exactly the definition and values that the bytes encode; it never invents values for data that is not in the file and never yields a definition that the definition API itself would refuse.",
["inputs","fault_sequences"],
"all byte strings as file content, in particular every damage (truncation, bit flips, torn and lost sectors, splices, hostile counts, sizes, offsets, ids) of conforming files",
"The suite feeds a few hand-made wrong bytes to parser functions; it has no damaged whole files, no hostile counts and no data-region truncation.",
[R,D,V,DIM,DV,"src/error/parse_header_error.rs"],
[("grammar checks","FileReader::parse_* functions"),("definition validity","DataSet::add_*; Variable::new; is_valid_name"),("bounds","FileReader::read_var, read_record")],
(),["result, allocation and system calls of FileReader::open and read_*"])

p("C05","Success means complete effect; every I/O failure surfaces",
"A call of the reader or writer returns success only if its whole effect took place: all its bytes are in the file, or all returned values are the file's bytes. If any operating-system call needed for it fails for good (I/O error, full disk, quota, size limit, missing or forbidden file, end of file, no descriptors, zero-length write), the call returns an error that carries that failure's kind. Transient conditions (interruption, short transfer) alone never make a call fail.",
["fault_sequences","histories","inputs"],
"all operation histories x every placement of failing, partial, zero-length and interrupted system calls",
"No test injects any I/O failure: the suite only ever sees a healthy disk.",
[W,R,E],
[("write_all / read_exact and error propagation","FileWriter::write_*, set_def, close; FileReader::open, read_*"),("error conversion","From<std::io::Error> for ReadError / WriteError")],
(),["call results versus the simulated disk content and the fired faults"])

p("C06","After failures stop, retrying completes the file",
"A failed writer call (defining, writing a variable or record) leaves the writer usable and loses nothing that was acknowledged before: once faults stop, repeating the failed calls succeeds, closing succeeds, and the file then equals the one produced without any failure; a variable or record whose failed write is never repeated holds exactly the fill value after a successful close. A failed definition call leaves the writer without a definition, so it can be repeated or replaced by another definition.",
["fault_sequences","histories"],
"all write histories x fault placements (including several failures in a row and inside the retry) followed by a fault-free suffix",
"Needs failures in the middle of calls and a continuation; the suite has neither.",
[W],
[("definition state on failure","FileWriter::set_def, write_header"),("written-record bookkeeping on failure","write_var_*/write_record_*/update_written_records, close")],
[("header_def","definition considered written","FileWriter"),("written_records","chunks considered written","FileWriter")],
["file bytes after the fault-free suffix; call results"])

p("C07","A crash at any point never corrupts acknowledged data",
"If the writing process dies at any system call, including in the middle of a write, then opening the file afterwards either reports an error or yields exactly the definition that was being written. Once the definition was acknowledged the file always opens, and every variable or record whose write was acknowledged reads back exactly, whatever later unacknowledged work was torn; other data reads as an error, its old value, fill, unwritten zero or the bytes of the interrupted write, never anything else. (Record counts within the 31-bit range; a larger count is recorded as indeterminate and recovered from the file size, which a crash cuts short.)",
["crash_points","histories","inputs"],
"all write histories x all crash points (every system call, every byte prefix of a write), restart and recovery by a new process",
"Tests never stop a writer mid-way; crash points number in the thousands per history.",
[W,R],
[("header written before data, data written in place at fixed offsets","FileWriter::set_def, write_var_*, write_record_*, close"),("truncation detection","FileReader::open, read_var, read_record")],
(),["FileReader::open/read_* on the surviving file"])

p("C08","A write touches only its own variable or record",
"An accepted write of a variable or record changes only the bytes that belong to it; closing changes only bytes that were never written; a rejected or failed call changes no byte outside the target it names, and a call rejected for its arguments changes no byte at all and reports the specific reason (unknown variable, wrong type, wrong length, record out of range, definition missing or already set). Fixed-size variables have exactly one record, whatever the number of records of the data set.",
["histories","inputs","fault_sequences"],
"all interleavings of valid, invalid and failing calls on all variables and records of all definitions, close included",
"The suite checks whole files after one straight sequence of valid calls; it never compares the file before and after single calls, rejected calls or partial histories.",
[W,V,D],
[("offset computation","impl_write_typed_var, impl_write_typed_record, close"),("argument checks before any I/O","same macros"),("fill of the unwritten rest only","FileWriter::close")],
[("written_records","chunks close must not fill","FileWriter")],
["file bytes before and after every call; returned errors"])

p("C09","Reads are repeatable and unaffected by earlier failures",
"On an unchanged file, every read call of an open reader returns the same result whenever it is made, in any order and any number of times, and regardless of earlier calls that succeeded, were rejected or failed part-way with an I/O error. Typed, untyped, per-record, whole-variable and read-everything calls agree with each other, invalid requests are always refused with the specific reason, and the definition exposed by the reader never changes.",
["histories","fault_sequences","inputs"],
"all sequences of read calls over all files x fault placements in earlier calls",
"The suite reads each variable once, in one order, without failures, so any dependence on cursor position or previous failures is invisible.",
[R,DV],
[("absolute positioning before every read","FileReader::read_var, read_record"),("request validation","impl_read_typed_var, impl_read_typed_record")],
[("file cursor","position shared by all read calls","FileReader::input_file")],
["results of read_* calls"])

p("C10","Exclusive creation and overwrite semantics hold under races",
"Of any number of processes or threads concurrently asking to create the same new file exactly one succeeds, the others get an already-exists error, and an existing file is never altered by the refused attempts. Opening for overwriting always starts from an empty file, so nothing of the earlier content survives in the finished file.",
["schedules","histories","fault_sequences"],
"all interleavings of concurrent creators, overwriters and other processes that create, rename or remove the path, with descriptors and open failures injected",
"Tests run one writer at a time; the outcome depends on interleavings at system-call granularity.",
[W],
[("create_new / create+truncate open flags","FileWriter::create_new, FileWriter::open")],
(),["call results; directory and file content in the simulated file system"])

p("C11","An open reader stays with the file it opened",
"From the moment opening starts, a reader deals with one single file: if the path is meanwhile renamed, removed or replaced by another file, opening and all later reads report only content of the one file that was opened, never a mixture or a size taken from another file. A reader never changes any file.",
["schedules","histories"],
"all interleavings of open and read calls with rename, unlink, and atomic-replace operations by another process",
"Needs another process acting between two system calls of one library call.",
[R],
[("one descriptor for header, size and data","FileReader::open, read_var, read_record")],
(),["FileReader results versus the content of the inode that was opened"])

p("C12","A reader running beside a writer never sees wrong data",
"A reader that opens and reads a newly created file while another process is still defining (once), writing or closing it gets either an error or exactly the writer's definition. Data acknowledged to the writer before the read began is returned exactly; data still being written is returned only as old value, new value, fill or not-yet-written zero. (Record counts within the 31-bit range.)",
["schedules","histories"],
"all interleavings, at system-call granularity, of one writer session with concurrent reader sessions",
"Tests never run a reader while a writer is active.",
[R,W],
[("in-order header write","FileWriter::write_header"),("header completeness check","FileReader::open"),("in-place data writes","write_var_*, write_record_*")],
(),["results of reader calls versus the history of the writer's acknowledgements"])

p("C13","Accepted definition edits, and only those, reach the file",
"For every sequence of definition edits (add, rename, remove of dimensions, variables, global and variable attributes), accepted and refused ones mixed, the file written from it holds exactly the accumulated effect of the accepted edits, in order, and a refused edit leaves no trace and names its reason. Every way of asking the definition for a fact (lists, names, counts, sizes, presence, typed getters) gives the same answer before writing, after reopening and while edits go on. The same holds when the definition was obtained by closing a reader, edited further and written again, over any number of such generations, also when a generation's writer crashed or failed and the definition is written again.",
["histories","programs","crash_points","fault_sequences"],
"all edit sequences x all generations of write, reopen, edit, rewrite, with crashes and I/O failures between generations",
"The suite checks single edits in memory on fixed examples; edited definitions are never written, reopened, edited and rewritten.",
[D,DIM,V,A,W,R],
[("edit operations and their validity rules","DataSet::add_*/set_unlimited_dim/rename_*/remove_*; Variable::*; Dimension::*"),("definition rebuilt from a header","FileReader::parse_header"),("release of the definition","FileReader::close")],
[("dims/vars/attrs","the definition","DataSet"),("unlimited_dim","the unlimited dimension","DataSet")],
["definition reported after reopening; results of edits"])

p("C14","Independent sessions do not affect each other",
"Any number of reader and writer sessions on different files, used from any threads of one process in any interleaving, with failures or crashes of some of them, behave exactly as if each ran alone: same results, same file bytes.",
["schedules","fault_sequences","histories"],
"all interleavings at system-call granularity of 2..4 sessions on distinct files, with faults in some of them",
"Tests run in parallel threads by accident only and never control or vary the interleaving.",
[W,R,IO],
[("no shared mutable state between sessions","FileWriter, FileReader own their file and state")],
(),["results and bytes of each session compared with its solo run"])

p("C15","Every call terminates in bounded work",
"Every reader or writer call terminates, within a number of system calls proportional to the size of the data it handles plus the size of the header, whatever the sequence of short, empty, interrupted or failing transfers, end-of-file positions, or concurrent truncation and growth of the file; bursts of interruptions are absorbed, and persistent failure or lack of progress turns into an error instead of endless retrying.",
["fault_sequences","inputs","schedules"],
"all operations x all benign and failing I/O behaviours, including persistent ones and a file that shrinks or grows while being read",
"Termination under adverse I/O cannot be observed on a healthy disk.",
[R,W],
[("header loading loop","FileReader::open"),("write_all/read_exact loops","write_chunk_*, read_*")],
(),["number of system calls per library call; progress of each call"])

p("C16","Large files: offsets and counts beyond 2 and 4 GiB are exact",
"With the 64-bit-offset version, variables and records located beyond 2 GiB and 4 GiB, record counts beyond the 31-bit range (recorded as indeterminate and recovered from the file size) and variables larger than the 31-bit size field are written to and read from exactly the right place. The classic version accepts a definition exactly when all its offsets fit, and otherwise refuses with the specific error without writing anything, leaving the writer ready for the 64-bit-offset version.",
["inputs","configurations","histories"],
"all definitions whose offsets, record counts or variable sizes cross the 31/32-bit limits (on a sparse simulated disk), with writes and reads around the limits",
"Real files of this size do not fit a unit test; the suite's largest file has a few kilobytes.",
[W,R,V,D],
[("offset width and limits","ComputedDataSetMetadata::new; Offset"),("indeterminate numrecs and vsize","write_header, write_vars_list, parse_header"),("position arithmetic","write_record_*, write_var_*, read_record, read_var")],
(),["bytes and offsets in the simulated sparse file; read results"])

p("C17","Sessions release their file and touch nothing else",
"Whatever the outcome of a session (success, refused call, I/O failure, drop without close, failed open), every file descriptor it opened is closed exactly once when the session ends and none is used afterwards. A session touches no other path than the one it was given: it creates, renames, removes or modifies no other file, and a reader performs no modifying call.",
["histories","fault_sequences"],
"all sessions x all fault placements x all ways of ending a session",
"Leaks and stray files only show after failures that tests do not produce, and nothing looks for them.",
[W,R],
[("ownership of the file handle","FileWriter.output_file, FileReader.input_file")],
(),["descriptor table and directory of the simulated file system after each session"])

p("C20","Name grammar",
"A dimension, variable or attribute name is accepted exactly when it is a valid NetCDF-3 name of at most 256 bytes.",
["inputs"],"all strings","Tests list some names only.",
["src/name_string.rs"],[("is_valid_name","src/name_string.rs")],(),["result of is_valid_name"])
p("C21","Data vector access is typed",
"A data vector gives its values only through the accessor of its own type, unchanged, and hands itself back otherwise.",
["inputs"],"all types and values","Tests use a few vectors per type.",
[DV],[("typed accessors","DataVector")],(),["accessor results"])
p("C22","Type, version and padding codes are consistent",
"Type codes, version codes, element sizes and padding sizes are those of the NetCDF-3 format, and decoding inverts encoding of every code and rejects all others.",
["inputs"],"all integers","Tests list some codes.",
["src/data_type.rs","src/version.rs",IO],[("TryFrom conversions, size_of, compute_padding_size","src/data_type.rs, src/version.rs, src/io.rs")],(),["conversion results"])
p("C23","In-memory getters agree with each other",
"In any state of an in-memory definition, all ways to ask for the same fact (lists, names, counts, sizes, presence, typed attribute getters, record size) give the same answer.",
["programs"],"all in-memory definitions and getters","Tests compare getters on fixed examples.",
[D,V,DIM,A],[("getters","DataSet, Variable, Dimension, Attribute")],(),["getter results"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
