#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
GX='src/gxfile.cpp'; ST='src/gdlib/gmsstrm.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Everything written to a GDX file is read back exactly",
 "After a set of symbols is written through any write interface (string, mapped, raw, raw with key bounds; compressed or not) and the file is closed without error, reading it yields the same symbols in the same order and, for each, exactly the written records: the same keys, in the file's key order, with the same values (all five fields for variables and equations, the level for sets and parameters). This holds for every symbol type, dimension 0 to 20, number of records, key range and gap between consecutive keys, and value bit pattern, and nothing is lost, added, moved or altered. The record count reported for each symbol equals the number of records that can be read.",
 ["inputs","histories"],"every sequence of symbol definitions, label tables, record sets, write interfaces and compression settings accepted by the API",
 "The suite writes a few small symbols with low dimensions; key encodings switch on ranges (byte/word/int), on delta sizes and on I/O buffer boundaries, which a handful of examples do not sample.",
 [GX,ST,"src/gdlib/gmsdata.hpp","src/gdlib/datastorage.hpp"],
 [("delta/width record encoding and decoding",GX+": DoWrite, DoRead"),("value byte codes",GX+": DoWrite/DoRead"),("buffered stream",ST+": TBufStream, TMiBufStream")],
 ["gdxDataWrite*/gdxDataRead* results through the public C API"])
p("P02","All read interfaces deliver the same records",
 "Reading one symbol through the raw, string, mapped, callback (plain, extended, string-filtered) and slice interfaces delivers the same records in the same order with consistent keys, labels, values and record counts. The reported first changed position is, for every record, the first key position that differs from the previously delivered record. A filter delivers exactly the records matching it, and symbols may be read in any order, repeatedly, or abandoned halfway, without influencing later reads.",
 ["inputs","histories"],"every file, every symbol, every sequence of read operations including interrupted ones, every string filter and slice",
 "The suite reads each symbol mostly through one interface on small data and hardly checks the first-changed position or interleavings of partial reads.",
 [GX],[("read drivers",GX+": gdxDataReadRaw*, gdxDataReadStr*, gdxDataReadMap*, gdxDataReadRawFast*, gdxDataReadSlice*"),("sequential decoder",GX+": DoRead, PrepareSymbolRead")],
 ["records delivered by each read call / callback"])
p("P03","Unordered writes are sorted; every record is stored or reported",
 "Records handed to the string or mapped write interface in any order come back in ascending key order; of several records with the same key the first one written is kept and each other one is counted as a data error when the symbol is finished. Raw writing accepts exactly the records that are strictly ascending after the last accepted one and rejects all others with an error. For every symbol the records written equal the records stored plus the records reported as errors, the stored count is what the file reports, and the retained error records show the rejected keys and values.",
 ["inputs","histories"],"every order and multiset of records in any write mode, at every dimension and size",
 "The suite writes a few records in one or two orders; sorting uses bucket/radix strategies whose behaviour depends on key ranges, sizes and order.",
 [GX,"src/gdlib/datastorage.hpp"],[("sorted record storage",'src/gdlib/datastorage.hpp: TLinkedData::StartRead (bucket sort)'),("duplicate/order rejection",GX+": DoWrite"),("error list",GX+": AddToErrorList, gdxDataErrorRecord")],
 ["gdxDataWriteRaw/Str/Map return codes, gdxDataErrorCount/Record, gdxSymbolInfoX counts, records read back"])
p("P04","Labels are unique ignoring case, keep number and spelling, and map both ways",
 "Every distinct label (compared without regard to case, trailing blanks removed) receives one number in order of first registration, keeps the spelling of its first registration, and number-to-label, label-to-number and user-mapping lookups agree with each other, in memory and after the file is reopened, for any number of labels. Invalid labels (over 63 characters, control characters, mixed quotes) are rejected without disturbing the table, and registering or mapping a label never changes the number or mapping of another one (a user number given to several labels leads back to the last of them). Renaming a label changes exactly that label and is refused when the old one is absent or the new one exists.",
 ["inputs","histories"],"every sequence of registrations in string, mapped and raw mode, lookups and renames over any label population",
 "The suite registers few labels; hash growth, collisions, case folding and rename interplay need large and adversarial populations.",
 [GX,"src/gdlib/strhash.hpp","src/gdlib/gmsobj.hpp"],[("case-insensitive hash table","src/gdlib/strhash.hpp: TXStrHashList"),("user mapping",GX+": TUELTable, TUELUserMapping"),("label validation",GX+": GoodUELString")],
 ["gdxUELRegister*, gdxUMUelGet, gdxUMFindUEL, gdxGetUEL, gdxUMUelInfo, gdxRenameUEL"])
p("P05","Mapped and filtered reading selects and translates exactly",
 "With labels mapped to user numbers and per-position actions (unmapped, strict, expand, or a registered filter), a mapped read returns exactly the records whose key satisfies the action of every position, with keys translated by the user mapping and in ascending order of the translated keys, and the announced count equals the number of records returned when none is rejected. Records rejected by strict or filter positions are never returned and are reported as data errors, and expanding positions give each newly met label the next free user number exactly once. Enumerating the domain elements of one position reports each distinct label used there exactly once and returns their number.",
 ["inputs","histories"],"every mapping (partial, order-changing, with gaps), filter set and action vector applied to every symbol",
 "The suite applies one or two actions to tiny symbols; the code chooses among direct, sorted and materialised paths depending on mapping monotonicity.",
 [GX],[("mapped read preparation",GX+": PrepareSymbolRead"),("filters",GX+": TDFilter, gdxFilterRegister*"),("domain enumeration",GX+": gdxGetDomainElements")],
 ["gdxDataReadFilteredStart/gdxDataReadMapStart/gdxDataReadMap, gdxDataErrorCount, gdxGetDomainElements"])
p("P06","Domains are stored exactly and enforced on write",
 "When a symbol is given domain sets, a record is accepted exactly if each key element belongs to the set given for its position (the universe accepts everything); every other record is rejected with a domain error and never stored. Domain sets and relaxed domain names are reported on reading exactly as given, with the right kind (regular, relaxed, none), and unknown or unsuitable domain sets are refused with an error. A symbol written without domains is never checked.",
 ["inputs","histories"],"every one-dimensional domain set whose elements were written in the session (any membership, through aliases), every symbol and record in every write mode; sets carried over from an earlier session or whose elements are not kept are checked not at all, or refused, depending on the bogus-domain setting",
 "The suite uses a couple of domain sets with few members; membership tests depend on element numbers, write mode and set kind.",
 [GX],[("domain check",GX+": DoWrite, TIntegerMapping/domain bit maps"),("domain storage",GX+": gdxSymbolSetDomain, gdxSymbolSetDomainX, gdxSymbolGetDomain(X)")],
 ["return codes, gdxGetLastError, gdxDataErrorCount, gdxSymbolGetDomain(X), records read back"])
p("P07","The symbol catalogue is exact: names, types, texts, comments, aliases",
 "For every symbol, name, dimension, type, user information, explanatory text, comments and alias target are reported exactly as written (texts normalised only as documented: quotes unified, control characters replaced, over-long text shortened with a marker), in creation order, and lookups by name in any case find exactly that symbol. Duplicate or malformed names, bad dimensions and bad types are refused with the documented error and leave no trace in the file. Maximum-length queries and symbol and label counts agree with the contents.",
 ["inputs","histories"],"every sequence of symbol definitions, aliases and comments, valid or not",
 "The suite checks a few names and texts; boundaries (63/255 characters, case collisions, hundreds of symbols, aliases of aliases) are unbounded.",
 [GX,"src/gdlib/strutilx.cpp"],[("catalogue",GX+": StartDataWrite, gdxSymbolInfo(X), gdxFindSymbol, gdxAddAlias, gdxSymbolAddComment"),("identifier and text rules",GX+": IsGoodNewSymbol, GoodIdent, MakeGoodExplText")],
 ["gdxSystemInfo, gdxSymbolInfo(X), gdxFindSymbol, gdxSymbolGetComment, gdxSymbMaxLength, gdxSymbIndxMaxLength"])
p("P08","Set element texts stay attached to their elements",
 "Every text registered for set elements gets a number from which exactly that text (normalised as documented) is returned, both while writing and after reopening, whether or not identical texts share a number. Every set element read back carries a number leading to the text it was written with, elements written without text carry none, and a set is reported to have texts exactly if one of its elements has one. Node numbers attached to texts are returned as set.",
 ["inputs","histories"],"every number and content of texts (empty, long, quoted, duplicated, differing only in case) and every assignment to elements",
 "The suite adds a handful of texts; pool growth, case sensitivity, the default text and node maps depend on population.",
 [GX,"src/gdlib/strhash.hpp"],[("text pool",GX+": gdxAddSetText, gdxGetElemText, gdxSetTextNodeNr, gdxSetHasText")],
 ["gdxAddSetText, gdxGetElemText, gdxSetHasText, values of set records"])
p("P09","Special values keep their meaning through any user mapping",
 "Undefined, not available, plus and minus infinity and epsilon written with the user's current representation are read back as the same special value in the reader's current representation, for every choice of the two representations, and ordinary numbers keep their exact bits (negative zero becomes zero, not-a-number becomes not available). Classification of a value agrees with the representation currently reported. Mappings that would make two special values indistinguishable are refused and leave the current mapping unchanged; resetting restores the defaults.",
 ["inputs","histories"],"every pair of write and read representations, every value in every field of every symbol type",
 "The suite uses one alternative representation; interactions with common-value codes, infinities, NaNs and each field are not sampled.",
 [GX],[("special value maps",GX+": gdxSetSpecialValues, gdxSetReadSpecialValues, gdxResetSpecialValues, gdxMapValue, DoWrite, DoRead")],
 ["values read back, gdxMapValue, gdxGetSpecialValues"])
p("P10","Acronyms keep identity, name and text through files and remapping",
 "An acronym value written in any field is read back as an acronym with the same index (or the index the reader assigned to it by name or automatic numbering), and name, text and count of acronyms agree with what was registered. Acronym names share the symbol name rules (valid, unique ignoring case also against symbols), and a value is recognised as an acronym exactly if it encodes one. Requests with numbers outside the acronym table are rejected without effect.",
 ["inputs","histories"],"every registration order, index choice, remapping on read, and use in data",
 "The suite defines one or two acronyms; remapping, automatic numbering and undeclared acronyms in data are not explored.",
 [GX],[("acronym list",GX+": TAcronymList, gdxAcronym*"),("remap on read",GX+": AcronymRemap")],
 ["gdxAcronym* results, values read back"])
p("P11","Appending keeps all earlier content and adds exactly the new",
 "Opening an existing file for appending and adding symbols yields a file whose earlier symbols, labels with their numbers, texts, comments, domains and acronyms read exactly as before, followed by the newly added symbols, for any number of append sessions. Labels and texts added later extend the tables without renumbering old ones, and name uniqueness is enforced against old symbols. An append session that adds nothing leaves the content unchanged.",
 ["histories","inputs"],"every sequence of write and append sessions, compressed or not",
 "The suite has one append example; several sessions with mixed content and compression are histories the tests do not visit.",
 [GX],[("append",GX+": gdxOpenAppend, gdxOpenReadXX, gdxClose (index rewrite at NextWritePosition)")],
 ["complete dump of the file before and after each append session"])
p("P12","Compression and configuration never change content",
 "Writing the same data with or without compression, selected by call or by environment, produces files with identical content through every query of the API, for any sizes including data that exceeds one compression block or does not compress. The reported compression level tells which kind was written. Reading does not depend on how the file was produced.",
 ["inputs","configurations"],"every content and every compression selection",
 "The suite writes one small compressed file; block boundaries, incompressible data and sections that switch compression on and off are not sampled.",
 [ST,GX],[("compressed buffering",ST+": TBufStream::FlushBuffer/FillBuffer, SetCompression"),("selection",GX+": gdxOpenWrite(Ex)")],
 ["full content dump of both variants, gdxFileInfo"])
p("P13","Files follow the documented format and foreign and old variants are read",
 "Every file the library writes can be decoded by an independent reader of the published layout (header, index, symbol, label, text, acronym, domain and data sections, records in delta encoding) to the content that was written. Conversely a well-formed file produced independently, including one in the opposite byte order, one of the older supported versions, or one using any legal key width, is read with exactly its content.",
 ["inputs","configurations"],"every content, encoded in either byte order, at each supported version and element width (the first-changed position of scalars in old versions has no meaning; appending to a foreign byte order or old version is refused)",
 "The suite only reads what the same code wrote, so symmetric mistakes in encoder and decoder cancel out; foreign byte order and old versions are hardly read at all.",
 [GX,ST],[("file layout",GX+": gdxOpenWriteEx, gdxOpenReadXX, gdxClose"),("byte order handling",ST+": TMiBufStream, determineByteOrder")],
 ["bytes of the written file; API view of synthesised files"])
p("P14","Wrong API calls are refused without harm",
 "Any sequence of API calls, including calls that are not allowed in the current state, unknown symbol, record, label, text or acronym numbers, bad dimensions and bad names, returns a failure indication instead of crashing, corrupting memory or hanging. A refused call changes nothing: the calls that follow behave, and the file finally written reads, as if it had not been made. A refused call is reported: the error count rises, and the last error (the first one since the last retrieval) can be retrieved, is then cleared, and can be explained.",
 ["histories","inputs"],"every sequence of calls with any arguments of the right C types (valid pointers, buffers of documented size); error counters and the last error do change, labels newly named by a refused record may stay registered, and refused records and domains are part of the dialogue of their symbol",
 "The suite makes a few invalid calls; the state machine has over twenty modes and some ninety entry points, so pairs and longer sequences are not covered.",
 [GX],[("mode checks",GX+": CheckMode, MajorCheckMode, error reporting"),("argument range checks",GX+": all API functions")],
 ["return values, gdxGetLastError, gdxErrorCount, sanitizer reports, content of the final file"])
p("P15","A write failure is never reported as success",
 "If the operating system fails or shortens any write, seek or open while a file is being produced (full disk, size limit, I/O error at any point), at least one call up to and including the close reports an error. Equivalently: when opening, all data calls and closing report success, the file on disk is complete and reads back exactly. The failure leaves the process and the object usable for another file.",
 ["fault_sequences","crash_points"],"every position at which the n-th write/seek system call fails or is shortened, for every content",
 "The suite never injects I/O faults.",
 [ST,GX],[("error propagation",ST+": TXFileStream::Write, TBufStream::FlushBuffer; "+GX+": gdxClose, gdxGetLastError")],
 ["return codes of every call under injected faults; the resulting file"])
p("P16","An unfinished or truncated file is never taken for a complete one",
 "A file whose production stopped before a successful close (crash, kill, or missing tail at any byte) is either refused when opened or read, or yields exactly the complete content; it is never silently read with missing or altered symbols, records, labels or texts. Opening it always terminates with a reported error or a readable file.",
 ["crash_points","inputs"],"every prefix of every produced file, and every prefix of the write sequence that produced it, torn at any byte (the small index at the head of the file is written at once); an interrupted append yields the old content, the new content or a refusal; labels renamed in place are not covered",
 "The suite opens only complete files and one non-GDX file.",
 [GX],[("index written last",GX+": gdxClose"),("section markers",GX+": gdxOpenReadXX")],
 ["open/read results on every prefix and on every write-sequence prefix"])
p("P17","Damaged files never crash the reader",
 "Opening and completely reading a file with arbitrarily altered bytes always terminates, without memory errors, undefined arithmetic, unbounded memory use or process abort; it either reports an error or returns some content. Afterwards the same process and object can read a good file correctly. Opening something that is not a GDX file is refused.",
 ["inputs"],"every corruption of every file (bit flips, overwritten fields, spliced blocks)",
 "The suite tries no damaged file beyond a wrong header.",
 [GX,ST],[("validation while opening and decoding",GX+": gdxOpenReadXX, DoRead, PrepareSymbolRead; "+ST+": FillBuffer")],
 ["sanitizer reports, return codes, time and memory limits"])
p("P18","Objects used in different threads never influence each other",
 "Threads that work on their own GDX objects (writing, reading, registering labels, making errors) concurrently obtain exactly the results and files they obtain when run alone, and no data is shared between the objects without synchronisation. The same holds for several objects used alternately in one thread. Creating and destroying objects concurrently is safe.",
 ["schedules","histories"],"every interleaving of API calls on distinct objects",
 "The suite is single threaded and uses one object at a time almost everywhere.",
 [GX,ST],[("per-object state",GX+": TGXFileObj members; no function-static buffers"),("object counting","generated/gdxcc.c, generated/gdxcclib.cpp")],
 ["thread sanitizer reports; files and results compared with single-threaded runs"])
p("P19","Objects can be reused and release everything they acquire",
 "After a file is closed, or could not be opened, the same object behaves like a fresh one: a later session yields the same results and files and inherits no symbols, labels, mappings, filters, acronyms, special values or errors. Closing releases the file and freeing releases all memory acquired on every path, including failed opens and abandoned reads and writes. A failed open leaves the object ready for another file.",
 ["histories"],"every sequence of successful, failed and abandoned sessions on one object",
 "The suite mostly uses a fresh object per case and does not look at leaks or descriptors.",
 [GX],[("session reset",GX+": InitErrors, gdxClose, gdxOpen*, destructor")],
 ["leak checker, open descriptor count, results compared with a fresh object"])
p("P20","The produced file depends only on the calls made",
 "The same sequence of calls produces byte-identical files every time, whatever the process, object history, memory contents, directory, locale or environment unrelated to the format. No uninitialised or leftover memory reaches the file.",
 ["histories","configurations"],"every call sequence and every surrounding process state",
 "The suite never compares produced bytes.",
 [GX,ST],[("writer",GX+": DoWrite, gdxClose; "+ST)],
 ["bytes of files produced twice under different surroundings"])
p("P21","gdxdump prints exactly the content of the file",
 "The dump of a file contains every symbol with its name, text, and every record with its labels and values exactly once and in file order, such that parsing the dump gives back the content of the file: labels quoted so they can be read back, numbers printed with 15 significant digits or, in the hexadecimal formats, exactly, and special values by name. The options select exactly the requested symbol or listing (symbol list, labels, domains, set texts, acronyms, CSV) and that listing is complete.",
 ["inputs","configurations"],"every file content (comments with line breaks and zero-dimensional sets excepted) and combination of output options",
 "The tools have no test in the suite that runs here.",
 ["src/tools/gdxdump/gdxdump.cpp","src/gdlib/dblutil.cpp"],[("dump writers","src/tools/gdxdump/gdxdump.cpp")],
 ["standard output of the tool parsed back and compared with the API view"])
p("P22","gdxdiff reports exactly the differences",
 "Comparing two files reports no difference exactly if they have the same symbols with the same records up to the given tolerances, and otherwise the difference file lists exactly the differing records: present only in the first, present only in the second, or changed with both values. Symbols present in one file only or with different type or dimension are reported. The exit code tells whether there were differences, and options restricting fields, symbols or tolerances have exactly their documented effect.",
 ["inputs","configurations"],"every pair of files and every combination of options (the matrix file option and the names of acronyms in the difference file excepted)",
 "The tools have no test in the suite that runs here.",
 ["src/tools/gdxdiff/gdxdiff.cpp"],[("comparison","src/tools/gdxdiff/gdxdiff.cpp")],
 ["exit code, printed summary, difference file read through the API"])
p("P23","gdxmerge combines every record of every input file",
 "Merging files yields for each selected symbol one symbol with one more leading dimension whose records are exactly the union of the records of the inputs, each tagged with the name of its file, values unchanged. Symbols that cannot be merged (conflicting type or dimension, too many dimensions) are reported and left out, options for selecting or excluding symbols act exactly on the named ones, and the way of processing large symbols does not change the result.",
 ["inputs","configurations"],"every collection of input files with different base names and options; an unreadable input is reported and left out",
 "The tools have no test in the suite that runs here.",
 ["src/tools/gdxmerge/gdxmerge.cpp"],[("merge","src/tools/gdxmerge/gdxmerge.cpp")],
 ["merged file read through the API, printed messages"])
p("P24","Support streams return what was written, plain, compressed or encrypted",
 "Bytes, strings, numbers and lines written to a file stream in any mixture and chunk sizes are read back identical, for every combination of compression and password, and positions and end-of-file agree with the number of bytes written. Reading with a missing or wrong password is refused, and text lines read back equal the lines written whatever their length. Errors in opening are reported.",
 ["inputs","histories"],"every sequence of typed writes, chunk sizes and seeks, for all stream settings; text files in the gzip format are read only, and plain text that starts like a byte order mark or a gzip file is excepted",
 "The suite writes a few short values per stream kind; buffer and block boundaries are not crossed.",
 [ST,"src/gdlib/gmsstrm.hpp"],[("streams",ST)],
 ["values read back, positions, error codes"])
p("P25","Support containers behave like their abstract models",
 "The string lists, hashed string lists, integer maps, bit sets, record stores and growable arrays behave for every sequence of operations like the simple list, map, set or sequence they stand for: the same elements, order, lookups, counts and return values, including after removal, clearing, sorting and growth. Indices handed out stay valid as documented, and memory is neither corrupted nor leaked.",
 ["histories","inputs"],"every operation sequence over every element population; hashed lists are not re-sorted or thinned out while used by hash, and a lookup among equal entries may return any of them",
 "The suite performs short operation sequences on small populations.",
 ["src/gdlib/gmsobj.hpp","src/gdlib/strhash.hpp","src/gdlib/datastorage.hpp","src/gdlib/gmsdata.hpp","src/gdlib/strindexbuf.hpp","src/gdlib/batchalloc.hpp"],
 [("containers","src/gdlib/*.hpp")],["container queries compared with a model after every operation"])
p("P26","Number and text conversions are exact; text and path helpers keep meaning",
 "Every finite double converted to decimal text denotes the number rounded to 15 significant digits (plain notation from 1e-4 to 1e15, else with exponent, any decimal separator, string and buffer forms alike), its hexadecimal and shortest forms denote it exactly, every 64-bit integer converts to text (plain, grouped, padded, hexadecimal) and back exactly, and numerals are accepted exactly if valid, at any length, and parsed to the same value as by the C library. Case conversion, case-insensitive equality and all comparison functions are consistent with each other, and comparison is a total order in which a prefix comes first. Trimming, padding, searching, replacing, splitting, tokens, bounded copies, short-string forms, dates and column names follow their definitions and stay inside their buffers, and file-name helpers split and recombine names without loss and never change the place that a path names.",
 ["inputs"],"every finite double, every integer in range, every string, path and date (1900 to 9999 with time of day)",
 "The suite checks individual examples of each conversion.",
 ["src/gdlib/utils.cpp","src/gdlib/utils.hpp","src/gdlib/strutilx.cpp","src/gdlib/dblutil.cpp","src/rtl/sysutils_p3.cpp","src/rtl/p3io.cpp","src/rtl/dtoaLoc.c"],
 [("decimal text","src/gdlib/strutilx.cpp: DblToStrSep; src/rtl/sysutils_p3.cpp: FloatToStr"),("parsing","src/rtl/p3io.cpp: P3_Val_dd, P3_Val_i; src/rtl/dtoaLoc.c"),("comparison","src/gdlib/utils.cpp: strCompare, sameText; src/gdlib/strutilx.cpp: StrUCmp"),("paths","src/gdlib/strutilx.cpp: cleanpath, Extract*, Complete*")],["conversion results compared with the C library and with plain re-definitions"])
p("P27","All call interfaces of the library agree",
 "The C functions, the entry points with length-prefixed (Delphi) strings, with native string arrays and with Fortran call-backs, and the C++ wrapper class are the same library: for every history of calls, valid or refused, each interface gives the same result codes, error codes, numbers, texts and call-backs, and writes the same file byte for byte; none of them reads or writes outside the strings it was given or returns bytes that nobody wrote. The signature check accepts exactly the signatures of the exported functions, the version check classifies client versions as documented, and the loader loads, refuses and unloads as its return values say, reports each failure in a terminated message that fits the buffer it was given, and never unloads while objects exist.",
 ["histories","inputs"],"every call history and argument with texts up to 255 characters; every message buffer size; every directory and library name",
 "The suite drives one interface; the entry points for other languages are never called by it.",
 ["generated/gdxcclib.cpp","generated/gdxcwrap.h","generated/gdxcppwrap.hpp","generated/gdxcc.c","src/gxfile.cpp"],
 [("entry points","generated/gdxcclib.cpp: D__*, N__*, F__*, XCheck, XAPIVersion"),("class","generated/gdxcppwrap.hpp: TGXFileObj"),("loader","generated/gdxcc.c: libloader, XLibraryLoad, gdxLibraryUnload"),("call-backs","src/gxfile.cpp: *_DP_FC, *_CallByRef")],["results, outputs, call-backs and files of three objects driven in lockstep"])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
