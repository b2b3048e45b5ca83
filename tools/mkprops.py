#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "XLSX cells are reported exactly as stored, where they are stored",
  "For every well-formed XLSX workbook, every stored cell value (number, shared or inline string, boolean, error code, cached formula result) is reported with exactly its value at exactly its row and column of its own sheet, and every other position is reported blank. This holds however the file is laid out: whitespace and attribute order in the XML, namespace prefixes, split or escaped text, relative or absolute part names, missing, loose or too small dimensions, cells without references. The text of a formula is never reported as a value.",
  ["inputs"], "all well-formed XLSX packages: any set of cells, sheets, styles and any legal XML/package serialisation of them",
  "TestBasic compares one 6x4 file with one TSV and TestAllFiles only checks that four files open; neither samples other layouts, cell types, sparse sheets or multiple sheets.",
  ["xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","xlsx/types.go","commonxl/sheet.go"],
  [("relationship, workbook, style and shared string parsing","xlsx/workbook.go"),("sheet token loop","xlsx/sheets.go parseSheet"),("A1 reference decoding","xlsx/types.go refToIndexes/col2int"),("cell grid","commonxl/sheet.go Put/Resize")],
  ["grate.Open / Source.List / Source.Get / Collection.Next, Strings, Types, Scan"],
  [("shared strings","table the s-typed cells index","xlsx Document.strings"),("xfs","style index to number format","xlsx Document.xfs")])

p("C02", "XLS cells are reported exactly as stored, where they are stored",
  "For every well-formed BIFF8 XLS workbook, every cell record (number, all four RK encodings, multiple-RK, shared string, boolean, error, formula with numeric, string, boolean or error result) is reported with exactly its value at exactly its row and column of its own sheet, and every other position is reported blank. Embedded substreams (charts), unrelated records and the order of records or sheets never shift, drop, duplicate or invent a cell.",
  ["inputs"], "all well-formed BIFF8 workbooks: any cells, record kinds, sheets, embedded substreams and interleaved unrelated records",
  "The tests read two small files from one producer; most record kinds, all RK encodings but one, and embedded substreams are never reached.",
  ["xls/xls.go","xls/sheets.go","xls/structs.go","xls/strings.go","commonxl/sheet.go"],
  [("record splitting and substream grouping","xls/xls.go loadFromStream2/nextRecord"),("cell record decoding","xls/sheets.go parseSheet"),("RK decoding","xls/structs.go RKNumber")],
  ["grate.Open / Source.Get / Collection.Strings, Types, Scan"],
  [("substreams","records grouped by BOF/EOF","xls WorkBook.substreams"),("pos2substream","sheet offset to substream","xls WorkBook.pos2substream")])

p("C03", "Text is returned verbatim, character for character",
  "Every string stored in an XLS or XLSX workbook is returned exactly as stored: any Unicode text, any length the format allows, 8-bit or 16-bit storage, with or without rich-text runs and phonetic data, and however it is split over continuation records or XML runs. It is also returned unchanged whatever number or date format its cell carries (other than a format with its own text section), even if it looks like a number (00123).",
  ["inputs"], "all strings, all encodings and all legal split points; all number formats on a text cell",
  "The test files hold short ASCII strings in one record each; no string crosses a record boundary, changes width, has runs, or sits in a number-formatted cell.",
  ["xls/strings.go","xls/sheets.go","xlsx/workbook.go","xlsx/sheets.go","commonxl/cell.go","commonxl/fmt.go"],
  [("shared string table decoding across CONTINUE","xls/strings.go parseSST"),("formula result strings","xls/sheets.go RecTypeString"),("shared string items","xlsx/workbook.go parseSharedStrings"),("type coercion","commonxl/cell.go NewCellWithType")],
  ["Collection.Strings, Types, Scan(*string)"])

p("C04", "The same workbook reads the same from XLS and XLSX",
  "A workbook with the same sheets, values, number formats and merged ranges stored once as XLS and once as XLSX is reported with the same sheet names, the same sheets empty, and for every cell the same text, type, format and scanned value. How a number happens to be encoded in the file (integer, RK, float, decimal text) does not show in the result.",
  ["inputs","programs"], "all logical workbooks expressible in both formats, over all encodings of the same value",
  "The tests never compare the two readers with each other; basic.xls and basic.xlsx are both compared loosely (numeric equality only) with the same TSV.",
  ["xls/sheets.go","xlsx/sheets.go","commonxl/cell.go","commonxl/fmt.go","commonxl/sheet.go"],
  [("shared grid and formatter","commonxl/sheet.go, commonxl/formats.go")],
  ["Source.List, Collection.Strings, Types"])

p("C05", "Number formats show the stored number: sign, digits, scale, grouping",
  "For every number and every built-in numeric format, or custom format made of zero and # digits, thousands separators, decimals, percent, scaling commas, scientific notation, fractions, literals, currency symbols and positive;negative;zero sections or sections with conditions (also the codes a file gives for the localized currency formats), the text shown denotes the stored number: shown by the right section, one correct sign, correct grouping by three, correct percent scaling, the format's number of decimals, and an error below one unit of the last place shown, or of the fifteenth digit (fractions: at most the format's number of digits, or its denominator, and an error below one over ten to that number, or half of one over the denominator). The General format shows the number exactly when it fits in 11 characters and to 6 significant digits otherwise. Formatting never alters the stored value that Scan returns for a number.",
  ["inputs"], "all finite numbers |x|<1e23 times all built-in numeric formats and the stated custom format grammar",
  "TestCommas (failing), TestFractions and TestBoolFormats check a few dozen literals; the other formats and the custom code compiler have no value checks at all.",
  ["commonxl/fmt.go","commonxl/formats.go","commonxl/numbers.go","commonxl/cell.go"],
  [("built-in formatters","commonxl/fmt.go goFormatters"),("custom format compiler","commonxl/formats.go makeFormatter"),("fraction approximation","commonxl/numbers.go"),("coercion","commonxl/cell.go NewCellWithType")],
  ["Formatter.Apply, Collection.Strings through real files"])

p("C06", "Serial dates become the right calendar date and clock time",
  "For every date serial from 1 March 1900 to 31 December 9999 (and every non-negative serial of a workbook declared to use the 1904 date system), the reported date and time is the calendar instant the serial denotes, correct to the millisecond, whether it is read as a time value or as text through any built-in date/time format or any custom format made of year, month, day, weekday, hour, minute, second, AM/PM and elapsed-hour codes. An m code means minutes exactly when it stands next to hours or seconds, and months otherwise.",
  ["inputs","configurations"], "all serials (days and fractions), both date systems, all built-in date formats and the stated custom grammar",
  "TestDateFormats only checks that formatting does not panic for ten dates; no serial is ever converted and compared, and 1904 workbooks are never opened.",
  ["commonxl/dates.go","commonxl/fmt.go","commonxl/formats.go","xls/xls.go","xlsx/workbook.go"],
  [("serial conversion","commonxl/dates.go ConvertToDate"),("date layouts","commonxl/fmt.go, commonxl/formats.go makeFormatter"),("1904 flag","xls Date1904 record, xlsx workbookPr")],
  ["Formatter.ConvertToDate, Collection.Scan(*time.Time), Collection.Strings"])

p("C07", "Merged ranges keep the top-left value and mark every other cell",
  "For every merged range, the top-left cell keeps its own content and every other cell of the range within the sheet shows the documented marker: down arrow on the left column (stopped down arrow on its last row), right arrow elsewhere (stopped right arrow on the last column). No cell outside the range changes, for any number, size and position of ranges, in XLS and XLSX alike.",
  ["inputs"], "all sets of disjoint merged ranges, with and without content, touching or exceeding the declared sheet area, in both formats",
  "No test looks at merged cells (multi_test is commented out of the comparison).",
  ["xls/sheets.go","xlsx/sheets.go","grate.go","commonxl/sheet.go"],
  [("merge expansion","xls/sheets.go RecTypeMergeCells, xlsx/sheets.go mergeCell")],
  ["Collection.Strings, Types"])

p("C08", "Hyperlinks show their target and damage no other content",
  "A cell carrying an external hyperlink reports text that contains the link target exactly, with the location of the link (if any) after a # sign (XLSX also reports its type as hyperlink; XLS also shows the stored display text), for every link encoding the formats have. A hyperlink without an external target leaves the cell's own content unchanged, and no hyperlink changes, blanks or drops any other cell that holds a value.",
  ["inputs"], "all hyperlinks: URL, file and saved-as-string monikers, locations, display and frame names, ranges, internal links, missing relationships",
  "No test file contains a hyperlink.",
  ["xls/hyperlinks.go","xls/sheets.go","xlsx/sheets.go","commonxl/sheet.go","commonxl/cell.go"],
  [("HLINK decoding","xls/hyperlinks.go"),("hyperlink relationships","xlsx/sheets.go linkmap")],
  ["Collection.Strings, Types"])

p("C09", "Row accessors agree with each other and Scan never lies",
  "On every row, Strings, Types and Formats have the same length, the type names come from the documented set, a cell typed blank has empty text, and the format of a cell is the code stored for it (of a built-in format, its code in the list of them). Scan with destinations of the right types stores exactly the cells' values; a destination of a different type, or more destinations than columns, gives an error and never a panic, and a successful Scan never stores anything but the cell's value.",
  ["inputs","programs"], "all rows of all readable sources times all argument lists (any number and type of destinations)",
  "No test calls Types, Formats or Scan.",
  ["commonxl/sheet.go","simple/simple.go","grate.go"],
  [("accessors","commonxl/sheet.go, simple/simple.go")],
  ["Collection.Strings, Types, Formats, Scan"])

p("C10", "Every sheet is listed once, found by name and iterated afresh",
  "List returns every sheet once in workbook order (XLS: visible sheets, with ListHidden returning exactly the others), and Get finds each listed or hidden sheet by its exact name and returns that sheet's rows. Every Get starts at the first row, and any interleaving of several iterations and repeated Gets over the same source yields the same rows to each of them, in order, once, after which Next keeps returning false. A sheet is reported empty exactly when it has no data values.",
  ["inputs","histories"], "all workbooks (any number, names and visibility of sheets) and all sequences of List/Get/Next/read calls on one source",
  "Tests open each sheet once and read it once; no second Get, interleaving, hidden or unusual sheet name is tried.",
  ["xls/sheets.go","xlsx/xlsx.go","xlsx/sheets.go","simple/simple.go","commonxl/sheet.go"],
  [("sheet lookup","xls WorkBook.Get, xlsx Document.Get, simpleFile.Get"),("cursor","commonxl Sheet.CurRow, simpleFile.iterRow")],
  ["Source.List, ListHidden, Get; Collection.Next, IsEmpty"])

p("C11", "Compound-file streams are reassembled byte for byte",
  "For every well-formed compound file, every stream listed can be opened by name and yields exactly its bytes, whatever the sector size (512 or 4096), the order and fragmentation of its sectors, its size (mini stream or regular, including exact multiples of a sector), the number of FAT, mini FAT, DIFAT and directory sectors, and its place in the directory.",
  ["inputs"], "all well-formed version 3 and 4 compound files: any streams, sizes, sector permutations, allocation-table sizes",
  "The cfb tests open files missing from the repository; the only streams read are unfragmented ones in files under 10 kB.",
  ["xls/cfb/cfb.go","xls/cfb/interface.go","xls/cfb/slicereader.go"],
  [("FAT/DIFAT/mini FAT loading","xls/cfb/cfb.go load"),("directory","xls/cfb/cfb.go buildDirs"),("chain walking","xls/cfb/cfb.go getStreamReader/getMiniStreamReader")],
  ["cfb.Open, Document.List, Document.Open, io.ReadAll"],
  [("fat, minifat","sector chains","cfb Document")])

p("C12", "Stream readers behave as one contiguous read-seeker",
  "For any sequence of Read and Seek calls with any buffer sizes, offsets and origins, a stream reader behaves as a reader over the concatenation of its non-empty slices: Read returns the bytes at the current position in order and end-of-file only at the end, Seek moves to and returns the requested position, and a seek to a negative position or past the end gives an error or end-of-file, never a panic, an endless loop or wrong bytes.",
  ["histories","inputs"], "all slice partitions and all call sequences on one reader",
  "TestSliceReader performs one fixed sequence on five equal slices, without boundaries, SeekEnd, large buffers or out-of-range seeks.",
  ["xls/cfb/slicereader.go"],
  [("Read/Seek","xls/cfb/slicereader.go")],
  ["SliceReader.Read, SliceReader.Seek, readers from cfb Document.Open"],
  [("Index/Offset","position","SliceReader")])

p("C13", "RC4-encrypted workbooks decrypt to the same cells, or fail",
  "Every XLS workbook encrypted with standard RC4 under the default password is read exactly as its unencrypted original, whatever its length, record sizes and alignment to 1024-byte blocks. A workbook encrypted under another password, or with an unsupported scheme, is refused with an error and never read as data. The decryptor's output does not depend on how its input is divided into writes.",
  ["inputs","histories"], "all workbooks, salts and passwords; all ways to chunk the decryptor's input",
  "xls/crypto has no test and no test file is encrypted.",
  ["xls/crypto/rc4.go","xls/crypto/crypto.go","xls/xls.go"],
  [("key derivation, verifier and block cipher","xls/crypto"),("clear-text overlay","xls/xls.go loadFromStreamWithDecryptor")],
  ["grate.Open on encrypted files; crypto.NewBasicRC4 Write/Flush/Bytes/Read"])

p("C14", "TSV and CSV fields are delivered unchanged, row for row",
  "For every rectangular tab-separated file, each line gives one row whose fields are exactly the text between tabs, in order, with no row or field lost, merged or altered, for any line length, row count, and LF or CRLF endings; a UTF-8 byte order mark in front of the text is not part of it. For every rectangular comma-separated file with RFC 4180 quoting, each record gives one row with its fields unquoted exactly, including commas, quotes, line breaks and tabs inside quoted fields when opened as CSV. Typed access (types, Scan) agrees with that text.",
  ["inputs"], "all rectangular tables of any size and field content, in both encodings",
  "Package simple has no tests.",
  ["simple/tsv.go","simple/csv.go","simple/simple.go"],
  [("readers","simple/tsv.go OpenTSV, simple/csv.go OpenCSV")],
  ["simple.OpenTSV, simple.OpenCSV, grate.Open"])

p("C15", "Files are recognised by content, and failures say why",
  "Open picks the reader by content alone: a valid XLS, XLSX, TSV or CSV file opens with its own reader whatever its name or extension, and opening is repeatable. A binary file in none of these formats is refused with the unknown-format error, a missing or unreadable file with the underlying system error, and a file of a recognised format that cannot be read with an error that is not 'not in this format'. Registered openers are tried in ascending priority, each at most once, until the first one succeeds or fails with an error other than not-in-format, and exactly that outcome is returned.",
  ["inputs","histories","configurations"], "all file contents and names; all sets, priorities and outcomes of registered openers",
  "No test calls grate.Open or Register; each reader is only tested on its own files.",
  ["grate.go","errs.go","simple/tsv.go","simple/csv.go","xls/xls.go","xls/cfb/cfb.go","xlsx/xlsx.go"],
  [("dispatch","grate.go Open/Register"),("error wrapping","errs.go WrapErr"),("format sniffing","each OpenFunc")],
  ["grate.Open, errors.Is"])

p("C16", "Malformed XLS files give errors, never a crash or a hang",
  "For every byte sequence presented as an XLS file - truncated, bit-flipped, or with any length, count, offset, index, chain or record field set to any value - opening it, listing its sheets, and getting and reading all of them ends with rows or an error. It never panics, loops without end, or allocates out of proportion to the file and the sheet area it declares.",
  ["inputs","fault_sequences"], "all byte sequences up to 64 kB derived from valid XLS files by truncation, field corruption, record and sector edits",
  "The tests only read valid files.",
  ["xls/xls.go","xls/sheets.go","xls/strings.go","xls/hyperlinks.go","xls/cfb/cfb.go","xls/crypto/crypto.go"],
  [("bounds checks in the decoders","xls, xls/cfb, xls/crypto")],
  ["xls.Open, cfb.Open, Source/Collection methods"])

p("C17", "Malformed XLSX and text files give errors, never a crash or a hang",
  "For every XLSX package with missing, truncated, reordered or corrupt parts, and any attribute, reference, index or text in them set to any value, and for every byte sequence presented as CSV or TSV, opening it, listing its sheets, and getting and reading all of them ends with rows or an error. It never panics, loops without end, or allocates out of proportion to the file and the sheet area it declares.",
  ["inputs","fault_sequences"], "all packages derived from valid ones by part, element, attribute and byte edits; arbitrary text and binary files",
  "The tests only read valid files.",
  ["xlsx/xlsx.go","xlsx/workbook.go","xlsx/sheets.go","xlsx/types.go","simple/csv.go","simple/tsv.go","commonxl/sheet.go"],
  [("bounds checks in the parsers","xlsx, simple")],
  ["xlsx.Open, simple.OpenCSV/OpenTSV, Source/Collection methods"])

p("C18", "A truncated workbook is never passed off as complete",
  "When an XLS or XLSX file is cut off at any byte, or the stream or part holding a sheet is shorter than declared, then either opening or getting a sheet reports an error, or everything returned is exactly what the complete file would give. Rows are never silently missing, shortened or blanked.",
  ["crash_points"], "every prefix of every workbook file (interrupted download or copy), and every shortening of its workbook stream",
  "No test opens an incomplete file.",
  ["xls/cfb/cfb.go","xls/xls.go","xls/sheets.go","xlsx/xlsx.go","xlsx/sheets.go"],
  [("incomplete-read detection","xls/cfb/cfb.go getStreamReader/getMiniStreamReader, xls/xls.go nextRecord"),("XML and ZIP errors","xlsx/sheets.go parseSheet")],
  ["grate.Open, Source.Get, Collection.Err and rows"])

p("C19", "Sources used in parallel or in turn never affect each other",
  "Any number of sources opened, read and closed concurrently by different goroutines, one source per goroutine, run without data races and each returns exactly what it returns when used alone. Likewise in any sequential interleaving: opening, reading, failing to open or closing one source (even twice) never changes what another source, or a collection already obtained from it, returns.",
  ["schedules","histories"], "all interleavings of open/list/get/read/close over any set of distinct sources of all formats",
  "All tests are sequential and hold one file open at a time; the race detector is never on.",
  ["xls/xls.go","xls/sheets.go","commonxl/formats.go","commonxl/sheet.go","xlsx/xlsx.go","grate.go"],
  [("record pool","xls/xls.go recPool"),("shared formatter tables","commonxl/fmt.go goFormatters")],
  ["per-goroutine results versus solo results; race detector reports"],
  [("recPool","records recycled between workbooks","xls/xls.go")])

p("C20", "Opening, failing and closing leave no files open or goroutines behind",
  "After a source is closed, and after an Open that failed for any reason in any format, the process holds no file descriptor and no goroutine more than before, without waiting for garbage collection. Close can be called at any point (before, during or after reading, or twice) without a panic, and using a closed source gives an error or the data already obtained, never a panic.",
  ["histories","fault_sequences"], "all sequences of open (valid, invalid, corrupt, any format), partial reads and closes",
  "No test counts descriptors; leaks are invisible to value comparisons until the process runs out.",
  ["xls/cfb/interface.go","xls/xls.go","xlsx/xlsx.go","simple/csv.go","simple/tsv.go","grate.go"],
  [("closing","Document.Close, WorkBook.Close, cfb.Open, xlsx.Open error paths")],
  ["/proc/self/fd and goroutine counts around calls"])

p("C21", "grate2tsv exports every sheet of every file exactly once",
  "For any list of input files with distinct names, in any order and with any degree of parallelism (one CPU included), grate2tsv terminates, writes for every non-empty sheet one file holding exactly that sheet's non-blank rows in order (white space normalised as its flags say), and logs exactly one line per sheet, or one line with the error for a file that cannot be opened, with the number of rows written and of columns up to the last one that is not blank. No line or row is lost, duplicated, interleaved or attributed to another sheet or file.",
  ["schedules","inputs"], "all lists of valid and invalid files, all worker interleavings and CPU counts, the documented flags",
  "cmd/grate2tsv has no tests.",
  ["cmd/grate2tsv/main.go"],
  [("worker fan-out, output pool and cleanup goroutine","cmd/grate2tsv/main.go")],
  ["results/ tree and the stats file of real runs of the command, race build included"],
  [("outpool/cleanup","buffers handed between workers and the flusher","cmd/grate2tsv/main.go")])

p("C22", "The cell grid returns the last value written, everywhere else blank",
  "For any sequence of resize, put, set and link operations on a sheet, reading it back gives at each position the last value written there (with its type and format) and blank where nothing was written; growing the grid never loses, moves or aliases cells, and reading or cloning never changes them. Values of any Go integer, float, string, byte, rune, UTF-16, boolean or time type are stored without loss, and comparing two numeric cells, or a numeric cell with its text, for equality is symmetric and agrees with their values.",
  ["histories","inputs"], "all operation sequences on one sheet and all values of the supported types",
  "The tests build grids only row by row with strings, and never read them through the accessors.",
  ["commonxl/sheet.go","commonxl/cell.go"],
  [("grid","commonxl/sheet.go Resize/Put/Set/SetURL/Raw"),("cells","commonxl/cell.go NewCell/Clone/Equal")],
  ["commonxl.Sheet and commonxl.Cell exported methods"])

p("C23", "grater prints every row of every sheet of every file, in order",
  "For any list of input files of any format, in any order, grater prints to standard output exactly the non-hidden content it can read: for each file, for each sheet in listed order, one line per row holding the cell texts joined by tabs (and with -v the cell types), nothing lost, repeated, reordered or attributed to another file. A file or sheet that cannot be read produces its error on standard error, in turn, and never suppresses the output of the files before or after it. Inputs are closed as it goes, however many are given.",
  ["inputs"], "all lists of valid, invalid and missing files in all formats, with and without the documented flag",
  "cmd/grater has no tests.",
  ["cmd/grater/main.go"],
  [("file, sheet and row loops","cmd/grater/main.go")],
  ["standard output, standard error and exit of real runs of the command under a small descriptor limit"])

p("C24", "Turning on debug logging changes nothing but the log",
  "For every input file of any format, valid or damaged, opening, listing, getting and reading with grate.Debug set gives exactly the names, rows, types, formats, links and errors that it gives with it unset: logging never panics, never consumes input, never changes a value, and never writes to standard output.",
  ["inputs","configurations"], "all files, valid or damaged, read with the flag on and off",
  "No test sets grate.Debug, so the code it guards never runs.",
  ["grate.go","xls/xls.go","xls/sheets.go","xls/cfb/cfb.go","xlsx/sheets.go","xlsx/workbook.go","commonxl/formats.go"],
  [("guarded logging","if grate.Debug blocks in xls, xls/cfb, xlsx, commonxl")],
  ["full readings with grate.Debug off and on; standard output"])

p("C25", "Fractions and RK values computed by the exported helpers denote the number",
  "For every finite number x below 1e9 in size and every number of digits from one to six, DecimalToFraction returns a fraction with the sign of x, a denominator of at most the digits given and a numerator of at most the digits given (unless the whole part alone has more), equal to x where such a fraction is (up to four digits), and otherwise off by less than one over the denominator times ten to the digits of the denominator (or x over ten to the digits of the numerator). DecimalToWholeFraction returns the whole part of x, and such a fraction for the size of the rest. For every RK value, IsInteger tells whether it is stored as a plain integer, Int (if so) or Float64 (if not) returns exactly the number it encodes, and String shows that number.",
  ["inputs"], "all numbers below 1e9 and digit counts, all RK values",
  "TestFractions (two dozen numbers, one and two digits) and no test of RK values at all.",
  ["commonxl/numbers.go","xls/structs.go"],
  [("continued fractions","commonxl/numbers.go DecimalToFraction"),("RK decoding","xls/structs.go RKNumber")],
  ["the results of the exported functions"])

p("C26", "Conversions between cell types and their order keep the values",
  "For every value of a supported Go type (numbers finite) and every cell type, NewCellWithType returns a cell of the type asked for, or one of the type the value has anyway, and the Go type of its value fits its cell type: numbers converted between integer and float keep exactly their value (a fraction stays a float), numbers become booleans by being zero or not, booleans become 1 and 0 or TRUE and FALSE, text that is a number becomes that number, the words listed in boolStrings become their boolean, other text that cannot be converted stays as it is, values converted to text read as General shows them, numbers converted to dates give the date in the date system of the Formatter, dates and blanks stay what they are otherwise. Less is a strict order on numeric and boolean cells (booleans count as 0 and 1) and on date cells that agrees exactly with the values, for integers beyond 2^53 too.",
  ["inputs"], "all values of the supported types, all cell types, all pairs of numbers, booleans and dates",
  "No test calls NewCellWithType or Less; number formats convert cells by them.",
  ["commonxl/cell.go","commonxl/fmt.go","commonxl/dates.go"],
  [("conversion","commonxl/cell.go NewCellWithType"),("order","commonxl/cell.go Less/Equal")],
  ["the cells returned by commonxl.NewCellWithType; Cell.Less, Cell.Equal"])

p("C27", "Formatters keep what was added, refuse the rest, and do not affect each other",
  "After any history of Add, Mode1904, Get and Apply on any number of Formatters, each of them shows a value under an id exactly as a new Formatter with the same date system would that has only the first format added under this id (or none, for ids nothing was added to). Adding a format to a built-in id (other than the localized 41 to 44) or to an id that has one already is refused, and a refused Add changes nothing; Get and Apply report an id as known exactly if it is built in or was added, and show values of unknown ids as General does. Functions returned by Get stay valid, and nothing done with one Formatter shows in another.",
  ["histories"], "all histories of operations on several Formatters, all ids",
  "The tests use one Formatter, and apply each format right after adding it.",
  ["commonxl/formats.go","commonxl/fmt.go","commonxl/parse.go","commonxl/dates.go"],
  [("registry","commonxl/formats.go Add/Get/Apply/Mode1904"),("compiled formats","commonxl/formats.go makeFormatter")],
  ["commonxl.Formatter Add, Get, Apply, Mode1904"])

p("C28", "Reading leaves the file system as it was, and does not depend on it later on",
  "Opening, reading and closing any file, valid or damaged, by any path to it (absolute, relative, with dots, through symbolic or hard links), leaves the contents, names, modes and modification times of the file, of its folder, of the working directory and of the folder for temporary files as they were, and leaves nothing behind in them. What an open workbook returns does not depend on the path it was opened by (a name made from the path apart), and stays the same when, while it is open, its file is renamed, removed or replaced by another one of that name, or the working directory changes.",
  ["inputs","histories"], "all files, paths to them, and points in the life of an open workbook at which the file or the working directory changes",
  "The tests open files by one relative path, and never look at the folders or change them while reading.",
  ["grate.go","xls/cfb/cfb.go","xlsx/xlsx.go","xlsx/workbook.go","simple/csv.go","simple/tsv.go"],
  [("opening files","os.Open and zip.OpenReader in xls/cfb, xlsx, simple"),("parts read on demand","xlsx/xlsx.go openXML")],
  ["the directory trees around the file, before and after; all that is read in between"])

p("C29", "The cost of reading grows in proportion to the content",
  "For well-formed files of every format, opening and reading all of a file costs memory and time in proportion to its content: with eight times as many rows, columns, texts, formatting runs, formula results, merged ranges, links, formats, styles, sheets, streams, sectors, unknown records or fields, or with texts eight times as long, no more than about eight times the bytes are allocated and eight times the CPU time is used (within a factor of two for bytes and three for time), never the square of it (a search for the name of a sheet through their list apart).",
  ["inputs"], "all well-formed files, by what they have much of",
  "The tests read small files only, once, and measure nothing.",
  ["xls/xls.go","xls/strings.go","xls/sheets.go","xls/cfb/cfb.go","xls/cfb/slicereader.go","xlsx/workbook.go","xlsx/sheets.go","simple/csv.go","simple/tsv.go","commonxl/sheet.go"],
  [("shared strings","xls/strings.go, xlsx/workbook.go"),("cell grid growth","commonxl/sheet.go Resize/Put"),("sector chains","xls/cfb/cfb.go")],
  ["bytes allocated and CPU time of complete readings through the public API"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
