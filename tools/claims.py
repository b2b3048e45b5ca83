# What each built check does; a property without an entry here is not claimed yet.
T.update({
 "C01": "runtime oracle: differential monitor of grate.Open on randomly serialised XLSX packages against the model they were written from",
 "C02": "runtime oracle: differential monitor of grate.Open on randomly encoded BIFF8 workbooks against the model they were written from",
 "C03": "runtime oracle: character-exact text monitor on reads of workbooks whose strings are split, widened, and decorated at random places",
 "C04": "runtime oracle: differential monitor of the XLS reader against the XLSX reader on the same workbook",
 "C07": "runtime oracle: marker monitor comparing every cell of a sheet with the marker map computed from its merged ranges",
 "C08": "runtime oracle: link monitor on reads of workbooks with every link encoding, checking link cells and all others",
 "C09": "runtime oracle: accessor consistency monitor with Scan canaries on every row read",
 "C10": "runtime trace checker over random interleavings of List, Get, Next and reads",
})
T.update({
 "C05": "runtime oracle: text monitor with exact rational arithmetic over random format codes and numbers, directly and through both file formats",
 "C06": "runtime oracle: date monitor with independent Gregorian arithmetic, all day serials and seconds swept, random format codes",
})
NOTE = {
 "C05": "No violation over all built-in numeric formats and thousands of random format codes with hard numbers; the section grammar of the statement only.",
 "C06": "Every whole-day serial of both systems and every second is observed; sub-second instants and format codes are sampled.",
 "C01": "No violation among thousands of generated packages covering all cell kinds and layouts; trusts the independent writer and model. Not exhaustive.",
 "C02": "No violation among thousands of generated BIFF8 files covering all cell records, encodings and noise; trusts the independent writer and model. Not exhaustive.",
 "C03": "No violation among thousands of generated workbooks with every split position class, both widths, runs and phonetic data; trusts the writer. Not exhaustive.",
 "C04": "No violation among thousands of workbooks stored in both formats; every accessor compared; links and numeric-looking text under number formats excluded.",
 "C07": "No violation among thousands of sheets with random disjoint ranges of all sizes in both formats. Not exhaustive.",
 "C08": "No violation among thousands of generated sheets over all moniker kinds and relationship forms. Not exhaustive.",
 "C09": "No violation over every accessor, destination type and format on generated rows. Not exhaustive.",
 "C10": "No violation over random operation histories on up to several live collections per source. Not exhaustive.",
}

T.update({
 "C11": "runtime oracle: byte-exact stream monitor on compound files laid out at random, every listed stream opened and compared",
 "C12": "runtime oracle: lock-step monitor of SliceReader against a reader over the concatenated bytes on random operation sequences",
 "C13": "runtime oracle: differential monitor of encrypted workbooks against their plain originals, decryptor against an independent RC4 with random write splits",
 "C14": "runtime oracle: field-exact monitor of TSV and CSV reads against the table that was written",
})
NOTE.update({
 "C11": "No violation over thousands of compound files of every layout class (both sector sizes, DIFAT chains, fragmented chains, boundary sizes). Not exhaustive.",
 "C12": "No violation over tens of thousands of random read and seek histories. Not exhaustive.",
 "C13": "No violation over thousands of encrypted workbooks, wrong passwords, unsupported schemes and write splits. Not exhaustive.",
 "C14": "No violation over thousands of generated tables; one known finding (CR LF inside a quoted CSV field is read as LF).",
})
T.update({
 "C15": "runtime oracle: outcome monitor on generated files of every kind, and trace checker over call logs of generated opener registries in fresh processes",
 "C16": "runtime monitor: supervised worker processes watching panics, CPU time and allocation while corrupted XLS files are opened and read",
 "C17": "runtime monitor: supervised worker processes watching panics, CPU time and allocation while corrupted XLSX and text files are opened and read",
 "C18": "runtime oracle: completeness monitor comparing every read of a cut file with the read of the complete file",
})
NOTE.update({
 "C15": "No violation over thousands of files of every kind and generated opener tables. Equal priorities are left unspecified. Not exhaustive.",
 "C16": "No violation over hundreds of thousands of field-aware, record, sector and byte corruptions. Not exhaustive.",
 "C17": "No violation over hundreds of thousands of part, tag, attribute, text and byte corruptions and hostile text files. Not exhaustive.",
 "C18": "No violation over every cut position class (file, sector chain, record, part, declared size) of thousands of files; full prefix sweeps of some. Not exhaustive.",
})
T.update({
 "C19": "Go race detector over concurrent and interleaved use of sources with injected yields, sleeps and collections, plus result monitor against readings in processes of their own",
 "C20": "runtime monitor: census of /proc/self/fd and goroutines, garbage collection off, around random histories of opens, failures, reads and closes",
 "C21": "offline trace checker over the stats file and result tree of real grate2tsv runs (race build included)",
 "C22": "runtime oracle: reference-model monitor of the cell grid over random operation histories, exact rational arithmetic for comparisons",
})
NOTE.update({
 "C19": "No race report and no changed result over thousands of observed schedules and histories. Only the schedules that ran.",
 "C20": "No descriptor or goroutine left over hundreds of thousands of failed opens and closes, no descriptors included. Not exhaustive.",
 "C21": "No violation over thousands of runs with 1 to 8 CPUs, both builds and all flags. Only the schedules that ran.",
 "C22": "No violation over tens of thousands of operation histories with all supported types. Not exhaustive.",
})
T.update({
 "C23": "runtime oracle: transcript monitor comparing real grater runs with the rows the readers give for each file",
 "C24": "runtime oracle: differential monitor of full readings with grate.Debug off and on",
})
NOTE.update({
 "C23": "No violation over thousands of runs with valid, damaged and missing inputs under a small descriptor limit. Not exhaustive.",
 "C24": "No violation over thousands of valid and damaged files of all formats. Not exhaustive.",
})

T["C25"] = "runtime oracle: fraction and RK helpers observed on generated numbers against exact rational arithmetic"
NOTE["C25"] = "No violation over millions of numbers and RK values. Not exhaustive."
T["C26"] = "runtime oracle: conversions and comparisons of cells observed on generated values against exact rational arithmetic"
NOTE["C26"] = "No violation over millions of conversions and ordered pairs. Not exhaustive."
T["C27"] = "runtime trace monitor: random histories on several Formatters against new Formatters with the one format"
NOTE["C27"] = "No violation over tens of thousands of histories. What a single format shows is left to C05 and C06."
T["C28"] = "runtime monitor: directory trees before and after each reading, reading compared while the file is moved, removed or replaced"
NOTE["C28"] = "No violation over thousands of files, paths and changes of the file system. POSIX semantics assumed."
T["C29"] = "runtime monitor: bytes allocated and CPU time of complete readings of n and 8n of everything"
NOTE["C29"] = "No superlinear cost over about sixty shapes of files up to a few MB; a square with a very small factor is not seen at these sizes."
