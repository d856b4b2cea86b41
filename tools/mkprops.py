#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the prose lives here so that it can be diffed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

CD, BK, SH, FM, FL, BH, IN = ("xlrd/compdoc.py", "xlrd/book.py", "xlrd/sheet.py", "xlrd/formatting.py",
                              "xlrd/formula.py", "xlrd/biffh.py", "xlrd/__init__.py")

p("C01", "Storage layout of the container never changes what is read",
  """For one workbook stream, open_workbook returns the same sheets, cells, names and formatting however the
  OLE2 container stores it: any sector order and fragmentation, sector and mini-sector size, ordinary or
  mini-stream storage, allocation tables reached through header and extension sectors with unused entries in
  between, free sectors, extra streams, stream-name case, any directory tree shape, and a last sector that is
  padded or cut at the end of the data; a stream with no container around it reads the same too.""",
  ["inputs", "histories"],
  "every allocation history a storage writer can produce for the same stream",
  "The tests open a dozen files that Excel happened to lay out; none has an allocation-table extension, and each fixes one layout.",
  [CD, BK],
  [("header, MSAT/MSATX, SAT, directory, SSCS/SSAT construction", "compdoc.py CompDoc.__init__"),
   ("chain following, contiguous fast path and fragment join", "compdoc.py _locate_stream, _get_stream"),
   ("stream choice and base offset", "book.py Book.biff2_8_load")],
  ["open_workbook", "Book", "Sheet"],
  [("allocation table", "next sector for every sector", "CompDoc.SAT/SSAT"), ("seen", "which stream claimed a sector", "CompDoc.seen")])

p("C02", "Splitting text across continuation records never changes it",
  """Every string a BIFF8 file holds (shared strings with or without rich-text runs and phonetic data, string
  formula results, cell comments) and every multi-record list (external sheet references, sheets of other workbooks, old-style comments)
  is read back exactly, code point for code point and run for run, wherever the writer broke it across
  CONTINUE records and whichever pieces it stored as one or two bytes per character.""",
  ["inputs", "histories"],
  "every legal placement of record boundaries and every choice of compressed or uncompressed pieces",
  "Test files contain the handful of splits Excel made at 8224 bytes; boundaries inside runs, phonetic blocks, surrogate pairs or at width changes are never met.",
  [BK, SH, BH],
  [("shared string table assembly", "book.py handle_sst, unpack_SST_table"),
   ("STRING/CONTINUE assembly", "sheet.py string_record_contents"),
   ("TXO text and runs, NOTE continuation", "sheet.py handle_txo, handle_note"),
   ("EXTERNSHEET continuation", "book.py handle_externsheet")],
  ["Sheet.cell_value", "Sheet.rich_text_runlist_map", "Sheet.cell_note_map", "Book.name_map"])

p("C03", "Cells read back exactly, in whatever order their records arrive",
  """Every cell stored in a BIFF 2 to 8 worksheet is reported with exactly its stored value (bit-exact numbers)
  and its right type (text, number, date by its number format, boolean, error, and with formatting_info blank),
  for every record kind that can carry it, whatever the row and column order in which records arrive, with the
  last arrival winning, and whatever records without cell data are interleaved. Sheet extents and row
  lengths are exactly those implied by the cells, padded or ragged as requested.""",
  ["inputs", "histories"],
  "every arrival order and interleaving of cell records over all supported versions and open options",
  "Tests read rows in ascending order from a few BIFF8 files; out-of-order arrival, overwrites, BIFF2-5 records and format-dependent typing in every option combination are not sampled.",
  [SH, FM, BK],
  [("record dispatch", "sheet.py Sheet.read"), ("grid growth", "sheet.py put_cell_ragged, put_cell_unragged, tidy_dimensions"),
   ("number/date decision", "formatting.py handle_format, handle_xf, xf_epilogue"), ("RK decoding", "sheet.py unpack_RK")],
  ["Sheet.cell", "Sheet.row", "Sheet.row_len", "Sheet.nrows", "Sheet.ncols"],
  [("grid", "types, values and xf indexes per row", "Sheet._cell_*"), ("_first_full_rowx", "rows known to be full width", "Sheet")])

p("C04", "How the bytes are delivered never changes the result",
  """The same file content gives the same Book whether it is passed as a path read with or without memory
  mapping, as bytes, as an mmap object or as any bytes-like object (length, slicing, buffer protocol), in eager or on-demand mode, and
  however the operating system chops the reads it serves (short reads, interrupted reads). inspect_format agrees
  between path and content.""",
  ["schedules", "configurations", "inputs"],
  "every delivery route and every legal sequence of read sizes the OS may return",
  "Tests open each file through one route and the real page cache never returns a short read.",
  [BK, IN, CD],
  [("file loading", "book.py Book.biff2_8_load"), ("format sniffing", "__init__.py inspect_format"), ("slice-only access to mem", "compdoc.py, book.py")],
  ["open_workbook", "inspect_format"])

p("C05", "A failing system call surfaces as itself and never yields a partial Book",
  """If any open, seek, read, map or allocation fails while a workbook is opened or its format inspected, the
  caller gets exactly that failure as the exception (or, if the library retried or did without, the complete correct result): never
  a partial or different Book, never a different diagnosis that hides it. Repeating the call after the fault has gone succeeds and gives
  the correct result.""",
  ["fault_sequences", "crash_points"],
  "every system call the open path makes crossed with every error it can return",
  "No test injects an I/O or memory error.",
  [BK, IN],
  [("load and error path", "book.py open_workbook_xls, Book.biff2_8_load"), ("inspection", "__init__.py inspect_format")],
  ["open_workbook", "inspect_format"])

p("C06", "Files and mappings are released at the documented moment, on every path",
  """When open_workbook returns in eager mode, when it raises (from bad content, a failing system call or an
  asynchronous interrupt), when release_resources is called or a with block is left, and when inspect_format, dump or count_records
  return or raise, xlrd holds no open file descriptor and no mapping of the file (if an interrupt strikes while a file is just being opened, closed or
  handed over, no later than when the exception has been dropped). An mmap handed in is never closed by inspect_format, only by open_workbook or by a
  release of its Book. Releasing is idempotent, and already loaded sheets stay fully readable after it.""",
  ["crash_points", "fault_sequences", "histories"],
  "every point at which opening or loading can be cut short, and every order of release, use and exit",
  "Tests check two scenarios (normal exit, one invalid file) on one platform and never look at the descriptor or mapping tables.",
  [BK, IN],
  [("release", "book.py Book.release_resources, __exit__"), ("bare except in open", "book.py open_workbook_xls"), ("inspection and dump", "__init__.py")],
  ["/proc/self/fd", "/proc/self/maps", "Book.release_resources", "Book.__exit__"],
  [("mem/filestr", "the mapping or byte string being parsed", "Book")])

p("C07", "A truncated file is refused or read exactly, never read wrongly",
  """If the file ends early at any byte (a download or copy cut short, a tail never written), opening it either
  raises an exception or returns exactly the workbook that was written: no cell, string, sheet or formatting
  differs or goes missing silently.""",
  ["crash_points"],
  "every length at which a write of the file can have stopped, for every container layout",
  "Tests hold two or three damaged files; the number of cut points is the file size times the layouts.",
  [CD, BK, SH],
  [("chain length checks", "compdoc.py _locate_stream, _get_stream"), ("record framing and EOF records", "book.py get_record_parts, sheet.py Sheet.read")],
  ["open_workbook"])

p("C08", "Damaged bytes cause an ordinary error or a Book, within bounded work",
  """Whatever bytes of a workbook file are damaged (flipped bits, overwritten or zeroed blocks, swapped or repeated sectors), opening and
  loading it ends after work bounded by the file size and the sheet area it declares, with either a Book or an
  ordinary Exception; it never hangs, never raises a non-Exception, leaves nothing on stdout or stderr, and leaves the process
  able to open the next, undamaged workbook correctly.""",
  ["fault_sequences", "inputs"],
  "every damage pattern applied to the stored bytes",
  "Tests include two corrupt files; neither endless chains nor state left behind for the next file is examined.",
  [CD, BK, SH, FM],
  [("cycle detection", "compdoc.py seen[]"), ("error path", "book.py open_workbook_xls"), ("module and class state", "formatting.py initialise_book")],
  ["open_workbook", "stdout/stderr", "next open_workbook"])

p("C09", "A damaged allocation structure is refused, not read through",
  """If the sector chain of the directory, of the mini-stream, of the mini-sector table or of the workbook stream is circular, leaves
  the file, or runs through a sector that already belongs to the allocation tables, the directory, the mini-stream, the mini-sector table or itself, if
  the list of allocation tables runs in a circle, off the file, or names a sector twice, or if the chain of a
  workbook stream stored in ordinary sectors is shorter or longer than the recorded length, open_workbook raises an exception; a mini-stream or
  mini-sector chain of the wrong length is refused unless the workbook still reads exactly (a mini-stream chain of the wrong length may instead be
  announced by a warning in the log). Only ignore_workbook_corruption=True lets a workbook chain
  that shares sectors with another structure be read, and then the data read is what the chain spells.""",
  ["fault_sequences", "inputs"],
  "every single mis-written entry of the allocation tables, directory and header that damages one of these chains",
  "One cross-linked file is tested, with the option on.",
  [CD],
  [("seen[] bookkeeping", "compdoc.py CompDoc.__init__, _get_stream, _locate_stream"), ("length checks", "compdoc.py _locate_stream")],
  ["open_workbook"])

p("C10", "On-demand loading is indistinguishable from eager loading over any history",
  """Under every sequence of listing, testing, loading (by index, name, iteration, or all at once), unloading, reloading, failing lookups and
  releasing, an on-demand Book gives the same sheet contents as an eager one, reports as loaded exactly the
  sheets that are, keeps handing out the same Sheet object until it is unloaded, leaves previously obtained sheets intact, and after release refuses to
  load more with XLRDError while loaded sheets remain available.""",
  ["histories"],
  "every sequence of lifecycle operations on one Book",
  "Tests make one or two on-demand calls; no sequence is checked against a model.",
  [BK, SH],
  [("sheet table", "book.py sheets, sheet_by_index, get_sheet, unload_sheet, sheet_loaded"), ("release flag", "book.py release_resources"), ("position save/restore", "sheet.py Sheet.read")],
  ["Book.sheets", "Book.sheet_by_index", "Book.sheet_by_name", "Book.sheet_loaded", "Book.unload_sheet", "Book.release_resources"],
  [("_sheet_list", "loaded sheets or None", "Book"), ("_position", "shared stream cursor", "Book")])

p("C11", "A failed or interrupted sheet load leaves the Book usable",
  """If loading a sheet on demand is cut short at any point by an I/O error, a memory error or an asynchronous
  interrupt, the exception reaches the caller, the sheet is reported as loaded only if it is complete, every other sheet and all book-level data are unaffected, and
  loading the same sheet again gives the complete correct sheet.""",
  ["crash_points", "fault_sequences", "histories"],
  "every point inside a sheet load at which an exception can arise, at any moment of the Book's life",
  "No test interrupts a load.",
  [BK, SH],
  [("publish after read", "book.py get_sheet"), ("cursor restore", "sheet.py Sheet.read, book.py get_sheet")],
  ["Book.sheet_loaded", "Book.sheet_by_index"],
  [("_position", "shared stream cursor", "Book"), ("_sheet_list", "published sheets", "Book")])

p("C12", "Books are independent of each other under any thread interleaving",
  """When several threads each open, load and read their own workbooks (different versions, options and encodings, or the very same file),
  every thread gets exactly the result it would get alone, whatever the interleaving, and whether or not another
  thread's open fails, is interrupted or is abandoned half way, and whatever a thread does to the objects its own Books hand out: a Book and what it
  shows (names, fonts, formats, colours, sheets, cells) shares no mutable object with another Book.""",
  ["schedules", "histories"],
  "every interleaving of the steps of concurrent opens and loads",
  "All tests are single-threaded and open one book at a time.",
  [BK, SH, FM, FL, BH],
  [("per-instance state vs class attributes and module tables", "book.py Book class attributes, formatting.py initialise_book, formula.py tables")],
  ["open_workbook", "Book", "Sheet"],
  [("class-level defaults and installed methods", "shared between all Books", "Book, formatting.initialise_book")])

p("C13", "Replacing the file while it is open or being opened never mixes versions",
  """If another process atomically replaces the file (rename over it, or unlink) at any moment during inspection, opening or later sheet loads,
  every Book shows exactly one version of the file throughout, an already opened on-demand Book keeps showing the version it was opened on,
  and the next open sees the new file.""",
  ["schedules", "histories"],
  "every interleaving of replacements with the reader's system calls and the caller's later operations",
  "Tests never modify a file while it is being read.",
  [BK, IN],
  [("one descriptor per load, mapping kept for demand loads", "book.py Book.biff2_8_load"), ("separate inspection open", "__init__.py open_workbook")],
  ["open_workbook", "Book.sheet_by_index"])

p("C14", "Diagnostics never change results and never leave the log file",
  """For every workbook, the results are the same at every verbosity and with any writable text log file, and on files xlrd accepts all diagnostics go to
  the log file given: nothing is written to stdout or stderr. If the log file itself fails, that failure
  surfaces as the exception and resources are released, or the result is complete and correct.""",
  ["configurations", "fault_sequences"],
  "every verbosity and sink, and a failure of any single log write",
  "Tests pass verbosity only to read it back; no test has a failing log file or watches stdout.",
  [BK, SH, FM, FL, CD, BH],
  [("logfile plumbing", "every module's fprintf/print(file=logfile)")],
  ["open_workbook(logfile, verbosity)", "sys.stdout", "sys.stderr"])

p("C15", "Reading is pure: queries agree with each other and change nothing",
  """On a loaded sheet, cell, cell_value, cell_type, row, row_values, row_types, row_slice, col, col_values, col_types, col_slice, get_rows, iteration
  and indexing all describe the same grid, with Python's slice conventions for negative and open bounds; repeating any sequence of
  queries, in any order, gives the same answers; lists returned to the caller (cell lists, sheet lists, sheet names)
  can be modified without affecting any later answer.""",
  ["histories"],
  "every sequence of read operations with every argument in and around the valid range",
  "Tests call each accessor once with in-range arguments.",
  [SH, BK],
  [("accessors", "sheet.py Sheet.cell .. col_types"), ("defensive copies", "book.py sheets, sheet_names; sheet.py slices")],
  ["Sheet accessors", "Book accessors"])

p("C16", "Formatting and annotations are reported as stored",
  """With formatting_info=True, for BIFF 3 to 8, fonts, number formats, extended formats with all their alignment, border, background and protection fields, styles, palette,
  row and column information, merged ranges, rich-text runs, comments, hyperlinks, page breaks, panes, zoom and window
  flags are each reported exactly as the file stores them and attached to the right cell, row, column or sheet, whatever the order
  in which those records arrive where the format leaves it open.""",
  ["inputs", "histories"],
  "every stored value of those records and every admissible arrival order",
  "Tests compare a few dozen fields of two sample files.",
  [FM, SH, BK],
  [("FONT/FORMAT/XF/STYLE/PALETTE decoding", "formatting.py handle_*"), ("sheet-level records", "sheet.py Sheet.read, handle_hlink, handle_note, handle_obj, handle_txo")],
  ["Book.font_list", "Book.format_map", "Book.xf_list", "Book.style_name_map", "Book.colour_map", "Sheet.*_map", "Sheet.cell_xf_index"])

p("C17", "Files xlrd does not support are identified and refused as such",
  """inspect_format names the kind of every file (xls, xlsx, xlsb, ods, other zip, unknown) from its content alone, the same for path and content; open_workbook refuses xlsx, xlsb, ods and zip content with an
  XLRDError naming the kind, and refuses encrypted workbooks, empty files, compound files without a workbook, workspaces, and non-spreadsheet data with XLRDError, leaving no
  file open. A path means the same file to open_workbook as to inspect_format, including a leading '~'.""",
  ["inputs", "configurations", "fault_sequences"],
  "every such content, member order and path form, also with the file changing kind between calls",
  "Five sample files are inspected from one directory.",
  [IN, BK, CD],
  [("signature and zip member sniffing", "__init__.py inspect_format"), ("refusal", "__init__.py open_workbook, book.py getbof, handle_filepass")],
  ["inspect_format", "open_workbook"])

p("C18", "dump and count_records account for every record of the stream",
  """dump writes every byte of every record of the workbook stream, in order and at its right offset, and count_records reports each
  record kind with its exact number of occurrences, for every well-framed stream in any container layout; the two agree with each other. If
  the output file fails at any write, that failure surfaces and the input file is released.""",
  ["inputs", "fault_sequences"],
  "every record sequence and layout, and a failure of any single output write",
  "No test runs dump or count_records.",
  [BH, IN],
  [("record walk", "biffh.py biff_dump, biff_count_records, hex_char_dump"), ("entry points", "__init__.py dump, count_records")],
  ["xlrd.dump", "xlrd.count_records"])

p("C19", "Results depend only on the file and the options, not on the process",
  """The same file opened with the same options gives an identical Book (values, types, names, formatting, order of every list and mapping) in
  every process: under any string-hash seed, locale, time zone, current directory, wall-clock time, interpreter optimisation level and
  memory layout, and no matter which workbooks the process opened before, successfully or not.""",
  ["configurations", "histories"],
  "every process environment and every preceding history of opens",
  "Tests run once in one environment, each file on its own.",
  [BK, SH, FM, FL, BH],
  [("no global mutable state, no environment lookups", "all modules")],
  ["open_workbook"])

p("C20", "Reported load times match the clock for every load",
  """After open_workbook returns, load_time_stage_1 and load_time_stage_2 are non-negative, their sum is no more than the
  whole call took and no less than loading and parsing took, and time spent obtaining the file image is charged to stage 1 and time spent parsing it
  to stage 2, however slow the storage is in either phase, and unaffected by wall-clock jumps.""",
  ["schedules", "configurations"],
  "every distribution of delays over the I/O and parsing steps of a load and every wall-clock step",
  "Tests never look at the timings; on a real machine delays cannot be placed.",
  [BK],
  [("t0/t1/t2", "book.py open_workbook_xls")],
  ["Book.load_time_stage_1", "Book.load_time_stage_2"])

p("C21", "Defined names resolve to the right cells at any time in a Book's life",
  """For BIFF 5 to 8, every defined name keeps its text, scope (global, sheet-local by index counting all sheet kinds, macro) and formula, the text of its result means that formula (no operand, operator, function or needed parenthesis is lost or changed; array constants, lost references and functions newer than Excel 2003 may be left out), the result of a constant formula is its value, that of a relative reference its offsets and that of references joined by union, range or intersection (all on one sheet, equally absolute or relative) the combined areas, name_map and
  name_and_scope_map find it case-insensitively in scope order, and a name for one cell or area returns, through cell() and area2d(), that cell or area of
  that sheet, clipped to the sheet when asked; on-demand Books load the sheet needed whatever was loaded or unloaded before, and names that do not denote
  a single cell or area raise XLRDError.""",
  ["histories", "inputs"],
  "every arrangement of sheets, references and lifecycle operations before a name is used",
  "Tests use three sample files in eager mode.",
  [BK, FL],
  [("NAME/EXTERNSHEET/SUPBOOK decoding and scope mapping", "book.py handle_name, names_epilogue, handle_externsheet, handle_supbook"),
   ("reference evaluation", "formula.py evaluate_name_formula, get_externsheet_local_range*"), ("resolution", "book.py Name.cell, Name.area2d")],
  ["Name.cell", "Name.area2d", "Book.name_map", "Book.name_and_scope_map"])

p("C22", "Damage inside one sheet does not reach the others",
  """If only the bytes of one worksheet's substream are damaged, an on-demand Book of a BIFF 5 to 8 file still opens and every other sheet, and all
  book-level data (country codes that only the sheets record aside), read exactly as in the undamaged file, whatever was tried on the damaged sheet before, between or after; and every
  attempt to load the damaged sheet ends in the same way: refused and not reported as loaded, or read with the same contents.""",
  ["fault_sequences", "histories"],
  "every damage pattern confined to one sheet and every order of load attempts",
  "No test damages one sheet of a multi-sheet file.",
  [BK, SH],
  [("per-sheet offsets and substreams", "book.py get_sheet, handle_boundsheet"), ("sheet-only state", "sheet.py Sheet.read")],
  ["Book.sheet_by_index", "Book.sheet_by_name"])

p("C23", "A compound document hands out every stream whole, as often as asked",
  """CompDoc.get_named_stream and locate_named_stream give exactly the bytes stored for every stream of a compound document, named by its path in any
  letter case, in ordinary or mini-sectors, at the top or inside a storage, whatever was asked for before, in any order, however often, and after requests that were cut short by an
  exception; a path that is no stream (absent, a storage, something below a stream) gives None or (None, 0, 0). Where the sector chains of some streams are broken, asking for
  those raises, or get_named_stream warns in the log file and gives the first part of the stream, never other bytes, and all other streams are still given exactly; with a file that
  ends early a request raises or gives the first part of the stream.""",
  ["histories", "fault_sequences", "inputs"],
  "every layout, every history of requests with cuts, every set of broken chains",
  "No test asks a CompDoc for anything but the workbook stream, once.",
  [CD],
  [("directory search", "compdoc.py _dir_search"), ("chain following and the marks of visited sectors", "compdoc.py _get_stream, _locate_stream")],
  ["CompDoc.get_named_stream", "CompDoc.locate_named_stream"],
  [("seen", "which structure each sector was met in", "compdoc.py CompDoc")])

p("C24", "runxlrd.py reports every file exactly, whatever the others are like",
  """Given any files and glob patterns, scripts/runxlrd.py prints one section for each existing file, in the order given. show lists every cell of every sheet (2rows and 3rows: the
  first one or two rows and the last), with its position, type and value (dates as tuples, error texts) and with -f1 its XF index; ov, hdr, bench, xfc, names, name_dump, fonts and labels
  report the sheets, counts, names, fonts and label ranges (with the contents of each cell in them, empty where there is none) the file holds; -s restricts this to one sheet. The same
  is printed whatever -m, -d, -g, -t, -v with -l say. A file that cannot be opened, for whatever reason (not a workbook, damaged, encrypted, empty, a directory, a failing
  system call), is reported as "*** Open failed" with the exception, and all other files are reported as if they were alone; an interrupt of an open ends the script with a non-zero exit code.
  biff_dump and biff_count print exactly what dump and count_records write. An unknown command is reported and ends the script with a non-zero exit code.""",
  ["inputs", "fault_sequences"],
  "every set of files, every command and option, every failing system call",
  "No test runs the script.",
  ["scripts/runxlrd.py", "xlrd/__init__.py"],
  [("commands and the loop over files", "runxlrd.py main, show, show_row, get_row_data, show_names, show_labels, count_xfs")],
  ["standard output and exit code of runxlrd.py"])

# ---- properties the technique does not decide (listed under not_applicable)
p("P01", "Excel date numbers convert exactly in both date systems",
  """xldate_as_tuple and xldate_as_datetime invert xldate_from_date_tuple and xldate_from_datetime_tuple over the whole supported range in
  both date systems, and reject ambiguous, negative, too large or bad-datemode inputs with the documented exception.""",
  ["inputs"], "every date number and tuple in both date systems", "Tests sample a few dozen dates.",
  ["xlrd/xldate.py"], [("calendar arithmetic", "xldate.py")], ["xldate_as_tuple", "xldate_as_datetime"])
p("P02", "Formula bytes decompile and evaluate to what they mean",
  """For every token sequence Excel can store in a defined name, the textual form and the evaluated result agree with Excel's meaning of the formula.""",
  ["programs"], "every formula", "Tests evaluate the names of one sample file.",
  [FL], [("evaluate_name_formula, decompile_formula", "formula.py")], ["Name.result"])
p("P03", "Cell and range names are exact inverses of row and column indexes",
  """colname, cellname, cellnameabs and rangename forms denote exactly the given indexes for every row and column.""",
  ["inputs"], "every row and column index", "Tests check a few cells.",
  [FL, BK], [("colname, cellname, rangename3d", "book.py, formula.py")], ["colname", "cellname"])
p("P04", "Date-format detection classifies every number format string as Excel does",
  """Every number format string is classified as a date format exactly when Excel would display a number in it as a date or time.""",
  ["inputs"], "every format string", "Tests check a few strings.",
  [FM], [("is_date_format_string", "formatting.py")], ["Format.type"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
