prop("P01", "Internal database objects behave as byte arrays across writes and resizes",
 "Reading any range of an internal database object, in every writable storage version and page size, returns exactly the bytes obtained by replaying the history of whole-object writes, ranged writes, stream writes and length changes made to it. Bytes not touched by an operation keep their value and truncation drops exactly the tail. The same bytes are returned before flushing, after flushing and after closing and reopening the file.",
 ["histories", "configurations"], "all histories of writes, growths, shrinks, flushes and reopens; formats 8.2.14 and 8.3.8 with 4K-64K pages; lengths on both sides of every page and allocation-table boundary",
 "The tests only open fixed databases and never write an object; boundary lengths and resize sequences are unreachable by samples.",
 [S+"V8Object.cpp", S+"MemBlock.cpp", S+"Class_1CD.cpp"],
 [("ranged/whole/stream write and read", S+"V8Object.cpp set_data/get_data"), ("length change", S+"V8Object.cpp set_len"), ("page cache", S+"MemBlock.cpp")],
 [("object length and page table", "what part of the file an object owns", S+"V8Object.h")], ["bytes returned by reads", "file contents after flush"])
prop("P02", "Every page of a database file has one owner and the page count is right",
 "After any history of object writes, growths, shrinks and releases followed by a flush, every page of the file belongs to at most one of the header, the free-page list, or one internal object (its root, allocation tables or data). A released page is never still in use by a live object and is never handed out twice, and in the formats whose free list is known no page is lost. The page count in the file header equals the number of pages in the file.",
 ["histories", "configurations"], "all histories of object resizes and releases over several objects, both storage formats",
 "No test allocates or frees a page; double ownership appears only for particular grow/shrink orders.",
 [S+"V8Object.cpp", S+"Class_1CD.cpp", S+"MemBlock.cpp"],
 [("free list push/pop", S+"V8Object.cpp set_block_as_free/get_free_block"), ("file growth", S+"Class_1CD.cpp get_block_for_write")],
 [("free page list", "pages available for reuse", "page 1 of the file"), ("page count", "number of pages", "page 0 of the file")], ["the flushed file, parsed independently"])
prop("P03", "A database that is only read, or opened read-only, is never modified",
 "Every listing, dump, export and test operation of the tool leaves the database file byte-for-byte unchanged. When a database is opened without exclusive access, every attempt to change an object is refused with an error and the file stays unchanged.",
 ["inputs", "histories"], "all databases and all sequences of reading commands; all write entry points on a read-only database",
 "Tests compare outputs, never the database file before and after, and never try a write on a read-only database.",
 [S+"Class_1CD.cpp", S+"V8Object.cpp", "src/ctool1cd/cTool_1CD_Main.cpp"],
 [("read-only flag", S+"Class_1CD.cpp open"), ("write guards", S+"V8Object.cpp set_data")], [], ["database file bytes", "errors from write calls"])
prop("P04", "Only structurally valid databases are opened, and are described correctly",
 "Opening a file succeeds only if it carries the database signature, a supported storage version, a page size that version allows, a length that is a whole number of pages and a header page count equal to that number; otherwise opening reports an error. A file with only some of the service tables of an infobase or of a repository is refused. For a valid database the reported storage version, page size, locale and list of tables are those stored in the file.",
 ["inputs", "configurations"], "all combinations of signature, version, page size, page count, file length and table list",
 "Tests only open valid sample databases.",
 [S+"Class_1CD.cpp", S+"V8Object.cpp"], [("header validation", S+"Class_1CD.cpp open")], [], ["open result", "reported version, page size, locale, tables"])
prop("P05", "Long values are read back exactly, and broken chains are reported",
 "Reading a long (out-of-line) value returns exactly the concatenation of the pieces of its chain in chain order. A chain that leaves the storage, has an oversized piece, or whose total differs from the recorded length is reported (as an error or a warning), and reading always terminates even when the chain is cyclic.",
 ["inputs"], "all chains over the storage blocks: any order, any piece lengths, with and without corruption",
 "Tests read only well-formed values from sample databases.",
 [S+"V8Object.cpp", S+"Table.cpp", S+"TableRecord.cpp"], [("chain walk", S+"V8Object.cpp readBlob")], [], ["bytes of the value", "error"])
prop("P06", "A table description determines fields, record layout and indexes",
 "For every well-formed table description the table reports the described name, fields (name, type, length, precision, nullability, case sensitivity, order), indexes and their fields, and file pages. Record length is the sum of the stored sizes of the fields plus the deletion mark, and each field is read from the offset given by that layout.",
 ["inputs", "configurations"], "all descriptions over every field type, length, nullability, order and index set",
 "Tests see a handful of sample tables.",
 [S+"Table.cpp", S+"Field.cpp", S+"FieldType.cpp"], [("description parsing", S+"Table.cpp init"), ("type sizes", S+"FieldType.cpp")], [], ["reported fields, sizes, offsets, indexes"])
prop("P07", "Stored field values are presented faithfully as text",
 "For every field type, length, precision and nullability, the text shown for a stored value is the value's canonical text: numbers with sign and decimal point, dates with every component, variable strings without their unused storage and fixed strings with their full width, binary and identifier values as their hexadecimal or identifier form, booleans, and a null marker exactly when the value is null. The form of a value in an XML document is the same text with markup characters and line ends as references, and dates in the notation of XML. Distinct stored values of a field (other than references to long values) have distinct texts.",
 ["inputs", "configurations"], "all stored values of all field types with all lengths, precisions and nullability",
 "Tests check a few samples of a few types.",
 [S+"FieldType.cpp", S+"Field.cpp", S+"BinaryDecimalNumber.cpp", S+"BinaryGuid.cpp", S+"TableRecord.cpp"], [("presentation", S+"FieldType.cpp get_presentation")], [], ["presentation strings"])
prop("P08", "Text entered for a field is stored so that it reads back as the same value",
 "For boolean, number, string, date, binary and identifier fields, converting the canonical text of a value to its stored form and presenting that stored form again yields the same text, for null and non-null values. Other texts have a definite result too: an empty text is the empty value of the type, a string that is too long is cut and a fixed one that is too short padded with spaces, digits after the point that do not fit are cut and a number too large becomes the largest of its sign, an incomplete date is the first day of year 1, incomplete binary data are zeros, and an incomplete identifier is refused. Sort keys produced for two stored values of the same boolean, number, date, binary or identifier field compare in the order of the values, with null first, and have the size of the field.",
 ["inputs", "configurations"], "all values of all field types with all lengths, precisions and nullability, and all pairs of them",
 "Tests check a few samples of decimal numbers and one string type.",
 [S+"FieldType.cpp", S+"Field.cpp", S+"BinaryDecimalNumber.cpp"], [("text to stored", S+"FieldType.cpp get_binary_value"), ("sort key", S+"FieldType.cpp get_sort_key")], [], ["stored bytes", "sort key bytes"])
prop("P09", "Table traversal visits every live record exactly once, in index order",
 "Walking a table by any of its indexes yields every record that is not marked deleted exactly once, in the order of the index, for every index tree depth, page fill and packing width. Walking without an index yields the live records in storage order, and deleted records never appear.",
 ["inputs", "configurations"], "all index trees over all record sets, page sizes and key widths",
 "Tests dump sample databases whose indexes are single-page.",
 [S+"Index.cpp", S+"TableIterator.cpp", S+"Table.cpp"], [("tree walk", S+"Index.cpp create_recordsindex"), ("leaf decoding", S+"Index.cpp unpack_leafpage")], [], ["sequence of records visited"])
prop("P10", "Packing and unpacking an index leaf page loses nothing",
 "Packing any ordered list of keys and record numbers that fits into a leaf page and unpacking that page yields the same keys and record numbers in the same order. A list that does not fit is refused and never written partially as if it fitted.",
 ["inputs"], "all ordered key lists over key lengths, shared prefixes, trailing zeros and record numbers, page sizes",
 "No test packs a page.",
 [S+"Index.cpp"], [("leaf packing", S+"Index.cpp pack_leafpage/unpack_leafpage")], [], ["unpacked keys"])
prop("P11", "Exported table files imported again restore the table",
 "Saving a table to binary files and loading these files back into a table of the same structure restores its records and long values, so that after the next opening all records read the same. An import that cannot be carried out completely is refused and leaves the table as it was.",
 ["inputs", "histories"], "all table contents and both storage formats",
 "Tests compare saved files with stored copies only.",
 [S+"Table.cpp"], [("binary export and import", S+"Table.cpp export_table/import_table")], [], ["record contents after import"])
prop("P12", "XML export contains every record and every value, and is well formed",
 "Exporting a table to XML yields a well-formed document containing every live record exactly once, in traversal order, with one element per field whose text decodes to the field's value for every character XML can carry; null values and long values are represented as such. Where long values are written to files, each file holds the value; with unpacking on it holds the value without its wrapping (the mask of users' data, one or two layers of compression, the header of a stored value), a wrapped container becomes a directory of its members, and a value that is not wrapped, or whose wrapping is damaged, is written as it is. Tables selected by name patterns are exactly those whose names match a pattern.",
 ["inputs", "configurations"], "all table contents, including markup characters, nulls and long values; all filter lists",
 "Tests check that a file appears, not its contents.",
 [S+"Table.cpp", S+"TableRecord.cpp", S+"Field.cpp", "src/ctool1cd/cTool_1CD_Main.cpp"], [("XML writer", S+"Table.cpp export_to_xml"), ("escaping", S+"Common.cpp toXML")], [], ["exported XML files"])
prop("P13", "A configuration container is a faithful map from names to file contents",
 "After any sequence of creating, writing, rewriting, resizing, renaming and deleting member files (in nested containers too), a configuration container lists exactly the current members and reading each returns exactly its current bytes, both in the same session and after saving, closing and reopening it.",
 ["histories"], "all histories of member operations, with member sizes around block boundaries, nested to any depth",
 "Tests write a container once, in one order.",
 [S+"cfapi/V8Catalog.cpp", S+"cfapi/V8File.cpp", S+"cfapi/TV8FileStream.cpp"], [("block chains", S+"cfapi/V8Catalog.cpp write_block/read_block"), ("table of contents", S+"cfapi/V8Catalog.cpp flush")], [], ["member list and bytes"])
prop("P14", "Container blocks are never shared and every chain is intact",
 "In a saved container each block belongs to exactly one chain (table of contents, a member header, member data, or the free list), every chain is acyclic and ends properly, and each chain is long enough for the length recorded for it. Space released by deleting or shrinking members is on the free list and is reused without touching other members.",
 ["histories"], "all histories of member operations followed by a save",
 "No test deletes or rewrites a member.",
 [S+"cfapi/V8Catalog.cpp"], [("free list", S+"cfapi/V8Catalog.cpp free_block"), ("chain reuse", S+"cfapi/V8Catalog.cpp write_block")], [], ["the container file, parsed independently"])
prop("P15", "Compression and decompression are inverse for data of every length",
 "Compressing any byte sequence and decompressing the result restores it exactly, whatever its length and content and from whatever position the source is taken. Data that is not compressed is passed through unchanged where the tool says it unpacks optionally, and a damaged compressed stream is reported.",
 ["inputs"], "all lengths, especially around the internal chunk size, and all contents",
 "Tests compress nothing longer than one chunk.",
 [S+"UZLib.cpp", S+"Common.cpp"], [("chunked deflate", S+"UZLib.cpp ZDeflateStream"), ("chunked inflate", S+"UZLib.cpp ZInflateStream")], [], ["bytes"])
prop("P16", "Bracketed text parses to the tree it denotes and prints back to it",
 "Parsing bracketed text yields the nested list denoted by its braces, commas and quoted strings (doubled quotes denote a quote; separators inside quotes are text), with each value classified by its form, and text that is not well formed is rejected. Printing any parsed tree and parsing the result yields the same tree. Parsing from a string, from a stream (with or without a byte order mark) and format testing agree with each other.",
 ["inputs"], "all character sequences, and all trees",
 "Tests parse four samples.",
 [S+"Parse_tree.cpp"], [("parser state machine", S+"Parse_tree.cpp"), ("printer", S+"Parse_tree.cpp outtext")], [], ["tree", "printed text", "rejection"])
prop("P17", "A saved configuration is the correct overlay of stored, pending and update files",
 "The configuration file saved for the database configuration contains exactly the stored files with the newest applicable dynamic update of each, without removed, empty or service files; an update that was not applied stands only where nothing else is stored under the name. The one saved for the main configuration additionally overlays files waiting to be applied and pending changes, which replace or delete stored files. Configurations of extensions are saved in the same way from their own tables. Every member carries exactly the stored bytes under its proper name.",
 ["inputs", "histories"], "all combinations of stored, pending, deleted and dynamically updated files and multi-part files",
 "Tests dump two sample databases without pending changes or dynamic updates.",
 [S+"ConfigStorage.cpp", S+"TableFiles.cpp", S+"TableFileStream.cpp"], [("overlay", S+"ConfigStorage.cpp")], [], ["members of the saved configuration"])
prop("P18", "A repository version dump contains each object as of that version",
 "Dumping a repository version writes, for every object present at that version, the bytes recorded by the latest change not later than that version, and omits objects and parts deleted by then, with the version identifiers recorded for them. Versions counted from the end resolve to the right version, a version that does not exist is refused, data stored inline, packed in archives and as loose files gives the same result, and a stored snapshot is used only if its checksum is right.",
 ["histories", "configurations"], "all repository histories and all version numbers, positive, zero and negative",
 "Tests dump three sample repositories at one version each.",
 [S+"save_depot_config.cpp", S+"PackDirectory.cpp", S+"Packdata.cpp", S+"Class_1CD.cpp"], [("history selection", S+"save_depot_config.cpp"), ("archive lookup", S+"PackDirectory.cpp")], [], ["members of the dumped configuration"])
prop("P19", "A partial repository dump contains exactly the objects changed between versions",
 "Dumping the changes between two repository versions (from before the first up to the last one) writes exactly the objects and parts whose content was changed, under their names in the configuration and with the content of the later version, and lists the objects that were deleted.",
 ["histories"], "all repository histories and version pairs",
 "No test runs a partial dump.",
 [S+"save_part_depot_config.cpp"], [("change detection", S+"save_part_depot_config.cpp")], [], ["dumped directory"])
prop("P20", "Streams behave as positioned byte sequences",
 "Memory streams, file streams and the streams of container members behave as byte arrays with a position: a read returns the bytes at the position up to the end, a write replaces or appends at the position, seeking from the beginning, the current position and the end reaches the stated offset, setting the size truncates or extends, and copying transfers exactly the requested bytes. Positions outside the stream are refused. Temporary streams of processes that run at the same time do not disturb each other.",
 ["histories"], "all sequences of reads, writes, seeks, resizes and copies, with all offsets and origins",
 "Tests do not exercise streams directly.",
 [S+"SystemClasses/TStream.cpp", S+"SystemClasses/TMemoryStream.cpp", S+"SystemClasses/TFileStream.cpp", S+"TempStream.cpp", S+"cfapi/TV8FileStream.cpp"], [("position and growth", S+"SystemClasses/TMemoryStream.cpp")], [], ["bytes, position, size"])
prop("P21", "Text encodings, letter case and binary notations round-trip",
 "Converting text to a byte encoding (UTF-8, UTF-16, with or without a byte order mark) and back, and converting bytes, identifiers, dates and times to their textual notations (hexadecimal, Base64, both identifier orders, date and time, file time in any time zone) and back, restores the original for every value. Text that is not an identifier is refused. Texts compare equal without regard to case exactly when they differ only in the case of Latin and Cyrillic letters.",
 ["inputs"], "all texts over the whole character range, all byte strings and identifiers, all dates",
 "Tests check a few samples.",
 [S+"SystemClasses/System.SysUtils.cpp", S+"BinaryGuid.cpp", S+"Base64.cpp", S+"Common.cpp", S+"cfapi/V8Time.cpp"], [("encodings", S+"SystemClasses/System.SysUtils.cpp"), ("identifiers", S+"BinaryGuid.cpp")], [], ["bytes and texts"])
prop("P22", "Command lines are interpreted as documented",
 "For every sequence of arguments, options are recognised in any letter case by both of their documented names, take the documented number of arguments as parameters, quotes around arguments are removed, and the first other argument is the database. The commands are carried out in the order given with exactly these parameters, on the outputs they name and no others; options that only change settings apply to all of them. With a log file given, exactly the messages of this run that would otherwise be shown are written to it, in place of its previous contents, and no directory or other file is changed for it. Unknown options, options without their parameters and further file names are reported as errors and nothing is carried out for them; the exit code tells success from failure and the program ends normally.",
 ["inputs", "configurations"], "all argument sequences",
 "Tests run a handful of fixed command lines.",
 ["src/ctool1cd/ParseCommandLine.cpp", "src/ctool1cd/App.cpp", "src/ctool1cd/cTool_1CD_Main.cpp"], [("option table", "src/ctool1cd/ParseCommandLine.cpp")], [], ["recognised commands and parameters", "exit code"])
prop("P23", "Saving lost objects recovers exactly the unreferenced objects",
 "Saving lost objects writes, into the given directory, one file with the exact content for each internal object that no table or service structure refers to, and none for objects that are in use.",
 ["inputs"], "all databases with any set of referenced and unreferenced objects",
 "No test has a database with lost objects.",
 [S+"Class_1CD.cpp", S+"V8Object.cpp"], [("search", S+"Class_1CD.cpp find_and_save_lost_objects")], [], ["saved files"])
prop("P24", "Configuration storage paths resolve to the right file at every depth",
 "Reading, writing and testing a path through a configuration storage (directory, container file, or table) addresses exactly the named file, including files inside nested containers at any depth; writing then reading a path returns the written bytes, other files are unaffected, and a path that names nothing is reported as absent.",
 ["inputs", "histories"], "all paths of any depth over all storage kinds",
 "No test reads a nested path.",
 [S+"ConfigStorage.cpp"], [("path resolution", S+"ConfigStorage.cpp readfile/writefile/fileexists")], [], ["bytes read", "existence"])
prop("P25", "Supplier configurations are found, named and extracted exactly",
 "Every supplier configuration stored in a database is found with its stored name, supplier and version, and extracting it yields exactly the stored configuration; nothing else is reported as one.",
 ["inputs"], "all sets of supplier configurations in stored and pending files",
 "Sample databases contain none.",
 [S+"SupplierConfig.cpp", S+"SupplierConfigBuilder.cpp", S+"Class_1CD.cpp"], [("metadata lookup", S+"SupplierConfigBuilder.cpp")], [], ["reported configurations", "extracted files"])
prop("P26", "Databases beyond 4 GB are read and measured exactly",
 "Tables, stores of long values, indexes and files longer than 2 or 4 GB are read exactly like small ones: every live record is found at its position and in index order, every long value is complete, and no other record or block is returned for them. The report of table sizes lists every table once, in database order, with the exact number of record slots and the exact lengths of its data, long values and indexes.",
 ["inputs", "configurations"], "all layouts of records, chains, index pages and file pages on both sides of 2 GB and 4 GB, over storage formats, page sizes and record lengths",
 "The sample databases of the tests are a few MB; positions above 32 bits never occur.",
 [S+"Table.cpp", S+"V8Object.cpp", S+"Index.cpp", S+"MemBlock.cpp", "src/ctool1cd/App.cpp"], [("record positions", S+"Table.cpp get_record"), ("block positions", S+"Table.cpp readBlob"), ("page positions", S+"MemBlock.cpp")], [], ["records, long values and their order", "positions in the file", "report of table sizes"])
prop("P27", "Everything that is written out gets a place of its own below its destination",
 "Whatever names a database gives to tables, external files, supplier configurations and the members of (nested) containers - with path separators, steps upwards, an absolute path, equal or empty ones - exporting, unpacking, dumping and importing create and change files only below the given directory, and the members of a container only below the directory made for it. Every member of a container and every supplier configuration is written to a file of its own, so that none replaces another one, and what has a usable name that no other has is found under that name.",
 ["inputs", "configurations"], "all names and combinations of names of tables, external files, supplier configurations and container members, at all depths of nesting",
 "The sample databases have ordinary names only.",
 [S+"cfapi/V8Catalog.cpp", S+"cfapi/V8File.cpp", S+"Table.cpp", S+"Field.cpp", S+"save_part_depot_config.cpp", "src/ctool1cd/App.cpp"], [("members of containers", S+"cfapi/V8Catalog.cpp SaveToDir"), ("tables", S+"Table.cpp export_table"), ("supplier configurations", "src/ctool1cd/App.cpp save_vendors_configs"), ("external files", S+"save_part_depot_config.cpp")], [], ["files below and outside of the destination"])
prop("P28", "A damaged database is reported, and damage stays where it is",
 "Whatever is damaged in a database - its header, the list of tables, descriptions, headers and page lists of objects, chains of long values, pages of indexes, part numbers of files, blocks of a container that is unpacked - reading it always ends, never crashes, never changes the database and writes a bounded amount. What cannot be read is reported as an error (a long value whose length is not the one its record says as a warning) and the program ends with an error code; a database in which nothing that is read is damaged (a damaged list of free pages included) is read without an error. A table or member without damage is written exactly as it would be otherwise, or not at all and with an error, but never differently; a container whose list of members cannot be read is written as the file it is.",
 ["inputs", "fault_sequences"], "all damaged databases: any number of wrong values in any structures of any tables, over storage formats and page sizes",
 "The sample databases of the tests are whole.",
 [S+"Class_1CD.cpp", S+"V8Object.cpp", S+"Table.cpp", S+"Index.cpp", S+"TableFiles.cpp", S+"cfapi/V8Catalog.cpp", "src/ctool1cd/App.cpp"], [("header and list of tables", S+"Class_1CD.cpp"), ("headers and page lists", S+"V8Object.cpp"), ("chains of long values", S+"Table.cpp readBlob"), ("pages of indexes", S+"Index.cpp create_recordsindex")], [], ["end of the run and exit code", "messages", "written files", "the database"])
