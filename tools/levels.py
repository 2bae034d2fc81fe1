T = "TLA+ specification, TLC exhaustive and simulated; "
CLAIMS = {
 "P16": (T + "every generated text replayed into the parser and printer, printed texts judged by TLC",
         "The grammar, reader and printer are specified and their round trip is model-checked exhaustively over four alphabets up to 4-7 chunks; every model state is replayed into the code. Longer texts are sampled by simulation. Trusts the driver's hex transport."),
 "P13": (T + "every generated history replayed into the container code, member list and bytes compared",
         "CfMap.tla (a tree of members) is checked by TLC; exhaustive short histories and simulated long ones (flat, nested, compressed, .cfu) are replayed through every public read and write entry point, in session, after flushing, after reopening and by extraction to a directory."),
 "P14": (T + "allocator model checked by TLC; block images of the code's files judged by a TLC trace specification",
         "CfAlloc.tla, a model of the block allocator, is model-checked for sharing, leaks and growth; images recorded from the code after every save are extracted by an independent parser and judged by CfTrace.tla."),
 "P01": (T + "every generated history of object operations replayed into the page layer; reads and the saved files compared with the model",
         "ObjBytes.tla (objects as byte arrays with unspecified grown bytes) is checked by TLC for the frame conditions; exhaustive short and simulated long histories over six formats and page sizes, with lengths at page, table-page and one-level-limit boundaries, are replayed through all read and write entry points; the saved files are also read by an independent reader. 64K pages reach only the one-level table (two-level needs 1 GB)."),
 "P02": (T + "page allocator model checked by TLC; images of every saved file judged by a TLC trace specification",
         "PageAlloc.tla is model-checked exhaustively for sharing, loss and table shape; every file saved by the code after each operation of generated histories is parsed by an independent reader and judged by PageTrace.tla."),
 "P04": (T + "every generated file header and table list opened by the code, result and description compared with the model",
         "OpenDb.tla decides for every combination of signature, version, page size, page count, file length and table list whether the file opens and what it reports; each is rendered as a file by an independent writer and opened by the code."),
 "P05": (T + "every generated chain of blocks rendered into a database and read through every entry point",
         "BlobChain.tla is the reader of chains; order, cuts, cycles, references out of the file and wrong totals are enumerated by TLC and rendered in both storage formats."),
 "P06": (T + "every generated table description rendered into a database and its reported structure, sizes and offsets compared with the model",
         "TableDescr.tla computes sizes, offsets, record length, hidden fields and the field order; descriptions are enumerated and sampled by TLC."),
 "P07": (T + "every generated stored value presented by the code, alone and in records of generated databases",
         "FieldValue.tla defines values, stored forms and texts of every field type; TLC checks that texts are injective; small domains exhaustively, long numbers, strings and identifiers by simulation."),
 "P08": (T + "every generated text entered into the code and shown again; sort keys of pairs compared in the order of the model",
         "FieldValue.tla defines entering and order independently of the code; TLC checks read-back and key order in the model; FieldEntry.tla types, cuts and extends texts and says what they are stored as; the code's keys are compared by order only."),
 "P09": (T + "every generated table and index tree rendered into a database and walked by the code",
         "IndexTree.tla builds tables, deletions, leaf partitions, branch levels and page placements; TLC checks that following the leaf links equals the in-order traversal and visits each live record once; every tree is rendered over eight page sizes, key widths and packings. Large leaves come from a writer outside the model."),
 "P10": (T + "every generated list packed by the code, the page read by an independent reader and unpacked by the code",
         "LeafPack.tla defines slots, key area, size and unpacking; TLC checks that nothing is lost over explicit lists and computes, for patterned lists, the number of entries at which a page is exactly full; lists just below, at and above it are replayed."),
 "P12": (T + "every generated table exported by the command line tool and the document read by an independent parser",
         "XmlExport.tla defines the records, their order and the decoded text of every cell, with escaping and Base64 inverse in the model; NameFilter.tla defines table selection. Unpack.tla builds wrapped values layer by layer and defines the file or directory written for each. Tables are exported with every option variant; texts over markup characters exhaustively to length 3. Names of long-value files are only required to be usable and distinct."),
 "P15": (T + "every generated history of packing, damage and unpacking run on real bytes with an independent inflater",
         "Pack.tla states that unpacking undoes packing for any number of layers and that damage is seen; TLC checks it and emits histories, run on patterned bytes with lengths on both sides of the 16 KB pieces, over memory, file and temporary streams at several positions, with packed forms from an independent packer. Damage that raw deflate cannot show is outside."),
 "P21": (T + "every generated text, byte sequence, identifier and time written and read by the code",
         "Notation.tla and Times.tla define each notation with a reader of its own; TLC checks that reading undoes writing, and emits texts over boundary characters (every character up to U+052F alone, more in the thorough tier), byte sequences over boundary octets, identifiers, damaged identifiers, and dates in zones with fixed offsets and summer time. Hours around a change of the zone's time are outside."),
 "P22": (T + "every generated command line parsed by the code, and a part carried out by the program with its effects compared",
         "CommandLine.tla takes one argument per step; TLC checks that no argument is lost or used twice and that what was understood stays, and emits all lines of two arguments over every option in four letter cases, all lines of up to four over a smaller alphabet, and random long ones. About 2000 lines are run: files written, order of reports, exclusive use, output suppression and exit code are compared with the plan. ReportFile.tla says where the messages of successive runs go; logs, shown messages and all other files are compared after every run."),
 "P20": (T + "every generated history of stream operations replayed on pairs of streams of every kind",
         "StreamBytes.tla models two byte arrays with positions; exhaustive histories of 2-3 operations and simulated ones of 12-40 are replayed on memory, bytes, file, reopened and temporary streams, scaled to buffer sizes; files on disk are compared. Several processes use temporary streams at the same time."),
 "P17": (T + "every generated set of stored, pending, deleted and updated files rendered into a database and the saved configurations read by an independent reader",
         "Overlay.tla and ExtOverlay.tla define which stored file stands for each name in the database, main and extension configurations; all sets of up to three rows exhaustively and larger ones by simulation are rendered in several formats with multi-part, packed, empty and removed rows; names, bytes and times of the members of the saved files are compared. Ties between equally new files and further files of deleted objects are left open."),
 "P24": (T + "every generated history of writing, reading and testing paths replayed on real storages and the carriers read by an independent reader",
         "StorePath.tla is a tree addressed by paths; histories over directories, container files and tables, with nested containers up to four levels and names in other case and with both separators, are replayed through every entry point, and the container left on disk is compared member by member. An empty member used as a catalogue is left open."),
 "P11": (T + "every generated history of exports, imports, damage and creation replayed through the command line and the library, files and tables read by an independent reader",
         "ExportImport.tla keeps what every table and every exported file holds; after each history the database on disk is read by an independent reader and by the tool. Which tables are loaded before an import is refused, and the layout of the long-value file when it holds nothing, are left open."),
 "P23": (T + "every generated database with used, lost and free objects rendered and the saved files compared with the model",
         "LostObjects.tla decides which pages are heads of lost objects from reachability; databases of every format with lost, free, deleted and misleading pages are rendered by an independent writer. Damaged lost objects and heads inside other lost objects are left open."),
 "P18": (T + "every generated repository history built and every version dumped through the command line, members compared with the view recorded at the commit",
         "Depot.tla keeps what the configuration was at every commit and the rows a repository stores; TLC checks exhaustively that the rows tell every view. Histories with removals, moves, kept and dropped parts are built for five formats with data inline, packed and loose and with good, stale, damaged and missing snapshots."),
 "P19": (T + "every generated repository history built and the differences of version pairs written through the command line, files compared with the model",
         "Depot.tla decides for every pair of versions which objects and parts must, may or must not be written and which are deleted. Whether an object stored again with equal contents is written is left open."),
 "P03": (T + "every generated session (opens, reads, write attempts, flushes, closes) and run of the program replayed on real databases, the file compared after every step",
         "DbAccess.tla decides for every step whether a write is refused and whether the file may change; action properties checked by TLC: shared sessions and refused writes never change the file. Every read, every write entry point and every command over six storage formats, exclusive and shared, one and two at a time exhaustively, longer sessions sampled. Editing single fields of a record is not attempted; giving back a page in 8.3.8 does nothing."),
 "P25": (T + "every generated history of installing, applying and detaching supplier configurations rendered as a database; listed and extracted configurations compared with the model",
         "SupplierConfigs.tla keeps which supplier configurations both tables hold, with replaced, pending and foreign records; small histories exhaustively, long ones sampled over storage generations, metadata layouts and texts. Two configurations with one name and version, and unreadable ones, are left open."),
 "P26": (T + "every generated layout rendered as a sparse file and read through the command line (sizes, XML export) and the library (walks, long values, positions)",
         "LargeDb.tla puts records, chains, index pages and file pages on both sides of 2 GB and 4 GB so that positions cut to 32 bits meet other records; TLC checks exhaustively that whole positions find every record and value. Layouts of 8 page and record sizes are sampled; pages of an object without contents are shared."),
 "P27": (T + "every generated set of names given to the tables, external files, supplier configurations or container members of a real database, written out by the program; all files inside and outside of the destination compared",
         "OutputPlaces.tla resolves names as a file system does and gives every item a place; TLC checks that places are below the destination, apart from each other and keep usable names. Single names and pairs exhaustively for small alphabets, longer sets sampled. Which other name an unusable one gets is left open."),
 "P28": (T + "every generated set of faults rendered into real databases, which are exported, copied, measured and dumped by the program (with memory checks); end, messages, files and the database compared with the model",
         "Damage.tla and DamagedBox.tla read a database or container whose references and lengths were changed and decide per table, member and command whether it is unreadable, doubtful, another one or untouched; TLC checks that every walk ends, that faults stay local and that no address outside passes for data. Single faults exhaustively, chains and leaves without end for pairs, longer sets sampled. What a table becomes whose references lead to other valid places is left open."),
}
NA = {}
