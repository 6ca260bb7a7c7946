import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
T="src/tool1cd/"
p("C01","Stored bytes are read back exactly, however laid out, cached or timed",
 "For every well-formed database file of the supported formats (8.0.3, 8.0.5, 8.1, 8.2, 8.2.14 with 4K pages and 8.3.8 with 4K to 64K pages), every read of an internal file, a record or a blob value - whole or any sub-range, in any order and mixture - returns exactly the bytes the file stores for it, whatever pages it is scattered over. This does not depend on which pages or objects are cached, on when caches are dropped, or on how the clock moves. A read outside the object is refused with an error and returns no bytes.",
 ["inputs","histories","schedules"],
 "All page layouts (sparse, reversed, multi-level allocation), page sizes, read sequences, cache-drop points and clock readings.",
 "The tests open five fixed small files with contiguous pages, read a handful of values once, and never age or drop a cache, so multi-level allocation tables, odd layouts and stale caches are never reached.",
 [T+"V8Object.cpp",T+"MemBlock.cpp",T+"Class_1CD.cpp",T+"Table.cpp",T+"SystemClasses/TStream.cpp",T+"SystemClasses/TFileStream.cpp",T+"SystemClasses/GetTickCount.cpp"],
 [("allocation table walk in V8Object::get_data","src/tool1cd/V8Object.cpp"),("page cache","src/tool1cd/MemBlock.cpp"),("blob chain walk","src/tool1cd/Table.cpp readBlob, src/tool1cd/V8Object.cpp readBlob")],
 [("memblocks","cached pages",T+"MemBlock.h"),("V8Object::data","cached whole object",T+"V8Object.h")],
 ["V8Object::get_data","V8Object::readBlob","Table::readBlob","Table::get_record"])
p("C02","XML export lists every live record exactly once with its exact values",
 "Exporting a table to XML produces a file that names every field of the table with its type, and contains every live record exactly once - in primary-key order when the table has a primary index, otherwise in physical order - with each field's value rendered as stored, and no deleted record. Blob values are embedded, or with -bf written to one file per value whose content is that record's (unpacked with -pb where it is packed). This holds for every table an export command selects, and only those are exported.",
 ["inputs","histories"],
 "All tables (field types, lengths, nulls, deleted records, with and without indexes, any index tree depth), all blob lengths and both blob modes, any earlier commands in the session.",
 "No test runs the XML export at all; field rendering tests use single hand-made values.",
 [T+"Table.cpp",T+"Index.cpp",T+"Field.cpp",T+"FieldType.cpp",T+"TableRecord.cpp",T+"BinaryDecimalNumber.cpp","src/ctool1cd/App.cpp"],
 [("Table::export_to_xml",T+"Table.cpp"),("index leaf walk",T+"Index.cpp create_recordsindex"),("field rendering",T+"FieldType.cpp"),("table filter","src/ctool1cd/App.cpp export_to_xml")],None,
 ["files written by ctool1cd -eax / -ex"])
p("C03","Binary export followed by import reproduces a table exactly",
 "Exporting tables to binary files and importing those files into the same or a differently laid-out database with the same tables makes each imported table's data, blob and index contents byte-for-byte those of the exported ones, in the running session and after the database is closed and reopened. It also holds when the receiving table was longer, shorter or empty before, and for repeated imports in one session.",
 ["inputs","histories"],
 "All table contents and sizes before and after (shrinking, growing, crossing allocation-level limits), all layouts, chains of imports.",
 "No test exports or imports a table or writes to a database at all.",
 [T+"Table.cpp",T+"V8Object.cpp",T+"MemBlock.cpp","src/ctool1cd/App.cpp"],
 [("Table::export_table / import_table",T+"Table.cpp"),("V8Object::set_data/set_len",T+"V8Object.cpp"),("flush",T+"Class_1CD.cpp")],None,
 ["files of -eb","database file after -ib"])
p("C04","Every page has one owner and the header agrees with the file after any edit",
 "After any sequence of imports or internal file writes and length changes followed by a flush, no page of the database file belongs to two internal files, or both to a file and to the free list; every page number in use lies inside the file; and the page count in the header equals the file's length. In the formats before 8.3.8 no page is lost either: every page is owned or in the free list. Data, blob, index and description contents of tables that were not edited are unchanged.",
 ["histories","inputs"],
 "All histories of writes, growths, shrinks and imports over all layouts and free-list states, including an empty and a full free-list page.",
 "No test writes to a database; page accounting is nowhere checked.",
 [T+"V8Object.cpp",T+"MemBlock.cpp",T+"Class_1CD.cpp"],
 [("get_free_block / set_block_as_free",T+"V8Object.cpp"),("get_block_for_write growth",T+"Class_1CD.cpp")],
 [("blocks","root allocation table",T+"V8Object.h"),("length","pages in the file",T+"Class_1CD.h")],
 ["database file after flush"])
p("C05","An internal file behaves as a byte array under any edit history",
 "Under any sequence of whole writes, partial writes, stream writes, growths, truncations, reads, flushes and reopenings, an internal file's length and contents are those of a byte array given the same sequence (bytes never written after a growth may be anything); a flushed state is what a reopened database shows. Writing to a database opened read-only is refused and changes nothing.",
 ["histories","crash_points"],
 "All operation histories, sizes around page and allocation-table limits, cache drops between operations, reopen points.",
 "No test writes an internal file.",
 [T+"V8Object.cpp",T+"MemBlock.cpp",T+"Class_1CD.cpp"],
 [("V8Object::set_data, set_len, write_new_version",T+"V8Object.cpp"),("MemBlock::write",T+"MemBlock.cpp")],None,
 ["V8Object API and reopened file"])
p("C06","Only an import changes the database file; read-only opening never does",
 "No command other than the import changes, truncates, renames or deletes the database file or anything beside it, whatever its outcome and whatever failures it meets (output that the user directs onto the database itself apart); and when the database is opened not exclusively (-ne), or is of format 8.0, nothing at all is written to it, import included. A database file the user may only read can be opened with -ne and exported.",
 ["histories","fault_sequences","inputs"],
 "All command sequences and arguments over all databases, with I/O failures at any point.",
 "Tests work on copies or fixed files and never compare them afterwards, and never run with failures.",
 ["src/ctool1cd/App.cpp",T+"Class_1CD.cpp",T+"V8Object.cpp",T+"SystemClasses/TFileStream.cpp"],
 [("readonly flag",T+"Class_1CD.cpp"),("write guards in V8Object",T+"V8Object.cpp")],None,
 ["file-system operations of the whole program"])
p("C07","A configuration container behaves as a file map under any edit history",
 "Under any sequence of creating, writing, overwriting, reading, listing and deleting files and nested catalogs in a configuration container (.cf and alike), flushing, closing and reopening, the container holds exactly the files a map given the same sequence holds: each with its exact bytes, name and times, none lost, none resurrected, none mixed up. A container that was closed or flushed reads back the same, and stays structurally valid (page chains and free list disjoint).",
 ["histories","crash_points"],
 "All operation histories, file sizes around page sizes, names, nesting, packed and plain containers, flush and reopen points.",
 "Tests only read one container and write dumps that they compare by size; editing, deleting and reopening are not tested.",
 [T+"cfapi/V8Catalog.cpp",T+"cfapi/V8File.cpp",T+"cfapi/TV8FileStream.cpp",T+"cfapi/APIcfBase.cpp",T+"UZLib.cpp"],
 [("block chains and free list",T+"cfapi/V8Catalog.cpp"),("V8File write/flush/close",T+"cfapi/V8File.cpp")],None,
 ["container file bytes","V8Catalog/V8File API"])
p("C08","Configuration dumps contain exactly the stored configuration",
 "Dumping the database configuration, the main configuration, or vendor configurations writes containers or files whose members are exactly the configuration's current files - base files replaced by their newest dynamic update, pending files taking precedence and deleted ones omitted in the main configuration - each with the bytes and times the database stores (multi-part files joined in order).",
 ["inputs","histories"],
 "All sets of configuration files: sizes, numbers of parts, names, dynamic updates, pending and deleted files, in all formats.",
 "Two fixed databases without dynamic updates, pending or multi-part files are dumped; results are compared by little more than existence and size.",
 [T+"ConfigStorage.cpp",T+"TableFiles.cpp",T+"SupplierConfig.cpp",T+"SupplierConfigBuilder.cpp",T+"cfapi/V8Catalog.cpp","src/ctool1cd/App.cpp"],
 [("file selection in ConfigStorageTableConfig*",T+"ConfigStorage.cpp"),("parts joined by TableFiles",T+"TableFiles.cpp")],None,
 ["files of -ddc -dc -dvc -dac"])
p("C09","A depot version dump is exactly the configuration of that version",
 "Dumping version N of a configuration depot writes a container holding, for each object and attached file, the data recorded at its latest change not after N, leaving out objects removed by N, whether the data lies in the database, in loose object files or in pack files; N counted from the end (0, -1, ...) names the corresponding existing version and unknown versions are refused. A valid snapshot of the version is used if present, and a damaged or missing one leads to the same configuration built from the tables.",
 ["inputs","histories","fault_sequences"],
 "All object histories (changes, removals, re-additions, attached files), all placements of the data, snapshot presence and damage, all version numbers.",
 "Three fixed depots with a couple of versions are dumped; packs, snapshots with damage, removals and relative versions are not combined.",
 [T+"save_depot_config.cpp",T+"PackDirectory.cpp",T+"Packdata.cpp",T+"TableRecord.cpp",T+"TableIterator.cpp","src/ctool1cd/App.cpp"],
 [("history walk",T+"save_depot_config.cpp"),("pack lookup",T+"Packdata.cpp"),("snapshot CRC check",T+"save_depot_config.cpp try_save_snapshot")],None,
 ["files of -drc"])
p("C10","A partial depot dump contains exactly what changed in the version range",
 "Dumping a range of depot versions writes, unpacked, exactly the objects and attached files changed within the range with their content as of the range's end, and lists the objects that existed before the range and are removed at its end, for any range given in either order or as a single version.",
 ["inputs","histories"],
 "All depot histories and version ranges, including multi-digit numbers, relative numbers and reversed ranges.",
 "One range of one depot is dumped by the tests.",
 [T+"save_part_depot_config.cpp",T+"PackDirectory.cpp","src/ctool1cd/App.cpp"],
 [("history walk",T+"save_part_depot_config.cpp"),("range parsing","src/ctool1cd/App.cpp save_depot_config_part")],None,
 ["files of -dpc"])
p("C11","A storage failure is never reported as success",
 "Whatever file operation fails while a command runs - a file or directory that cannot be opened or created, a read or write error, a short transfer, a full disk - either the command's output is exactly what it would have been without the failure, or the failure is reported as an error and the program's exit status is not zero. The program ends by itself in every such case, without crashing.",
 ["fault_sequences","histories"],
 "Every file operation of every command, every kind of failure, one or several, transient or persistent.",
 "The tests run on a healthy file system only and never run the command-line program.",
 [T+"SystemClasses/TFileStream.cpp",T+"SystemClasses/TStream.cpp",T+"cfapi/V8File.cpp",T+"cfapi/V8Catalog.cpp",T+"Messenger.cpp","src/ctool1cd/App.cpp","src/ctool1cd/cTool_1CD_Main.cpp"],
 [("stream error checks",T+"SystemClasses/TStream.cpp"),("exit status","src/ctool1cd/cTool_1CD_Main.cpp")],None,
 ["exit status, messages and output files of ctool1cd"])
p("C12","A damaged database cannot crash or hang the program or make it write elsewhere",
 "Whatever bytes a database file contains - truncated, torn, zeroed or corrupted anywhere, including links that form cycles and lengths that exceed the file - opening it and running any export on it ends in bounded work with an orderly result or a reported error. Memory outside the program's own buffers is never read or written, and nothing outside the requested output location is created.",
 ["inputs","fault_sequences","crash_points"],
 "All corruptions of all databases and depot side files: bit flips, torn and lost pages, truncation, overwritten fields.",
 "The tests open only intact files.",
 [T+"Class_1CD.cpp",T+"V8Object.cpp",T+"Table.cpp",T+"Index.cpp",T+"cfapi/V8Catalog.cpp",T+"cfapi/V8File.cpp",T+"UZLib.cpp",T+"TableFiles.cpp","src/ctool1cd/App.cpp"],
 [("bounds checks throwing DetailedException",T+"V8Object.cpp, "+T+"Table.cpp")],None,
 ["process outcome under AddressSanitizer and a step budget"])
p("C13","Temporary files stay private to one run and are gone afterwards",
 "All temporary files are created inside one directory of the run's own under the temporary directory, are removed when the program ends, also after errors, and nothing else there is deleted. Other instances of the program that start, run or end at any moment, and leftovers of earlier crashed ones, neither change what a run outputs nor lose or corrupt files of each other.",
 ["schedules","histories","crash_points"],
 "All interleavings of other instances' temp-directory life cycle with a run, all leftovers.",
 "The tests run one instance in an empty temporary directory.",
 [T+"TempStream.cpp",T+"TempStream.h",T+"TableFiles.cpp",T+"Packdata.cpp"],
 [("temp directory set-up and clean-up",T+"TempStream.cpp")],None,
 ["file-system operations under the temporary directory"])
p("C14","Lost-object rescue and table statistics report exactly what is stored",
 "The lost-object command saves every internal file that has a valid header page but is not reachable from any table or service structure of the opened database, each to its own file inside the given directory with its exact content, and saves nothing else (leftovers of freed pages aside). The table-size command lists every table once with its record count (deleted records included) and the exact lengths of its data, blob and index contents.",
 ["inputs","histories"],
 "All databases with any set of unreferenced objects, any earlier commands in the session.",
 "Neither command is tested.",
 [T+"Class_1CD.cpp","src/ctool1cd/App.cpp",T+"V8Object.cpp"],
 [("scan over header pages",T+"Class_1CD.cpp find_and_save_lost_objects"),("save_tables_sizes","src/ctool1cd/App.cpp")],None,
 ["files of -slo and -sts"])
p("C15","A failed or interrupted import leaves the database as it was",
 "Until the whole of a table being imported has been read and laid out, nothing of it reaches the database file: if the import fails - a missing, unreadable or truncated import file, a failing read or allocation - or the process is killed before that point, the database file is byte-for-byte what it was, also after later commands of the same session. Once the import has reported success, killing the process loses nothing of it.",
 ["crash_points","fault_sequences","histories"],
 "Every crash point and failure point of every import, alone or followed by further commands.",
 "No test imports anything, let alone with failures or crashes.",
 [T+"Table.cpp",T+"V8Object.cpp",T+"MemBlock.cpp",T+"Class_1CD.cpp"],
 [("changes kept in the page cache until flush",T+"MemBlock.cpp"),("import order",T+"Table.cpp import_table")],None,
 ["database file at every crash point"])
p("C16","Commands of one run do not influence each other, and every failure is reported",
 "Each command of a multi-command run has the same effect and output as when it is run alone on the same database; a command that fails is reported as an error, does not stop the following ones, and makes the exit status non-zero; a run in which nothing failed exits with zero.",
 ["histories","inputs"],
 "All sequences of commands, valid and invalid, on all kinds of databases.",
 "The command-line program is not run by any test, and sequences of operations on one opened database are not tested.",
 ["src/ctool1cd/App.cpp","src/ctool1cd/ParseCommandLine.cpp","src/ctool1cd/cTool_1CD_Main.cpp",T+"Messenger.cpp",T+"Class_1CD.cpp",T+"ConfigStorage.cpp"],
 [("per-command try/catch","src/ctool1cd/App.cpp Run"),("exit status","src/ctool1cd/cTool_1CD_Main.cpp")],None,
 ["exit status, messages and output files"])
p("C17","The bracketed text format parses and serialises without loss",
 "Parsing any well-formed text of 1C's bracketed list format and serialising it again yields an equivalent text, and malformed text is rejected with its position.",
 ["inputs"],"All texts.",
 "Tests use a handful of texts.",
 [T+"Parse_tree.cpp"],[("parse_1Ctext / outtext",T+"Parse_tree.cpp")])
p("C18","Number, date, GUID and Base64 conversions are exact inverses",
 "Converting any decimal number, date, GUID or byte string between its stored and its text form and back yields the original value.",
 ["inputs"],"All values.",
 "Tests use a handful of values.",
 [T+"BinaryDecimalNumber.cpp",T+"BinaryGuid.cpp",T+"Base64.cpp",T+"Common.cpp"],[("conversion functions",T+"BinaryDecimalNumber.cpp, BinaryGuid.cpp, Base64.cpp")])
p("C19","An index leaf page unpacks to exactly the keys that were packed",
 "Packing any sorted set of index keys with record numbers into a leaf page and unpacking it yields the same keys and numbers, and a set that does not fit is refused.",
 ["inputs"],"All key sets, key lengths and page sizes.",
 "Not tested.",
 [T+"Index.cpp"],[("pack_leafpage / unpack_leafpage",T+"Index.cpp")])
p("C20","A table browsed through any index shows exactly the stored records and values",
 "Through the library interface that the graphical program uses, every index of a table lists each live record exactly once, in the order the index stores; without an index every physical record is listed, deleted ones marked as such; iterators over a table or an index visit exactly the live records, in that order, and can be left and resumed. Each value is shown as stored - NULL as NULL, text, numbers, dates and identifiers in their text form - and a blob is given with exactly its bytes, unpacked when asked and packed. This holds in any order of accesses over any number of tables and of databases open at once, whatever is cached and however time passes. When the storage fails a read, that access ends with an error and shows nothing; repeated after the failure it shows the stored value. Nothing of this changes a database file.",
 ["inputs","histories","fault_sequences","schedules"],
 "All tables, indexes of any depth and page layout, all orders of accesses and cache drops, any reads failing, several databases open at once, opened and closed in any order.",
 "Tests read single values of five fixed files in one order, never use a secondary index, never fail a read, and never have two databases open.",
 [T+"Index.cpp",T+"Table.cpp",T+"TableRecord.cpp",T+"TableIterator.cpp",T+"FieldType.cpp",T+"Field.cpp",T+"V8Object.cpp",T+"MemBlock.cpp",T+"UZLib.cpp","src/gtool1cd/models/table_data_model.cpp"],
 [("reading an index's order",T+"Index.cpp create_recordsindex"),("values",T+"TableRecord.cpp get_string, "+T+"FieldType.cpp get_presentation"),("blob values",T+"TableRecord.cpp try_store_blob_data"),("iterators",T+"TableIterator.cpp")],
 [("recordsindex","the order of an index once read",T+"Index.h"),("V8Object::first, last","all internal files of all databases",T+"V8Object.h")],
 ["Index::get_numrec","TableIterator","TableRecord::get_string","TableRecord::try_store_blob_data"])
p("C21","A configuration file read by its path has its contents",
 "Through the library interface by which configurations are read (the database configuration and the main configuration of an infobase, a container file .cf/.epf/..., a directory), a path names one file: its parts, separated by / or \\, go down through nested containers, and in a database or container letter case does not matter. Reading a path gives exactly the contents of the file there, unpacked where the database or container stores it packed and as stored where it does not; a path to nothing gives nothing, and whether a top-level file exists is answered truly. This holds for any order of reads and repeated reads, with other files open, partial reads, cache ageing and time passing. A file written by its path into a container or directory, new or over an old one, in nested containers that exist or do not yet, is then read with the written contents, and leaves every other file as it was. When reading the database fails for a while, the read fails; repeated after that it gives the contents, never a part of them. Reading changes no database.",
 ["inputs","histories","fault_sequences"],
 "All trees of files and nested containers, all storages of them (packed, split in parts, fragmented), all orders of reads, writes and closes, any reads of the database failing.",
 "The only test reads no configuration file by its path; nested paths, several handles, writes and failing reads are never exercised.",
 [T+"ConfigStorage.cpp",T+"ConfigStorage.h",T+"cfapi/V8Catalog.cpp",T+"cfapi/V8File.cpp",T+"cfapi/V8Catalog.h",T+"UZLib.cpp",T+"TableFiles.cpp",T+"Table.cpp"],
 [("files in tables",T+"ConfigStorage.cpp ConfigStorageTable::readfile"),("what is stored packed",T+"ConfigStorage.cpp ContainerFile::isPacked"),("container files",T+"ConfigStorage.cpp ConfigStorageCFFile::readfile, writefile"),("directories",T+"ConfigStorage.cpp ConfigStorageDirectory")],
 [("ContainerFile::stream, rstream, cat","an open file, its stored bytes and the container in it",T+"ConfigStorage.h"),("V8File::data, self","a member's contents and nested container",T+"cfapi/V8File.h")],
 ["ConfigStorage::readfile","ConfigStorage::writefile","ConfigStorage::fileexists","ConfigStorage::close"])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
