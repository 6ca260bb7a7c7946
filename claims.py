L["C02"] = ("drawn databases and clocks behind a simulated file system; the XML files and blob files of the real program are compared byte by byte with those an independent model of the database predicts",
  "Decides every table, filter, -bf/-pb mode and clock of the runs against a second implementation of the export.")
L["C01"] = ("drawn databases behind a simulated file system with short reads and clock jumps; a drawn sequence of reads through the library is compared with the bytes the generator stored",
  "Decides every read, length and place asked for in the runs against the generator's own record of what is stored.")
L["C05"] = ("drawn edit sessions on internal files with flushes, kills and reopenings, compared after each step and after each reopening with a byte-array model, and the file with an independent reader",
  "Decides every edit and read of the runs against a byte-array model, and the durability of what was flushed with the file as it stands after a kill.")
L["C03"] = ("drawn receiving and source databases, exports, imports in one or two sessions under short transfers; exported files, the receiver's file, in-session and later exports compared with an independent reader and model",
  "Decides every export and import of the runs.")
L["C04"] = ("drawn edit sessions on internal files and drawn import sessions with flushes and kills; after each, page ownership, header and untouched contents are checked by an independent reader",
  "Decides every database state reached in the runs.")
L["C15"] = ("drawn import sessions with missing, unreadable, truncated import files, injected read, open and allocation failures and kills at every kind of operation; the operation history and the resulting file decide",
  "Decides every failure and kill point of the runs; kills inside the final write-back are only checked for what was reported before.")
L["C08"] = ("drawn infobases (multi-part files, dynamic updates, pending and deleted files, nested vendor configurations, all formats, time zones) dumped under short transfers and clock jumps; containers and vendor files compared member by member, bytes and times, with the generator's account",
  "Decides every dump of the runs against the generator's account of the current configuration.")
L["C09"] = ("drawn depots (histories with removals and re-additions, attached files, data in tables, packs and loose files, snapshots valid, missing, damaged; all format generations) dumped under short transfers and clock jumps; every member and the version lists compared with the drawn history",
  "Decides every dump of the runs against the drawn history.")
L["C10"] = ("drawn depots and version ranges dumped under short transfers and clock jumps; the output directory compared with what the drawn history says changed, and nothing else may be in it",
  "Decides every range of the runs against the drawn history.")
L["C07"] = ("drawn histories of operations on a container (file or stream, plain, packed, .cfu; existing ones with scattered pages) under short transfers and clock jumps; after each flush, close and reopening the stored bytes are parsed independently and compared with a map given the same operations, as is what the library reads and lists",
  "Decides every operation history of the runs against a map model and an independent container reader.")
L["C14"] = ("drawn databases with unreferenced internal files and drawn command sequences (rescues, statistics, exports, an import among them) under short transfers and clock jumps; rescued files are compared with the drawn objects, statistics with an independent reader",
  "Decides every rescue and statistics file of the runs.")
L["C06"] = ("drawn sessions of any commands on any kind of database, with failing, short and clock-jumping operations; every file operation of the program is recorded, and the history and the files beside the output decide",
  "Decides every session and failure sequence of the runs: no operation of the history may change the database or a file beside it unless an import was asked for and allowed.")
L["C13"] = ("2 to 4 instances of the program, interleaved at every file operation by a seeded scheduler, with leftovers of crashed runs, colliding clocks and random numbers, kills and failures; outputs compared with those of each run alone, the temporary directory with what was there before",
  "Decides every interleaving, leftover and kill of the runs.")
L["C16"] = ("drawn sequences of commands on any kind of database, some of which must fail, under short transfers and clock jumps; outputs and database compared with those of each command run alone on the same state, exit status and messages with the drawn failures",
  "Decides every sequence of the runs against the same commands run one at a time.")
L["C11"] = ("drawn sessions of commands and imports in which drawn file operations, chosen from the record of the fault-free run, fail, come up short or meet a full disk; outputs and exit status compared with those of the run without the failure",
  "Decides every failing operation of the runs by comparison with the same run without it.")
L["C12"] = ("drawn databases and depots with drawn damage to pages, links, lengths, descriptions, names and stored texts; the real program, instrumented for memory errors and with bounded work, runs drawn commands on them and every file operation is recorded",
  "Decides every damaged database of the runs: memory errors are caught by AddressSanitizer, endless work by budgets, stray output by the recorded operations.")
L["C20"] = ("drawn databases, one or two open at once, browsed by a drawn sequence of accesses through indexes, row numbers and iterators, with reads that fail for a while, short transfers, cache ageing and clock jumps; every row, value and blob is compared with the generator's account, an error is accepted only when an operation failed, and the access is then repeated",
  "Decides every access of the runs against the generator's account of order and values.")
L["C21"] = ("drawn infobases, containers and directories, one to three at once, whose files are read, kept open, read in part, closed, written and asked for by paths in a drawn order, with reads of the database that fail for a while, short transfers, cache ageing and clock jumps; every read is compared with the generator's account and every written source read back independently, an error is accepted only when a read of the database failed, and the read is then repeated",
  "Decides every read and write of the runs against the generator's account of paths and contents.")
