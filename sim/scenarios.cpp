#include "sim.h"
namespace sim {
static const char *const real_all = "ctool1cd's main, App, command-line parsing, messages and log; the whole tool1cd library; boost::filesystem, zlib, libstdc++ streams";
static const char *const real_lib = "the tool1cd library (page cache, internal files, tables, containers), boost::filesystem, zlib, libstdc++ streams";
static const char *const stub_all = "the kernel below the C library: files, directories, clock, entropy and process exit are simulated; the 1C platform that writes databases is replaced by a generator";
void c01(); void c02(); void c03(); void c04(); void c05(); void c15(); void c07(); void c08(); void c09(); void c10(); void c11(); void c12(); void c13(); void c14(); void c06(); void c16(); void c20(); void c21();
const vector<Property> &properties() { static vector<Property> v = {
	{"C01", c01, 400000, "Each run draws a database (version, page size, layout, contents, sometimes an object long enough for a second allocation level), a clock, short reads of the kernel and up to 63 operations: whole and partial reads, reads outside, blob values, records, physical places, cache ageing and clock jumps. Non-trivial: at least one read was compared.", real_lib, stub_all},
	{"C02", c02, 400000, "Each run draws a database (version, page size, tables, field types, records, blobs, indexes, page layout), a clock and an export command with its blob modes. Non-trivial: at least one table was exported.", real_all, stub_all},
	{"C03", c03, 400000, "Each run draws a receiving database and one to three sources with the same tables and other records and layouts, exports the sources, imports drawn parts of them in one or two sessions, and compares the exported files, the file of the receiver (independent reader), exports and XML exports in the session and after reopening. Non-trivial: at least one table was imported.", real_all, stub_all},
	{"C04", c04, 400000, "Each run draws a database and either sessions of edits of its internal files or sessions of imports; after each session an independent reader checks the ownership of every page, the header and the contents of what was not edited. Non-trivial: at least one file was checked.", real_all, stub_all},
	{"C05", c05, 400000, "Each run draws a database and one to three sessions of up to 26 edits each (whole and partial writes from memory or a stream, growth, truncation, deletion, new objects, flushes, kills after the last flush, read-only sessions) over its data and blob files and new internal files. Non-trivial: at least one edit was made or refused.", real_lib, stub_all},
	{"C06", c06, 400000, "Each run draws a database of any kind with the files beside it and a run of one to four commands, imports, impossible commands and options among them; in a third of the runs operations fail or the process is killed. Every operation of the run on the directory of the database, and the directory afterwards, are checked. Non-trivial: at least one directory was compared.", real_all, stub_all},
	{"C07", c07, 400000, "Each run draws a container (zipped, plain, .cfu, in a file or a stream, new or existing with fragmented chains and a free list) and up to 40 operations on it and on its nested catalogs: creating, whole and partial writing by every interface, reading, listing, deleting, renaming, setting times, flushing, closing, half closing, saving to a directory, reopening. After every flush and close an independent reader compares what is stored with the map. Non-trivial: at least one container was compared.", real_lib, stub_all},
	{"C08", c08, 400000, "Each run draws an infobase: the five service tables with files in one or several parts, dynamic updates in and out of force, pending, .new and deleted files, vendor configurations, removed and nameless records; and one to three dump commands, over existing outputs or not. Every member of every container is compared with the drawn configuration: name, bytes, times. Non-trivial: at least one member was compared.", real_all, stub_all},
	{"C09", c09, 400000, "Each run draws a depot (version 3, 5, 6 or 7; histories of objects with changes, removals, re-additions, records without data, attached files; data in tables, packs, loose files; snapshots valid, missing and damaged) and one to four dumps of versions given by number or from the end, or of an unknown version. Every member is compared. Non-trivial: at least one version was compared.", real_all, stub_all},
	{"C10", c10, 400000, "Each run draws a depot as for C09 and one to four partial dumps of ranges or single versions, in either order, absolute or relative. Objects, attached files, the list of removed ones and the absence of anything else are compared. Non-trivial: at least one range was compared.", real_all, stub_all},
	{"C12", c12, 400000, "Each run draws a database of any kind, damages its contents (texts, packed data, numbers, names), its file (bits, numbers, bytes, blank, misplaced and torn pages, cut) or the files beside it, and runs one or two commands on it. Non-trivial: always. It must end by itself within a bounded number of operations, processor time and memory, write nothing but its output and its temporary files, and leave the database alone.", real_all, stub_all},
	{"C11", c11, 400000, "Each run draws a database of any kind and one or two commands, imports among them, runs them without failures and then, on a fresh copy, with failing operations (any kind, place, moment, errno, once or for good), short transfers and full disks; outputs, database, messages and exit status are compared. Non-trivial: at least one operation failed.", real_all, stub_all},
	{"C13", c13, 400000, "Each run draws a database of any kind, one to three runs of commands on it, what is in the temporary directory beforehand (among it what a killed run left) and whether the runs go one after another or interleaved at every file operation, one of them killed or not. Every operation below the temporary directory, the outputs and what stays there are checked. Non-trivial: at least one run was compared.", real_all, stub_all},
	{"C14", c14, 400000, "Each run draws a database with up to six lost objects of drawn lengths (empty, around page sizes, sometimes with a second allocation level) and a run of up to five commands: rescues and statistics, exports and an import among them. The rescued files are compared with the lost objects, the statistics with what an independent reader finds. Non-trivial: at least one rescue or one statistics file was compared.", real_all, stub_all},
	{"C15", c15, 400000, "Each run draws databases as for C03 and one import session in which import files are missing, unreadable, truncated or directories, reads or opens fail, an allocation fails, or the process is killed at a drawn operation; the history of operations shows when the database was written, and the file is compared with what the attempts must have left. Non-trivial: at least one import was attempted.", real_all, stub_all},
	{"C16", c16, 400000, "Each run draws a database of any kind and one to five commands, imports and impossible ones among them, runs them one by one and then, on a fresh copy, in one run; outputs, database contents, reports and exit status are compared. Non-trivial: at least one run was compared.", real_all, stub_all},
	{"C20", c20, 400000, "Each run draws one or two databases (tables, indexes of any depth, deleted records, blobs plain, packed and damaged; any format and page layout; perhaps one file opened twice) and up to 53 steps of browsing: cells, scrolling and whole orders through any index or none, walks left and taken up again, values shown and blobs fetched, cache ageing, clock jumps, opening and closing; in two thirds of the runs reads fail for a while. Non-trivial: at least one value or order was compared.", real_lib, stub_all},
	{"C21", c21, 400000, "Each run draws an infobase, a container, a directory or several of them and up to 43 operations through the common interface of configuration sources: reading files by their paths (nested, in any letter case, with either separator), asking for missing ones, keeping files open, reading parts, existence, writing, cache ageing; in some runs reads fail for a while. Non-trivial: at least one file was compared.", real_lib, stub_all},
}; return v; }
}
