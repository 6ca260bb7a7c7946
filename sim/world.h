// Shared by the scenarios: drawn databases, environments and expectations.
#pragma once
#include "db.h"
#include <map>
#include <set>

namespace sim {

DbDef gen_db(int maxsize, int only = -1, bool very_many = false);  // a drawn database
void gen_env();                            // how fast the clock moves, where the tick counter starts
vector<FaultRule> gen_benign();            // short transfers and clock jumps, which must change nothing
void widen(DbDef &db, uint64_t maxpages = 1 << 21); // sometimes: pages beyond 2 or 4 GB
void stretch(DbDef &db, bool records = true); // sometimes: internal files beyond 2 or 4 GB, or pages beyond
void put_db(DbDef &db, const string &path);
void need_ok(const Result &r, const string &what);        // a run that must succeed
void need_no_crash(const Result &r, const string &what);  // a run that must end by itself
bool wild_match(const string &pat, const string &s);      // case-insensitive, * and ?
string gen_filter(const DbDef &db, vector<size_t> &chosen); // a table list argument and the tables it names
bool said_error(const Result &r);                         // an error was reported
string lower(string s);
void check_no_escape();
void check_tmp_clean(const string &what);
string rel_list(const string &dir);

// sc_conf.cpp
struct StoredFile { string name, created, modified; Bytes data; }; // as a files table holds it; times as 14 digits
struct ConfWorld {
	DbDef db;
	vector<CfNode> ddc, dc;            // what the dumps of the database and of the main configuration must hold
	std::map<string, Bytes> vendors;   // file name: contents
};
ConfWorld gen_infobase(int only = -1, bool cut_containers = false);
TableDef files_table(Rng &r, const string &name, bool partno);
void put_files(Rng &r, TableDef &t, const vector<StoredFile> &files, bool cut_containers = false);
string random_guid(Rng &r);
bool stored_packed(const string &name);              // does a files table hold it deflated
CfNode random_tree(Rng &r, int depth, bool cyr);      // sc_src.cpp: a directory
string random_dt(Rng &r);
uint64_t dt_v8time(const string &digits);
Bytes bom_text(const string &s);
void check_cf(const string &path, const vector<CfNode> &want, const string &what);
void check_vendors(const string &dir, const ConfWorld &w, std::set<string> &expect);

// sc_depot.cpp
struct DepotExt { string name; Bytes verid; bool packed = false; Bytes plain, stored; vector<CfNode> kids; };
struct DepotRow { int ver = 0; bool removed = false, data = false; Bytes content, stored, objverid; vector<DepotExt> ext; };
struct DepotObj { Bytes id; vector<DepotRow> rows; };
struct DepotSnap { bool valid = false; Bytes content; };
struct DepotWorld {
	DbDef db;
	int dver = 7, major = 216;
	bool v6 = false, outside = false;    // data may lie outside the tables
	Bytes root;
	vector<int> vers;
	vector<DepotObj> objs;
	std::map<int, DepotSnap> snaps;
	std::map<string, Bytes> files;       // beside the database
};
DepotWorld gen_depot(int maxdver = 0);
void put_depot(DepotWorld &w, const string &dir); // the database is <dir>/1cv8ddb.1CD
int depot_version(const DepotWorld &w, int n);
void check_depot_cf(const string &path, const DepotWorld &w, int n);
void check_depot_part(const string &dir, const DepotWorld &w, int a, int b);

// session.cpp
struct Cmd {
	vector<string> args;
	int kind = 0;
	string what, out;            // its name; the directory its output goes to
	bool import = false, fails = false; // fails: it cannot be carried out
	vector<size_t> tables;       // an import's
};
struct Session {
	int kind = 0;                // 0 plain, 1 infobase, 2 depot
	DbDef def;                   // the database
	ConfWorld conf;
	DepotWorld depot;
	string db, dir;              // the database file, its directory
	string imports;              // directory of import files
	DbDef source;                // where they came from
	bool writable = true, ne = false;
	bool unsure = false;         // an import may have made some commands impossible
	string log;                  // the log file, when one is asked for
	bool bad_log = false;        // one that cannot be written
};
enum { BAD = 1, IMPORT = 2 };
Session gen_session(int kind = -1, int size = 1, int only = -1);
void make_imports(Session &s);
Cmd gen_cmd(Session &s, const string &base, uint32_t mode);
void gen_options(vector<string> &a, Session &s, bool any_log = false);
string join(const vector<string> &a);
string diff_outputs(const string &a, const string &b);
string diff_dbs(const Bytes &a, const Bytes &b);

} // namespace sim
