// Model of a 1CD database: definition (the oracle's view), image builder, independent reader.
#pragma once
#include "sim.h"
#include <functional>
#include <map>

namespace sim {

enum Ver { V803, V805, V810, V820, V8214, V838 };
extern const char *const ver_name[6];

struct FieldDef {
	string name, type; // B L N NC NVC RV NT T I DT VB; "V8" for the hidden VERSION field
	bool null = false;
	int len = 0, prec = 0;
	bool cs = false;
	bool blob() const { return type == "NT" || type == "T" || type == "I"; }
	int raw_size() const; // without the null byte
	int size() const { return raw_size() + (null ? 1 : 0); }
};
struct IndexDef {
	string name;
	bool primary = false;
	vector<std::pair<string, int>> cols; // field name, key length
};
struct Cell {
	bool null = false;
	bool absent = false; // blob: start = length = 0
	Bytes raw;           // non-blob value
	Bytes blob;
};
struct Rec {
	bool removed = false;
	Bytes hidden;        // hidden version field value (8 bytes)
	vector<Cell> cells;
};
// pages put into an internal file, all with the same contents, which nothing refers to
struct Gap {
	uint64_t at = 0, n = 0; // before this page, so many
	Bytes fill;             // one page; empty: zeros
	uint64_t unit(uint64_t k, uint64_t size, uint32_t ps) const { return n && k >= at * ps / size ? k + n * ps / size : k; } // the number of a unit of so many bytes
};
struct TableDef {
	string name;
	vector<FieldDef> fields;
	vector<IndexDef> indexes;
	bool recordlock = false;
	bool late_blob = false;  // its blob file, which no field needs, is not made yet (before 8.3.8)
	bool force_blob = false; // has a blob file although no field needs one
	vector<Rec> recs;        // physical order, removed ones included
	vector<vector<uint32_t>> order; // per index: physical numbers in index order
	// filled by the builder
	uint32_t descr = 0, data = 0, blob = 0, index = 0;
	uint32_t reclen = 0;
	string descr_text;
	std::function<void(string &)> descr_edit; // changes the stored description
	Bytes data_bytes, blob_bytes, index_bytes; // without the gaps
	Gap data_gap, blob_gap, index_gap;
	uint32_t ps = 0;
	uint32_t phys(size_t rec) const { return data_gap.unit(rec, reclen, ps); } // its number in the file
	vector<uint32_t> start, length; // blob references, per record and blob field (row-major over fields)
	bool hidden_version() const;
	bool has_blob() const;
	bool blob_file(Ver v) const; // the file exists
	int field(const string &n) const;
	Cell &cell(size_t rec, const string &f) { return recs[rec].cells[field(f)]; }
	const Cell &cell(size_t rec, const string &f) const { return recs[rec].cells[field(f)]; }
	vector<size_t> live() const;
	vector<size_t> export_order() const;  // what -eax must list
	uint32_t primary_index() const;       // index number or ~0
	void add(const vector<Cell> &c) { Rec r; r.cells = c; recs.push_back(r); }
};
struct LostObj { Bytes content; uint32_t page = 0; };
struct DbDef {
	Ver ver = V8214;
	uint32_t pagesize = 4096;
	string lang = "ru_RU";
	vector<TableDef> tables;
	vector<LostObj> lost;
	bool lost_last = false;  // the header page of the last lost object ends the file
	// layout
	uint32_t frag = 0;       // percent: pages out of order
	uint32_t gaps = 0;       // percent: holes that become free pages
	uint32_t freepages = 0;  // additional free pages
	uint32_t index_fill = 0; // entries per index page limit (0: as many as fit)
	uint64_t wide = 0;       // so many pages that belong to nothing
	uint32_t wide_after = 0; // are after so many allocated ones
	uint64_t seed = 1;
	// result
	uint32_t pages = 0;
	vector<uint32_t> free;
	TableDef *table(const string &n);
};
Img mk1cd(DbDef &db);

Bytes utf16(const string &utf8);
string utf8(const Bytes &utf16);
Cell mkcell(const FieldDef &f, const string &text); // text value in UTF-8 for NC/NVC/NT/T, digits for N
Cell raw_cell(const Bytes &raw);
Cell blob_cell(const Bytes &b);
Cell null_cell();
string xml_value(const TableDef &t, const FieldDef &f, const Cell &c, bool show_guid_ms);
string xml_export(const TableDef &t, bool show_guid_ms, bool mark_images = false); // the whole document, blobs inline or marked with \x01
string type_name(const FieldDef &f);
string guid_1c(const uint8_t *p);
string guid_ms(const uint8_t *p);

// random content
DbDef random_db(Rng &r, Ver v, int size); // size 0 small .. 2 big
TableDef random_table(Rng &r, const string &name, int size);
void random_record(Rng &r, TableDef &t, int size);
void make_indexes(Rng &r, TableDef &t, int n, bool primary);
string random_ident(Rng &r, int maxlen);
string random_text(Rng &r, int maxlen, bool wild);

// ---------------------------------------------------------------- independent reader
struct RdObj {
	uint32_t page = 0;
	uint64_t len = 0;
	Bytes data;                  // unless it is very long
	Bytes part(const Img &img, uint32_t ps, uint64_t at, uint64_t n) const;
	vector<uint32_t> pages;      // every page the object owns (header, allocation, data)
	vector<uint32_t> data_pages;
};
struct RdTable {
	string name, descr;
	uint32_t block = 0, f[3] = {};
	RdObj o_descr, o[3];
};
struct RdDb {
	string error;  // "" when the file is well-formed as far as this reader goes
	Ver ver = V8214;
	uint32_t pagesize = 0, length = 0;
	RdObj free_obj, root;
	vector<uint32_t> free;
	vector<RdTable> tables;
	vector<uint32_t> lost; // pages owned by nothing
	RdTable *table(const string &n);
};
RdDb rd1cd(const Img &img);
bool rd_object(const Img &img, const RdDb &db, uint32_t page, RdObj &o, string &err);

// ---------------------------------------------------------------- cf containers
struct CfNode {
	string name;
	bool dir = false;
	bool mark = false;  // free for scenarios
	Bytes data;                 // file: plain contents
	vector<CfNode> kids;        // dir
	uint64_t created = 0, modified = 0; // 1C time: 1/10000 s
};
struct CfLayout { Rng *r = nullptr; uint32_t frag = 0; uint32_t page = 512; bool holes = false; };
Bytes mkcf(const vector<CfNode> &kids, bool zipped, CfLayout *l = nullptr);
struct CfRead { string error; vector<CfNode> files; uint32_t storage_ver = 0; }; // files: not descended into
CfRead rdcf(const Bytes &b, bool zipped);
Bytes deflate(const Bytes &b, int level = -1);
bool inflate(const Bytes &b, Bytes &out); // raw deflate; false on damage or truncation
inline void put16(Bytes &b, uint32_t v) { b.push_back(v); b.push_back(v >> 8); }
inline void put32(Bytes &b, uint32_t v) { put16(b, v); put16(b, v >> 16); }
inline void put64(Bytes &b, uint64_t v) { put32(b, v); put32(b, v >> 32); }
inline void set32(Bytes &b, size_t at, uint32_t v) { for (int i = 0; i < 4; i++) b[at + i] = v >> 8 * i; }
inline uint32_t get32(const Bytes &b, size_t at) { uint32_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | b[at + i]; return v; }
inline uint32_t get16(const Bytes &b, size_t at) { return b[at] | b[at + 1] << 8; }
inline uint64_t get64(const Bytes &b, size_t at) { return get32(b, at) | (uint64_t)get32(b, at + 4) << 32; }
inline void append(Bytes &b, const Bytes &x) { b.insert(b.end(), x.begin(), x.end()); }
inline void append(Bytes &b, const string &x) { b.insert(b.end(), x.begin(), x.end()); }

} // namespace sim
