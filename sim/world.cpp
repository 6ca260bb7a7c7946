#include "world.h"
#include <algorithm>
#include <cstring>

namespace sim {

extern int cpu_limit;

string lower(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

DbDef gen_db(int maxsize, int only, bool very_many)
{
	static const Ver order[6] = { V8214, V838, V820, V810, V805, V803 };
	Ver v = only >= 0 ? (Ver)only : order[pick_weighted({ 4, 5, 1, 1, 1, 1 }, "db version")];
	int size = maxsize ? draw(maxsize + 1, "db size") : 0;
	Rng r(draw(1u << 30, "db seed"));
	DbDef db = random_db(r, v, size);
	// cuts, so that a failing case can be made small
	uint32_t n = 1 + draw(8, "tables kept");
	if (n < db.tables.size()) db.tables.resize(n);
	uint32_t k = draw(4, "records kept");
	static const size_t lim[4] = { 1, 3, 12, 1u << 30 };
	for (auto &t : db.tables) {
		size_t head = !t.recs.empty() && t.recs[0].removed ? 1 : 0;
		if (t.recs.size() > lim[k] + head) t.recs.resize(lim[k] + head);
	}
	// many tables: the list of tables no longer fits a page, a blob block
	if (uint32_t crowd = draw(120, "crowd"); crowd >= 118) {
		uint32_t want = crowd == 118 || !very_many ? 40 + draw(very_many ? 300 : 80, "many tables") : 1000 + draw(60, "very many tables");
		if (want >= 1000) cpu_limit = 60;
		for (uint32_t i = 0; db.tables.size() < want; i++) {
			TableDef t = random_table(r, (i & 1 ? "_T" : "R") + std::to_string(i), 0);
			bool twice = false;
			for (auto &x : db.tables) twice |= lower(x.name) == lower(t.name);
			if (twice) continue;
			if (t.fields.size() > 2 && t.indexes.empty()) t.fields.resize(2), t.recs.clear();
			if (t.recs.size() > 3) t.recs.resize(3);
			db.tables.push_back(t);
		}
		probe("databases of many tables");
	}
	uint32_t lay = draw(4, "layout");
	if (!(lay & 1)) db.frag = db.gaps = db.freepages = 0;
	if (!(lay & 2)) db.index_fill = 0;
	trace("database %s page size %u, %zu tables", ver_name[db.ver], db.pagesize, db.tables.size());
	return db;
}
void gen_env()
{
	static const int64_t step[] = { 20000, 3000000, 1000000000ll, 30000000000ll, 400000000000ll };
	S->tick_ns = step[draw(5, "clock step")];
	S->tick_seed = draw(3, "tick counter start");
	S->tz = draw(3, "time zone");
}
vector<FaultRule> gen_benign()
{
	vector<FaultRule> v;
	uint32_t k = draw(4, "benign faults");
	if (k & 1) {
		FaultRule r;
		r.kind = FaultRule::SHORT;
		r.ops = draw(2, "short writes") ? 1 << OP_WRITE : 1 << OP_READ;
		r.at = draw(60, "short from");
		r.count = 1 + draw(200, "short count");
		r.arg = draw(1000, "short part");
		v.push_back(r);
	}
	if (k & 2) {
		FaultRule r;
		r.kind = FaultRule::JUMP;
		r.ops = (1u << OP_N) - 1;
		r.at = draw(3000, "jump at");
		r.count = 1 + draw(3, "jumps");
		r.arg = draw(2, "back") ? -7200000000000ll : 86400000000000ll * 400;
		v.push_back(r);
	}
	return v;
}
void widen(DbDef &db, uint64_t maxpages)
{
	if (draw(12, "long file") != 11) return;
	if (db.ver == V838 && draw(4, "pages of a long file") < 3) db.pagesize = 65536;
	uint64_t limit = draw(3, "length of the file") ? 1ull << 32 : 1ull << 31;
	uint64_t n = limit / db.pagesize - draw(60, "pages before the limit");
	if (n > maxpages) return;
	db.wide = n;
	db.wide_after = draw(15, "allocated before");
}
void stretch(DbDef &db, bool records)
{
	if (draw(9, "long internal file") != 8) { widen(db); return; }
	if (db.ver == V838 && draw(4, "pages of a long file") < 3) db.pagesize = 65536;
	const uint32_t ps = db.pagesize;
	uint64_t limit = db.ver == V838 && ps > 4096 && draw(4, "length of the internal file") ? 1ull << 32 : 1ull << 31;
	uint64_t n = limit / ps - draw(4, "pages before the limit");
	Rng r(draw(1u << 30, "gap seed"));
	size_t first = draw(db.tables.size(), "stretched table");
	uint32_t kind = draw(3, "stretched file");
	for (size_t q = 0; q < db.tables.size(); q++) for (uint32_t k = 0; k < 3; k++) {
		TableDef &t = db.tables[(first + q) % db.tables.size()];
		switch ((kind + k) % 3) {
		case 0:
			if (!t.blob_file(db.ver) || t.recs.empty()) break;
			if (ps > 4096) for (auto &rec : t.recs) if (!rec.removed) for (size_t c = 0; c < t.fields.size(); c++) if (t.fields[c].type == "I" && !rec.cells[c].null && !rec.cells[c].absent && r.pct(60)) rec.cells[c] = blob_cell(r.bytes(r.below(90000))); // so that some are on both sides
			t.blob_gap.at = 1 + r.below(4);
			t.blob_gap.n = n;
			trace("the blobs of %s have a gap of %llu pages after %llu", t.name.c_str(), (unsigned long long)n, (unsigned long long)t.blob_gap.at);
			return;
		case 1: {
			if (!records || t.primary_index() == ~0u || t.recs.empty()) break;
			uint32_t rl = t.hidden_version() ? 9 : 1;
			for (auto &f : t.fields) rl += f.size();
			uint32_t want = 4096;
			while (want < ps && (want < rl + 3 || r.pct(60))) want *= 2;
			if (want < rl + 3) break;
			if ((want - rl) % 2) {
				FieldDef f;
				f.name = "GAPFLAG"; f.type = "L"; f.len = 1;
				t.fields.push_back(f);
				for (auto &rec : t.recs) rec.cells.push_back(raw_cell(Bytes(1, r.below(2))));
				rl++;
			}
			FieldDef f;
			f.name = "GAPTEXT"; f.type = "NC"; f.len = (want - rl) / 2;
			t.fields.push_back(f);
			for (auto &rec : t.recs) rec.cells.push_back(mkcell(f, random_text(r, std::min(f.len, 30), true)));
			t.data_gap.at = r.below(t.recs.size() * want / ps + 1);
			t.data_gap.n = n;
			t.data_gap.fill = Bytes(ps);
			for (uint32_t i = 0; i < ps; i += want) { t.data_gap.fill[i] = 1; for (uint32_t c = 5; c < want; c++) t.data_gap.fill[i + c] = c; }
			trace("the records of %s have a gap of %llu pages after %llu", t.name.c_str(), (unsigned long long)n, (unsigned long long)t.data_gap.at);
			return;
		}
		default:
			if (t.indexes.empty() || t.recs.empty()) break;
			t.index_gap.at = 1 + r.below(3);
			t.index_gap.n = n;
			trace("the indexes of %s have a gap of %llu pages after %llu", t.name.c_str(), (unsigned long long)n, (unsigned long long)t.index_gap.at);
			return;
		}
	}
}
void put_db(DbDef &db, const string &path)
{
	Img img = mk1cd(db);
	hash_bytes(img.data.data(), img.data.size());
	for (auto &t : db.tables) if (t.data_gap.n || t.blob_gap.n || t.index_gap.n) probe("long internal file");
	if (img.ps) probe(img.size() > 1ull << 32 ? "database beyond 4 GB" : "database beyond 2 GB");
	fs_put(path, img);
	probe(fmt("database %s", ver_name[db.ver]).c_str());
	if (S->sample.size() < 1500) S->sample += fmt("%s: version %s, page %u, %zu tables, %llu bytes; ", path.c_str(), ver_name[db.ver], db.pagesize, db.tables.size(), (unsigned long long)img.size()).c_str();
}
bool said_error(const Result &r)
{
	return r.out.find("error") != string::npos || r.err.find("error") != string::npos || r.out.find("ERROR") != string::npos || r.err.find("ERROR") != string::npos;
}
void need_no_crash(const Result &r, const string &what)
{
	if (r.hang) fail("hang", what + ": the program does not end\n" + r.describe());
	if (r.killed) harness_error(what + ": killed although no kill was injected\n" + r.describe());
	if (!r.exited) fail("crash", what + ": the program crashed\n" + r.describe());
}
void need_ok(const Result &r, const string &what)
{
	need_no_crash(r, what);
	if (r.code != 0) fail("unexpected-failure", fmt("%s: exit status %d\n", what.c_str(), r.code) + r.describe());
	if (said_error(r)) fail("unexpected-error", what + ": an error is reported although nothing failed\n" + r.describe());
}
bool wild_match(const string &p, const string &s)
{
	size_t i = 0, j = 0, star = string::npos, mark = 0;
	string a = lower(p), b = lower(s);
	while (j < b.size()) {
		if (i < a.size() && a[i] == '*') { star = i++; mark = j; }
		else if (i < a.size() && (a[i] == '?' || a[i] == b[j])) { i++; j++; }
		else if (star != string::npos) { i = star + 1; j = ++mark; }
		else return false;
	}
	while (i < a.size() && a[i] == '*') i++;
	return i == a.size();
}
string gen_filter(const DbDef &db, vector<size_t> &chosen)
{
	static const char *const sep[] = { ",", ";", " ", ", ", "\t", ",;" };
	uint32_t n = 1 + draw(3, "filter items");
	vector<string> pats;
	for (uint32_t i = 0; i < n; i++) {
		string nm = db.tables[draw(db.tables.size(), "filter table")].name;
		switch (pick_weighted({ 6, 2, 2, 2, 1, 1 }, "filter kind")) {
		case 0: break;
		case 1: nm = "*"; break;
		case 2: nm = nm.substr(0, 1 + draw(nm.size(), "prefix")) + "*"; break;
		case 3: nm[draw(nm.size(), "wild at")] = '?'; break;
		case 4: nm = nm + "X"; break; // no such table
		case 5: nm = "*" + nm.substr(draw(nm.size(), "suffix")); break;
		}
		if (draw(3, "filter case") == 1) nm = lower(nm);
		pats.push_back(nm);
	}
	string f;
	for (auto &p : pats) { if (!f.empty()) f += sep[draw(6, "separator")]; f += p; }
	chosen.clear();
	for (size_t i = 0; i < db.tables.size(); i++) {
		bool m = false;
		for (auto &p : pats) m |= wild_match(p, db.tables[i].name);
		if (m) chosen.push_back(i);
	}
	return f;
}
void check_no_escape()
{
	if (!S->escapes.empty()) fail("escape", "a file outside the simulated tree was to be changed: " + string(S->escapes[0].c_str()));
}
void check_tmp_clean(const string &what)
{
	for (auto &f : fs_walk("/sim/tmp")) fail("temp-left", what + ": temporary file left: " + f);
}
string rel_list(const string &dir) { string r; for (auto &f : fs_walk(dir)) r += f + "\n"; return r; }

} // namespace sim
