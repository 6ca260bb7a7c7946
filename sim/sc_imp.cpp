// C03, C04 (imports), C15: binary export and import.
#include "world.h"
#include <algorithm>
#include <cstring>

namespace sim {

void c04_objects();

// ---------------------------------------------------------------- the world: one receiving database, sources with the same tables
static DbDef variant(const DbDef &db, const char *what)
{
	DbDef v = db;
	Rng r(draw(1u << 30, what));
	v.seed = r.next();
	v.frag = r.pct(50) ? r.range(5, 100) : 0;
	v.gaps = r.pct(40) ? r.range(5, 60) : 0;
	v.freepages = r.pct(40) ? r.range(1, 12) : 0;
	uint32_t size = draw(4, "source size");
	for (auto &t : v.tables) {
		t.recs.clear();
		t.order.clear();
		t.late_blob = r.pct(20);
		if (v.ver != V838 && r.pct(10)) t.force_blob = true; // only the source has a blob file
		if (r.pct(60)) { Rec z; z.removed = true; t.recs.push_back(z); }
		uint32_t n = r.pct(15) ? 0 : r.range(1, size == 0 ? 3 : size == 1 ? 10 : size == 2 ? 60 : 300);
		for (uint32_t i = 0; i < n; i++) {
			random_record(r, t, size ? 1 : 0);
			if (r.pct(10)) t.recs.back().removed = true;
		}
	}
	if (draw(25, "long value") == 24) for (auto &t : v.tables) if (!t.live().empty()) {
		bool done = false;
		for (size_t k = 0; k < t.fields.size() && !done; k++) if (t.fields[k].type == "I") {
			t.recs[t.live()[0]].cells[k] = blob_cell(r.bytes(r.range(3900000, 4400000)));
			done = true;
			probe("long values");
		}
		if (done) break;
	}
	return v;
}
struct Source { string db, dir; DbDef def; RdDb rd; };
static vector<Source> g_src;
static DbDef g_dst;
static RdDb g_before;

static RdDb read_db(const string &path, const string &when)
{
	Img img = fs_img(path);
	RdDb rd = rd1cd(img);
	if (!rd.error.empty()) fail("broken-structure", when + ": " + rd.error);
	if (rd.length * (uint64_t)rd.pagesize != img.size()) fail("broken-structure", when + fmt(": the header counts %u pages of %u bytes, the file has %llu bytes", rd.length, rd.pagesize, (unsigned long long)img.size()));
	return rd;
}
static string pick_list(const DbDef &db, vector<size_t> &chosen, const char *all)
{
	if (!draw(2, all)) { chosen.clear(); for (size_t i = 0; i < db.tables.size(); i++) chosen.push_back(i); return "*"; }
	return gen_filter(db, chosen);
}
static const char *const obj_name[3] = { "data", "blob", "index" };

static void check_exported(const string &dir, const RdDb &rd, const vector<size_t> &tabs, const string &when)
{
	std::set<string> want;
	for (size_t i : tabs) {
		const RdTable &t = rd.tables[i];
		string d = dir + "/" + t.name;
		want.insert(t.name + "/");
		Bytes root;
		if (!fs_get(d + "/root", root)) fail("missing-file", when + ": " + d + "/root");
		want.insert(t.name + "/root");
		if (root.size() < 4) fail("wrong-export", when + ": " + d + "/root is too short");
		for (int k = 0; k < 3; k++) {
			Bytes b;
			bool have = fs_get(d + "/" + obj_name[k], b);
			if (have) want.insert(t.name + "/" + obj_name[k]);
			if (have != (t.f[k] != 0)) fail("wrong-export", when + fmt(": the %s file of table %s is %s", obj_name[k], t.name.c_str(), have ? "there although the table has none" : "missing"));
			if ((root[k] != 0) != have) fail("wrong-export", when + fmt(": root of table %s does not tell whether there is a %s file", t.name.c_str(), obj_name[k]));
			if (have && b != t.o[k].data) fail("wrong-export", when + fmt(": %s of table %s: ", obj_name[k], t.name.c_str()) + diff_bytes(b, t.o[k].data));
			state(mix(hash64(b), k));
		}
		if (fs_exists(d + "/descr")) want.insert(t.name + "/descr");
	}
	for (auto &f : fs_walk(dir)) if (!want.count(f)) fail("extra-output", when + ": " + dir + "/" + f);
	probe("tables exported", tabs.size());
}

static void make_world(bool one)
{
	static const int writable[] = { V8214, V838, V820, V810 };
	gen_env();
	g_dst = gen_db(1, writable[draw(4, "writable version")]);
	g_src.clear();
	if (draw(4, "blob file made later") == 3) for (auto &t : g_dst.tables) t.late_blob = true;
	widen(g_dst);
	put_db(g_dst, "/sim/w/dst.1cd");
	g_before = read_db("/sim/w/dst.1cd", "drawn database");
	uint32_t n = 1 + (one ? 0 : draw(3, "sources"));
	for (uint32_t i = 0; i < n; i++) {
		Source s;
		s.db = fmt("/sim/w/src%u.1cd", i);
		s.dir = fmt("/sim/w/exp%u", i);
		s.def = i && draw(6, "own tables") == 5 ? g_dst : variant(g_dst, "source seed");
		s.def.wide = 0;
		widen(s.def);
		if (s.def.pagesize != g_dst.pagesize) s.def.pagesize = g_dst.pagesize, s.def.wide = 0;
		put_db(s.def, s.db);
		s.rd = read_db(s.db, "drawn database");
		fs_mkdir(s.dir);
		g_src.push_back(s);
	}
}
// exports the sources by themselves; chosen[i]: tables exported from source i
static vector<vector<size_t>> export_sources(bool check, bool all)
{
	vector<vector<size_t>> chosen(g_src.size());
	for (size_t i = 0; i < g_src.size(); i++) {
		Source &s = g_src[i];
		vector<string> a = { s.db };
		if (draw(4, "exclusive")) a.push_back("-ne");
		string f = all ? "*" : pick_list(s.def, chosen[i], "part of the tables");
		if (all) for (size_t k = 0; k < s.def.tables.size(); k++) chosen[i].push_back(k);
		a.insert(a.end(), { "-eb", s.dir, f });
		Img before = fs_img(s.db);
		FaultRule sh;
		sh.kind = FaultRule::SHORT;
		sh.ops = 1u << OP_READ | 1u << OP_WRITE;
		sh.at = draw(40, "short at");
		sh.count = 1 + draw(20, "short transfers");
		sh.arg = 1 + draw(900, "short part");
		vector<FaultRule> fr;
		if (draw(4, "short transfers") == 3) fr.push_back(sh);
		Result r = run_cli(a, fr);
		need_ok(r, "binary export");
		if (check) {
			check_exported(s.dir, s.rd, chosen[i], "binary export of " + s.db);
			if (fs_img(s.db) != before) fail("file-changed", "a binary export changed the database");
		}
	}
	return chosen;
}

struct Content { Bytes o[3]; bool have[3] = {}; int from = -1; };
static vector<Content> contents(const RdDb &rd)
{
	vector<Content> v(rd.tables.size());
	for (size_t i = 0; i < v.size(); i++) for (int k = 0; k < 3; k++) { v[i].have[k] = rd.tables[i].f[k] != 0; v[i].o[k] = rd.tables[i].o[k].data; }
	return v;
}
static void import_over(Content &c, const Content &n, int from)
{
	for (int k = 0; k < 3; k++) if (n.have[k]) { c.have[k] = true; c.o[k] = n.o[k]; }
	c.from = from;
}
static void need_contents(const RdDb &rd, const vector<Content> &want, const string &when)
{
	if (rd.tables.size() != want.size()) fail("broken-structure", when + ": tables got lost");
	for (size_t i = 0; i < want.size(); i++) for (int k = 0; k < 3; k++) {
		const RdTable &t = rd.tables[i];
		if ((t.f[k] != 0) != want[i].have[k]) fail("wrong-contents", when + fmt(": the %s of table %s is %s", obj_name[k], t.name.c_str(), want[i].have[k] ? "missing" : "there although none was imported"));
		if (t.f[k] && t.o[k].data != want[i].o[k]) fail("wrong-contents", when + fmt(": %s of table %s, last %s: ", obj_name[k], t.name.c_str(), want[i].from < 0 ? "not imported" : "imported") + diff_bytes(t.o[k].data, want[i].o[k]));
	}
}

enum { CONTENTS = 1, STRUCTURE = 2 };
static void import_flow(int checks)
{
	make_world(false);
	vector<vector<size_t>> exported = export_sources(checks & CONTENTS, false);
	vector<Content> now = contents(g_before);
	uint32_t sessions = 1 + draw(2, "sessions");
	std::set<size_t> edited;
	RdDb before = g_before;
	for (uint32_t q = 0; q < sessions; q++) {
		vector<string> a = { "/sim/w/dst.1cd" };
		uint32_t n = 1 + draw(3, "imports");
		bool missing = false;
		vector<std::pair<string, vector<Content>>> outs;
		for (uint32_t i = 0; i < n; i++) {
			size_t k = draw(g_src.size(), "source");
			vector<size_t> ch;
			string f = pick_list(g_dst, ch, "part of the imports");
			a.insert(a.end(), { "-ib", g_src[k].dir, f });
			vector<Content> sc = contents(g_src[k].rd);
			for (size_t t : ch) {
				if (std::find(exported[k].begin(), exported[k].end(), t) == exported[k].end()) { missing = true; continue; }
				import_over(now[t], sc[t], k);
				edited.insert(t);
				probe("tables imported");
			}
			if (draw(3, "look in between") == 2) {
				string d = fmt("/sim/w/out%u.%u", q, i);
				fs_mkdir(d);
				a.insert(a.end(), { "-eb", d, "*" });
				outs.push_back({ d, now });
			}
		}
		string xml = fmt("/sim/w/xml%u", q);
		bool want_xml = (checks & CONTENTS) && draw(3, "look as XML") == 2;
		if (want_xml) { fs_mkdir(xml); a.insert(a.end(), { "-pb", "0", "-eax", xml }); }
		Result r = run_cli(a);
		if (missing) need_no_crash(r, "import"); else need_ok(r, "import");
		if (missing && !r.code) fail("unreported", "an import from a directory which is not there was not reported");
		RdDb rd = read_db("/sim/w/dst.1cd", "after the import");
		if (checks & CONTENTS) {
			need_contents(rd, now, "after the import");
			RdDb as = rd;
			vector<size_t> all;
			for (size_t i = 0; i < now.size(); i++) all.push_back(i);
			for (auto &o : outs) {
				for (size_t i = 0; i < now.size(); i++) for (int k = 0; k < 3; k++) { as.tables[i].f[k] = o.second[i].have[k]; as.tables[i].o[k].data = o.second[i].o[k]; }
				check_exported(o.first, as, all, "export in the session of the import");
			}
			auto need_xml = [&](const string &dir, const string &when) {
				for (size_t i = 0; i < now.size(); i++) {
					const TableDef &t = now[i].from < 0 ? g_dst.tables[i] : g_src[now[i].from].def.tables[i];
					Bytes b;
					if (!fs_get(dir + "/" + t.name + ".xml", b)) fail("missing-table", when + ": " + t.name + ".xml");
					string w = xml_export(t, false);
					if (Str(b) != w) fail("wrong-xml", when + ": table " + t.name + ": " + diff_bytes(b, B(w)));
				}
			};
			if (want_xml) need_xml(xml, "XML export in the session of the import");
			string d = fmt("/sim/w/new%u", q);
			fs_mkdir(d);
			vector<string> a2 = { "/sim/w/dst.1cd", "-ne", "-eb", d, "*" };
			if (draw(3, "XML after reopening") == 2) { fs_mkdir(d + "x"); a2.insert(a2.end(), { "-pb", "0", "-eax", d + "x" }); }
			Result r2 = run_cli(a2);
			need_ok(r2, "export after reopening");
			check_exported(d, rd, all, "export after reopening");
			if (a2.size() > 5) need_xml(d + "x", "XML export after reopening");
		}
		if (checks & STRUCTURE) {
			std::set<uint32_t> was(g_before.lost.begin(), g_before.lost.end()), lost(rd.lost.begin(), rd.lost.end());
			for (uint32_t p : was) if (p < rd.length && !lost.erase(p)) fail("broken-structure", fmt("page %u, which belongs to no object of the tables, was taken", p));
			if (g_dst.ver != V838) for (uint32_t p : lost) fail("lost-page", fmt("after the import page %u is neither owned nor free", p));
			for (size_t i = 0; i < rd.tables.size(); i++) {
				if (rd.tables[i].name != g_before.tables[i].name) fail("other-changed", "the name of table " + g_before.tables[i].name);
				for (int k = 0; k < 4; k++) {
					const RdObj &x = k < 3 ? rd.tables[i].o[k] : rd.tables[i].o_descr, &y = k < 3 ? g_before.tables[i].o[k] : g_before.tables[i].o_descr;
					if (!edited.count(i) && x.data != y.data) fail("other-changed", fmt("object %d of table %s, which was not imported: ", k, rd.tables[i].name.c_str()) + diff_bytes(x.data, y.data));
				}
			}
			probe("structures checked");
		}
		state(mix(hash64(fs_read("/sim/w/dst.1cd")), q));
		check_tmp_clean("import");
		before = rd;
	}
}
void c03() { import_flow(CONTENTS); }
void c04() { if (draw(2, "imports")) import_flow(STRUCTURE); else c04_objects(); }

// ---------------------------------------------------------------- C15
// One attempt to import one table, as the history of file operations shows it.
struct Attempt { size_t table, src; size_t first, last; uint32_t out0, out1; bool wrote = false, success = false, read_after_write = false; };

static vector<Attempt> attempts(const vector<OpRec> &h, const string &out)
{
	vector<Attempt> v;
	for (size_t i = 0; i < h.size(); i++) {
		if (h[i].op != OP_OPEN || h[i].wr) continue;
		string p(h[i].path.c_str());
		size_t e = p.rfind("/root");
		if (p.compare(0, 10, "/sim/w/exp") || e == string::npos || e + 5 != p.size()) continue;
		Attempt a;
		a.src = p[10] - '0';
		string nm = p.substr(12, e - 12);
		a.table = ~0u;
		for (size_t t = 0; t < g_dst.tables.size(); t++) if (g_dst.tables[t].name == nm) a.table = t;
		if (a.table == ~0u || a.src >= g_src.size()) continue;
		a.first = i;
		a.out0 = h[i].out;
		if (!v.empty()) { v.back().last = i; v.back().out1 = a.out0; }
		v.push_back(a);
	}
	if (!v.empty()) { v.back().last = h.size(); v.back().out1 = out.size(); }
	for (auto &a : v) {
		string dir = g_src[a.src].dir + "/" + g_dst.tables[a.table].name + "/";
		for (size_t i = a.first; i < a.last; i++) {
			string p(h[i].path.c_str());
			if (p == "/sim/w/dst.1cd" && h[i].op == OP_WRITE && !h[i].same && !h[i].err) a.wrote = true;
			if (a.wrote && !p.compare(0, dir.size(), dir) && (h[i].op == OP_READ || h[i].op == OP_OPEN) && !h[i].err) a.read_after_write = true;
		}
		a.success = out.substr(a.out0, a.out1 - a.out0).find("Выполнен импорт таблицы из файла") != string::npos;
	}
	return v;
}
static vector<OpRec> history() { return vector<OpRec>(S->hist.begin(), S->hist.end()); }
// what the import files of a table hold now
static Content files_of(const Source &s, const string &name)
{
	Content c;
	for (int k = 0; k < 3; k++) c.have[k] = fs_get(s.dir + "/" + name + "/" + obj_name[k], c.o[k]);
	return c;
}
static bool same_content(const RdTable &t, const Content &old, const Content *n)
{
	for (int k = 0; k < 3; k++) {
		const Bytes *w = n && n->have[k] ? &n->o[k] : old.have[k] ? &old.o[k] : nullptr;
		if ((t.f[k] != 0) != (w != nullptr)) return false;
		if (w && t.o[k].data != *w) return false;
	}
	return true;
}

void c15()
{
	make_world(false);
	export_sources(false, true);
	// import files that cannot be used
	std::map<std::pair<size_t, size_t>, string> spoilt;
	uint32_t mode = pick_weighted({ 4, 3, 3, 3, 1 }, "what goes wrong"); // files, reads, kill, memory, nothing
	if (mode == 0 || draw(8, "also files") == 7) {
		uint32_t n = 1 + draw(2, "bad files");
		for (uint32_t i = 0; i < n; i++) {
			size_t k = draw(g_src.size(), "bad source"), t = draw(g_dst.tables.size(), "bad table");
			string d = g_src[k].dir + "/" + g_dst.tables[t].name;
			static const char *const fn[] = { "blob", "index", "data", "root", "descr" };
			string f = d + "/" + fn[draw(5, "bad file")];
			Bytes b;
			if (!fs_get(f, b)) continue;
			string how;
			switch (draw(6, "bad how")) {
			case 0: fs_remove(f); how = "missing"; break;
			case 1: fs_chmod(f, 0); how = "unreadable"; break;
			case 2: fs_remove(f); fs_mkdir(f); how = "a directory"; break;
			case 3: b.resize(draw(b.size() + 1, "cut at")); fs_put(f, b); how = "truncated"; break;
			case 4: fs_put(f, Bytes()); how = "empty"; break;
			case 5: fs_remove(d); how = "missing directory"; break;
			}
			spoilt[{ k, t }] += f.substr(f.rfind('/') + 1) + " " + how + "; ";
			trace("%s: %s", f.c_str(), how.c_str());
			probe(("import file " + how).c_str());
		}
	}
	// the session
	vector<string> a = { "/sim/w/dst.1cd" };
	uint32_t n = 1 + draw(3, "imports");
	bool looks = draw(2, "look at the end");
	for (uint32_t i = 0; i < n; i++) {
		vector<size_t> ch;
		string f = pick_list(g_dst, ch, "part of the imports");
		a.insert(a.end(), { "-ib", g_src[draw(g_src.size(), "source")].dir, f });
	}
	if (looks) { fs_mkdir("/sim/w/look"); a.insert(a.end(), { "-eb", "/sim/w/look", "*" }); }
	S->hist_reads = true;
	auto run = [&](const vector<FaultRule> &fr, uint32_t alloc) {
		S->hist.clear();
		return run_cli(a, fr, alloc);
	};
	Img orig = fs_img("/sim/w/dst.1cd");
	FaultRule fr;
	vector<FaultRule> frs;
	uint32_t alloc = 0;
	if (mode == 1 || mode == 2 || mode == 3) { // how much there is to interrupt
		Result r = run({}, 0);
		need_no_crash(r, "import");
		uint32_t total = last_inst().total, allocs = last_inst().allocs, reads = last_inst().nops[OP_READ], opens = last_inst().nops[OP_OPEN], stats = last_inst().nops[OP_STAT];
		vector<uint32_t> marks; // operations around the writes to the database
		fs_put("/sim/w/dst.1cd", orig);
		if (looks) { fs_remove("/sim/w/look"); fs_mkdir("/sim/w/look"); }
		if (mode == 1) {
			fr.kind = FaultRule::ERR;
			fr.err = draw(2, "errno") ? 13 : 5;
			if (draw(2, "only import files")) fr.path = "/sim/w/exp";
			switch (draw(3, "operation")) {
			case 0: fr.ops = 1u << OP_READ; fr.at = draw(reads + 1, "at"); break;
			case 1: fr.ops = 1u << OP_OPEN; fr.at = draw(opens + 1, "at"); break;
			case 2: fr.ops = 1u << OP_READ | 1u << OP_OPEN | 1u << OP_STAT; fr.at = draw(reads + opens + stats + 1, "at"); break;
			}
			fr.count = 1 + draw(3, "times");
			frs.push_back(fr);
		} else if (mode == 2) {
			fr.kind = draw(3, "torn") ? FaultRule::KILL : FaultRule::TORN_KILL;
			fr.arg = draw(1001, "torn part");
			if (fr.kind == FaultRule::TORN_KILL || draw(3, "at a write") == 2) { fr.ops = 1u << OP_WRITE; fr.path = "dst.1cd"; fr.at = draw(last_inst().nops[OP_WRITE] + 1, "at"); }
			else { fr.ops = ~0u; fr.at = draw(total + 1, "at"); }
			frs.push_back(fr);
		} else alloc = 1 + draw(allocs + 1, "failing allocation");
	}
	if (draw(4, "short reads") == 3) {
		FaultRule sh;
		sh.kind = FaultRule::SHORT;
		sh.ops = 1u << OP_READ;
		sh.at = draw(60, "short at");
		sh.count = 1 + draw(30, "short reads count");
		sh.arg = 1 + draw(900, "short part");
		frs.push_back(sh);
	}
	Result r = run(frs, alloc);
	string what = "import";
	for (auto &s : spoilt) what += ", " + s.second;
	if (mode == 2) { if (r.killed) probe("killed"); else need_no_crash(r, what); }
	else if (mode == 3 && !r.exited && r.crash.find("std::bad_alloc") != string::npos) { r.killed = true; probe("ended for want of memory"); } // as good as a kill
	else need_no_crash(r, what);
	vector<OpRec> h = history();
	vector<Attempt> at = attempts(h, r.err);
	probe("attempts", at.size());
	bool pending = false; // memory ran out while a finished import was being written: the next attempt writes the rest of it first
	for (auto &x : at) {
		const string &nm = g_dst.tables[x.table].name;
		if (x.read_after_write && !(pending && mode == 3)) fail("early-write", "table " + nm + ": the database was changed before all of the import files had been read");
		if (x.success) probe("attempts successful"); else probe(x.wrote ? "attempts interrupted" : "attempts failed");
		pending = x.wrote && !x.success;
		if (!x.success && x.wrote && !r.killed && mode != 3) fail("early-write", what + ": the import of table " + nm + " did not succeed and changed the database file");
	}
	// nothing but attempts writes
	size_t k = 0;
	for (size_t i = 0; i < h.size(); i++) {
		while (k < at.size() && i >= at[k].last) k++;
		if (string(h[i].path.c_str()) == "/sim/w/dst.1cd" && h[i].op == OP_WRITE && !h[i].same && !h[i].err && (k == at.size() || i < at[k].first)) fail("early-write", "the database was changed outside of any import");
	}
	Img img = fs_img("/sim/w/dst.1cd");
	bool any = false;
	for (auto &x : at) any |= x.wrote;
	if (!any && img != orig) fail("file-changed", what + ": no import wrote anything and the file differs: " + img.differs(orig));
	bool inside = r.killed && !at.empty() && at.back().wrote && !at.back().success; // killed while a finished import was being written
	RdDb rd = rd1cd(img);
	if (mode == 3) for (auto &x : at) if (x.wrote && !x.success) { // memory ran out while a finished import was being written
		if (rd.error.empty()) probe("readable after a write-back without memory");
		return;
	}
	if (!inside) {
		if (!rd.error.empty()) fail("broken-structure", what + ": " + rd.error);
		if (rd.length * (uint64_t)rd.pagesize != img.size()) fail("broken-structure", what + fmt(": the header counts %u pages, the file has %llu bytes", rd.length, (unsigned long long)img.size()));
		if (g_dst.ver != V838) for (uint32_t p : rd.lost) if (!std::binary_search(g_before.lost.begin(), g_before.lost.end(), p)) fail("lost-page", what + fmt(": page %u is neither owned nor free", p));
		probe("complete files checked");
	} else probe("killed inside a write-back");
	vector<Content> old = contents(g_before), now = old;
	for (size_t t = 0; t < g_dst.tables.size(); t++) {
		Content cur = old[t];
		string last = "was never imported";
		bool skip = false;
		for (size_t q = 0; q < at.size(); q++) if (at[q].table == t && (at[q].wrote || at[q].success)) {
			if (inside && q + 1 == at.size()) { skip = true; break; }
			Content c = files_of(g_src[at[q].src], g_dst.tables[t].name);
			Bytes root;
			fs_get(g_src[at[q].src].dir + "/" + g_dst.tables[t].name + "/root", root);
			for (int z = 0; z < 3; z++) if (root.size() > 3 && !root[z]) c.have[z] = false;
			import_over(cur, c, at[q].src);
			last = "was imported from " + g_src[at[q].src].dir;
		}
		now[t] = cur;
		if (skip || inside) { // the pages of finished imports belong to nobody else
			if (skip || t >= rd.tables.size() || !rd.error.empty()) continue;
		}
		if (t >= rd.tables.size() || !same_content(rd.tables[t], cur, nullptr)) {
			string d;
			for (int z = 0; z < 3 && t < rd.tables.size(); z++) if (rd.tables[t].o[z].data != cur.o[z]) { d = fmt("%s: ", obj_name[z]) + diff_bytes(rd.tables[t].o[z].data, cur.o[z]); break; }
			fail("wrong-contents", what + ": table " + g_dst.tables[t].name + " " + last + " and holds something else" + (r.killed ? " after the kill; " : "; ") + d);
		}
	}
	if (inside && rd.error.empty()) probe("readable after a kill inside a write-back");
	if (!spoilt.empty() && !r.killed && !r.code) {
		bool failed = false;
		for (auto &x : at) failed |= !x.success;
		if (failed) fail("unreported", what + ": an import failed and the exit status is 0");
	}
	// later commands of the session see the tables as they are
	if (looks && !r.killed && mode != 3) for (size_t t = 0; t < g_dst.tables.size(); t++) {
		string d = "/sim/w/look/" + g_dst.tables[t].name;
		size_t said = r.err.rfind("Выполнен экспорт");
		if (said == string::npos || r.err.find(g_dst.tables[t].name, said) == string::npos) if (mode == 1) continue;
		for (int z = 0; z < 3; z++) {
			Bytes b;
			if (!fs_get(d + "/" + obj_name[z], b)) { if (now[t].have[z] && !(mode == 1)) fail("wrong-export", what + ": a later command of the session did not export " + obj_name[z] + " of " + g_dst.tables[t].name); continue; }
			if (mode == 1 && b.size() != now[t].o[z].size()) continue; // the export may have met the failure
			if (b != now[t].o[z]) fail("wrong-export", what + fmt(": a later command of the session exported %s of table %s differently from what the file holds: ", obj_name[z], g_dst.tables[t].name.c_str()) + diff_bytes(b, now[t].o[z]));
		}
		probe("looked at in the session");
	}
	// and the database is still usable
	if (!inside) {
		fs_mkdir("/sim/w/after");
		Result r2 = run_cli({ "/sim/w/dst.1cd", "-ne", "-eb", "/sim/w/after", "*" });
		need_ok(r2, "export after " + what);
		RdDb as = rd;
		vector<size_t> all;
		for (size_t i = 0; i < rd.tables.size(); i++) all.push_back(i);
		check_exported("/sim/w/after", as, all, "export after " + what);
	}
	state(mix(hash64(img.data), r.out.size()));
}

} // namespace sim
