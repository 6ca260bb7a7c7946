// Drawn worlds of every kind and runs of several commands on them, for the properties that cut across the commands.
#include "world.h"
#include <algorithm>

namespace sim {

Session gen_session(int kind, int size, int only)
{
	Session s;
	gen_env();
	s.kind = kind >= 0 ? kind : pick_weighted({ 4, 3, 3 }, "kind of database");
	s.dir = "/sim/w/db";
	fs_mkdir(s.dir);
	if (s.kind == 0) {
		s.def = gen_db(size, only);
		s.db = s.dir + "/a.1cd";
		Rng r(draw(1u << 30, "lost seed"));
		for (int n = r.below(3); n > 0; n--) { LostObj l; l.content = r.text(r.below(3000)); s.def.lost.push_back(l); }
		put_db(s.def, s.db);
	} else if (s.kind == 1) {
		s.conf = gen_infobase(only);
		s.def = s.conf.db;
		s.db = s.dir + "/1Cv8.1CD";
		put_db(s.def, s.db);
	} else {
		s.depot = gen_depot();
		s.db = s.dir + "/1cv8ddb.1CD";
		put_depot(s.depot, s.dir);
		s.def = s.depot.db;
	}
	s.writable = s.def.ver > V805;
	return s;
}
// the directory a later import reads; made by the program from a database with other records
void make_imports(Session &s)
{
	if (!s.imports.empty()) return;
	DbDef src = s.def;
	Rng r(draw(1u << 30, "import seed"));
	src.seed = r.next();
	src.lost.clear();
	src.frag = r.pct(50) ? r.range(5, 100) : 0;
	for (auto &t : src.tables) {
		if (s.kind) { if (r.pct(50) && t.recs.size() > 2) t.recs.resize(t.recs.size() - 1); t.order.clear(); continue; }
		t.recs.clear();
		t.order.clear();
		for (int n = r.below(12); n > 0; n--) random_record(r, t, 0);
	}
	s.imports = "/sim/w/imp";
	fs_mkdir(s.imports);
	put_db(src, "/sim/w/src.1cd");
	need_ok(run_cli({ "/sim/w/src.1cd", "-eb", s.imports, "*" }), "export for an import");
	fs_remove("/sim/w/src.1cd");
	s.source = src;
}
static const char *const cmd_name[] = { "eax", "ex", "eb", "slo", "sts", "ib", "ddc", "dc", "dvc", "dac", "drc", "dpc" };
Cmd gen_cmd(Session &s, const string &base, uint32_t mode)
{
	Cmd c;
	bool bad = mode & BAD && !draw(4, "usable command");
	enum { EAX, EX, EB, SLO, STS, IB, DDC, DC, DVC, DAC, DRC, DPC };
	static const int w[3][12] = { { 4, 2, 3, 2, 2, 4, 0, 0, 0, 0, 0, 0 }, { 2, 1, 2, 1, 1, 2, 3, 3, 3, 3, 0, 0 }, { 2, 1, 2, 1, 1, 2, 0, 0, 0, 0, 5, 5 } };
	auto W = [&](int i) { return i == IB && !(mode & IMPORT) ? 0 : w[s.kind][i]; };
	int k = pick_weighted({ W(0), W(1), W(2), W(3), W(4), W(5), W(6), W(7), W(8), W(9), W(10), W(11) }, "command");
	string dir = base;
	auto dir_there = [&] { fs_mkdir(dir); c.out = dir; };
	// how a bad command is bad
	int how = bad ? pick_weighted({ 3, 3, 2, 1 }, "how bad") : -1; // no output directory, for another kind of database, argument, no command
	if (how == 3) {
		c.what = "unknown";
		c.args = { draw(2, "unknown key") ? "-exx" : "--help" };
		c.fails = true;
		return c;
	}
	if (how == 1) {
		k = s.kind == 2 ? DDC + draw(4, "foreign command") : s.kind == 1 ? DRC + draw(2, "foreign command") : DDC + draw(6, "foreign command");
		if (k == DVC || k == DAC || draw(2, "directory there")) fs_mkdir(dir);
	}
	c.kind = k;
	c.what = cmd_name[k];
	c.import = k == IB;
	c.out = dir;
	string list = "*";
	vector<size_t> ch;
	if (k == EX || k == EB || k == IB) {
		if (draw(3, "part")) { list = gen_filter(s.def, ch); }
		else for (size_t i = 0; i < s.def.tables.size(); i++) ch.push_back(i);
	}
	switch (k) {
	case EAX: c.args = { "-eax", dir }; break;
	case EX: c.args = { "-ex", dir, list }; break;
	case EB: c.args = { "-eb", dir, list }; break;
	case SLO: c.args = { "-slo", dir }; break;
	case STS: c.args = { "-sts", dir + "/s.txt" }; break;
	case IB: make_imports(s); c.args = { "-ib", s.imports, list }; c.out = ""; c.tables = ch; if (s.kind && !ch.empty()) s.unsure = true; break;
	case DDC: c.args = { "-ddc", draw(2, "file") ? dir + "/a.cf" : dir }; break;
	case DC: c.args = { "-dc", draw(2, "file") ? dir + "/b.cf" : dir }; break;
	case DVC: c.args = { "-dvc", dir }; break;
	case DAC: c.args = { "-dac", dir }; break;
	case DRC: case DPC: {
		auto ver = [&] {
			if (s.kind != 2) return string("1");
			size_t n = s.depot.vers.size();
			if (draw(2, "by number")) return std::to_string(-(int)draw(n, "from the end"));
			return std::to_string(s.depot.vers[draw(n, "version")]);
		};
		string v = ver();
		if (k == DPC && draw(2, "range")) v += ":" + ver();
		if (how == 2) v = "-" + std::to_string(s.depot.vers.size() + draw(3, "beyond"));
		c.args = { k == DRC ? "-drc" : "-dpc", v, k == DRC && draw(2, "file") ? dir + "/v.cf" : dir };
		break;
	}
	}
	if (how == 2 && k != DRC && k != DPC) how = 0;
	if (how == 1) { c.fails = true; return c; }
	if (how == 2) { c.fails = true; fs_mkdir(dir); return c; }
	if (how == 0) {
		if (k == IB) {
			c.fails = true;
			c.args[1] = "/sim/w/nowhere";
			if (draw(2, "empty directory")) { fs_mkdir("/sim/w/empty"); c.args[1] = "/sim/w/empty"; if (ch.empty()) c.fails = false; }
		} else if (k == DPC) fs_mkdir(dir); // makes its directory itself
		else if (draw(2, "a file there")) { fs_put(dir, B("here")); c.fails = true; }
		else c.fails = true;
		return c;
	}
	if (k != IB && (k != DPC || draw(2, "directory there"))) fs_mkdir(dir);
	return c;
}
// options that must change nothing about the commands
void gen_options(vector<string> &a, Session &s, bool any_log)
{
	if (draw(4, "not exclusive") == 1) { a.insert(a.begin() + draw(a.size() + 1, "where"), draw(2, "long") ? "-ne" : "-NotExclusively"); s.ne = true; }
	uint32_t k = draw(8, "options");
	if (k & 1) a.push_back("-nv");
	if (k & 2) a.insert(a.end(), { "-bf", draw(2, "blobs to files") ? "yes" : "no" });
	if (k & 4) a.insert(a.end(), { "-pb", draw(2, "unpack blobs") ? "yes" : "no" });
	if (draw(5, "log") == 4) { // the messages go to a file
		static const char *const key[] = { "-l", "-logfile", "-LogFile" };
		fs_mkdir("/sim/w/log");
		string f = "/sim/w/log/run.txt";
		switch (draw(any_log ? 6 : 3, "where")) {
		case 1: fs_put(f, B("of an earlier run\n")); break;
		case 2: f = f.substr(7); break;
		case 3: fs_put("/sim/w/log/keep", B("kept")); f = "/sim/w/log"; s.bad_log = true; break;
		case 4: f = s.dir; s.bad_log = true; break;
		case 5: f = "/sim/w/nowhere/run.txt"; s.bad_log = true; break;
		}
		a.insert(a.end(), { key[draw(3, "key")], f });
		if (!s.bad_log) s.log = f[0] == '/' ? f : "/sim/w/" + f;
		probe("runs with a log file");
	}
}
string join(const vector<string> &a) { string r; for (auto &x : a) r += (r.empty() ? "" : " ") + x; return r; }

// "" when two output trees say the same; containers are compared without the times and places in them
static Bytes mask_guids(Bytes b)
{
	auto hex = [](uint8_t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); };
	for (size_t i = 0; i + 36 <= b.size(); i++) {
		bool ok = true;
		for (int k = 0; k < 36 && ok; k++) ok = k == 8 || k == 13 || k == 18 || k == 23 ? b[i + k] == '-' : hex(b[i + k]);
		if (ok) { std::fill(b.begin() + i, b.begin() + i + 36, '#'); i += 35; }
	}
	return b;
}
static string diff_cf(const Bytes &a, const Bytes &b)
{
	CfRead x = rdcf(a, false), y = rdcf(b, false);
	if (!x.error.empty() || !y.error.empty()) return "no containers: " + x.error + "; " + y.error;
	std::map<string, Bytes> m;
	for (auto &f : y.files) m[f.name] = f.data;
	for (auto &f : x.files) {
		auto it = m.find(f.name);
		if (it == m.end()) return "member " + f.name + " only in the first";
		Bytes p = f.data, q = it->second, t;
		m.erase(it);
		if (p == q) continue;
		if (inflate(p, t)) p = t;
		if (inflate(q, t)) q = t;
		if (p == q) continue;
		if (f.name == "versions" && mask_guids(p) == mask_guids(q)) continue; // made anew by every dump
		if (!diff_cf(p, q).empty()) return "member " + f.name + " differs";
	}
	return m.empty() ? "" : "member " + m.begin()->first + " only in the second";
}
string diff_outputs(const string &a, const string &b)
{
	if (!fs_exists(a) || !fs_exists(b)) return fs_exists(a) == fs_exists(b) ? "" : (fs_exists(a) ? b : a) + " is not there";
	if (fs_is_dir(a) != fs_is_dir(b)) return a + " is " + (fs_is_dir(a) ? "" : "no ") + "directory";
	if (!fs_is_dir(a)) {
		Bytes x = fs_read(a), y = fs_read(b);
		if (x == y || diff_cf(x, y).empty()) return "";
		string cf = lower(a);
		if (cf.size() > 3 && cf.substr(cf.size() - 3) == ".cf" && !diff_cf(x, y).compare(0, 6, "member")) return a + ": " + diff_cf(x, y);
		return a + ": " + diff_bytes(x, y);
	}
	vector<string> l = fs_list(a), m = fs_list(b);
	for (auto &f : m) if (std::find(l.begin(), l.end(), f) == l.end()) return a + "/" + f + " is not there";
	for (auto &f : l) if (std::find(m.begin(), m.end(), f) == m.end()) return b + "/" + f + " is not there";
	for (auto &f : l) { string d = diff_outputs(a + "/" + f, b + "/" + f); if (!d.empty()) return d; }
	return "";
}
// "" when two database files hold the same tables with the same contents
string diff_dbs(const Bytes &a, const Bytes &b)
{
	if (a == b) return "";
	RdDb x = rd1cd(a), y = rd1cd(b);
	if (!x.error.empty()) return "the database is broken: " + x.error;
	if (!y.error.empty()) return "the other database is broken: " + y.error;
	if (x.tables.size() != y.tables.size()) return "numbers of tables differ";
	for (size_t i = 0; i < x.tables.size(); i++) {
		if (x.tables[i].name != y.tables[i].name) return "table names differ";
		for (int k = 0; k < 3; k++) if ((x.tables[i].f[k] != 0) != (y.tables[i].f[k] != 0) || x.tables[i].o[k].data != y.tables[i].o[k].data) return fmt("object %d of table %s differs", k, x.tables[i].name.c_str());
	}
	return "";
}

} // namespace sim
