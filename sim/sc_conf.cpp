// C08: configuration dumps.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <map>

namespace sim {

string random_guid(Rng &r)
{
	string g;
	static const char h[] = "0123456789abcdef";
	for (int i = 0; i < 36; i++) g += i == 8 || i == 13 || i == 18 || i == 23 ? '-' : h[r.below(16)];
	return g;
}
string random_dt(Rng &r) { return fmt("%04d%02d%02d%02d%02d%02d", (int)r.range(1990, 2110), (int)r.range(1, 12), (int)r.range(1, 28), (int)r.below(24), (int)r.below(60), (int)r.below(60)).c_str(); }
uint64_t dt_v8time(const string &d)
{
	auto n = [&](int a, int l) { return std::stoll(d.substr(a, l)); };
	int64_t y = n(0, 4), m = n(4, 2), dd = n(6, 2);
	y -= m <= 2;
	int64_t era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + dd - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	int64_t days = era * 146097 + doe - 306; // since 0001-01-01
	return (uint64_t)(((days * 24 + n(8, 2)) * 60 + n(10, 2)) * 60 + n(12, 2)) * 10000;
}
bool stored_packed(const string &nm)
{
	string n = lower(nm);
	if (n == "dynamicallyupdated" || n == "sprscndinfo" || n == "dbnamesversion" || n == "siversions" || n[0] == '{' || n.find("fo_version") != string::npos) return false;
	size_t p = n.rfind('.');
	return p == string::npos || (n.substr(p) != ".inf" && n.substr(p) != ".pf");
}
TableDef files_table(Rng &r, const string &name, bool partno)
{
	TableDef t;
	t.name = name;
	auto f = [&](const char *n, const char *ty, int len = 0, int prec = 0) { FieldDef d; d.name = n; d.type = ty; d.len = len; d.prec = prec; t.fields.push_back(d); };
	f("FILENAME", "NVC", 128);
	f("CREATION", "DT");
	f("MODIFIED", "DT");
	f("ATTRIBUTES", "N", 5);
	f("DATASIZE", "N", 10);
	f("BINARYDATA", "I");
	if (partno) f("PARTNO", "N", 5);
	IndexDef ix;
	ix.name = "PK_" + name;
	ix.primary = true;
	ix.cols.push_back({ "FILENAME", t.fields[0].size() });
	if (partno) ix.cols.push_back({ "PARTNO", t.fields[6].size() });
	if (r.pct(85)) t.indexes.push_back(ix);
	return t;
}
static Rec file_rec(TableDef &t, const StoredFile &f, const Bytes &part, int n)
{
	Rec r;
	r.cells = { mkcell(t.fields[0], f.name), mkcell(t.fields[1], n ? "20200202020202" : f.created), mkcell(t.fields[2], n ? "20200303030303" : f.modified), mkcell(t.fields[3], "0"), mkcell(t.fields[4], std::to_string(f.data.size())), blob_cell(part) };
	if (part.empty()) { r.cells[5].absent = true; }
	if (t.fields.size() > 6) r.cells.push_back(mkcell(t.fields[6], std::to_string(n)));
	return r;
}
void put_files(Rng &r, TableDef &t, const vector<StoredFile> &files, bool cut_containers)
{
	vector<Rec> rs;
	bool partno = t.fields.size() > 6;
	for (auto &f : files) {
		int n = partno && f.data.size() > 1 && r.pct(35) ? r.range(1, std::min<size_t>(f.data.size(), r.pct(15) ? 12 : 4)) : 1;
		// a record's part of a container is a damaged container to an export of the table
		if (!cut_containers && f.data.size() > 18 && !memcmp(f.data.data() + 16, "\r\n", 2)) n = 1;
		vector<size_t> cut{ 0, f.data.size() };
		while ((int)cut.size() < n + 1) {
			size_t c = r.range(1, f.data.size() - 1);
			if (std::find(cut.begin(), cut.end(), c) == cut.end()) cut.push_back(c);
		}
		std::sort(cut.begin(), cut.end());
		for (int i = 0; i < n; i++) rs.push_back(file_rec(t, f, Bytes(f.data.begin() + cut[i], f.data.begin() + cut[i + 1]), i));
		if (n > 1) probe("files of several parts");
	}
	// what is not there: empty files, records without a name, removed records
	if (r.pct(40)) { StoredFile e; e.name = "empty" + std::to_string(r.below(9)); e.created = e.modified = random_dt(r); rs.push_back(file_rec(t, e, {}, 0)); }
	if (r.pct(30)) { StoredFile e; e.name = ""; e.created = e.modified = random_dt(r); e.data = B("no name"); rs.push_back(file_rec(t, e, e.data, 0)); }
	for (size_t i = rs.size(); i > 1; i--) std::swap(rs[i - 1], rs[r.below(i)]);
	for (auto &x : rs) {
		if (r.pct(10)) {
			Rec d = x;
			d.removed = true;
			t.recs.push_back(d);
		}
		t.recs.push_back(x);
	}
}
static Bytes file_bytes(Rng &r, const string &name)
{
	Bytes d = r.pct(8) ? mkcf(random_tree(r, 1, true).kids, false) : r.pct(50) ? r.text(r.range(1, 400)) : r.bytes(r.pct(8) ? r.range(5000, 80000) : r.range(1, 3000));
	return stored_packed(name) ? deflate(d) : d;
}
static string file_name(Rng &r)
{
	static const char *const fixed[] = { "root", "version", "versions", "SprScndInfo", "siVersions", "DBNamesVersion", "ibparams.inf", "data.PF", "{x}" };
	switch (r.below(8)) {
	case 0: return fixed[r.below(9)];
	case 1: return random_guid(r) + ".fo_version";
	case 2: return random_guid(r) + "." + std::to_string(r.below(12));
	case 3: return random_guid(r) + "." + random_ident(r, 4) + "." + std::to_string(r.below(9));
	case 4: return "Общий" + random_ident(r, 5);
	default: return random_guid(r);
	}
}
static string insert_before_ext(const string &name, const string &what)
{
	size_t p = name.rfind('.');
	return p == string::npos ? name + what : name.substr(0, p) + what + name.substr(p);
}
Bytes bom_text(const string &s) { return B("\xef\xbb\xbf" + s); }
static string quoted(const string &s) { string r; for (char c : s) { r += c; if (c == '"') r += c; } return "\"" + r + "\""; }
static Bytes vendor_cf(Rng &r, const string &name, const string &version, bool cyr)
{
	auto node = [&](const string &n, const Bytes &d) { CfNode k; k.name = n; k.data = d; k.created = k.modified = 635000000000000ull + r.below(1000000) * 10000ull; return k; };
	bool old = r.pct(20);
	string meta = random_guid(r);
	static const int cv[] = { 15, 22, 32, 34, 36, 37, 40 };
	int v = cv[r.below(7)];
	string info = fmt("{%d,{0,{1,2,", v).c_str() + quoted(name) + "},0}";
	for (int i = 2; i < (v == 15 ? 11 : 14); i++) info += r.pct(50) ? ",0" : ",{1,\"x\"}";
	info += ",\"Фирма\"," + quoted(version) + ",\"tail\"}";
	string tree;
	int n = r.range(1, 4), at = r.below(n);
	for (int i = 0; i < n; i++) tree += ",\r\n{" + (i == at ? string("9cd510cd-abfc-11d4-9434-004095e12fc7,{1,\r\n") + info + ",0}" : random_guid(r) + ",{1,{5,0},0}") + "}";
	vector<CfNode> body = { node("root", bom_text("{2," + meta + ",}")), node(meta, bom_text("{2,\r\n" + random_guid(r) + "," + std::to_string(n) + tree + "}")) };
	for (int i = r.below(4); i > 0; i--) body.push_back(node("f" + std::to_string(i), r.bytes(r.below(3000))));
	vector<CfNode> kids = { node("version", bom_text(old ? "{{62,0}}" : "{{216,0,{80314,0}}}")) };
	if (old) { CfNode m = node("metadata", {}); m.dir = true; m.kids = body; kids.push_back(m); }
	else kids.insert(kids.end(), body.begin(), body.end());
	if (r.pct(50)) std::reverse(kids.begin(), kids.end());
	(void)cyr;
	return mkcf(kids, true);
}

ConfWorld gen_infobase(int only, bool cut_containers)
{
	ConfWorld w;
	w.db = gen_db(0, only);
	DbDef &db = w.db;
	uint32_t keep = draw(3, "other tables");
	if (db.tables.size() > keep) db.tables.resize(keep);
	uint32_t nfiles = draw(12, "config files"), ndyn = draw(4, "dynamic updates"), nsave = draw(5, "pending files"), nvend = draw(3, "vendor configurations"), many = draw(12, "many files");
	bool partno = draw(2, "parts");
	Rng r(draw(1u << 30, "config seed"));
	if (many == 11) nfiles = 60 + r.below(200);
	std::map<string, StoredFile> base;      // lower-case name: current file of the database configuration
	std::map<string, StoredFile> pend_new;  // .new files
	vector<StoredFile> config, save;
	auto mk = [&](const string &nm) { StoredFile f; f.name = nm; f.data = file_bytes(r, nm); f.created = random_dt(r); f.modified = random_dt(r); return f; };
	for (uint32_t i = 0; i < nfiles; i++) {
		StoredFile f = mk(file_name(r));
		if (base.count(lower(f.name))) continue;
		base[lower(f.name)] = f;
		config.push_back(f);
	}
	vector<string> names;
	for (auto &b : base) names.push_back(b.first);
	// dynamic updates: the list says which are in force and in which order
	if (ndyn || r.pct(10)) {
		vector<string> ids;
		for (uint32_t i = 0; i < ndyn; i++) ids.push_back(random_guid(r));
		string dead = random_guid(r);
		std::map<string, int> newest;
		std::map<string, StoredFile> cur = base;
		for (uint32_t i = 0; i < 2 * ndyn && !names.empty(); i++) {
			string nm = names[r.below(names.size())];
			int k = r.pct(15) ? -1 : (int)r.below(ids.size());
			StoredFile f = mk(base[nm].name);
			f.name = insert_before_ext(base[nm].name, "_dynupdate_" + (k < 0 ? dead : ids[k]));
			bool dup = false;
			for (auto &c : config) dup |= lower(c.name) == lower(f.name);
			if (dup) continue;
			config.push_back(f);
			probe("dynamic updates");
			if (k >= 0 && (!newest.count(nm) || newest[nm] < k)) { newest[nm] = k; f.name = base[nm].name; cur[nm] = f; }
		}
		// a file that came with a dynamic update
		for (uint32_t i = 0; i < ndyn && r.pct(40); i++) {
			StoredFile f = mk(random_guid(r));
			string nm = f.name;
			f.name = nm + "_dynupdate_" + ids[i];
			config.push_back(f);
			f.name = nm;
			cur[nm] = f;
		}
		string list = fmt("{1,%zu", ids.size()).c_str();
		for (auto &g : ids) list += "," + g;
		list += "}";
		StoredFile f;
		static const char *const sp[] = { "DynamicallyUpdated", "dynamicallyupdated" };
		f.name = sp[r.below(2)];
		f.data = B((r.pct(50) ? "\xef\xbb\xbf" : "") + list);
		f.created = random_dt(r);
		f.modified = random_dt(r);
		config.push_back(f);
		base = cur;
	}
	// .new files: in CONFIG, part of the main configuration only
	for (auto &nm : names) if (r.pct(5)) {
		StoredFile f = mk(base[nm].name);
		f.name = base[nm].name;
		pend_new[nm] = f;
		f.name += ".new";
		config.push_back(f);
		probe(".new files");
	}
	std::map<string, StoredFile> main = base;
	for (auto &p : pend_new) main[p.first] = p.second;
	// pending and deleted files
	std::map<string, StoredFile> savemap;
	for (uint32_t i = 0; i < nsave; i++) {
		StoredFile f = mk(!names.empty() && r.pct(60) ? base[names[r.below(names.size())]].name : file_name(r));
		if (savemap.count(lower(f.name))) continue;
		savemap[lower(f.name)] = f;
		save.push_back(f);
	}
	if (r.pct(35)) {
		vector<string> gone;
		for (auto &nm : names) if (nm.size() == 36 && nm.find('.') == string::npos && r.pct(30)) {
			bool updated = false;
			for (auto &c : config) updated |= lower(c.name).compare(0, 37, nm + "_") == 0 || lower(c.name).compare(0, 37, nm + ".") == 0;
			if (updated) continue;
			gone.push_back(nm);
			main.erase(nm);
			probe("deleted files");
			if (!r.pct(25)) continue;
			// names do not tell case apart
			string up = base[nm].name;
			for (auto &ch : up) ch = toupper(ch);
			for (auto &c : config) if (c.name == base[nm].name) c.name = up;
			base[nm].name = up;
		}
		if (r.pct(30)) gone.push_back(random_guid(r));
		string list = fmt("{1,%zu", gone.size()).c_str();
		for (auto &g : gone) list += "," + g;
		StoredFile f;
		f.name = "deleted";
		f.data = deflate(B(list + "}"));
		f.created = f.modified = random_dt(r);
		save.push_back(f);
	}
	for (auto &s : savemap) main[s.first] = s.second;
	// vendor configurations
	for (uint32_t i = 0; i < nvend; i++) {
		StoredFile f;
		f.name = random_guid(r) + "." + random_guid(r);
		string vn = (r.pct(50) ? "Управление" : "Vendor") + string(r.pct(20) ? " \"X\"" : "") + random_ident(r, 4), vv = fmt("%d.%d.%d", (int)r.below(4), (int)i, (int)r.below(200)).c_str();
		Bytes cf = vendor_cf(r, vn, vv, true);
		f.data = deflate(deflate(cf));
		f.created = random_dt(r);
		f.modified = random_dt(r);
		w.vendors[vn + " " + vv + ".cf"] = cf;
		bool insave = r.pct(40);
		(insave ? save : config).push_back(f);
		if (!insave) base[lower(f.name)] = f;
		main[lower(f.name)] = f;
		probe("vendor configurations");
	}
	auto nodes = [](const std::map<string, StoredFile> &m) {
		vector<CfNode> v;
		for (auto &x : m) { CfNode n; n.name = x.second.name; n.data = x.second.data; n.created = dt_v8time(x.second.created); n.modified = dt_v8time(x.second.modified); v.push_back(n); }
		return v;
	};
	w.ddc = nodes(base);
	w.dc = nodes(main);
	static const char *const five[] = { "CONFIG", "CONFIGSAVE", "PARAMS", "FILES", "DBSCHEMA" };
	for (int i = 0; i < 5; i++) {
		for (auto it = db.tables.begin(); it != db.tables.end();) if (lower(it->name) == lower(five[i])) it = db.tables.erase(it); else ++it;
		bool p = partno && i != 4;
		TableDef t = files_table(r, five[i], p);
		vector<StoredFile> v;
		if (i == 0) v = config;
		else if (i == 1) v = save;
		else for (int k = r.below(4); k > 0; k--) { StoredFile f = mk("p" + std::to_string(k)); v.push_back(f); }
		put_files(r, t, v, cut_containers);
		db.tables.insert(db.tables.begin() + r.below(db.tables.size() + 1), t);
	}
	return w;
}

void check_cf(const string &path, const vector<CfNode> &want, const string &what)
{
	if (!fs_exists(path)) fail("missing-file", what + ": no file " + path);
	CfRead c = rdcf(fs_read(path), false);
	if (!c.error.empty()) fail("broken-structure", what + ": " + path + ": " + c.error);
	std::map<string, const CfNode *> have;
	for (auto &f : c.files) if (!have.emplace(f.name, &f).second) fail("wrong-contents", what + ": two files " + f.name);
	for (auto &n : want) {
		auto it = have.find(n.name);
		if (it == have.end()) fail("missing-file", what + ": file " + n.name + " is missing");
		if (it->second->data != n.data) fail("wrong-contents", what + ": file " + n.name + ": " + diff_bytes(it->second->data, n.data));
		if (it->second->created != n.created || it->second->modified != n.modified) fail("wrong-time", fmt("%s: file %s: times %lld %lld instead of %lld %lld", what.c_str(), n.name.c_str(), (long long)it->second->created, (long long)it->second->modified, (long long)n.created, (long long)n.modified));
		have.erase(it);
	}
	if (!have.empty()) fail("wrong-contents", what + ": file " + have.begin()->first + " does not belong to the configuration");
	probe("members compared", want.size());
	state(hash64(fs_read(path)));
}
void check_vendors(const string &dir, const ConfWorld &w, std::set<string> &expect)
{
	for (auto &v : w.vendors) {
		string p = dir + "/" + v.first;
		if (!fs_exists(p)) fail("missing-file", "no vendor configuration " + p);
		Bytes got = fs_read(p);
		if (got != v.second) fail("wrong-contents", "vendor configuration " + p + ": " + diff_bytes(got, v.second));
		expect.insert(p);
	}
}

void c08()
{
	gen_env();
	ConfWorld w = gen_infobase(-1, true);
	put_db(w.db, "/sim/w/a.1cd");
	vector<string> args = { "a.1cd" };
	if (draw(3, "-ne") == 1) args.insert(args.begin(), "-ne");
	fs_mkdir("/sim/w/out");
	uint32_t n = 1 + draw(3, "commands");
	struct Out { string path; int kind; };
	vector<Out> outs;
	for (uint32_t i = 0; i < n; i++) {
		int kind = pick_weighted({ 3, 4, 3, 2 }, "command");
		bool lng = draw(2, "long");
		static const char *const nm[4][2] = { { "-ddc", "-DumpDBConfig" }, { "-dc", "-dumpconfig" }, { "-dvc", "-DumpVendorsConfigs" }, { "-dac", "-DumpAllConfigs" } };
		string dir = draw(3, "own directory") == 1 ? fmt("out/d%u", i).c_str() : "out";
		fs_mkdir("/sim/w/" + dir);
		string p = dir;
		static const char *const ex[] = { "x.cf", "y.CF", "конф.Cf" };
		uint32_t e = draw(4, "explicit file");
		if (kind < 2 && e) p = dir + "/" + ex[e - 1];
		args.insert(args.end(), { nm[kind][lng], p });
		string base = "/sim/w/" + dir + "/";
		vector<Out> o;
		if (kind == 0 || kind == 3) o.push_back({ kind == 0 && e ? "/sim/w/" + p : base + "dbcf.cf", 0 });
		if (kind == 1 || kind == 3) o.push_back({ kind == 1 && e ? "/sim/w/" + p : base + "cf.cf", 1 });
		if (kind >= 2) o.push_back({ "/sim/w/" + dir, 2 });
		for (auto &x : o) {
			for (auto it = outs.begin(); it != outs.end();) if (it->path == x.path) it = outs.erase(it); else ++it;
			outs.push_back(x);
			if (x.kind < 2 && draw(5, "old file") == 1) fs_put(x.path, B(string(draw(9000, "old size"), 'o')));
			if (x.kind == 2 && draw(5, "old vendor file") == 1 && !w.vendors.empty()) fs_put(x.path + "/" + w.vendors.begin()->first, B(string(200000, 'o')));
		}
	}
	Result r = run_cli(args, gen_benign());
	std::set<string> expect;
	need_no_crash(r, "dump");
	if (r.code) fail("unexpected-failure", r.describe());
	for (auto &o : outs) {
		if (o.kind == 2) check_vendors(o.path, w, expect);
		else { check_cf(o.path, o.kind ? w.dc : w.ddc, o.kind ? "main configuration" : "database configuration"); expect.insert(o.path); }
	}
	need_ok(r, "dump");
	for (auto &f : fs_walk("/sim/w/out")) if (!fs_is_dir("/sim/w/out/" + f) && !expect.count("/sim/w/out/" + f)) fail("extra-output", "file " + f + " is no output of the commands");
	check_no_escape();
	check_tmp_clean("dump");
}

} // namespace sim
