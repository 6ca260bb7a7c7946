// C09, C10: configuration depots.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <set>

namespace sim {

static Bytes fake_hash(const Bytes &b)
{
	Bytes h;
	uint64_t a = hash64(b), c = mix(a, b.size()), d = mix(c, 77);
	for (uint64_t v : { a, c, d }) for (int i = 0; i < 8 && h.size() < 20; i++) h.push_back(v >> 8 * i);
	return h;
}
static string hexl(const Bytes &b) { string s; char t[3]; for (uint8_t c : b) { snprintf(t, 3, "%02x", c); s += t; } return s; }
static Cell be_cell(uint32_t v) { return raw_cell({ (uint8_t)(v >> 24), (uint8_t)(v >> 16), (uint8_t)(v >> 8), (uint8_t)v }); }
uint32_t crc32_of(const Bytes &b)
{
	uint32_t c = ~0u;
	for (uint8_t x : b) { c ^= x; for (int i = 0; i < 8; i++) c = c >> 1 ^ (c & 1 ? 0xedb88320u : 0); }
	return ~c;
}
static FieldDef fd(const char *n, const char *ty, int len = 0, int prec = 0, bool null = false)
{
	FieldDef d;
	d.name = n; d.type = ty; d.len = len; d.prec = prec; d.null = null;
	return d;
}
static void add_index(TableDef &t, const char *name, bool primary, std::initializer_list<const char *> cols)
{
	IndexDef ix;
	ix.name = name;
	ix.primary = primary;
	for (auto c : cols) ix.cols.push_back({ c, t.fields[t.field(c)].size() });
	t.indexes.push_back(ix);
}
static Cell yes(bool v) { return raw_cell({ (uint8_t)v }); }

// Where the bytes of one record go.
namespace {
struct Placer {
	Rng &r;
	DepotWorld &w;
	int mode; // 0 in the tables, 1 packs, 2 loose, 3 mixed
	vector<vector<std::pair<Bytes, Bytes>>> packs;
	// sets the data cell and the hash cell
	void put(const Bytes &stored, Cell &data, Cell *hash)
	{
		int m = !w.outside ? 0 : mode == 3 ? (int)r.below(3) : mode;
		Bytes h = fake_hash(stored);
		if (hash) *hash = m == 0 && r.pct(20) ? null_cell() : raw_cell(h);
		if (m == 0) { data = blob_cell(stored); probe("data in the tables"); return; }
		data = Cell();
		data.raw = Bytes(8);
		data.absent = true;
		if (m == 1) {
			if (packs.empty()) packs.resize(1 + r.below(3));
			packs[r.below(packs.size())].push_back({ h, stored });
			probe("data in packs");
		} else {
			string x = hexl(h);
			w.files["data/objects/" + x.substr(0, 2) + "/" + x.substr(2)] = stored;
			probe("data in loose files");
		}
	}
	void finish()
	{
		for (size_t i = 0; i < packs.size(); i++) {
			Bytes pck = r.bytes(r.pct(50) ? 8 : r.below(40)), ind = r.bytes(8);
			auto p = packs[i];
			for (int k = r.below(3); k > 0; k--) { Bytes b = r.bytes(1 + r.below(300)); p.push_back({ fake_hash(b), b }); }
			for (size_t k = p.size(); k > 1; k--) std::swap(p[k - 1], p[r.below(k)]);
			put32(ind, p.size());
			vector<std::pair<Bytes, uint64_t>> idx;
			for (auto &x : p) {
				idx.push_back({ x.first, pck.size() });
				put64(pck, x.second.size());
				append(pck, x.second);
				if (r.pct(20)) append(pck, r.bytes(r.below(50)));
			}
			if (r.pct(50)) std::reverse(idx.begin(), idx.end());
			for (auto &x : idx) { append(ind, x.first); put64(ind, x.second); }
			string nm = "data/pack/pack-" + random_guid(r);
			w.files[nm + ".ind"] = ind;
			w.files[nm + ".pck"] = pck;
		}
		if (w.outside && r.pct(20)) w.files["data/pack/readme.txt"] = B("no pack");
		if (w.outside && r.pct(20)) w.files["data/pack/pack-x.tmp"] = B("no pack");
	}
};
}

DepotWorld gen_depot(int maxdver)
{
	DepotWorld w;
	static const int dv[] = { 7, 6, 5, 3 };
	w.dver = dv[pick_weighted({ 4, 3, 3, 2 }, "depot version")];
	if (maxdver && w.dver > maxdver) w.dver = maxdver;
	static const Ver v67[] = { V838, V8214 }, v5[] = { V8214, V838, V820 }, v3[] = { V8214, V803, V805, V810, V820 };
	Ver ver = w.dver >= 6 ? v67[draw(2, "db version")] : w.dver == 5 ? v5[draw(3, "db version")] : v3[draw(5, "db version")];
	w.db = gen_db(0, ver);
	DbDef &db = w.db;
	uint32_t keep = draw(3, "other tables");
	if (db.tables.size() > keep) db.tables.resize(keep);
	w.major = w.dver >= 5 ? 216 : ver <= V805 ? 6 : ver == V810 ? 106 : 216;
	w.outside = w.dver >= 6;
	w.v6 = w.dver >= 6;
	uint32_t nver = 1 + draw(10, "versions"), nobj = draw(7, "objects"), nextra = draw(4, "attached files"), place = draw(4, "data place"), many = draw(15, "many");
	Rng r(draw(1u << 30, "depot seed"));
	if (many == 14) { nver = 30 + r.below(40); nobj = 20 + r.below(30); }
	if (many == 13) nobj = 0;
	bool old = w.major < 100, v6 = w.v6;
	int v = r.pct(70) ? 0 : r.below(r.pct(50) ? 30 : 12000);
	for (uint32_t i = 0; i < nver; i++) w.vers.push_back(v += r.pct(80) ? 1 : 1 + r.below(9));
	w.root = r.bytes(16);

	TableDef depot, versions, history, externals;
	depot.name = "DEPOT";
	depot.fields = { fd("DEPOTID", "B", 16), fd("ROOTOBJID", "B", 16), fd("CREATEDATE", "DT"), fd("DEPOTVER", "B", 8) };
	if (v6) depot.fields.push_back(fd("COMPATIBILITYMODE", "N", 10));
	versions.name = "VERSIONS";
	versions.fields = { fd("VERNUM", "N", 10), fd("USERID", "B", 16), fd("VERDATE", "DT"), fd("PVERSION", "B", 8) };
	if (w.dver >= 5) versions.fields.push_back(fd("CVERSION", "B", 4));
	for (auto f : { fd("CODE", "NVC", 256, 0, true), fd("COMMENT", "NT", 0, 0, true), fd("SNAPSHOTMAKER", "B", 16, 0, true), fd("SNAPSHOTCRC", "B", 4, 0, true) }) versions.fields.push_back(f);
	if (v6) versions.fields.push_back(fd("VERSIONID", "B", 16));
	add_index(versions, "PK", true, { "VERNUM" });
	add_index(versions, "VERDATE", false, { "VERDATE" });
	history.name = "HISTORY";
	history.fields = { fd("OBJID", "B", 16), fd("VERNUM", "N", 10), fd("SELFVERNUM", "N", 10), fd("OBJVERID", "B", 16), fd("PARENTID", "B", 16), fd("OWNERID", "B", 16, 0, true), fd("OBJNAME", "NVC", 256), fd("OBJPOS", "N", 6), fd("REMOVED", "L"), fd("DATAPACKED", "L", 0, 0, true), fd("OBJDATA", "I", 0, 0, true) };
	if (v6) history.fields.push_back(fd("DATAHASH", "B", 20, 0, true));
	add_index(history, "PK", true, { "OBJID", "VERNUM" });
	add_index(history, "VERNUM", false, { "VERNUM" });
	add_index(history, "SELFVERNUM", false, { "OBJID", "SELFVERNUM" });
	externals.name = "EXTERNALS";
	externals.fields = { fd("OBJID", "B", 16), fd("VERNUM", "N", 10), fd("EXTNAME", "NVC", 128), fd("EXTVERID", "B", 16), fd("DATAPACKED", "L"), fd("EXTDATA", "I") };
	if (v6) externals.fields.push_back(fd("DATAHASH", "B", 20, 0, true));
	add_index(externals, "PK", true, { "OBJID", "VERNUM" });
	add_index(externals, "EXT", false, { "OBJID", "VERNUM", "EXTNAME" });

	vector<Cell> dc = { raw_cell(r.bytes(16)), raw_cell(w.root), mkcell(depot.fields[2], random_dt(r)), raw_cell({ (uint8_t)w.dver, 0, 0, 0, 0, 0, 0, 0 }) };
	if (v6) dc.push_back(mkcell(depot.fields[4], "80305"));
	if (r.pct(50)) { depot.add(dc); depot.recs[0].removed = true; depot.recs[0].cells[3] = raw_cell(Bytes(8, 9)); }
	depot.add(dc);

	// versions and their snapshots
	for (int n : w.vers) {
		DepotSnap s;
		int k = r.pct(25) ? 1 + r.below(5) : 0; // 0 no snapshot, 1-2 valid, 3 missing, 4 damaged, 5 garbage
		Bytes maker = Bytes(16);
		uint32_t crc = r.next();
		bool null = r.pct(50);
		if (k) {
			null = false;
			vector<CfNode> kids;
			for (int i = r.below(4); i >= 0; i--) { CfNode x; x.name = random_guid(r); x.data = r.text(r.below(900)); kids.push_back(x); }
			s.content = mkcf(kids, true);
			crc = crc32_of(s.content);
			int how = r.below(3);
			maker = how == 0 ? w.root : how == 1 ? Bytes{ 0x9e, 0xca, 0x21, 0x37, 0x72, 0xa2, 0x6b, 0x49, 0xa0, 0x93, 0x20, 0x6e, 0xa7, 0x62, 0x95, 0x74 } : Bytes{ 0x78, 0xdf, 0xdf, 0x6f, 0x2a, 0x06, 0xbb, 0x46, 0x84, 0x02, 0x62, 0x14, 0x5a, 0xe5, 0x57, 0x64 };
			Bytes file = how == 2 ? s.content : deflate(s.content);
			s.valid = k <= 2;
			if (k == 4) {
				int d = r.below(3);
				if (d == 0) file.resize(r.below(file.size()));
				else if (d == 1) { if (how == 2) file[r.below(file.size())] ^= 1 << r.below(8); else crc ^= 1u << r.below(32); }
				else crc ^= 1u << r.below(32);
			}
			if (k == 5) file = r.pct(30) ? Bytes() : r.bytes(r.below(300));
			string d = std::to_string(n);
			d = string(d.size() < 5 ? 5 - d.size() : 0, '0') + d;
			if (k != 3) w.files["cache/ddb" + d + ".snp"] = file;
			probe(s.valid ? "valid snapshots" : "unusable snapshots");
		}
		w.snaps[n] = s;
		vector<Cell> c = { mkcell(versions.fields[0], std::to_string(n)), raw_cell(r.bytes(16)), mkcell(versions.fields[2], random_dt(r)), raw_cell(r.bytes(8)) };
		if (w.dver >= 5) c.push_back(be_cell((uint32_t)w.major << 16 | 0));
		c.push_back(r.pct(50) ? null_cell() : mkcell(fd("CODE", "NVC", 256), "1." + std::to_string(n)));
		c.push_back(r.pct(50) ? null_cell() : mkcell(fd("COMMENT", "NT"), Str(r.text(r.range(1, 200)))));
		c.push_back(null ? null_cell() : raw_cell(maker));
		c.push_back(null ? null_cell() : raw_cell({ (uint8_t)crc, (uint8_t)(crc >> 8), (uint8_t)(crc >> 16), (uint8_t)(crc >> 24) }));
		if (v6) c.push_back(raw_cell(r.bytes(16)));
		versions.add(c);
	}
	for (size_t i = versions.recs.size(); i > 1; i--) if (r.pct(30)) std::swap(versions.recs[i - 1], versions.recs[r.below(i)]);
	if (r.pct(30)) { // a removed version record with a number of its own
		Rec d = versions.recs[0];
		d.removed = true;
		d.cells[0] = mkcell(versions.fields[0], std::to_string(w.vers.back() + 1));
		versions.recs.insert(versions.recs.begin() + r.below(versions.recs.size() + 1), d);
	}

	// objects
	Placer pl{ r, w, (int)place, {} };
	for (uint32_t i = 0; i < nobj; i++) {
		DepotObj o;
		o.id = i == 0 ? w.root : r.bytes(16);
		if (r.pct(30) && !w.objs.empty()) o.id = w.objs.back().id, o.id[r.pct(50) ? 15 : r.below(16)]++;
		bool dup = false;
		for (auto &x : w.objs) dup |= x.id == o.id;
		if (dup) continue;
		bool ext = nextra && !old && r.pct(30 * nextra), alive = false;
		int rate = r.range(10, 90), names = 1 + r.below(3);
		struct Att { string name; Bytes verid; };
		vector<Att> att;
		int64_t self = 0;
		Bytes prev;
		bool respelled = ext && r.pct(30); // names are compared without regard to letter case
		for (int n : w.vers) {
			if (!r.pct(rate)) continue;
			DepotRow row;
			row.ver = n;
			row.objverid = r.bytes(16);
			row.removed = alive && r.pct(20);
			bool null_packed = false;
			if (row.removed) {
				probe("removals");
				alive = false;
				if (r.pct(40)) for (auto &a : att) { DepotExt e; e.name = a.name; e.verid = a.verid; row.ext.push_back(e); }
				att.clear();
				row.objverid = Bytes(16);
			} else {
				row.data = !alive || ext || r.pct(85);
				if (row.data) {
					row.content = alive && r.pct(15) ? prev : r.pct(50) ? r.text(r.range(0, 500)) : r.bytes(r.pct(5) ? r.range(3000, 60000) : r.range(0, 2000));
					prev = row.content;
				} else { null_packed = r.pct(50); probe("records without data"); }
				alive = true;
				if (ext) for (int k = 0; k < names; k++) {
					size_t at = 0;
					string nm = guid_ms(o.id.data()) + "." + std::to_string(k);
					while (at < att.size() && att[at].name != nm) at++;
					if (at < att.size() && r.pct(15)) { att.erase(att.begin() + at); continue; } // no longer attached
					DepotExt e;
					e.name = nm;
					if (at == att.size()) { if (r.pct(30)) continue; att.push_back({ nm, Bytes() }); e.packed = true; }
					else e.packed = r.pct(50);
					if (e.packed) {
						att[at].verid = r.bytes(16);
						int kind = r.below(4);
						if (kind == 3) { // a container
							for (int q = r.range(1, 4); q > 0; q--) {
								CfNode x;
								x.name = q == 1 ? "form" : "m" + std::to_string(q);
								x.data = r.text(r.range(q == 2 ? 0 : 1, 700));
								e.kids.push_back(x);
							}
							e.plain = mkcf(e.kids, false);
							e.stored = r.pct(70) ? deflate(e.plain) : e.plain;
						} else if (kind == 2) { // not packed
							Bytes tmp;
							do e.plain = r.bytes(r.range(1, 1500)); while (inflate(e.plain, tmp));
							e.stored = e.plain;
						} else {
							e.plain = r.text(r.range(1, r.pct(10) ? 30000 : 900));
							e.stored = deflate(e.plain);
						}
						probe("attached files");
					}
					e.verid = att[at].verid;
					if (respelled && r.pct(50)) { for (auto &ch : e.name) if (r.pct(50)) ch = toupper(ch); probe("names spelled otherwise"); }
					row.ext.push_back(e);
				}
			}
			// the records
			vector<Cell> c = { raw_cell(o.id), mkcell(history.fields[1], std::to_string(n)), mkcell(history.fields[2], std::to_string(++self)), raw_cell(row.objverid), raw_cell(w.root), r.pct(50) ? null_cell() : raw_cell(r.bytes(16)), mkcell(history.fields[6], random_ident(r, 10)), mkcell(history.fields[7], std::to_string(r.below(1000))), yes(row.removed) };
			Cell data = null_cell(), hash = null_cell();
			if (row.data) { row.stored = deflate(row.content); pl.put(row.stored, data, &hash); }
			else { data.raw = Bytes(8); data.absent = true; }
			c.push_back(null_packed || (row.removed && r.pct(50)) ? null_cell() : yes(row.data));
			c.push_back(data);
			if (v6) c.push_back(hash);
			history.add(c);
			for (auto &e : row.ext) {
				vector<Cell> x = { raw_cell(o.id), mkcell(externals.fields[1], std::to_string(n)), mkcell(externals.fields[2], e.name), raw_cell(e.verid), yes(e.packed) };
				Cell d, h = null_cell();
				d.raw = Bytes(8);
				d.absent = true;
				if (e.packed) pl.put(e.stored, d, &h);
				x.push_back(d);
				if (v6) x.push_back(h);
				externals.add(x);
			}
			o.rows.push_back(row);
		}
		if (!o.rows.empty()) w.objs.push_back(o);
	}
	pl.finish();
	for (auto *t : { &history, &externals }) {
		for (size_t i = t->recs.size(); i > 1; i--) if (r.pct(40)) std::swap(t->recs[i - 1], t->recs[r.below(i)]);
		if (!t->recs.empty() && r.pct(40)) { Rec d = t->recs[r.below(t->recs.size())]; d.removed = true; t->recs.insert(t->recs.begin() + r.below(t->recs.size() + 1), d); }
	}
	vector<TableDef> own = { depot, versions, history, externals };
	for (auto n : { "USERS", "OBJECTS", "LABELS", "LASTESTVERSIONS", "SELFREFS", "OUTREFS" }) {
		TableDef t;
		t.name = n;
		t.fields = { fd("ID", "B", 16), fd("NAME", "NVC", 20) };
		for (int i = r.below(4); i > 0; i--) t.add({ raw_cell(r.bytes(16)), mkcell(t.fields[1], random_ident(r, 8)) });
		own.push_back(t);
	}
	for (auto &t : own) {
		for (auto it = db.tables.begin(); it != db.tables.end();) if (lower(it->name) == lower(t.name)) it = db.tables.erase(it); else ++it;
		db.tables.insert(db.tables.begin() + r.below(db.tables.size() + 1), t);
	}
	return w;
}
void put_depot(DepotWorld &w, const string &dir)
{
	fs_mkdir(dir);
	if (w.outside) { fs_mkdir(dir + "/data"); fs_mkdir(dir + "/data/pack"); fs_mkdir(dir + "/data/objects"); }
	for (auto &f : w.files) {
		for (size_t p = 0; (p = f.first.find('/', p)) != string::npos; p++) fs_mkdir(dir + "/" + f.first.substr(0, p));
		fs_put(dir + "/" + f.first, f.second);
	}
	put_db(w.db, dir + "/1cv8ddb.1CD");
}

// What a version holds: stored bytes by name, and the identifiers of the listed versions.
void depot_at(const DepotWorld &w, int n, std::map<string, Bytes> &data, std::map<string, string> &ids)
{
	for (auto &o : w.objs) {
		const DepotRow *last = nullptr;
		std::map<string, const DepotExt *> att;
		for (auto &row : o.rows) {
			if (row.ver > n) break;
			if (row.removed) { last = nullptr; continue; }
			if (!row.data) continue;
			last = &row;
			for (auto &e : row.ext) if (e.packed) att[lower(e.name)] = &e;
		}
		if (!last) continue;
		string id = guid_ms(o.id.data());
		data[id] = last->stored;
		ids[id] = guid_ms(last->objverid.data());
		for (auto &e : last->ext) {
			string n = lower(e.name);
			data[n] = att[n]->stored;
			ids[n] = guid_ms(att[n]->verid.data());
		}
	}
}
static string squeeze(const Bytes &b)
{
	string s;
	size_t i = b.size() >= 3 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf ? 3 : 0;
	if (!i) fail("wrong-contents", "a service file of the configuration has no byte order mark");
	for (; i < b.size(); i++) if (b[i] != '\r' && b[i] != '\n' && b[i] != ' ') s += b[i];
	return s;
}
static vector<string> split(const string &s)
{
	vector<string> v{ "" };
	for (char c : s) { if (c == ',') v.push_back(""); else v.back() += c; }
	return v;
}
static Bytes need_inflate(const Bytes &b, const string &what)
{
	Bytes x;
	if (!inflate(b, x)) fail("wrong-contents", what + " is not packed properly");
	return x;
}
static bool is_guid(const string &s)
{
	if (s.size() != 36) return false;
	for (int i = 0; i < 36; i++) if (i == 8 || i == 13 || i == 18 || i == 23 ? s[i] != '-' : !isxdigit((uint8_t)s[i])) return false;
	return true;
}
void check_depot_cf(const string &path, const DepotWorld &w, int n)
{
	string what = fmt("version %d", n);
	if (!fs_exists(path)) fail("missing-file", what + ": no file " + path);
	Bytes raw = fs_read(path);
	auto sn = w.snaps.find(n);
	if (sn->second.valid) {
		if (raw != sn->second.content) fail("wrong-contents", what + " is not the snapshot: " + diff_bytes(raw, sn->second.content));
		probe("snapshots used");
		return;
	}
	CfRead c = rdcf(raw, false);
	if (!c.error.empty()) fail("broken-structure", what + ": " + c.error);
	std::map<string, Bytes> have, meta, data;
	std::map<string, string> ids;
	depot_at(w, n, data, ids);
	bool old = w.major < 100;
	for (auto &f : c.files) if (!have.emplace(lower(f.name), f.data).second) fail("wrong-contents", what + ": two files " + f.name);
	if (old) {
		if (!have.count("metadata")) fail("missing-file", what + ": no metadata");
		CfRead m = rdcf(need_inflate(have["metadata"], "metadata"), false);
		if (!m.error.empty()) fail("broken-structure", what + ": metadata: " + m.error);
		for (auto &f : m.files) if (!meta.emplace(lower(f.name), f.data).second) fail("wrong-contents", what + ": two files " + f.name);
		have.erase("metadata");
	}
	auto take = [&](std::map<string, Bytes> &from, const string &name, bool packed) {
		if (!from.count(name)) fail("missing-file", what + ": no file " + name);
		Bytes b = from[name];
		from.erase(name);
		return packed ? need_inflate(b, name) : b;
	};
	string ver = squeeze(take(have, "version", true));
	if (ver != fmt("{{%d,0}}", w.major).c_str()) fail("wrong-contents", what + ": file version is " + ver);
	string root = squeeze(take(old ? meta : have, "root", !old)), rid = guid_ms(w.root.data());
	string vs = squeeze(take(have, "versions", true));
	// root
	if (!old) { if (root != "{2," + rid + "}") fail("wrong-contents", what + ": file root is " + root); }
	else {
		vector<string> p = split(root.substr(1, root.size() - 2));
		std::map<string, string> got;
		for (size_t i = 3; i + 1 < p.size(); i += 2) got[p[i]] = p[i + 1];
		if (p.size() != 3 + 2 * ids.size() || p[0] != "1" || p[1] != rid || p[2] != std::to_string(ids.size()) || got.size() != ids.size()) fail("wrong-contents", what + ": file root is " + root);
		for (auto &x : ids) if (got["\"" + x.first + "\""] != x.second) fail("wrong-contents", what + ": root names version " + got["\"" + x.first + "\""] + " of " + x.first);
	}
	// versions
	vector<string> p = split(vs.substr(1, vs.size() - 2));
	std::map<string, string> got;
	for (size_t i = 2; i + 1 < p.size(); i += 2) if (!got.emplace(lower(p[i]), p[i + 1]).second) fail("wrong-contents", what + ": versions names " + p[i] + " twice");
	if (p.size() < 2 || p[0] != "1" || p[1] != std::to_string(got.size()) || p.size() != 2 + 2 * got.size()) fail("wrong-contents", what + ": file versions is " + vs);
	for (auto s : { "", "version", "versions", "root" }) {
		if (old && !strcmp(s, "root")) continue;
		auto it = got.find("\"" + string(s) + "\"");
		if (it == got.end() || !is_guid(it->second)) fail("wrong-contents", what + ": versions does not list \"" + s + "\"");
		got.erase(it);
	}
	if (!old) for (auto &x : ids) {
		auto it = got.find("\"" + x.first + "\"");
		if (it == got.end()) fail("wrong-contents", what + ": versions does not list " + x.first);
		if (it->second != x.second) fail("wrong-contents", what + ": versions has " + it->second + " for " + x.first + " instead of " + x.second);
		got.erase(it);
	}
	if (!got.empty()) fail("wrong-contents", what + ": versions lists " + got.begin()->first);
	// objects and attached files
	auto &objs = old ? meta : have;
	for (auto &d : data) {
		Bytes b = take(objs, d.first, false), want = old ? need_inflate(d.second, "the generated object") : d.second;
		if (b != want) fail("wrong-contents", what + ": " + d.first + ": " + diff_bytes(b, want));
	}
	for (auto *m : { &have, &meta }) if (!m->empty()) fail("wrong-contents", what + ": " + m->begin()->first + " does not belong to this version");
	probe("members compared", data.size());
	probe("versions compared");
	std::map<string, Bytes> all = data;
	uint64_t h = n;
	for (auto &x : all) h = mix(h, hash64(x.second));
	state(h);
}
int depot_version(const DepotWorld &w, int n) // 0: there is none
{
	if (n > 0) return std::find(w.vers.begin(), w.vers.end(), n) != w.vers.end() ? n : 0;
	return -n < (int)w.vers.size() ? w.vers[w.vers.size() - 1 + n] : 0;
}
static int draw_version(const DepotWorld &w, bool valid)
{
	int k = valid ? pick_weighted({ 6, 4 }, "version given as") : pick_weighted({ 6, 4, 2, 1 }, "version given as");
	if (k == 0) return w.vers[draw(w.vers.size(), "version")];
	if (k == 1) return -(int)draw(w.vers.size(), "from the end");
	if (k == 2) { // absent
		int n = w.vers.back() + 1 + draw(3, "beyond");
		if (draw(2, "gap")) for (int i = 1; i < w.vers.back(); i++) if (!depot_version(w, i)) { n = i; break; }
		return n;
	}
	return -(int)w.vers.size() - (int)draw(3, "too far");
}

void c09()
{
	gen_env();
	DepotWorld w = gen_depot();
	string dir = draw(2, "depot directory") ? "/sim/w/depot" : "/sim/w";
	put_depot(w, dir);
	fs_mkdir("/sim/w/out");
	string dbarg = dir == "/sim/w" ? "1cv8ddb.1CD" : "depot/1cv8ddb.1CD";
	vector<string> args;
	if (draw(3, "-ne") == 1) args.push_back("-ne");
	args.push_back(dbarg);
	struct Out { string path; int n; };
	vector<Out> outs;
	uint32_t n = 1 + draw(4, "commands");
	for (uint32_t i = 0; i < n; i++) {
		int v = draw_version(w, true);
		string p = fmt("out/d%u", i).c_str();
		fs_mkdir("/sim/w/" + p);
		int real = depot_version(w, v);
		string f = p + fmt("/v%d.cf", real).c_str();
		static const char *const ex[] = { "x.cf", "y.CF", "конф.Cf" };
		uint32_t e = draw(4, "explicit file");
		if (e) p = f = p + "/" + ex[e - 1];
		if (draw(5, "old file") == 1) fs_put("/sim/w/" + f, B(string(draw(9000, "old size"), 'o')));
		args.insert(args.end(), { draw(2, "long") ? "-drc" : "-DumpDepotConfig", std::to_string(v), p });
		outs.push_back({ "/sim/w/" + f, real });
	}
	Result r = run_cli(args, gen_benign());
	need_no_crash(r, "depot dump");
	if (r.code) fail("unexpected-failure", r.describe());
	std::set<string> expect;
	for (auto &o : outs) { check_depot_cf(o.path, w, o.n); expect.insert(o.path); }
	need_ok(r, "depot dump");
	if (draw(3, "unknown version") == 1) {
		int v = draw_version(w, false);
		if (!depot_version(w, v)) {
			fs_mkdir("/sim/w/out/u");
			string p = draw(2, "explicit") ? "out/u" : "out/u/x.cf";
			r = run_cli({ dbarg, "-drc", std::to_string(v), p });
			need_no_crash(r, "dump of an unknown version");
			if (!r.code || r.err.empty()) fail("unreported", fmt("version %d does not exist, but no error is reported\n", v) + r.describe());
			probe("unknown versions refused");
		}
	}
	for (auto &f : fs_walk("/sim/w/out")) if (f.back() != '/' && !expect.count("/sim/w/out/" + f)) fail("extra-output", "file " + f + " is no output of the commands");
	check_no_escape();
	check_tmp_clean("depot dump");
}

// ---------------------------------------------------------------- C10
struct PartOut { std::map<string, const DepotExt *> ext; std::map<string, Bytes> objs; std::set<string> deleted; };
static PartOut depot_part(const DepotWorld &w, int a, int b)
{
	PartOut p;
	for (auto &o : w.objs) {
		string id = guid_ms(o.id.data());
		const DepotRow *before = nullptr, *data = nullptr, *last = nullptr, *lastdata = nullptr;
		std::map<string, std::pair<int, const DepotExt *>> att;
		for (auto &row : o.rows) {
			if (row.ver > b) break;
			bool in = row.ver >= a;
			if (in) last = &row;
			if (row.removed) { (in ? data : before) = nullptr; lastdata = nullptr; continue; }
			if (!row.data) continue;
			(in ? data : before) = &row;
			lastdata = &row;
			for (auto &e : row.ext) if (e.packed) att[lower(e.name)] = { row.ver, &e };
		}
		if (!last) continue;
		if (last->removed) {
			if (before) { p.deleted.insert(id); for (auto &e : last->ext) p.deleted.insert(lower(e.name)); }
			continue;
		}
		if (!data) continue;
		if (!before || before->content != data->content) p.objs[id] = data->content;
		for (auto &e : lastdata->ext) { string n = lower(e.name); if (att[n].first >= a) p.ext[n] = att[n].second; }
	}
	return p;
}
void compare_tree(const string &dir, const vector<CfNode> &kids);
void check_depot_part(const string &dir, const DepotWorld &w, int a, int b)
{
	PartOut p = depot_part(w, a, b);
	string what = fmt("versions %d to %d", a, b), base = dir + (w.major < 100 ? "/metadata" : "");
	if (!fs_is_dir(dir)) fail("missing-file", what + ": no directory " + dir);
	std::set<string> expect;
	for (auto &o : p.objs) {
		string f = base + "/" + o.first;
		expect.insert(f);
		if (!fs_exists(f) || fs_is_dir(f)) fail("missing-file", what + ": object " + o.first + " is missing");
		Bytes got = fs_read(f);
		if (got != o.second) fail("wrong-contents", what + ": object " + o.first + ": " + diff_bytes(got, o.second));
		probe("objects compared");
	}
	std::map<string, string> spelled;
	if (fs_is_dir(base)) for (auto &f : fs_list(base)) spelled[lower(f)] = f;
	for (auto &e : p.ext) {
		string f = base + "/" + (spelled.count(e.first) ? spelled[e.first] : e.first);
		expect.insert(f);
		if (!fs_exists(f)) fail("missing-file", what + ": attached file " + e.first + " is missing");
		if (!e.second->kids.empty()) { compare_tree(f, e.second->kids); probe("containers unpacked"); continue; }
		if (fs_is_dir(f)) fail("wrong-contents", what + ": attached file " + e.first + " is a directory");
		Bytes got = fs_read(f);
		if (got != e.second->plain) fail("wrong-contents", what + ": attached file " + e.first + ": " + diff_bytes(got, e.second->plain));
		probe("attached files compared");
	}
	string del = dir + "/deleted";
	if (!p.deleted.empty()) {
		if (!fs_exists(del)) fail("missing-file", what + ": no list of removed objects");
		Bytes b = fs_read(del);
		string s = Str(b);
		if (s.compare(0, 3, "\xef\xbb\xbf") == 0) s.erase(0, 3);
		std::set<string> got;
		for (size_t i = 0; i < s.size();) { size_t e = s.find("\r\n", i); if (e == string::npos) e = s.size(); got.insert(lower(s.substr(i, e - i))); i = e + 2; }
		for (auto &x : p.deleted) if (!got.count(x)) fail("wrong-contents", what + ": " + x + " was removed but is not listed: " + s);
		for (auto &x : got) if (!p.deleted.count(x)) fail("wrong-contents", what + ": " + x + " is listed as removed");
		probe("removed objects listed", got.size());
		expect.insert(del);
	}
	for (auto &f : fs_list(dir)) if (!expect.count(dir + "/" + f) && dir + "/" + f != base) fail("extra-output", what + ": " + f + " did not change");
	if (base != dir && fs_is_dir(base)) for (auto &f : fs_list(base)) if (!expect.count(base + "/" + f)) fail("extra-output", what + ": " + f + " did not change");
	probe("ranges compared");
	state(mix(fs_tree_hash(dir), a * 100000 + b));
}
void c10()
{
	gen_env();
	DepotWorld w = gen_depot();
	string dir = draw(2, "depot directory") ? "/sim/w/depot" : "/sim/w";
	put_depot(w, dir);
	fs_mkdir("/sim/w/out");
	string dbarg = dir == "/sim/w" ? "1cv8ddb.1CD" : "depot/1cv8ddb.1CD";
	vector<string> args;
	if (draw(3, "-ne") == 1) args.push_back("-ne");
	args.push_back(dbarg);
	struct Out { string path; int a, b; };
	vector<Out> outs;
	uint32_t n = 1 + draw(4, "commands");
	for (uint32_t i = 0; i < n; i++) {
		int a = draw_version(w, true), b = a;
		string arg = std::to_string(a);
		if (draw(4, "range")) { b = draw_version(w, true); arg += ":" + std::to_string(b); }
		a = depot_version(w, a);
		b = depot_version(w, b);
		string p = fmt("out/d%u", i).c_str();
		if (draw(3, "directory exists")) fs_mkdir("/sim/w/" + p);
		args.insert(args.end(), { draw(2, "long") ? "-dpc" : "-DumpPartDepotConfig", arg, p });
		outs.push_back({ "/sim/w/" + p, std::min(a, b), std::max(a, b) });
	}
	Result r = run_cli(args, gen_benign());
	need_no_crash(r, "partial depot dump");
	if (r.code) fail("unexpected-failure", r.describe());
	for (auto &o : outs) check_depot_part(o.path, w, o.a, o.b);
	need_ok(r, "partial depot dump");
	for (auto &f : fs_list("/sim/w/out")) { bool ok = false; for (auto &o : outs) ok |= o.path == "/sim/w/out/" + f; if (!ok) fail("extra-output", "out/" + f); }
	check_no_escape();
	check_tmp_clean("partial depot dump");
}

} // namespace sim
