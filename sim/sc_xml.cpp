// C02: XML export.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <map>

namespace sim {

extern const uint8_t sig_zip[16];
static bool is_system(const TableDef &t) { return t.name.empty() || t.name[0] != '_'; }

// What -pb makes of a value: the plain contents, or a directory with the members of a container.
struct Unpacked { Bytes data; bool dir = false; vector<CfNode> kids; };
static bool any_container(const Bytes &b) { return b.size() >= 16 && get32(b, 4) == 512 && get32(b, 12) == 0 && (b.size() == 16 || (b.size() >= 47 && b[16] == 13 && b[17] == 10)); }
static Unpacked unpack(const TableDef &t, const Rec &r, const Bytes &b)
{
	Unpacked u;
	u.data = b;
	if (is_system(t)) {
		string up = t.name;
		for (auto &c : up) c = toupper(c);
		string key = t.fields[0].type == "NVC" && !r.cells[0].null ? utf8(Bytes(r.cells[0].raw.begin() + 2, r.cells[0].raw.begin() + 2 + 2 * get16(r.cells[0].raw, 0))) : "";
		if (up == "V8USERS" || (up == "PARAMS" && lower(key) == "users.usr")) {
			size_t m = b[0];
			u.data.assign(b.begin() + 1 + m, b.end());
			for (size_t i = 0; m && i < u.data.size(); i++) u.data[i] ^= b[1 + i % m];
			return u;
		}
		bool once = (up == "CONFIG" || up == "CONFIGSAVE") && key.size() <= 72;
		bool twice = false;
		Bytes x, y;
		if (inflate(b, x)) {
			u.data = x;
			if (!once && inflate(x, y)) { u.data = y; twice = true; }
		}
		if (any_container(u.data)) {
			CfRead c = rdcf(u.data, twice);
			if (c.error.empty() && !c.files.empty()) { u.dir = true; u.kids = c.files; }
		}
		return u;
	}
	if (b.size() < 2 || (b[0] != 1 && b[0] != 2) || b[1] != 1) return u;
	Bytes x(b.begin() + 2, b.end()), y;
	if (b[0] == 2) {
		if (x.size() < 16 || !std::equal(sig_zip, sig_zip + 16, x.begin())) return u;
		if (!inflate(Bytes(x.begin() + 16, x.end()), y)) return u;
		x = y;
	}
	if (x.size() < 8) return u;
	int64_t len = get64(x, 0);
	u.data.assign(x.begin() + 8, x.end());
	if (len >= 0 && len < (int64_t)u.data.size()) {
		Bytes tail(u.data.begin() + len, u.data.end());
		if (tail.size() >= 12) {
			int64_t l2 = get64(tail, 4);
			if (l2 >= 0 && l2 <= (int64_t)tail.size() - 12) u.data.assign(tail.begin() + 12, tail.begin() + 12 + l2);
		}
	}
	return u;
}
extern const uint8_t sig_zip[16] = { 0x53, 0x4b, 0x6f, 0xf4, 0x88, 0x8d, 0xc1, 0x4e, 0xa0, 0xd5, 0xeb, 0xb6, 0xbd, 0xa0, 0xa7, 0x0d };

// values as the program stores them: packed, containers, masked users
static void add_special_blobs(DbDef &db)
{
	Rng r(draw(1u << 30, "blob seed"));
	uint32_t what = draw(4, "blob tables");
	auto payload = [&](bool system, bool once) {
		Bytes p = r.pct(10) ? Bytes() : r.bytes(r.pct(30) ? 16384 : r.range(1, 3000));
		if (system) {
			if (r.pct(40)) {
				vector<CfNode> kids;
				for (int i = r.range(0, 4); i > 0; i--) {
					CfNode n;
					n.name = "m" + std::to_string(i);
					n.data = r.pct(15) ? Bytes() : r.text(r.range(1, 1500));
					n.created = n.modified = 635000000000000ull + r.below(1000000) * 10000ull;
					if (r.pct(20)) { n.dir = true; n.data.clear(); CfNode k; k.name = "sub"; k.data = r.text(r.range(1, 700)); k.created = k.modified = n.created; n.kids.push_back(k); }
					kids.push_back(n);
				}
				p = mkcf(kids, false);
			}
			uint32_t k = r.below(3);
			if (k) p = deflate(p);
			if (k == 2 && !once && !any_container(p)) p = deflate(r.text(r.range(0, 500))), p = deflate(p);
			if (p.empty()) p = B("x");
			return p;
		}
		Bytes q;
		uint32_t k = r.below(6);
		if (k == 0) return p.empty() ? B("\x01") : p;
		put64(q, p.size());
		append(q, p);
		if (k >= 4) {
			Bytes p2 = r.bytes(r.below(300));
			put32(q, r.below(9));
			put64(q, p2.size());
			append(q, p2);
		}
		Bytes out;
		out.push_back(k & 1 ? 1 : 2);
		out.push_back(1);
		if (k & 1) append(out, q);
		else { out.insert(out.end(), sig_zip, sig_zip + 16); append(out, deflate(q)); }
		return out;
	};
	auto table = [&](const string &name, bool system) {
		if (db.table(name)) return;
		TableDef t;
		t.name = name;
		FieldDef k, d, e;
		k.name = "FILENAME"; k.type = "NVC"; k.len = 128; k.null = !system && r.pct(30);
		d.name = "BINARYDATA"; d.type = "I"; d.null = r.pct(30);
		t.fields = { k, d };
		if (r.pct(30)) { e.name = "OTHER"; e.type = "I"; e.null = true; t.fields.push_back(e); }
		bool once = name == "CONFIG" || name == "CONFIGSAVE";
		int n = r.range(1, 8);
		for (int i = 0; i < n; i++) {
			string key = random_text(r, 12, r.pct(30));
			if (r.pct(25) && i) key = utf8(Bytes(t.recs.back().cells[0].raw.begin() + 2, t.recs.back().cells[0].raw.begin() + 2 + 2 * (t.recs.back().cells[0].null ? 0 : get16(t.recs.back().cells[0].raw, 0))));
			if (r.pct(8)) key = "..";
			if (r.pct(8)) key = "";
			if (r.pct(10)) key = "a/b\\c";
			if (r.pct(10)) key += string(90, 'Q');
			if (name == "PARAMS" && i == 0) key = r.pct(50) ? "users.usr" : "Users.usr";
			Rec rec;
			rec.cells.push_back(k.null && r.pct(20) ? null_cell() : mkcell(k, key));
			for (size_t q = 1; q < t.fields.size(); q++) {
				if (t.fields[q].null && r.pct(25)) { rec.cells.push_back(null_cell()); continue; }
				Bytes v = payload(system, once && key.size() <= 72);
				if (name == "V8USERS" || lower(key) == "users.usr") {
					v.clear();
					uint32_t m = r.pct(30) ? r.range(128, 200) : r.range(1, 40);
					v.push_back(m);
					append(v, r.bytes(m));
					append(v, r.bytes(r.below(800)));
				}
				rec.cells.push_back(blob_cell(v));
			}
			t.recs.push_back(rec);
		}
		if (r.pct(70)) { IndexDef ix; ix.name = "PK"; ix.primary = true; ix.cols.push_back({ "FILENAME", k.size() }); t.indexes.push_back(ix); }
		db.tables.push_back(t);
	};
	if (what & 1) for (auto n : { "CONFIG", "PARAMS", "CONFIGSAVE", "FILES", "DBSCHEMA" }) table(n, true);
	if (what & 2) { table("V8USERS", true); table("_REFERENCE7", false); }
}
void compare_tree(const string &dir, const vector<CfNode> &kids)
{
	if (!fs_is_dir(dir)) fail("wrong-blob-file", dir + " is not a directory");
	std::set<string> names;
	for (auto &k : kids) {
		names.insert(k.name);
		string p = dir + "/" + k.name;
		if (any_container(k.data)) {
			CfRead c = rdcf(k.data, false);
			if (c.error.empty()) { compare_tree(p, c.files); continue; }
		}
		if (!fs_exists(p)) fail("wrong-blob-file", p + " is missing");
		Bytes got = fs_read(p);
		if (got != k.data) fail("wrong-blob-file", p + ": " + diff_bytes(got, k.data));
	}
	for (auto &n : fs_list(dir)) if (!names.count(n)) fail("wrong-blob-file", dir + "/" + n + " is not a member of the container");
}
static string unesc(string s)
{
	static const char *const m[][2] = { { "&lt;", "<" }, { "&gt;", ">" }, { "&quot;", "\"" }, { "&apos;", "'" }, { "&amp;", "&" } };
	for (auto &x : m) for (size_t p = 0; (p = s.find(x[0], p)) != string::npos; p++) s.replace(p, strlen(x[0]), x[1]);
	return s;
}
// The document with images in files: all but the image elements as usual; each image names its own file.
static void check_with_files(const TableDef &t, const string &got, const string &blobdir, bool parse)
{
	string want = xml_export(t, false, true);
	std::set<string> used;
	size_t g = 0, w = 0;
	vector<size_t> ord = t.export_order();
	size_t seen = 0;
	vector<std::pair<size_t, size_t>> images;
	for (size_t n : ord) for (size_t k = 0; k < t.fields.size(); k++) if (t.fields[k].type == "I") {
		const Cell &c = t.recs[n].cells[k];
		if (!c.null && !c.absent) images.push_back({ n, k });
	}
	while (true) {
		size_t m = want.find('\x01', w);
		size_t n = (m == string::npos ? want.size() : m) - w;
		if (got.compare(g, n, want, w, n)) fail("wrong-xml", "table " + t.name + ": " + diff_bytes(B(got.substr(g)), B(want.substr(w, n))));
		g += n;
		if (m == string::npos) break;
		w = m + 1;
		size_t e = got.find('<', g);
		if (e == string::npos) fail("wrong-xml", "table " + t.name + " ends within an image element");
		string name = unesc(got.substr(g, e - g));
		g = e;
		auto im = images.at(seen++);
		const Bytes &blob = t.recs[im.first].cells[im.second].blob;
		string p = blobdir + "/" + name;
		if (name.empty() || name.find('/') != string::npos) fail("wrong-blob-file", "table " + t.name + ": an image names no file of its own: \"" + name + "\"");
		if (!used.insert(name).second) fail("wrong-blob-file", "table " + t.name + ": two images name the file " + name);
		if (!fs_exists(p)) fail("wrong-blob-file", "table " + t.name + ": no file " + p);
		Unpacked x;
		if (parse) x = unpack(t, t.recs[im.first], blob);
		else x.data = blob;
		if (x.dir) { probe("containers unpacked"); compare_tree(p, x.kids); continue; }
		if (fs_is_dir(p)) fail("wrong-blob-file", p + " is a directory");
		Bytes f = fs_read(p);
		if (f != x.data) fail("wrong-blob-file", p + ": " + diff_bytes(f, x.data));
		probe("image files");
	}
	if (g != got.size()) fail("wrong-xml", "table " + t.name + ": the document goes on after its end");
	for (auto &n : fs_list(blobdir)) if (!used.count(n)) fail("extra-output", "file " + n + " belongs to no image of table " + t.name);
}

void c02()
{
	gen_env();
	DbDef db = gen_db(2, -1, true);
	bool bf = draw(3, "blobs to files") == 1, pb = true;
	static const char *const yes[] = { "1", "yes", "Y", "да" }, *const no[] = { "0", "no", "N", "" };
	if (bf || draw(8, "special tables") == 1) add_special_blobs(db);
	stretch(db, false); // an export reads every record, deleted or not
	put_db(db, "/sim/w/a.1cd");
	vector<size_t> sel;
	bool all = draw(2, "all tables") == 0;
	vector<string> args = { "-ne", "a.1cd" };
	fs_mkdir("/sim/w/out");
	if (bf) args.insert(args.end(), { draw(2, "long") ? "-BlobToFile" : "-bf", yes[draw(4, "yes")] });
	else if (draw(4, "bf given") == 1) args.insert(args.end(), { "-bf", no[draw(4, "no")] });
	uint32_t pbk = draw(3, "pb");
	if (pbk == 1) { args.insert(args.end(), { "-pb", no[draw(4, "no")] }); pb = false; }
	else if (pbk == 2) args.insert(args.end(), { "-ParseBlob", yes[draw(4, "yes")] });
	size_t cmd0 = args.size();
	if (all) {
		for (size_t i = 0; i < db.tables.size(); i++) sel.push_back(i);
		args.insert(args.end(), { draw(2, "long") ? "-ExportAllToXML" : "-eax", "out" });
	} else {
		string f = gen_filter(db, sel);
		args.insert(args.end(), { draw(2, "long") ? "-exporttoxml" : "-ex", "out", f });
	}
	bool again = draw(6, "export twice") == 5;
	if (again) { auto c = vector<string>(args.begin() + cmd0, args.end()); args.insert(args.end(), c.begin(), c.end()); }
	Result r = run_cli(args, gen_benign());
	std::set<string> expect;
	for (size_t i : sel) {
		TableDef &t = db.tables[i];
		string p = "/sim/w/out/" + t.name + ".xml";
		need_no_crash(r, "export");
		if (!fs_exists(p)) fail("missing-table", "table " + t.name + " was not exported\n" + r.describe());
		Bytes got = fs_read(p);
		expect.insert(t.name + ".xml");
		if (bf) {
			check_with_files(t, Str(got), p + ".blob", pb);
			if (fs_is_dir(p + ".blob")) expect.insert(t.name + ".xml.blob");
		} else {
			Bytes want = B(xml_export(t, false));
			if (got != want) fail("wrong-xml", "table " + t.name + ": " + diff_bytes(got, want));
		}
		state(mix(hash64(t.descr_text.data(), t.descr_text.size()), hash64(got)));
		probe("tables exported");
		probe("records exported", t.live().size());
	}
	need_ok(r, "export");
	for (auto &n : fs_list("/sim/w/out")) if (!expect.count(n)) fail("extra-output", "files besides those of the selected tables:\n" + rel_list("/sim/w/out"));
	check_no_escape();
	check_tmp_clean("export");
}

} // namespace sim
