// C14: lost-object rescue and table statistics.
#include "world.h"
#include <algorithm>

namespace sim {

static void add_lost(DbDef &db)
{
	Rng r(draw(1u << 30, "lost seed"));
	uint32_t n = draw(7, "lost objects");
	for (uint32_t i = 0; i < n; i++) {
		LostObj l;
		size_t ps = db.pagesize, len;
		switch (draw(8, "lost size")) {
		case 0: len = r.below(300); break;
		case 1: len = 0; break;
		case 2: len = ps; break;
		case 3: len = ps * r.range(1, 5); break;
		case 4: len = ps * r.range(1, 9) + r.below(ps); break;
		case 5: len = ps * r.range(1, 3) + 1; break;
		case 6: len = ps * r.range(1, 3) - 1; break;
		default: len = i == 0 && draw(6, "long lost object") == 5 ? (db.ver == V838 ? ps * (ps / 4 - 6) : 1023u * 4096) - ps + r.below(3 * ps) : r.below(2 * ps); break;
		}
		if (len > 24000000) len = ps * 3 + 7;
		l.content = len > 200000 ? Bytes(len, 0x5a) : r.pct(50) ? r.bytes(len) : r.text(len);
		l.content.resize(len);
		if (len > 1000000) { for (size_t k = 0; k < len; k += 997) l.content[k] = k >> 10; probe("long lost objects"); }
		// a page of data that looks like a header page cannot be told from one
		for (size_t k = 0; k < len; k += ps) if (l.content[k] == 0x1c || l.content[k] == '1') l.content[k] = 'x';
		db.lost.push_back(l);
	}
	db.lost_last = draw(4, "lost object at the end") == 1;
	probe("lost objects", n);
}
namespace {
struct Row { uint64_t v[4]; };
struct Read { string path; bool slo; bool after; };
}
static void check_lost(const DbDef &db, const string &dir, bool extras, const string &pre)
{
	vector<Bytes> have, want;
	for (auto &f : fs_walk(dir)) {
		if (f.back() == '/') fail("extra-output", dir + "/" + f + " is a directory");
		if (f == pre) continue;
		have.push_back(fs_read(dir + "/" + f));
	}
	for (auto &l : db.lost) want.push_back(l.content);
	std::sort(have.begin(), have.end());
	std::sort(want.begin(), want.end());
	vector<Bytes> missing, extra;
	std::set_difference(want.begin(), want.end(), have.begin(), have.end(), std::back_inserter(missing));
	std::set_difference(have.begin(), have.end(), want.begin(), want.end(), std::back_inserter(extra));
	if (!missing.empty()) {
		string m = fmt("%zu of %zu lost objects are not saved, the first is %zu bytes long; in %s: ", missing.size(), want.size(), missing[0].size(), dir.c_str());
		for (auto &f : fs_walk(dir)) m += f + fmt("(%zu) ", fs_read(dir + "/" + f).size());
		fail("missing-file", m);
	}
	if (!extra.empty() && !extras) fail("extra-output", fmt("%zu files in %s are no lost objects, the first has %zu bytes", extra.size(), dir.c_str(), extra[0].size()));
	probe("rescues compared");
	for (auto &h : have) state(hash64(h));
}
static void check_stat(const RdDb &rd, const DbDef &db, const string &path, const string &when)
{
	Bytes b = fs_read(path);
	string s(b.begin(), b.end());
	if (s.compare(0, 3, "\xef\xbb\xbf") == 0) s.erase(0, 3);
	std::map<string, Row> rows;
	size_t at = 0;
	bool head = true;
	while (at < s.size()) {
		size_t e = s.find('\n', at);
		if (e == string::npos) e = s.size();
		string l = s.substr(at, e - at);
		at = e + 1;
		if (!l.empty() && l.back() == '\r') l.pop_back();
		if (head) { head = false; continue; }
		if (l.empty()) continue;
		vector<string> c;
		size_t p = 0;
		for (size_t q; (q = l.find('|', p)) != string::npos; p = q + 1) c.push_back(l.substr(p, q - p));
		c.push_back(l.substr(p));
		if (c.size() != 5) fail("wrong-contents", when + ": a line of the statistics has " + std::to_string(c.size()) + " columns: " + l);
		Row r;
		for (int i = 0; i < 4; i++) {
			if (c[i + 1].empty() || c[i + 1].find_first_not_of("0123456789") != string::npos) fail("wrong-contents", when + ": no number: " + l);
			r.v[i] = strtoull(c[i + 1].c_str(), nullptr, 10);
		}
		if (!rows.insert({ c[0], r }).second) fail("wrong-contents", when + ": table " + c[0] + " is listed twice");
	}
	for (size_t i = 0; i < rd.tables.size(); i++) {
		const RdTable &t = rd.tables[i];
		auto it = rows.find(t.name);
		if (it == rows.end()) fail("missing-file", when + ": table " + t.name + " is not listed");
		uint64_t want[4] = { t.o[0].len / db.tables[i].reclen, t.o[0].len, t.f[1] ? t.o[1].len : 0, t.f[2] ? t.o[2].len : 0 };
		static const char *const col[4] = { "records", "data", "blob", "index" };
		for (int k = 0; k < 4; k++) if (it->second.v[k] != want[k]) fail("wrong-contents", when + fmt(": table %s, %s: %llu instead of %llu", t.name.c_str(), col[k], (unsigned long long)it->second.v[k], (unsigned long long)want[k]));
		rows.erase(it);
	}
	if (!rows.empty()) fail("wrong-contents", when + ": there is no table " + rows.begin()->first);
	probe("statistics compared");
	state(hash64(b));
}

void c14()
{
	gen_env();
	bool import = draw(3, "an import between") == 2;
	static const int writable[] = { V8214, V838, V820, V810 };
	DbDef db = import ? gen_db(1, writable[draw(4, "writable version")]) : gen_db(1, -1, true);
	add_lost(db);
	put_db(db, "/sim/w/a.1cd");
	RdDb rd = rd1cd(fs_read("/sim/w/a.1cd"));
	if (!rd.error.empty()) harness_error(rd.error);
	if (import) {
		DbDef src = db;
		Rng r(draw(1u << 30, "source seed"));
		src.seed = r.next();
		src.lost.clear();
		for (auto &t : src.tables) {
			t.recs.clear();
			t.order.clear();
			for (int n = r.below(40); n > 0; n--) random_record(r, t, 1);
		}
		put_db(src, "/sim/w/b.1cd");
		fs_mkdir("/sim/w/exp");
		need_ok(run_cli({ "/sim/w/b.1cd", "-eb", "/sim/w/exp", "*" }), "export for the import");
	}
	vector<string> args = { "/sim/w/a.1cd" };
	if (!import && draw(2, "not exclusive")) args.push_back("-ne");
	vector<Read> reads;
	static const char *const names[] = { "out", "вывод", "out put", "o.ut", "a" };
	uint32_t n = 1 + draw(5, "commands");
	bool done = false, pre = false;
	for (uint32_t i = 0; i < n; i++) {
		if (import && !done && (i + 1 == n || draw(2, "import now"))) {
			vector<size_t> ch;
			args.insert(args.end(), { "-ib", "/sim/w/exp", draw(2, "all tables") ? gen_filter(db, ch) : "*" });
			done = true;
			if (i + 1 == n) n++;
			continue;
		}
		string p = "/sim/w/" + string(names[draw(5, "output name")]) + std::to_string(i);
		switch (pick_weighted({ 5, 4, 1, 1, 1 }, "command")) {
		case 0:
			fs_mkdir(p);
			if (draw(4, "something there") == 3) { fs_put(p + "/old", Bytes{ 'k', 'e', 'p', 't' }); pre = true; }
			args.insert(args.end(), { draw(2, "long key") ? "-SaveLostObjects" : "-slo", p });
			reads.push_back({ p, true, done });
			break;
		case 1:
			p += ".txt";
			if (draw(3, "file there") == 2) fs_put(p, Bytes(5000, 120));
			args.insert(args.end(), { "-sts", p });
			reads.push_back({ p, false, done });
			break;
		case 2: fs_mkdir(p); args.insert(args.end(), { "-eax", p }); break;
		case 3: fs_mkdir(p); args.insert(args.end(), { "-eb", p, "*" }); break;
		case 4: { vector<size_t> ch; fs_mkdir(p); args.insert(args.end(), { "-ex", p, gen_filter(db, ch) }); break; }
		}
	}
	string line;
	for (auto &a : args) line += a + " ";
	trace("%s", line.c_str());
	S->sample += line.c_str();
	auto beside = [] {
		std::set<string> v;
		for (auto &f : fs_walk("/sim/w")) { size_t e = f.find('/'); v.insert(e == string::npos ? f : f.substr(0, e)); }
		return v;
	};
	std::set<string> before = beside();
	Result res = run_cli(args, gen_benign());
	need_ok(res, line);
	RdDb after = import ? rd1cd(fs_read("/sim/w/a.1cd")) : rd;
	if (!after.error.empty()) fail("broken-structure", "after the import: " + after.error);
	for (auto &x : reads) {
		if (x.slo) check_lost(db, x.path, x.after, pre && fs_exists(x.path + "/old") ? "old" : "");
		else { check_stat(x.after ? after : rd, db, x.path, x.after ? "after an import" : "statistics"); before.insert(x.path.substr(7)); }
		if (x.slo && fs_exists(x.path + "/old") && fs_read(x.path + "/old") != Bytes{ 'k', 'e', 'p', 't' }) fail("extra-output", x.path + "/old was changed");
	}
	for (auto &f : beside()) if (!before.count(f)) fail("escape", "/sim/w/" + f + " was created beside the output");
	check_no_escape();
	check_tmp_clean(line);
}

} // namespace sim
