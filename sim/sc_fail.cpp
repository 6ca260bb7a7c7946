// C11: no storage failure is reported as success. C12: damaged databases.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <map>

namespace sim {

static vector<FaultRule> gen_failures(const InstState &dry)
{
	vector<FaultRule> v;
	static const char *const places[] = { "", "/sim/w/o", "/sim/tmp", "/sim/w/db", "/sim/w/imp" };
	static const uint32_t kinds[] = { 1u << OP_WRITE, 1u << OP_READ, 1u << OP_OPEN | 1u << OP_CREATE, 1u << OP_MKDIR, 1u << OP_CLOSE, 1u << OP_STAT, 1u << OP_UNLINK | 1u << OP_RENAME | 1u << OP_TRUNC, 1u << OP_LIST | 1u << OP_SEEK | 1u << OP_UTIME, (1u << OP_N) - 1 };
	uint32_t n = 1 + draw(2, "failures");
	for (uint32_t i = 0; i < n; i++) {
		FaultRule f;
		f.kind = FaultRule::ERR;
		static const int err[] = { 5, 28, 13, 24, 30, 12, 4 + 118, 2 };
		f.err = err[draw(8, "errno")];
		static const uint32_t cnt[] = { 1, 2, 5, 1000000 };
		f.count = cnt[draw(4, "failing count")];
		if (!S->oplog.empty() && draw(2, "one that occurs")) { // an operation of the run without failures, rare kinds and places as often as common ones
			vector<int> kind;
			for (int o = 0; o < OP_N; o++) if (dry.nops[o]) kind.push_back(o);
			int o = kind[draw((uint32_t)kind.size(), "which kind")];
			std::map<string, vector<size_t>> at; // place: where in the log
			std::map<string, uint32_t> seen;
			for (size_t k = 0; k < S->oplog.size(); k++) {
				if (S->oplog[k].op != o) continue;
				string p = S->oplog[k].path.c_str(), dir = p.substr(0, p.rfind('/'));
				if (dir.compare(0, 8, "/sim/tmp") == 0) p = dir = "/sim/tmp";
				at[dir].push_back(k);
			}
			if (!at.empty()) {
				auto it = at.begin();
				std::advance(it, draw((uint32_t)at.size(), "which place"));
				size_t k = it->second[draw((uint32_t)it->second.size(), "which of them")];
				string p = S->oplog[k].path.c_str();
				if (it->first == "/sim/tmp") p = "/sim/tmp";
				f.ops = 1u << o;
				f.path = p.c_str();
				for (size_t j = 0; j < k; j++) if (S->oplog[j].op == o && string(S->oplog[j].path.c_str()).find(p) != string::npos) f.at++;
				v.push_back(f);
				continue;
			}
		}
		f.ops = kinds[draw(9, "failing operation")];
		f.path = places[pick_weighted({ 4, 3, 2, 2, 1 }, "failing place")];
		uint32_t total = 0;
		for (int o = 0; o < OP_N; o++) if (f.ops >> o & 1) total += dry.nops[o];
		if (f.path.empty()) f.at = draw(total + 1, "failing at");
		else { static const uint32_t part[] = { 1, 8, 60, 1000000 }; f.at = draw(std::min(total, part[draw(4, "how early")]) + 1, "failing at"); }
		v.push_back(f);
	}
	// a file that is there is not said to be missing
	for (auto &f : v) if (f.err == 2 && f.ops & (1u << OP_STAT | 1u << OP_UNLINK | 1u << OP_RENAME)) f.err = 5;
	if (draw(4, "short transfers") == 3) {
		FaultRule f;
		f.kind = FaultRule::SHORT;
		f.ops = 1u << OP_WRITE | 1u << OP_READ;
		f.at = draw(60, "short from");
		f.count = 1 + draw(300, "short count");
		f.arg = draw(1000, "short part");
		v.push_back(f);
	}
	return v;
}
void c11()
{
	Session s = gen_session();
	vector<string> a = { s.db };
	gen_options(a, s);
	uint32_t n = 1 + draw(2, "commands");
	vector<Cmd> cmds;
	for (uint32_t i = 0; i < n; i++) {
		Cmd c = gen_cmd(s, fmt("/sim/w/o%u", i), s.ne || !s.writable ? 0 : IMPORT);
		cmds.push_back(c);
		a.insert(a.end(), c.args.begin(), c.args.end());
	}
	fs_mkdir("/sim/one");
	fs_copy("/sim/w", "/sim/one/w0");
	string what = join(a);
	S->log_ops = true;
	Result ref = run_cli(a);
	S->log_ops = false;
	need_no_crash(ref, what);
	if (ref.code && !s.unsure) need_ok(ref, what);
	InstState &dry = last_inst();
	uint64_t wrote = 0;
	for (auto &h : S->hist) if (h.op == OP_WRITE && !h.err) wrote += h.len;
	vector<FaultRule> fr = gen_failures(dry);
	bool snaps = false; // a snapshot that cannot be read may be replaced by what the history of the depot says
	for (auto &p : fs_list("/sim/one/w0/db/cache")) snaps |= p.find(".snp") != string::npos;
	bool full = draw(5, "full disk") == 4;
	fs_copy("/sim/w", "/sim/one/done");
	fs_remove("/sim/w");
	if (snaps) {
		fs_copy("/sim/one/w0", "/sim/w");
		for (auto &p : fs_list("/sim/w/db/cache")) if (p.find(".snp") != string::npos) fs_remove("/sim/w/db/cache/" + p);
		need_no_crash(run_cli(a), what + ", without snapshots");
		fs_copy("/sim/w", "/sim/one/nosnap");
		fs_remove("/sim/w");
	}
	fs_copy("/sim/one/w0", "/sim/w");
	uint64_t keep = S->disk_free;
	if (full) { S->disk_free = draw((uint32_t)std::min<uint64_t>(wrote, 1u << 30) + 1, "space left"); if (draw(2, "only the disk")) fr.clear(); what += fmt(", %llu bytes of space", (unsigned long long)S->disk_free); }
	for (auto &f : fr) what += fmt(", fault %d errno %d, operations %x at %u times %u %s", f.kind, f.err, f.ops, f.at, f.count, f.path.c_str());
	Result r = run_cli(a, fr);
	S->disk_free = keep;
	need_no_crash(r, what);
	bool fired = full;
	for (auto &f : last_inst().faults) fired |= f.fired && f.kind == FaultRule::ERR;
	if (fired) probe("runs with a failure"); else probe("runs without a failure");
	string d;
	for (auto &c : cmds) if (!c.out.empty() && d.empty()) {
		d = diff_outputs("/sim/one/done" + c.out.substr(6), c.out);
		if (!d.empty() && snaps && diff_outputs("/sim/one/nosnap" + c.out.substr(6), c.out).empty()) { d.clear(); probe("snapshots that could not be read"); }
	}
	if (d.empty()) d = diff_dbs(fs_read("/sim/one/done" + s.db.substr(6)), fs_read(s.db));
	if (d.empty() && !s.log.empty() && !snaps) {
		Bytes x, y;
		fs_get("/sim/one/done" + s.log.substr(6), x);
		if (!fs_get(s.log, y) || x != y) d = "the log file differs";
	}
	if (d.empty()) probe("failures without effect");
	else if (!r.code) fail("unreported", what + ": exit status 0, and the output differs from that without the failure: " + d);
	else if (r.err.empty() && std::find(a.begin(), a.end(), "-nv") == a.end()) fail("unreported", what + ": no message is given; " + d);
	else probe("failures reported");
	if (!fired && (r.code != ref.code)) fail("unexpected-failure", what + ": nothing failed: " + r.describe());
	check_no_escape();
	state(mix(fs_tree_hash("/sim/w"), r.code));
}

// ---------------------------------------------------------------- C12
static uint32_t wild32(Rng &r, uint32_t pages)
{
	switch (r.below(9)) {
	case 0: return 0;
	case 1: return 0xffffffff;
	case 2: return 0x7fffffff;
	case 3: return 0x80000000;
	case 4: return r.next();
	case 5: return pages + r.below(3) - 1;
	case 6: return 1u << r.below(32);
	case 7: return r.below(70000);
	default: return r.below(pages + 1);
	}
}
static void damage_text(Rng &r, Bytes &b)
{
	static const char *const names[] = { "../../x", "/sim/w/x", "..", ".", "a/b", "\\x", "con:x", "../", "x\n" };
	if (b.empty()) { b = r.text(r.below(40)); return; }
	size_t at = r.below(b.size()), n = std::min<size_t>(b.size() - at, 1 + r.below(r.pct(50) ? 8 : 400));
	// the elements between commas and brackets
	auto token = [&](size_t from, size_t &s, size_t &e) {
		auto sep = [](uint8_t c) { return c == ',' || c == '{' || c == '}' || c == '\r' || c == '\n'; };
		for (s = from; s < b.size() && sep(b[s]);) s++;
		while (s > 0 && s < b.size() && !sep(b[s - 1])) s--;
		for (e = s; e < b.size() && !sep(b[e]);) e++;
	};
	switch (r.pct(20) ? 5 : r.below(11)) {
	case 8: { // one element in place of another
		size_t s1, e1, s2, e2;
		token(at, s1, e1); token(r.below(b.size()), s2, e2);
		Bytes c(b.begin() + s2, b.begin() + e2);
		b.erase(b.begin() + s1, b.begin() + e1);
		b.insert(b.begin() + s1, c.begin(), c.end());
		break;
	}
	case 9: { // a bracketed element repeated or left out
		while (at < b.size() && b[at] != '{') at++;
		size_t e = at;
		int d = 0;
		for (; e < b.size(); e++) { if (b[e] == '{') d++; if (b[e] == '}' && !--d) { e++; break; } }
		if (e < b.size() && b[e] == ',') e++;
		Bytes c(b.begin() + at, b.begin() + e);
		if (r.pct(50)) b.erase(b.begin() + at, b.begin() + e);
		else for (int k = r.pct(90) ? 1 : 40; k > 0 && c.size() < 5000; k--) b.insert(b.begin() + at, c.begin(), c.end());
		break;
	}
	case 10: { // a number a little different
		while (at < b.size() && !(b[at] >= '0' && b[at] <= '9')) at++;
		size_t e = at;
		while (e < b.size() && e < at + 15 && b[e] >= '0' && b[e] <= '9') e++;
		if (e == at) break;
		long long v = atoll(string(b.begin() + at, b.begin() + e).c_str());
		static const int by[] = { 1, -1, 2, -2, 16, 100, -100, 1023 };
		string s = std::to_string(r.pct(20) ? v * 2 : v + by[r.below(8)]);
		b.erase(b.begin() + at, b.begin() + e);
		b.insert(b.begin() + at, s.begin(), s.end());
		break;
	}
	case 0: b[at] ^= 1 << r.below(8); break;
	case 1: b[at] = r.next(); break;
	case 2: b.erase(b.begin() + at, b.begin() + at + n); break;
	case 3: { Bytes c(b.begin() + at, b.begin() + at + n); b.insert(b.begin() + at, c.begin(), c.end()); break; }
	case 4: b.resize(at); break;
	case 5: { // another number
		while (at < b.size() && !(b[at] >= '0' && b[at] <= '9')) at++;
		size_t e = at;
		while (e < b.size() && b[e] >= '0' && b[e] <= '9') e++;
		b.erase(b.begin() + at, b.begin() + e);
		static const char *const nums[] = { "0", "1", "-1", "2147483647", "4294967296", "99999999999999999999999", "3", "1000000", "-2147483648", "65535", "2147483646", "4294967295", "255", "1073741824" };
		string s = nums[r.below(14)];
		b.insert(b.begin() + at, s.begin(), s.end());
		break;
	}
	case 6: { string s = names[r.below(9)]; b.insert(b.begin() + at, s.begin(), s.end()); break; }
	case 7: { // brackets
		static const char *const br[] = { "{", "}", ",", "\"", "{{{{", "}}}}", "{}", "\"\"" };
		string s = br[r.below(8)];
		if (r.pct(10)) { string d; for (int k = 1 << r.below(17); k > 0; k--) d += s; s = d; }
		b.insert(b.begin() + at, s.begin(), s.end());
		break;
	}
	}
}
static void damage_name(Rng &r, string &s)
{
	static const char *const names[] = { "../../x", "/sim/w/x", "..", ".", "a/b", "x/../../../y", "", "\\", "*", "(", "../o1/z" };
	if (r.pct(60)) s = names[r.below(11)];
	else { Bytes b(s.begin(), s.end()); damage_text(r, b); s.assign(b.begin(), b.end()); }
	string t;
	for (char c : s) if ((c & 0x80) == 0 && c) t += c;
	s = t;
}
static void damage_bytes(Rng &r, Bytes &b)
{
	if (b.empty()) return;
	size_t at = r.below(b.size()), n = std::min<size_t>(b.size() - at, 1 + r.below(r.pct(50) ? 8 : 600));
	switch (r.below(6)) {
	case 0: b[at] ^= 1 << r.below(8); break;
	case 1: for (size_t i = 0; i < n; i++) b[at + i] = r.next(); break;
	case 2: std::fill(b.begin() + at, b.begin() + at + n, r.pct(50) ? 0 : 0xff); break;
	case 3: at &= ~(size_t)3; if (at + 4 <= b.size()) set32(b, at, wild32(r, b.size())); break;
	case 4: b.resize(at); break;
	case 5: b.erase(b.begin() + at, b.begin() + at + n); break;
	}
}
// what the database holds is damaged, but stored correctly
static string damage_contents(Rng &r, DbDef &d)
{
	vector<size_t> with;
	for (size_t i = 0; i < d.tables.size(); i++) if (!d.tables[i].live().empty()) with.push_back(i);
	if (with.empty() || r.pct(15)) {
		if (d.tables.empty()) return "";
		TableDef &t = d.tables[r.below(d.tables.size())];
		if (r.pct(60)) { // the description
			uint32_t seed = r.next(), n = 1 + r.below(3);
			t.descr_edit = [seed, n](string &s) {
				Rng q(seed);
				Bytes b(s.begin(), s.end());
				for (uint32_t i = 0; i < n; i++) damage_text(q, b);
				s.assign(b.begin(), b.end());
			};
			return "description of " + t.name + " ";
		}
		if (r.pct(50) || t.fields.empty()) { damage_name(r, t.name); return "table name " + t.name + " "; }
		FieldDef &f = t.fields[r.below(t.fields.size())];
		string old = f.name;
		damage_name(r, f.name);
		for (auto &x : t.indexes) for (auto &c : x.cols) if (c.first == old) c.first = f.name;
		return "field name " + t.name + "." + f.name + " ";
	}
	TableDef &t = d.tables[with[r.below(with.size())]];
	vector<size_t> l = t.live();
	size_t n = l[r.below(l.size())], k = r.below(t.fields.size());
	if (r.pct(50)) for (size_t i = 0; i < t.fields.size(); i++) if (t.fields[i].type == "I") k = i;
	FieldDef &f = t.fields[k];
	Cell &c = t.recs[n].cells[k];
	if (c.null || c.absent) { k = 0; return ""; }
	string what = fmt("contents of %s.%s in record %zu ", t.name.c_str(), f.name.c_str(), n);
	if (f.blob()) {
		if (f.type == "NT") { string s = utf8(c.blob); damage_name(r, s); c.blob = utf16(s); return what; }
		Bytes p;
		bool z = r.pct(80) && inflate(c.blob, p);
		if (!z) p = c.blob;
		for (int m = 1 + r.below(3); m > 0; m--) if (r.pct(60)) damage_text(r, p); else damage_bytes(r, p);
		c.blob = z ? deflate(p) : p;
	} else if ((f.type == "NVC" || f.type == "NC") && f.len > 8 && r.pct(70)) {
		string s = "x";
		damage_name(r, s);
		if (utf16(s).size() <= (size_t)f.len * 2) c = mkcell(f, s);
	} else {
		for (int m = 1 + r.below(3); m > 0; m--) if (!c.raw.empty()) c.raw[r.below(c.raw.size())] = r.pct(30) ? 0xff : r.next();
	}
	return what;
}
// the file itself
static string damage_file(Rng &r, Bytes &b, const RdDb &rd)
{
	uint32_t ps = rd.pagesize ? rd.pagesize : 4096, pages = b.size() / ps;
	if (!pages) return "";
	string what;
	// where
	vector<uint32_t> at;
	const char *place = "anywhere";
	switch (r.below(10)) {
	case 0: at = { 0 }; place = "the header"; break;
	case 1: at = rd.free_obj.pages; at.push_back(1); place = "the free list"; break;
	case 2: case 3: at = rd.root.pages; at.push_back(2); place = "the root object"; break;
	case 4: case 5: case 6: case 7:
		if (!rd.tables.empty()) {
			const RdTable &t = rd.tables[r.below(rd.tables.size())];
			int k = r.below(4);
			at = k == 3 ? t.o_descr.pages : t.o[k].pages;
			static const char *const pl[] = { "records", "blobs", "index", "description" };
			place = pl[k];
		}
		break;
	}
	for (size_t i = at.size(); i-- > 0; ) if (at[i] >= pages) at.erase(at.begin() + i);
	if (at.empty()) { place = "anywhere"; at.push_back(r.below(pages)); }
	uint32_t page = at[r.below(r.pct(50) ? 1 : at.size())];
	size_t base = (size_t)page * ps;
	size_t off = r.pct(50) ? r.below(48) : r.pct(50) ? r.below(512) : r.below(ps);
	if (r.pct(30)) { // where something is
		size_t used = 0;
		for (size_t i = 0; i < ps; i++) if (b[base + i]) used = i + 1;
		if (used) off = r.below(used);
	}
	switch (r.below(9)) {
	case 0: case 1: b[base + off] ^= 1 << r.below(8); what = "bit"; break;
	case 2: case 3: off = off & ~(size_t)(r.pct(80) ? 3 : 0); if (off + 4 <= ps) { uint32_t v = r.pct(25) ? page : r.pct(20) ? at[r.below(at.size())] : wild32(r, pages); set32(b, base + off, v); what = fmt("number %x", v); } break;
	case 4: { size_t n = std::min<size_t>(ps - off, 1 + r.below(64)); for (size_t i = 0; i < n; i++) b[base + off + i] = r.next(); what = "some bytes"; break; }
	case 5: std::fill(b.begin() + base + (r.pct(50) ? 0 : ps / 512 / 2 * 512), b.begin() + base + ps, r.pct(70) ? 0 : 0xff); what = "blank page"; break;
	case 6: { uint32_t o = r.below(pages); memmove(&b[base], &b[(size_t)o * ps], ps); what = fmt("page %u over it", o); break; }
	case 7: { uint32_t o = r.below(pages); size_t n = ps / 512 * r.below(9) / 8 * 512; memmove(&b[base], &b[(size_t)o * ps], std::min<size_t>(n, ps)); what = fmt("part of page %u over it", o); break; }
	case 8: b.resize(r.pct(50) ? base + off : r.pct(50) ? base : r.below(b.size())); what = "cut"; break;
	}
	return fmt("%s at %zx (%s) ", what.c_str(), base + off, place);
}
// a number that names something: off by one, beyond the end, the thing itself, something else
static uint32_t wild_ref(Rng &r, uint32_t n, uint32_t was, uint32_t self)
{
	switch (r.below(8)) {
	case 0: case 1: return n;
	case 2: return n + 1;
	case 3: return n - 1;
	case 4: return self;
	case 5: return was + (r.pct(50) ? 1 : -1);
	case 6: return r.pct(70) ? r.below(4) : 0xffffffff;
	default: return r.below(n + 1);
	}
}
// a reference or a count in the structures of the file
static string damage_ref(Rng &r, Bytes &b, const RdDb &rd)
{
	uint32_t ps = rd.pagesize;
	bool v838 = rd.ver == V838;
	vector<std::pair<const RdObj *, int>> objs; // 0 records, 1 blobs, 2 index, 3 description, 4 root
	if (!rd.root.data_pages.empty()) objs.push_back({ &rd.root, 4 });
	for (auto &t : rd.tables) {
		for (int i = 0; i < 3; i++) if (t.f[i]) objs.push_back({ &t.o[i], i });
		if (!v838) objs.push_back({ &t.o_descr, 3 });
	}
	static const char *const kn[] = { "records", "blobs", "an index", "a description", "the root object" };
	if (objs.empty() || r.pct(8)) { // the list of free pages
		size_t at = (size_t)ps + (v838 ? 4 : 8);
		if (r.pct(50)) at = (size_t)ps + (v838 ? 12 : 24) + 4 * r.below(3);
		set32(b, at, wild_ref(r, r.pct(50) ? rd.length : rd.free.size(), get32(b, at), 1));
		return fmt("number %x at %zx (the free list) ", get32(b, at), at);
	}
	auto pick = objs[r.below(objs.size())];
	if (r.pct(25)) pick = objs[0];
	const RdObj &o = *pick.first;
	size_t head = (size_t)o.page * ps;
	auto pos = [&](uint64_t off) { return (size_t)o.data_pages[off / ps] * ps + off % ps; };
	auto put = [&](size_t at, uint32_t v, const char *what) {
		if (at + 4 > b.size()) return string();
		set32(b, at, v);
		return fmt("%s %x at %zx (%s) ", what, v, at, kn[pick.second]);
	};
	if (!o.data_pages.empty() && r.pct(60)) { // what the object holds
		uint64_t len = o.len;
		switch (pick.second) {
		case 4:
			if (v838) { if (len < 256 + 42) break; size_t at = pos(256 + 6 + (r.pct(30) ? 32 : 36)); return put(at, wild_ref(r, len / 256, get32(b, at), 1), "table"); }
			else { size_t base = rd.ver <= V805 ? 8 : 32, i = r.below(rd.tables.size() + 1); if (base + 4 * i + 4 > len) break; size_t at = pos(base + 4 * i); return put(at, wild_ref(r, i ? rd.length : rd.tables.size(), get32(b, at), 2), "table"); }
		case 1: {
			uint64_t n = len / 256;
			if (n < 2) break;
			uint64_t k = r.below(n);
			size_t at = pos(k * 256);
			if (r.pct(30)) { uint32_t l = r.pct(50) ? 251 : r.below(0x10000); b[at + 4] = l; b[at + 5] = l >> 8; return fmt("block length %u at %zx ", l, at); }
			return put(at, wild_ref(r, n, get32(b, at), k), "next block");
		}
		case 2: {
			uint64_t n = len / ps;
			if (!n) break;
			uint64_t k = r.below(n);
			static const int where[] = { 0, 2, 4, 8, 12, 14, 20, 28 };
			size_t at = pos(k * ps + (k ? where[r.below(8)] : 4 * r.below(6)));
			return put(at, wild_ref(r, v838 ? n : len, get32(b, at), v838 ? k : k * ps), "index number");
		}
		case 0: { // a blob reference, when the record has one: start and length are the last numbers before something else
			size_t at = pos(r.below(len));
			return put(at, wild_ref(r, r.pct(50) ? len / 256 : r.next(), at + 4 <= b.size() ? get32(b, at) : 0, 0), "record number");
		}
		}
	}
	vector<uint32_t> fat;
	for (uint32_t p : o.pages) if (p != o.page && std::find(o.data_pages.begin(), o.data_pages.end(), p) == o.data_pages.end()) fat.push_back(p);
	if (!fat.empty() && r.pct(45)) {
		size_t at = (size_t)fat[r.below(fat.size())] * ps;
		if (!v838 && r.pct(30)) return put(at, wild_ref(r, o.data_pages.size(), get32(b, at), r.pct(50) ? 1023 : 1024), "count");
		at += (v838 ? 0 : 4) + 4 * r.below(std::min<size_t>(o.data_pages.size(), v838 ? ps / 4 : 1023));
		return put(at, wild_ref(r, rd.length, get32(b, at), r.pct(50) ? o.page : fat[0]), "page");
	}
	if (r.pct(45)) {
		uint64_t l = o.len, n[] = { 0, l + 1, l - 1, l + ps, (l + ps - 1) / ps * ps + 1, (uint64_t)ps * (ps / 4 - 6), (uint64_t)ps * (ps / 4 - 6) + 1, (uint64_t)ps / 4 * ps, 0x7fffffff, 0xffffffff, 1ull << 32, ~0ull };
		uint64_t v = n[r.below(12)];
		set32(b, head + (v838 ? 16 : 8), v);
		if (v838) set32(b, head + 20, v >> 32);
		return fmt("length %llx of %s ", (unsigned long long)v, kn[pick.second]);
	}
	if (v838 && r.pct(15)) { b[head + 2] = r.below(4); return fmt("level %d of %s ", b[head + 2], kn[pick.second]); }
	size_t nt = fat.empty() ? o.data_pages.size() : fat.size();
	size_t at = head + 24 + 4 * r.below(nt + 1);
	if (at + 4 > head + ps) at = head + 24;
	return put(at, wild_ref(r, rd.length, get32(b, at), o.page), "page");
}
void c12()
{
	Session s = gen_session();
	uint32_t n = 1 + draw(5, "damages");
	uint32_t mode = draw(4, "kind of damage"); // 0, 1 the file; 2 contents; 3 both
	Rng r(draw(1u << 30, "damage seed"));
	string what;
	if (mode >= 2) {
		for (uint32_t i = 0; i < n; i++) what += damage_contents(r, s.kind == 2 ? s.depot.db : s.def);
		fs_remove(s.dir);
		fs_mkdir(s.dir);
		if (s.kind == 2) put_depot(s.depot, s.dir); else put_db(s.def, s.db);
	}
	if (mode != 2) {
		Bytes b = fs_read(s.db);
		RdDb rd = rd1cd(b);
		for (uint32_t i = 0; i < n; i++) what += rd.error.empty() && b.size() == (size_t)rd.length * rd.pagesize && r.pct(50) ? damage_ref(r, b, rd) : damage_file(r, b, rd);
		if (n == 1) probe("single damages");
		fs_put(s.db, b);
	}
	if (s.kind == 2 && r.pct(40)) {
		vector<string> side;
		for (auto &f : fs_walk(s.dir)) if (s.dir + "/" + f != s.db && !fs_is_dir(s.dir + "/" + f)) side.push_back(s.dir + "/" + f);
		for (uint32_t i = 0; i < n && !side.empty(); i++) {
			const string &f = side[r.below(side.size())];
			Bytes b = fs_read(f);
			damage_bytes(r, b);
			fs_put(f, b);
			what += f.substr(6) + " ";
		}
	}
	vector<string> a = { s.db }, outs;
	gen_options(a, s);
	for (uint32_t i = 0, k = 1 + draw(2, "commands"); i < k; i++) {
		Cmd c = gen_cmd(s, fmt("/sim/w/o%u", i), 0);
		a.insert(a.end(), c.args.begin(), c.args.end());
		outs.push_back(c.out);
	}
	what = join(a) + ": " + what;
	uint64_t before = fs_tree_hash(s.dir);
	S->hist.clear();
	S->disk_free = 256u << 20;
	S->op_budget = S->ops_total + 3000000;
	Result res = run_cli(a);
	need_no_crash(res, what);
	probe(res.code ? "runs reported as failed" : "runs that ended well");
	for (auto &h : S->hist) {
		bool change = (h.op == OP_WRITE || h.op == OP_TRUNC || h.op == OP_UNLINK || h.op == OP_RENAME || h.op == OP_MKDIR || h.op == OP_CREATE || h.op == OP_UTIME) && !h.err;
		if (!change) continue;
		bool ok = false;
		for (const string &p : { string(h.path.c_str()), string(h.path2.c_str()) }) {
			if (p.empty() || p == "chmod") continue;
			ok = p.compare(0, 14, "/sim/tmp/t1cd-") == 0;
			ok |= p == s.log;
			for (auto &o : outs) ok |= !o.empty() && (p == o || p.compare(0, o.size() + 1, o + "/") == 0);
			if (!ok) fail("wrong-place", what + fmt(": %s on %s", op_name[h.op], p.c_str()));
		}
	}
	if (fs_tree_hash(s.dir) != before) fail("file-changed", what + ": the database or a file beside it changed");
	check_no_escape();
	check_tmp_clean(what);
	state(mix(fs_tree_hash("/sim/w"), res.code));
}

} // namespace sim
