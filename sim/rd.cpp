// Independent reader of 1CD images: checks structure and page ownership. Shares nothing with the code under test.
#include "db.h"
#include <algorithm>
#include <cstring>
#include <set>

namespace sim {

static const uint8_t *pg(const Img &img, const RdDb &db, uint32_t n) { return img.at((uint64_t)n * db.pagesize); }

bool rd_object(const Img &img, const RdDb &db, uint32_t page, RdObj &o, string &err)
{
	o = RdObj();
	o.page = page;
	auto bad = [&](const string &m) { err = fmt("object at page %u: ", page) + m; return false; };
	if (page < 1 || page >= db.length) return bad(fmt("page outside the file of %u pages", db.length));
	Bytes h(pg(img, db, page), pg(img, db, page) + db.pagesize);
	o.pages.push_back(page);
	uint32_t ps = db.pagesize;
	vector<uint32_t> top;
	uint64_t n;
	bool fat;
	uint32_t per;
	if (db.ver == V838) {
		if (h[0] != 0x1c || h[1] != 0xfd) return bad("no signature of an object");
		uint32_t lev = get16(h, 2);
		if (lev > 1) return bad(fmt("allocation level %u", lev));
		o.len = get64(h, 16);
		n = (o.len + ps - 1) / ps;
		fat = lev;
		per = ps / 4;
		uint64_t nt = fat ? (n + per - 1) / per : n;
		if (nt > ps / 4 - 6) return bad(fmt("length %llu does not fit", (unsigned long long)o.len));
		for (uint64_t i = 0; i < nt; i++) top.push_back(get32(h, 24 + 4 * i));
	} else {
		if (memcmp(h.data(), "1CDBOBV8", 8)) return bad("no signature of an object");
		o.len = get32(h, 8);
		n = (o.len + ps - 1) / ps;
		fat = true;
		per = 1023;
		uint64_t nt = (n + per - 1) / per;
		if (nt > 1018) return bad("length does not fit");
		for (uint64_t i = 0; i < nt; i++) top.push_back(get32(h, 24 + 4 * i));
	}
	if (fat) {
		for (size_t k = 0; k < top.size(); k++) {
			if (top[k] < 3 || top[k] >= db.length) return bad(fmt("allocation page %u is outside the file", top[k]));
			o.pages.push_back(top[k]);
			Bytes f(pg(img, db, top[k]), pg(img, db, top[k]) + ps);
			uint64_t cnt = std::min<uint64_t>(per, n - k * per);
			if (db.ver != V838 && get32(f, 0) != cnt) return bad(fmt("allocation page %u counts %u pages, not %llu", top[k], get32(f, 0), (unsigned long long)cnt));
			for (uint64_t q = 0; q < cnt; q++) o.data_pages.push_back(get32(f, (db.ver == V838 ? 0 : 4) + 4 * q));
		}
	} else o.data_pages = top;
	for (uint32_t p : o.data_pages) {
		if (p < 3 || p >= db.length) return bad(fmt("data page %u is outside the file of %u pages", p, db.length));
		o.pages.push_back(p);
		if (o.len < 100000000) o.data.insert(o.data.end(), pg(img, db, p), pg(img, db, p) + ps);
	}
	if (o.len < 100000000) o.data.resize(o.len);
	return true;
}
Bytes RdObj::part(const Img &img, uint32_t ps, uint64_t at, uint64_t n) const
{
	Bytes r;
	while (n) {
		uint64_t k = std::min<uint64_t>(n, ps - at % ps);
		const uint8_t *p = img.at((uint64_t)data_pages[at / ps] * ps + at % ps);
		r.insert(r.end(), p, p + k);
		at += k; n -= k;
	}
	return r;
}
RdTable *RdDb::table(const string &n)
{
	for (auto &t : tables) if (t.name == n) return &t;
	return nullptr;
}
static bool rd_blob(const Bytes &f, uint32_t start, Bytes &out)
{
	out.clear();
	uint32_t n = f.size() / 256, steps = 0;
	while (start) {
		if (start >= n || ++steps > n) return false;
		uint32_t l = get16(f, start * 256 + 4);
		if (l > 250) return false;
		out.insert(out.end(), f.begin() + start * 256 + 6, f.begin() + start * 256 + 6 + l);
		start = get32(f, start * 256);
	}
	return true;
}
static bool table_files(const string &d, string &name, uint32_t f[3])
{
	size_t a = d.find("{\""), e = d.find("\",", a);
	if (a == string::npos || e == string::npos) return false;
	name = d.substr(a + 2, e - a - 2);
	size_t p = d.rfind("{\"Files\",");
	if (p == string::npos) return false;
	return sscanf(d.c_str() + p, "{\"Files\",%u,%u,%u}", &f[0], &f[1], &f[2]) == 3;
}
RdDb rd1cd(const Img &img)
{
	RdDb db;
	auto bad = [&](const string &m) { db.error = m; return db; };
	if (img.size() < 4096 * 3) return bad("file too short");
	if (memcmp(img.at(0), "1CDBMSV8", 8)) return bad("no file signature");
	static const uint8_t vv[6][4] = { { 8, 0, 3, 0 }, { 8, 0, 5, 0 }, { 8, 1, 0, 0 }, { 8, 2, 0, 0 }, { 8, 2, 14, 0 }, { 8, 3, 8, 0 } };
	int v = -1;
	for (int i = 0; i < 6; i++) if (!memcmp(vv[i], img.at(8), 4)) v = i;
	if (v < 0) return bad("unknown version");
	db.ver = (Ver)v;
	Bytes head(img.at(0), img.at(0) + 64);
	db.pagesize = v == V838 ? get32(head, 20) : 4096;
	if (db.pagesize < 4096 || db.pagesize > 65536 || db.pagesize & (db.pagesize - 1)) return bad("page size");
	if (img.size() % db.pagesize) return bad("the file is not a whole number of pages");
	db.length = img.size() / db.pagesize;
	if (get32(head, 12) != db.length) return bad(fmt("the header counts %u pages, the file has %u", get32(head, 12), db.length));
	vector<string> owner(db.length);
	string err;
	auto own = [&](const RdObj &o, const string &who) {
		for (uint32_t p : o.pages) {
			if (!owner[p].empty()) { if (err.empty()) err = fmt("page %u belongs to both %s and %s", p, owner[p].c_str(), who.c_str()); }
			owner[p] = who;
		}
	};
	owner[0] = "the file header";
	// free pages
	Bytes h(pg(img, db, 1), pg(img, db, 1) + db.pagesize);
	uint32_t cnt, per = db.pagesize / 4;
	size_t at;
	db.free_obj.page = 1;
	db.free_obj.pages.push_back(1);
	if (db.ver == V838) {
		if (h[0] != 0x1c || h[1] != 0xff) return bad("page 1 is not the list of free pages");
		cnt = get32(h, 4); at = 12;
	} else {
		if (memcmp(h.data(), "1CDBOBV8", 8)) return bad("page 1 is not the list of free pages");
		cnt = get32(h, 8); at = 24;
	}
	vector<uint32_t> lists;
	for (; at + 4 <= db.pagesize && get32(h, at); at += 4) {
		uint32_t p = get32(h, at);
		if (p < 3 || p >= db.length) return bad(fmt("page %u of the list of free pages is outside the file", p));
		lists.push_back(p);
		db.free_obj.pages.push_back(p);
	}
	own(db.free_obj, "the list of free pages");
	if (cnt > lists.size() * (uint64_t)per) return bad(fmt("%u free pages do not fit into %zu list pages", cnt, lists.size()));
	for (uint32_t i = 0; i < cnt; i++) {
		Bytes q(pg(img, db, lists[i / per]) + 4 * (i % per), pg(img, db, lists[i / per]) + 4 * (i % per) + 4);
		uint32_t p = get32(q, 0);
		if (p < 3 || p >= db.length) return bad(fmt("free page %u is outside the file", p));
		if (!owner[p].empty()) { if (err.empty()) err = fmt("free page %u belongs to %s", p, owner[p].c_str()); }
		owner[p] = "the free pages";
		db.free.push_back(p);
	}
	if (!rd_object(img, db, 2, db.root, db.error)) return db;
	own(db.root, "the root object");
	const Bytes &r = db.root.data;
	vector<uint32_t> blocks;
	if (db.ver == V838) {
		Bytes rec;
		if (!rd_blob(r, 1, rec) || rec.size() < 36) return bad("root record");
		uint32_t n = get32(rec, 32);
		if (rec.size() < 36 + 4ull * n) return bad("root record too short");
		for (uint32_t i = 0; i < n; i++) blocks.push_back(get32(rec, 36 + 4 * i));
	} else {
		size_t o = db.ver <= V805 ? 8 : 32;
		if (r.size() < o + 4) return bad("root object too short");
		uint32_t n = get32(r, o);
		if (r.size() < o + 4 + 4ull * n) return bad("root object too short");
		for (uint32_t i = 0; i < n; i++) blocks.push_back(get32(r, o + 4 + 4 * i));
	}
	for (uint32_t b : blocks) {
		RdTable t;
		t.block = b;
		if (db.ver == V838) {
			Bytes d;
			if (!rd_blob(r, b, d)) return bad("table description");
			t.descr = Str(d);
		} else {
			if (!rd_object(img, db, b, t.o_descr, db.error)) return db;
			t.descr = utf8(t.o_descr.data);
		}
		if (!table_files(t.descr, t.name, t.f)) return bad("table description does not name its files");
		if (db.ver != V838) own(t.o_descr, "the description of " + t.name);
		static const char *const fn[3] = { "the records of ", "the blobs of ", "the indexes of " };
		for (int i = 0; i < 3; i++) if (t.f[i]) {
			if (!rd_object(img, db, t.f[i], t.o[i], db.error)) { db.error = fn[i] + t.name + ": " + db.error; return db; }
			own(t.o[i], fn[i] + t.name);
		}
		db.tables.push_back(t);
	}
	db.error = err;
	for (uint32_t i = 0; i < db.length; i++) if (owner[i].empty()) db.lost.push_back(i);
	return db;
}

} // namespace sim
