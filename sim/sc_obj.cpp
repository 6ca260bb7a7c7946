// C01, C04, C05: internal files through the library's own interface.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include "Class_1CD.h"
#include "Table.h"
#include "V8Object.h"
#include "TableRecord.h"

using System::Classes::TMemoryStream;

namespace sim {

static void must_end(const Result &r, const string &what)
{
	need_no_crash(r, what);
	if (r.code) harness_error(what + fmt(": unexpected status %d", r.code));
}
// the library's exceptions are of several types
template <class F> static bool throws(F f, string *text = nullptr)
{
	try { f(); return false; }
	catch (std::exception &e) { if (text) *text = e.what(); }
	catch (...) { if (text) *text = "an exception"; }
	return true;
}
// page numbers at which an object's allocation gets another list of pages or another level
static vector<uint64_t> joints(uint32_t ps) { return { 1023, 2046, ps / 4 - 6, ps / 4, ps / 2, (1ull << 31) / ps, (1ull << 32) / ps }; }

static uint64_t pick_off(uint64_t len, uint32_t ps, const char *l)
{
	uint64_t p;
	vector<uint64_t> js;
	for (uint64_t j : joints(ps)) if (j * ps <= len + ps) js.push_back(j);
	switch (pick_weighted({ 3, 3, 2, 2, js.empty() ? 0u : 8u }, l)) {
	case 0: p = 0; break;
	case 1: p = (uint64_t)draw(std::min<uint64_t>(len / ps + 1, 5000), "page") * ps + draw(5, "around") - 2; break;
	case 2: p = draw((uint32_t)std::min<uint64_t>(len + 1, 0x7fffffff), "offset"); break;
	case 3: p = len - std::min<uint64_t>(len, draw(300, "from the end")); break;
	default:
		p = js[draw(js.size(), "joint")] * ps;
		p = draw(3, "side") ? p - std::min<uint64_t>(p, draw(2 * ps, "before")) : p + draw(2, "pages after") * ps + draw(5, "around") - 2;
	}
	return p > len ? (int64_t)p < 0 ? 0 : len : p;
}
static uint64_t pick_n(uint64_t max, uint32_t ps, const char *l)
{
	uint64_t n;
	switch (pick_weighted({ 3, 2, 2, 2, 1 }, l)) {
	case 0: n = max; break;
	case 1: n = draw(20, "few"); break;
	case 2: n = ps * (uint64_t)draw(4, "pages") + draw(5, "around"); n = n < 2 ? 0 : n - 2; break;
	case 3: n = draw(3 * ps, "bytes"); break;
	default: n = max ? max - 1 : 0;
	}
	return std::min(n, max);
}

// ---------------------------------------------------------------- C01
struct ObjRef { string what; V8Object *o; const RdObj *want; };

static int c01_body(const DbDef &db, const RdDb &rd, const Img &img, bool monopoly)
{
	std::unique_ptr<T_1CD> base;
	string why;
	if (throws([&] { base.reset(new T_1CD("/sim/w/a.1cd", nullptr, monopoly)); }, &why)) fail("open-failed", "a well-formed database was not opened: " + why);
	if (!base->is_open()) fail("open-failed", "a well-formed database is not open");
	if (base->get_pagesize() != db.pagesize) fail("wrong-bytes", "page size");
	if (base->get_numtables() != (int)rd.tables.size()) fail("missing-table", fmt("%d tables of %zu", base->get_numtables(), rd.tables.size()));
	vector<ObjRef> objs;
	static const char *const fn[3] = { "data of ", "blob of ", "index of " };
	vector<Table *> tabs;
	for (size_t i = 0; i < rd.tables.size(); i++) {
		Table *t = base->get_table(i);
		const RdTable &rt = rd.tables[i];
		if (t->get_name() != rt.name) fail("missing-table", "table " + rt.name + " is called " + t->get_name());
		tabs.push_back(t);
		V8Object *o[3] = { t->get_file_data(), t->get_file_blob(), t->get_file_index() };
		for (int k = 0; k < 3; k++) {
			if (!o[k] != !rt.f[k]) fail("missing-object", fn[k] + rt.name);
			if (o[k]) objs.push_back({ fn[k] + rt.name, o[k], &rt.o[k] });
		}
		if (t->get_descriptor_table()) objs.push_back({ "description of " + rt.name, t->get_descriptor_table(), &rt.o_descr });
	}
	for (auto &o : objs) if (o.o->get_len() != o.want->len) fail("wrong-length", o.what + fmt(": %llu, stored %llu", (unsigned long long)o.o->get_len(), (unsigned long long)o.want->len));
	const uint32_t ps = db.pagesize;
	uint32_t nops = 3 + draw(60, "operations");
	for (uint32_t n = 0; n < nops; n++) {
		ObjRef &q = objs[draw(objs.size(), "object")];
		uint64_t len = q.want->len;
		bool big = len && q.want->data.empty();
		if (big) probe("accesses to long objects");
		auto differ = [&](const string &how, const char *got, const uint8_t *want, size_t k) {
			if (k && memcmp(got, want, k)) fail("wrong-bytes", q.what + ", " + how + ": " + diff_bytes(Bytes(got, got + k), Bytes(want, want + k)));
		};
		string err;
		switch (pick_weighted({ 4, 8, 3, 3, 4, 3, 2, 2, 2, 1, 1 }, "operation")) {
		case 0: { // whole
			if (big) break;
			char *p = nullptr;
			if (throws([&] { p = q.o->get_data(); }, &err)) fail("refused-read", q.what + " whole: " + err);
			if (!p && len) fail("wrong-bytes", q.what + ": no data");
			if (p) differ("whole", p, q.want->data.data(), len);
			probe("whole reads");
			break;
		}
		case 1: { // a part
			uint64_t at = pick_off(len, ps, "read at"), k = pick_n(big ? std::min<uint64_t>(len - at, 400000) : len - at, ps, "read length");
			std::unique_ptr<char[]> b(new char[k ? k : 1]);
			memset(b.get(), 0x5a, k ? k : 1);
			if (throws([&] { q.o->get_data(b.get(), at, k); }, &err)) fail("refused-read", q.what + fmt(" %llu bytes at %llu: ", (unsigned long long)k, (unsigned long long)at) + err);
			differ(fmt("%llu bytes at %llu", (unsigned long long)k, (unsigned long long)at), b.get(), q.want->part(img, ps, at, k).data(), k);
			probe("partial reads");
			break;
		}
		case 2: { // outside
			static const uint64_t far[] = { 1, 4096, 1ull << 32, 0xffffffffffffffffull, 0x8000000000000000ull };
			uint64_t at = pick_off(len, ps, "read at"), k = len - at + far[draw(3, "too far")];
			if (draw(3, "from outside") == 2) { at = far[draw(5, "how far")]; if (at <= len) at += len; k = draw(3, "length") + 1; if (draw(3, "wrap") == 2) k = 0 - at + draw(2, "wrapped"); if (!k) k = 1; }
			if (at <= len && k <= len - at) break;
			size_t cap = 65536 * 2;
			std::unique_ptr<char[]> b(new char[cap]);
			memset(b.get(), 0x5a, cap);
			if (!throws([&] { q.o->get_data(b.get(), at, k); })) fail("outside-read", q.what + fmt(" of %llu bytes: %llu bytes at %llu were not refused", (unsigned long long)len, (unsigned long long)k, (unsigned long long)at));
			for (size_t i = 0; i < cap; i++) if (b[i] != 0x5a) fail("outside-read", q.what + ": a refused read returned bytes");
			probe("refused reads");
			break;
		}
		case 3: { // physical place
			if (!len) break;
			uint64_t at = std::min(pick_off(len, ps, "read at"), len - 1), f = 0;
			if (throws([&] { f = q.o->get_fileoffset(at); }, &err)) fail("refused-read", q.what + " place: " + err);
			if (f != (uint64_t)q.want->data_pages[at / ps] * ps + at % ps) fail("wrong-place", q.what + fmt(" byte %llu is at %llu of the file, not %llu", (unsigned long long)at, (unsigned long long)((uint64_t)q.want->data_pages[at / ps] * ps + at % ps), (unsigned long long)f));
			break;
		}
		case 4: { // a blob value
			size_t ti = draw(db.tables.size(), "blob table");
			const TableDef &t = db.tables[ti];
			vector<size_t> bf;
			for (size_t k = 0; k < t.fields.size(); k++) if (t.fields[k].blob()) bf.push_back(k);
			if (bf.empty() || t.recs.empty()) break;
			size_t ri = draw(t.recs.size(), "record"), bi = draw(bf.size(), "blob field");
			const Cell &c = t.recs[ri].cells[bf[bi]];
			uint32_t st = t.start[ri * bf.size() + bi], ln = t.length[ri * bf.size() + bi];
			if (t.recs[ri].removed || c.null || !st) break;
			string what = fmt("value %s of record %zu of %s", t.fields[bf[bi]].name.c_str(), ri, t.name.c_str());
			auto cmp = [&](const Bytes &got, const Bytes &want, const char *how) { if (got != want) fail("wrong-bytes", what + how + diff_bytes(got, want)); };
			Bytes want = c.blob;
			switch (draw(4, "blob read")) {
			case 0: {
				std::unique_ptr<char[]> b(new char[ln + 1]);
				uint32_t got = 0;
				if (throws([&] { got = tabs[ti]->readBlob(b.get(), st, ln); }, &err)) fail("refused-read", what + ": " + err);
				cmp(Bytes(b.get(), b.get() + got), want, " into memory: ");
				break;
			}
			case 1: {
				TMemoryStream s;
				if (draw(2, "old contents")) s.Write("rubbish", 7);
				if (throws([&] { tabs[ti]->readBlob(&s, st, ln); }, &err)) fail("refused-read", what + ": " + err);
				cmp(s.GetBytes(), want, " into a stream: ");
				break;
			}
			case 2: {
				TMemoryStream s;
				s.Write("before", 6);
				if (throws([&] { tabs[ti]->readBlob(&s, st, ln, false); }, &err)) fail("refused-read", what + ": " + err);
				Bytes w = B("before");
				append(w, want);
				cmp(s.GetBytes(), w, " after other data: ");
				break;
			}
			default: {
				TMemoryStream s;
				if (throws([&] { if (draw(2, "with length")) tabs[ti]->get_file_blob()->readBlob(&s, st, ln); else tabs[ti]->get_file_blob()->readBlob(&s, st); }, &err)) fail("refused-read", what + ": " + err);
				cmp(s.GetBytes(), want, " from the blob file: ");
			}
			}
			probe("blob reads");
			break;
		}
		case 5: { // a record
			size_t ti = draw(db.tables.size(), "record table");
			const TableDef &t = db.tables[ti];
			if (tabs[ti]->get_recordlen() != (int)t.reclen) fail("wrong-length", fmt("records of %s are %u bytes long, not %d", t.name.c_str(), t.reclen, tabs[ti]->get_recordlen()));
			if (tabs[ti]->get_phys_numrecords() != t.phys(t.recs.size())) fail("wrong-length", fmt("%s has %u records, not %u", t.name.c_str(), t.phys(t.recs.size()), tabs[ti]->get_phys_numrecords()));
			uint32_t ri = draw(t.recs.size() + 2, "record"), rn = t.phys(ri);
			std::unique_ptr<char[]> b(new char[t.reclen]);
			memset(b.get(), 0x5a, t.reclen);
			bool bad = throws([&] {
				if (draw(2, "how")) tabs[ti]->get_record(rn, b.get());
				else { std::unique_ptr<TableRecord> r(tabs[ti]->get_record(rn)); memcpy(b.get(), r->get_raw(tabs[ti]->get_field(0)) - tabs[ti]->get_field(0)->get_offset(), t.reclen); }
			}, &err);
			if (ri < t.recs.size()) {
				if (bad) fail("refused-read", fmt("record %u of %s: ", ri, t.name.c_str()) + err);
				Bytes w(t.data_bytes.begin() + (size_t)ri * t.reclen, t.data_bytes.begin() + (size_t)(ri + 1) * t.reclen);
				if (memcmp(b.get(), w.data(), t.reclen)) fail("wrong-bytes", fmt("record %u of %s: ", ri, t.name.c_str()) + diff_bytes(Bytes(b.get(), b.get() + t.reclen), w));
				for (auto &x : objs) if (x.o == tabs[ti]->get_file_data()) {
					uint64_t at = (uint64_t)rn * t.reclen, place = (uint64_t)x.want->data_pages[at / ps] * ps + at % ps, f = 0;
					if (throws([&] { f = tabs[ti]->get_file_offset(rn); }, &err)) fail("refused-read", fmt("place of record %u of %s: ", ri, t.name.c_str()) + err);
					if (f != place) fail("wrong-place", fmt("record %u of %s (byte %llu of its data) is at %llu of the file, not %llu", ri, t.name.c_str(), (unsigned long long)at, (unsigned long long)place, (unsigned long long)f));
				}
			} else {
				if (!bad) fail("outside-read", fmt("record %u of %zu of %s was not refused", ri, t.recs.size(), t.name.c_str()));
				for (uint32_t i = 0; i < t.reclen; i++) if (b[i] != 0x5a) fail("outside-read", "a refused record returned bytes");
			}
			probe("records read");
			break;
		}
		case 6: V8Object::garbage(); probe("object caches aged"); break;
		case 7: { static const int64_t jump[] = { 1000, 59000, 61000, 240000, 3600000, 86400000, 50ll * 86400000 }; S->now_ns += jump[draw(7, "clock jump")] * 1000000; S->faults_fired[4]++; break; }
		case 8: const_cast<MemBlockManager &>(base->getMemBlockManager()).garbage(draw(2, "aggressive")); probe("page caches aged"); break;
		case 9: q.o->set_lockinmemory(draw(2, "lock")); break;
		default: {
			if (big) break;
			if (throws([&] { q.o->savetofile("/sim/w/obj"); }, &err)) fail("refused-read", q.what + " saved: " + err);
			Bytes got = fs_read("/sim/w/obj");
			if (got != q.want->data) fail("wrong-bytes", q.what + " saved: " + diff_bytes(got, q.want->data));
			fs_remove("/sim/w/obj");
			Bytes page(ps);
			uint32_t p = draw(db.pages, "page");
			if (throws([&] { base->get_block(page.data(), p); }, &err)) fail("refused-read", fmt("page %u: ", p) + err);
			if (memcmp(page.data(), img.at((uint64_t)p * ps), ps)) fail("wrong-bytes", fmt("page %u", p));
			if (!throws([&] { base->get_block(page.data(), db.pages + draw(3, "beyond")); })) fail("outside-read", "a page beyond the file was not refused");
		}
		}
	}
	// everything once more, whatever is cached now
	for (auto &q : objs) {
		const Bytes &w = q.want->data;
		state(mix(hash64(w), q.want->data_pages.empty() ? 0 : q.want->data_pages[0]));
		if (q.want->len && w.empty()) continue;
		char *p = q.o->get_data();
		if (w.size() && (!p || memcmp(p, w.data(), w.size()))) fail("wrong-bytes", q.what + " at the end: " + (p ? diff_bytes(Bytes(p, p + w.size()), w) : string("no data")));
	}
	return 0;
}

// a database with an object long enough for another list of pages, or a second allocation level
static void lengthen(DbDef &db)
{
	if (draw(8, "long object") != 7) return;
	if (db.pagesize > 8192 || (db.pagesize == 8192 && draw(4, "long with longer pages"))) return;
	TableDef *b = nullptr;
	for (auto &t : db.tables) if (t.has_blob() && !t.recs.empty()) b = &t;
	if (!b) return;
	vector<uint64_t> js = joints(db.pagesize);
	js.resize(5); // the others are for stretched files
	uint64_t pages = js[draw(js.size(), "joint")] + draw(4, "pages around") - 1, chunks = 1; // of 256 bytes, the first is the list of free ones
	for (auto &r : b->recs) for (auto &c : r.cells) chunks += (c.blob.size() + 249) / 250;
	uint64_t want = pages * db.pagesize / 256 - draw(2, "short of the page") * draw(16, "chunks short");
	if (want <= chunks) return;
	for (size_t i = 0; i < b->recs.size(); i++) if (!b->recs[i].removed)
		for (size_t k = 0; k < b->fields.size(); k++) if (b->fields[k].type == "I") {
			Rng r(i + 5);
			Cell &c = b->recs[i].cells[k];
			chunks -= (c.blob.size() + 249) / 250;
			c = blob_cell(r.bytes((want - chunks) * 250 - draw(2, "long odd") * draw(250, "odd")));
			probe("long objects");
			return;
		}
}

void c01()
{
	gen_env();
	DbDef db = gen_db(2, -1, true);
	lengthen(db);
	stretch(db);
	put_db(db, "/sim/w/a.1cd");
	Img img = fs_img("/sim/w/a.1cd");
	RdDb rd = rd1cd(img);
	if (!rd.error.empty()) harness_error("drawn database: " + rd.error);
	bool monopoly = draw(2, "exclusive");
	vector<FaultRule> f;
	// short transfers are no failures: a read may return less and must be continued
	if (draw(3, "short reads") == 2) {
		FaultRule r;
		r.kind = FaultRule::SHORT; r.ops = 1 << OP_READ; r.at = draw(40, "short from"); r.count = 1 + draw(30, "short count"); r.arg = draw(1000, "short part");
		f.push_back(r);
	}
	Result r = run_instance([&] { return c01_body(db, rd, img, monopoly); }, f);
	must_end(r, "reading");
	Img after = fs_img("/sim/w/a.1cd");
	if (after != img) fail("file-changed", "reading changed the database file: " + after.differs(img));
}

// ---------------------------------------------------------------- C04, C05
struct Model { Bytes b, known; uint32_t block = 0; string what; int kind = 0; size_t unit = 1; bool dead = false; size_t table = 0; };

static void put_model(const vector<Model> &ms)
{
	Bytes o;
	put32(o, ms.size());
	for (auto &m : ms) {
		put32(o, m.b.size()); put32(o, m.block); put32(o, m.kind); put32(o, m.unit); put32(o, m.dead); put32(o, m.table); put32(o, m.what.size());
		append(o, m.what); append(o, m.b);
		append(o, m.known);
	}
	fs_put("/sim/model", o);
}
static vector<Model> get_model()
{
	Bytes o = fs_read("/sim/model");
	size_t p = 0;
	auto g = [&] { uint32_t v = get32(o, p); p += 4; return v; };
	vector<Model> ms(g());
	for (auto &m : ms) {
		size_t n = g();
		m.block = g(); m.kind = g(); m.unit = g(); m.dead = g(); m.table = g();
		size_t w = g();
		m.what.assign(o.begin() + p, o.begin() + p + w); p += w;
		m.b.assign(o.begin() + p, o.begin() + p + n); p += n;
		m.known.assign(o.begin() + p, o.begin() + p + n); p += n;
	}
	return ms;
}
enum { CONTENTS = 1, STRUCTURE = 2 };

static void compare(const Model &m, const char *got, uint64_t at, uint64_t n, const string &how)
{
	if (!n || !memcmp(got, m.b.data() + at, n)) return;
	for (uint64_t i = 0; i < n; i++) if (m.known[at + i] && (uint8_t)got[i] != m.b[at + i])
		fail("wrong-bytes", m.what + ", " + how + fmt(": byte %llu is %02x, last written as %02x (length %zu)", (unsigned long long)(at + i), (uint8_t)got[i], m.b[at + i], m.b.size()));
}

// one session over the file; returns after flushing and possibly unflushed changes
static int edit_session(const DbDef &db, int checks, bool readonly, int leave, bool deep)
{
	vector<Model> ms = get_model();
	vector<Model> flushed = ms;
	std::unique_ptr<T_1CD> base;
	string err;
	if (throws([&] { base.reset(new T_1CD("/sim/w/a.1cd", nullptr, !readonly)); }, &err)) fail("open-failed", "the database was not opened: " + err);
	if (readonly || db.ver <= V805) { if (!base->get_readonly()) fail("not-readonly", "the database is not opened read-only"); readonly = true; }
	else if (base->get_readonly()) fail("not-writable", "the database is opened read-only");
	vector<V8Object *> os;
	for (auto &m : ms) {
		V8Object *o = nullptr;
		if (!m.dead) {
			Table *t = m.kind == 2 ? nullptr : base->get_table(m.table);
			if (m.kind == 0) o = t->get_file_data();
			else if (m.kind == 1) o = t->get_file_blob();
			else if (throws([&] { o = new V8Object(base.get(), m.block); }, &err)) fail(checks & CONTENTS ? "wrong-length" : "open-failed", m.what + " cannot be opened: " + err);
			if (o->get_len() != m.b.size() && (checks & CONTENTS)) fail("wrong-length", m.what + fmt(" after opening: %llu, written %zu", (unsigned long long)o->get_len(), m.b.size()));
		}
		os.push_back(o);
	}
	auto whole = [&](size_t i, const string &how) {
		if (!(checks & CONTENTS) || ms[i].dead) return;
		Model &m = ms[i];
		if (os[i]->get_len() != m.b.size()) fail("wrong-length", m.what + ", " + how + fmt(": %llu, written %zu", (unsigned long long)os[i]->get_len(), m.b.size()));
		char *p = nullptr;
		if (throws([&] { p = os[i]->get_data(); }, &err)) fail("refused-read", m.what + ", " + how + ": " + err);
		if (m.b.size() && !p) fail("wrong-bytes", m.what + ", " + how + ": no data");
		if (p) compare(m, p, 0, m.b.size(), how);
	};
	for (size_t i = 0; i < ms.size(); i++) if (draw(2, "look after opening")) whole(i, "after opening");
	const uint32_t ps = db.pagesize;
	const vector<uint64_t> levels = db.ver == V838 ? vector<uint64_t>{ ps / 4 - 6ull, ps / 4ull } : vector<uint64_t>{ 1023, 2046 }; // where the allocation gets deeper
	Rng rng(draw(1u << 30, "bytes"));
	uint32_t nops = 1 + draw(deep ? 10 : 25, "operations");
	bool dirty = false;
	for (uint32_t n = 0; n < nops; n++) {
		size_t i = deep && draw(4, "the deep one") ? 0 : draw(ms.size() + 1, "object");
		if (i == ms.size()) {
			if (readonly) {
				if (!throws([&] { V8Object x(base.get()); })) fail("readonly-write", "an object was created in a database opened read-only");
				continue;
			}
			if (ms.size() > 12) continue;
			Model m;
			V8Object *o = nullptr;
			if (throws([&] { o = new V8Object(base.get()); }, &err)) fail("refused-write", "a new object: " + err);
			m.kind = 2;
			m.block = o->get_block_number();
			m.what = fmt("object %zu (page %u)", ms.size(), m.block);
			if (o->get_len()) fail("wrong-length", "a new object is not empty");
			ms.push_back(m);
			os.push_back(o);
			dirty = true;
			continue;
		}
		Model &m = ms[i];
		V8Object *o = os[i];
		if (m.dead) continue;
		uint64_t len = m.b.size();
		uint64_t max = len + (len > 12000000 ? 0 : 3ull * ps + 10);
		uint64_t sum = 0;
		for (auto &x : ms) sum += x.b.size();
		auto new_len = [&](const char *l) -> uint64_t {
			uint64_t v;
			if (sum > 16000000) return draw(len / m.unit + 1, l) * m.unit;
			switch (pick_weighted({ 5, 3, 2, 2, 1, deep ? 12 : 0 }, l)) {
			case 5: v = (levels[draw(levels.size(), "joint")] + (draw(2, "at the joint") ? 3 : draw(6, "pages around")) - 3) * ps + draw(5, "bytes around") - 2; break;
			case 0: v = draw(4 * ps, "length"); break;
			case 1: v = (uint64_t)draw(6, "length in pages") * ps + draw(3, "around") - 1; if ((int64_t)v < 0) v = 0; break;
			case 2: v = len / 2; break;
			case 3: v = 0; break;
			default: v = ps <= 8192 && draw(2, "deep") ? (levels[draw(levels.size(), "joint")] + draw(3, "beyond")) * ps - draw(3, "before") : len + 40ull * ps; if (v > 9000000) v = 40 * ps; break;
			}
			return v / m.unit * m.unit;
		};
		auto write = [&](uint64_t at, const Bytes &d) {
			if (at + d.size() > m.b.size()) { m.b.resize(at + d.size()); m.known.resize(at + d.size()); }
			std::copy(d.begin(), d.end(), m.b.begin() + at);
			std::fill(m.known.begin() + at, m.known.begin() + at + d.size(), true);
		};
		string how;
		bool threw = false, did = true;
		switch (pick_weighted({ 4, 4, 2, 3, 4, 5, 3, 2, 1, 2 }, "operation")) {
		case 0: case 2: { // whole
			Bytes d = rng.bytes(new_len("whole length"));
			how = fmt("written whole (%zu bytes)", d.size());
			if (draw(2, "stream")) { TMemoryStream s; s.Write(d.data(), d.size()); if (draw(2, "position")) s.Seek(0, System::Classes::soFromBeginning); threw = throws([&] { o->set_data(&s); }, &err); how += " from a stream"; }
			else threw = throws([&] { o->set_data(d.data(), d.size()); }, &err);
			if (!threw) { m.b.clear(); m.known.clear(); write(0, d); }
			break;
		}
		case 1: case 3: { // part
			uint64_t at = draw(8, "gap") == 7 ? std::min(std::max(max, len), len + draw(2 * ps, "gap length")) : pick_off(len, ps, "write at");
			uint64_t k = pick_n(draw(3, "grow") ? std::max<uint64_t>(len, at) - at : max, ps, "write length");
			if (m.unit > 1) { at = std::min(at, len); k = std::min(k, len - at); }
			if (k > 3000000) k = 3000000;
			Bytes d = rng.bytes(k);
			how = fmt("%zu bytes written at %llu", d.size(), (unsigned long long)at);
			if (draw(3, "stream") == 2) { TMemoryStream s; s.Write(d.data(), d.size()); s.Write("surplus", 7); s.Seek(0, System::Classes::soFromBeginning); threw = throws([&] { o->set_data(&s, at, d.size()); }, &err); how += " from a stream"; }
			else threw = throws([&] { o->set_data(d.data(), at, d.size()); }, &err);
			if (!threw) write(at, d);
			break;
		}
		case 4: { // length
			uint64_t v = new_len("new length");
			how = fmt("length set to %llu", (unsigned long long)v);
			if (readonly && v == len) { did = false; break; }
			threw = throws([&] { o->set_len(v); }, &err);
			if (!threw) { m.b.resize(v); m.known.resize(v, false); }
			break;
		}
		case 5: { // read
			did = false;
			if (!(checks & CONTENTS)) break;
			uint64_t at = pick_off(len, ps, "read at"), k = pick_n(len - at, ps, "read length");
			std::unique_ptr<char[]> b(new char[k ? k : 1]);
			if (throws([&] { o->get_data(b.get(), at, k); }, &err)) fail("refused-read", m.what + ": " + err);
			compare(m, b.get(), at, k, "read in parts");
			if (!throws([&] { o->get_data(b.get(), len + 1 - std::min<uint64_t>(k, len), std::min<uint64_t>(k, len) ? std::min<uint64_t>(k, len) : 1); })) fail("outside-read", m.what + ": a read beyond the end was not refused");
			break;
		}
		case 6: did = false; whole(i, "read whole"); break;
		case 7: did = false; V8Object::garbage(); S->now_ns += 120ll * 1000000000; break;
		case 8:
			if (m.kind != 2 || readonly) { did = false; break; }
			how = "deleted";
			threw = throws([&] { base->delete_object(o); }, &err);
			if (!threw) { m.dead = true; os[i] = nullptr; m.b.clear(); m.known.clear(); }
			probe("objects deleted");
			break;
		case 9:
			did = false;
			if (readonly || !draw(2, "flush")) break;
			if (throws([&] { base->flush(); }, &err)) fail("refused-write", "flush: " + err);
			flushed = ms;
			dirty = false;
			put_model(flushed);
			probe("flushes");
			break;
		}
		if (did) {
			trace("%s: %s%s", m.what.c_str(), how.c_str(), threw ? " - refused" : "");
			if (readonly && !threw) fail("readonly-write", m.what + ": " + how + " in a database opened read-only was not refused");
			if (!readonly && threw) fail("refused-write", m.what + ": " + how + ": " + err);
			if (!readonly) { dirty = true; probe("edits"); } else probe("refused edits");
			if (m.dead) continue;
			if ((checks & CONTENTS) && o->get_len() != m.b.size()) fail("wrong-length", m.what + " " + how + fmt(": length %llu, must be %zu", (unsigned long long)o->get_len(), m.b.size()));
			if (draw(3, "look") == 2) whole(i, how);
		}
	}
	for (size_t i = 0; i < ms.size(); i++) if (draw(2, "look at the end")) whole(i, "at the end of the session");
	if (!readonly && (leave != 2 || !dirty)) {
		if (throws([&] { base->flush(); }, &err)) fail("refused-write", "flush: " + err);
		put_model(ms);
		probe("flushes");
	} else probe(readonly ? "sessions read-only" : "sessions left without flush");
	if (leave == 0) { // an orderly end
		for (size_t i = 0; i < ms.size(); i++) if (ms[i].kind == 2 && os[i]) delete os[i];
		base.reset();
	} else { // the process is killed
		base.release();
		S->inst[S->cur].clean_exit = true;
	}
	return 0;
}

static void check_structure(const DbDef &db, const vector<Model> &ms, const RdDb &before, const string &when)
{
	Img img = fs_img("/sim/w/a.1cd");
	if (img.size() % db.pagesize) fail("broken-structure", when + ": the file's length is no multiple of the page size");
	RdDb rd = rd1cd(img);
	if (rd.length != img.size() / db.pagesize) fail("broken-structure", when + fmt(": the header counts %u pages, the file has %llu", rd.length, (unsigned long long)(img.size() / db.pagesize)));
	if (!rd.error.empty()) fail("broken-structure", when + ": " + rd.error);
	if (rd.tables.size() != before.tables.size()) fail("broken-structure", when + ": tables got lost");
	std::set<uint32_t> lost(rd.lost.begin(), rd.lost.end()), was(before.lost.begin(), before.lost.end());
	for (auto &m : ms) if (m.kind == 2 && !m.dead) {
		RdObj o;
		string err;
		if (!rd_object(img, rd, m.block, o, err)) fail("broken-structure", when + ": " + m.what + ": " + err);
		for (uint32_t p : o.pages) if (!lost.erase(p)) fail("broken-structure", when + fmt(": page %u belongs to %s and to something else", p, m.what.c_str()));
	}
	for (uint32_t p : was) if (p < rd.length && !lost.erase(p)) fail("broken-structure", when + fmt(": page %u, which belongs to no object of the tables, was taken", p));
	if (db.ver != V838) for (uint32_t p : lost) fail("lost-page", when + fmt(": page %u is neither owned nor free", p));
	// what was not edited is as it was
	for (size_t i = 0; i < rd.tables.size(); i++) for (int k = 0; k < 4; k++) {
		bool edited = false;
		for (auto &m : ms) if (m.kind == k && m.table == i) edited = true;
		const RdObj &a = k < 3 ? rd.tables[i].o[k] : rd.tables[i].o_descr, &b = k < 3 ? before.tables[i].o[k] : before.tables[i].o_descr;
		if (!edited && a.data != b.data) fail("other-changed", when + fmt(": object %d of table %s, which was not edited: ", k, rd.tables[i].name.c_str()) + diff_bytes(a.data, b.data));
	}
	state(mix(hash64(img.data), ms.size()));
	probe("structures checked");
}

static void edit_world(int checks)
{
	gen_env();
	static const int writable[] = { V8214, V838, V820, V810 };
	bool deep = draw(5, "deep objects") == 4; // lengths at which the allocation gets deeper
	DbDef db = gen_db(1, deep ? writable[draw(2, "deep version")] : checks & CONTENTS ? -1 : writable[draw(4, "writable version")]);
	if (deep) { db.pagesize = 4096; probe("deep sessions"); }
	else widen(db, checks & STRUCTURE ? 70000 : 1 << 21);
	put_db(db, "/sim/w/a.1cd");
	Img img = fs_img("/sim/w/a.1cd");
	RdDb rd = rd1cd(img);
	if (!rd.error.empty()) harness_error("drawn database: " + rd.error);
	vector<Model> ms;
	for (size_t i = 0; i < rd.tables.size() && ms.size() < 6; i++) for (int k = 0; k < 2; k++) if (rd.tables[i].f[k] && draw(2, "edited")) {
		Model m;
		m.kind = k;
		m.table = i;
		m.what = (k ? "blob of " : "data of ") + rd.tables[i].name;
		m.b = rd.tables[i].o[k].data;
		m.known.assign(m.b.size(), true);
		m.block = rd.tables[i].f[k];
		m.unit = k ? 1 : db.tables[i].reclen;
		ms.push_back(m);
	}
	put_model(ms);
	uint32_t sessions = 1 + draw(3, "sessions");
	for (uint32_t s = 0; s < sessions; s++) {
		bool readonly = (checks & CONTENTS) && draw(8, "not exclusive") == 7;
		Img before = fs_img("/sim/w/a.1cd");
		int leave = draw(3, "end of session");
		Result r = run_instance([&] { return edit_session(db, checks, readonly, leave, deep); });
		must_end(r, "editing");
		if (readonly || db.ver <= V805) {
			Img after = fs_img("/sim/w/a.1cd");
			if (after != before) fail("readonly-write", "a database opened read-only was changed: " + after.differs(before));
		}
		vector<Model> now = get_model();
		if (checks & STRUCTURE) check_structure(db, now, rd, fmt("after session %u", s + 1));
		if (checks & CONTENTS) {
			// what the file holds for an independent reader
			Img im = fs_img("/sim/w/a.1cd");
			RdDb q = rd1cd(im);
			if (q.length * (uint64_t)q.pagesize == im.size()) for (auto &m : now) if (!m.dead) {
				RdObj o;
				string err;
				if (!rd_object(im, q, m.block, o, err)) fail("wrong-bytes", m.what + " in the file: " + err);
				if (o.data.size() != m.b.size()) fail("wrong-length", m.what + fmt(" in the file: %zu, written %zu", o.data.size(), m.b.size()));
				compare(m, (char *)o.data.data(), 0, o.data.size(), "in the file");
				state(mix(hash64(o.data), o.pages.size()));
			}
		}
	}
	if (checks & CONTENTS) {
		Result r = run_instance([&] {
			vector<Model> m = get_model();
			std::unique_ptr<T_1CD> base;
			string err;
			if (throws([&] { base.reset(new T_1CD("/sim/w/a.1cd", nullptr, false)); }, &err)) fail("open-failed", "the edited database was not opened: " + err);
			for (auto &x : m) if (!x.dead) {
				V8Object *o = x.kind == 2 ? new V8Object(base.get(), x.block) : x.kind ? base->get_table(x.table)->get_file_blob() : base->get_table(x.table)->get_file_data();
				if (o->get_len() != x.b.size()) fail("wrong-length", x.what + fmt(" after reopening: %llu, written %zu", (unsigned long long)o->get_len(), x.b.size()));
				char *p = o->get_data();
				if (x.b.size()) compare(x, p, 0, x.b.size(), "after reopening");
				if (x.kind == 2) delete o;
			}
			return 0;
		});
		must_end(r, "reopening");
	}
}
void c05() { edit_world(CONTENTS); }
void c04_objects() { edit_world(STRUCTURE); }

} // namespace sim
