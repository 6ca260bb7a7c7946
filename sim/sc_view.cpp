// C20: tables browsed through the library, as the graphical program does it.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include "Class_1CD.h"
#include "Table.h"
#include "V8Object.h"
#include "Index.h"
#include "TableRecord.h"
#include "TableIterator.h"

using System::Classes::TMemoryStream;

namespace sim {

// as shown, not as exported: no XML escapes, dates written for people
static string shown(const TableDef &t, const FieldDef &f, const Cell &c)
{
	if (f.type == "NT") return "{MEMO}";
	if (f.type == "T") return "{TEXT}";
	if (f.type == "I") return "{IMAGE}";
	if (f.type == "NC") return utf8(c.raw);
	if (f.type == "NVC") { size_t n = get16(c.raw, 0); return utf8(Bytes(c.raw.begin() + 2, c.raw.begin() + 2 + n * 2)); }
	if (f.type == "DT") {
		auto d = [&](int i) { return fmt("%02x", c.raw[i]); };
		return d(3) + "." + d(2) + "." + d(0) + d(1) + " " + d(4) + ":" + d(5) + ":" + d(6);
	}
	return xml_value(t, f, c, false);
}

struct Opened {
	const DbDef *def = nullptr;
	string path;
	std::unique_ptr<T_1CD> base;
	vector<Table *> tabs;
};
struct Walk { // an iterator left somewhere in the middle
	size_t db, t;
	int ix;
	size_t at = 0;
	std::unique_ptr<TableIterator> plain;
	std::unique_ptr<IndexedTableIterator> sorted;
};

struct Browser {
	vector<Opened> dbs;
	vector<Walk> walks;
	uint64_t failures() const
	{
		uint64_t n = 0;
		for (auto &f : S->inst[S->cur].faults) if (f.kind == FaultRule::ERR) n += f.fired;
		return n;
	}
	// an access may fail only because the storage did; then the same access is made again
	bool access(const string &what, const std::function<void()> &f)
	{
		for (int tries = 0;; tries++) {
			uint64_t before = failures();
			string why;
			try { f(); return tries == 0; }
			catch (std::exception &e) { why = e.what(); }
			catch (...) { why = "an exception"; }
			if (failures() == before) fail("refused-read", what + ": " + why);
			probe("reads failed by the storage");
			if (tries > 60) return false;
		}
	}
	void open(size_t i, bool monopoly)
	{
		Opened &o = dbs[i];
		o.tabs.clear();
		access("opening " + o.path, [&] { o.base.reset(); o.base.reset(new T_1CD(o.path, nullptr, monopoly)); });
		if (!o.base) return;
		if (!o.base->is_open()) fail("open-failed", "a well-formed database is not open");
		if (o.base->get_numtables() != (int)o.def->tables.size()) fail("missing-table", fmt("%d tables of %zu", o.base->get_numtables(), o.def->tables.size()));
		for (size_t k = 0; k < o.def->tables.size(); k++) {
			const TableDef &t = o.def->tables[k];
			Table *p = nullptr;
			for (int j = 0; j < o.base->get_numtables(); j++) if (o.base->get_table(j)->get_name() == t.name) p = o.base->get_table(j);
			if (!p) fail("missing-table", t.name);
			o.tabs.push_back(p);
			if (p->get_num_indexes() != (int)t.indexes.size()) fail("wrong-index", fmt("%s has %zu indexes, not %d", t.name.c_str(), t.indexes.size(), p->get_num_indexes()));
			for (size_t x = 0; x < t.indexes.size(); x++) {
				Index *ix = p->get_index(x);
				const IndexDef &d = t.indexes[x];
				if (ix->get_name() != d.name || ix->is_primary() != d.primary || ix->get_num_records() != d.cols.size()) fail("wrong-index", "index " + d.name + " of " + t.name);
				for (size_t c = 0; c < d.cols.size(); c++) if (ix->get_records()[c].field->get_name() != d.cols[c].first || ix->get_records()[c].len != d.cols[c].second) fail("wrong-index", "field " + d.cols[c].first + " of index " + d.name + " of " + t.name);
			}
		}
	}
	void close(size_t i)
	{
		walks.erase(std::remove_if(walks.begin(), walks.end(), [&](const Walk &w) { return w.db == i; }), walks.end());
		dbs[i].tabs.clear();
		dbs[i].base.reset();
	}
	// one value of a record, every way it is shown
	void value(const TableDef &t, size_t phys, const TableRecord &r, size_t fi, const string &where)
	{
		bool hid = fi >= t.fields.size();
		FieldDef vf; vf.name = "VERSION"; vf.type = "V8";
		const FieldDef &f = hid ? vf : t.fields[fi];
		Cell hc; hc.raw = t.recs[phys].hidden; if (hc.raw.size() != 8) hc.raw.resize(8);
		const Cell &c = hid ? hc : t.recs[phys].cells[fi];
		string what = where + ", " + f.name + " (" + type_name(f) + ")";
		const Field *pf = r.get_table()->get_field(f.name);
		if (r.is_null_value(pf) != c.null) fail("wrong-value", what + (c.null ? ": NULL is not shown as such" : ": shown as NULL"));
		if (c.null) {
			bool refused = false;
			try { r.get_string(pf); } catch (std::exception &) { refused = true; }
			if (!refused) fail("wrong-value", what + ": NULL has a text");
			return;
		}
		string got = draw(2, "by name") ? r.get_string(f.name) : r.get_string(pf), want = shown(t, f, c);
		if (got != want) fail("wrong-value", what + ": shown as \"" + got + "\", stored is \"" + want + "\"");
		if (!f.blob()) {
			Bytes raw((const uint8_t *)r.get_data(pf), (const uint8_t *)r.get_data(pf) + c.raw.size());
			if (raw != c.raw) fail("wrong-value", what + ": " + diff_bytes(raw, c.raw));
			if (f.type == "B" && f.len == 16 && r.get<BinaryGuid>(pf).as_1C() != guid_1c(c.raw.data())) fail("wrong-value", what + " as a GUID");
		}
		probe("values compared");
	}
	void blob(const TableDef &t, size_t phys, const TableRecord &r, size_t fi, const string &where)
	{
		const FieldDef &f = t.fields[fi];
		const Cell &c = t.recs[phys].cells[fi];
		bool unpack = draw(2, "unpacked");
		string what = where + ", " + f.name + (unpack ? ", unpacked" : ", as stored");
		Bytes want = c.blob, got;
		if (unpack) { Bytes u; if (inflate(c.blob, u)) want = u; }
		access(what, [&] {
			TStream *s = nullptr;
			bool there = r.try_store_blob_data(r.get_table()->get_field(f.name), s, unpack);
			bool should = !c.null && !c.absent;
			if (there != should) fail("wrong-value", what + (should ? ": not there" : ": there, but not stored"));
			if (!there) return;
			std::unique_ptr<TStream> own(s);
			s->Seek(0, soFromBeginning);
			got.resize(s->GetSize());
			if (!got.empty() && s->Read(got.data(), got.size()) != (int64_t)got.size()) { // the temporary file may fail as well
				got.clear();
				throw std::runtime_error("the value could not be read back");
			}
			if (got != want) fail("wrong-value", what + ": " + diff_bytes(got, want));
			probe("blob values compared");
		});
	}
	void record(Opened &o, size_t ti, size_t phys, const TableRecord &r, const string &where)
	{
		const TableDef &t = o.def->tables[ti];
		if (r.is_removed() != t.recs[phys].removed) fail("wrong-value", where + (r.is_removed() ? ": shown as deleted" : ": not shown as deleted"));
		if (r.is_removed()) return;
		size_t nf = t.fields.size() + (t.hidden_version() ? 1 : 0);
		if (draw(3, "all fields") == 2) { for (size_t k = 0; k < nf; k++) value(t, phys, r, k, where); }
		else {
			size_t k = draw(nf, "field");
			if (k < t.fields.size() && t.fields[k].blob() && draw(3, "its data")) blob(t, phys, r, k, where);
			else value(t, phys, r, k, where);
		}
	}
	void op()
	{
		size_t di = draw(dbs.size(), "database");
		Opened &o = dbs[di];
		if (!o.base) { open(di, draw(2, "exclusive")); return; }
		size_t ti = draw(o.def->tables.size(), "table");
		const TableDef &t = o.def->tables[ti];
		Table *p = o.tabs[ti];
		int ix = (int)draw(t.indexes.size() + 1, "index") - 1;
		vector<uint32_t> rows;
		if (ix >= 0) rows = t.order[ix];
		else for (size_t n = 0; n < t.recs.size(); n++) rows.push_back(n);
		string view = t.name + (ix < 0 ? string() : " by " + t.indexes[ix].name);
		auto count = [&] {
			uint32_t n = 0;
			access(view + ", number of rows", [&] { n = ix < 0 ? p->get_phys_numrecords() : p->get_index(ix)->get_numrecords(); });
			size_t want = ix < 0 ? t.phys(rows.size()) : rows.size();
			if (n != want) fail("wrong-order", view + fmt(": %u rows of %zu", n, want));
		};
		auto row = [&](size_t i) {
			string where = view + fmt(", row %zu", i);
			uint32_t n = t.phys(i);
			std::unique_ptr<TableRecord> r;
			access(where, [&] {
				if (ix >= 0) n = p->get_index(ix)->get_numrec(i);
				if (n != t.phys(rows[i])) fail("wrong-order", where + fmt(": shows record %u, not %u", n, t.phys(rows[i])));
				r.reset(p->get_record(n));
			});
			if (r) record(o, ti, rows[i], *r, where);
		};
		switch (pick_weighted({ 6, 4, 4, 5, 2, 2, 2, 2, 2 }, "operation")) {
		case 0: { // a cell
			count();
			if (rows.empty()) break;
			row(draw(rows.size(), "row"));
			probe("rows shown");
			break;
		}
		case 1: { // scrolling
			count();
			if (rows.empty()) break;
			size_t from = draw(rows.size(), "from row"), n = 1 + draw(20, "rows"), step = 1 + draw(3, "step");
			bool up = draw(2, "upwards");
			for (size_t k = 0; k < n; k++) { row(from); if (up ? from < step : from + step >= rows.size()) break; from = up ? from - step : from + step; }
			probe("rows scrolled");
			break;
		}
		case 2: { // the whole order
			access(view + ", every row", [&] {
				Index *q = ix < 0 ? nullptr : p->get_index(ix);
				if (!q) return;
				for (size_t i = 0; i < rows.size(); i++) if (q->get_numrec(i) != t.phys(rows[i])) fail("wrong-order", view + fmt(", row %zu: record %u, not %u", i, q->get_numrec(i), t.phys(rows[i])));
			});
			count();
			probe("orders compared");
			break;
		}
		case 3: { // a walk goes on, or a new one begins
			size_t k = draw(walks.size() + 1, "walk");
			if (k == walks.size()) {
				if (walks.size() >= 4) break;
				if (ix < 0 && t.data_gap.n) break; // a million deleted records
				Walk w;
				w.db = di; w.t = ti; w.ix = ix;
				access(view + ", first record", [&] {
					if (ix < 0) w.plain.reset(new TableIterator(p));
					else w.sorted.reset(new IndexedTableIterator(p, t.indexes[ix].name));
				});
				if (!w.plain && !w.sorted) break;
				walks.push_back(std::move(w));
			}
			Walk &w = walks[k];
			const TableDef &wt = dbs[w.db].def->tables[w.t];
			vector<uint32_t> want;
			if (w.ix >= 0) want = wt.order[w.ix];
			else for (size_t n : wt.live()) want.push_back(n);
			size_t steps = draw(15, "steps");
			for (size_t s = 0;; s++) {
				string where = wt.name + fmt(" walked%s, record %zu", w.ix < 0 ? "" : (" by " + wt.indexes[w.ix].name).c_str(), w.at);
				bool end = w.plain ? w.plain->eof() : w.sorted->eof();
				if (end != (w.at >= want.size())) fail("wrong-order", where + (end ? ": the walk ended early" : ": the walk did not end") + fmt(", there are %zu", want.size()));
				if (end || s == steps) break;
				if (w.plain) record(dbs[w.db], w.t, want[w.at], w.plain->current(), where);
				else record(dbs[w.db], w.t, want[w.at], w.sorted->current(), where);
				uint64_t before = failures();
				bool ok = true;
				string why;
				try { w.plain ? w.plain->next() : w.sorted->next(); }
				catch (std::exception &e) { ok = false; why = e.what(); }
				if (!ok && failures() == before) fail("refused-read", where + ", the next one: " + why);
				if (!ok) { walks.erase(walks.begin() + k); break; }
				w.at++;
			}
			probe("walks");
			break;
		}
		case 4: { // by the number of the row
			if (t.data_gap.n) break;
			access(view + ", records counted", [&] { p->fill_records_index(); });
			if (p->get_log_numrecords() != t.live().size()) { if (failures() == 0) fail("wrong-order", view + fmt(": %u records of %zu", p->get_log_numrecords(), t.live().size())); break; }
			vector<uint32_t> want;
			if (ix >= 0) want = t.order[ix];
			else for (size_t n : t.live()) want.push_back(n);
			if (want.empty()) break;
			size_t i = draw(want.size(), "row");
			access(view + ", row by number", [&] {
				uint32_t n = p->get_phys_numrec(i + 1, ix < 0 ? nullptr : p->get_index(ix));
				if (n != want[i]) fail("wrong-order", view + fmt(", row %zu: record %u, not %u", i + 1, n, want[i]));
			});
			probe("rows by number");
			break;
		}
		case 5: V8Object::garbage(); const_cast<MemBlockManager &>(o.base->getMemBlockManager()).garbage(draw(2, "aggressive")); probe("caches aged"); break;
		case 6: { static const int64_t jump[] = { 1000, 61000, 240000, 3600000, 86400000, 50ll * 86400000 }; S->now_ns += jump[draw(6, "clock jump")] * 1000000; S->faults_fired[4]++; break; }
		case 7: p->set_lock_inmemory(draw(2, "lock")); break;
		default: if (dbs.size() > 1 && draw(2, "close")) { close(di); probe("databases closed"); }
		}
	}
};

void c20()
{
	gen_env();
	vector<DbDef> defs;
	size_t n = 1 + (draw(4, "two databases") == 3);
	vector<string> paths;
	for (size_t i = 0; i < n; i++) {
		defs.push_back(gen_db(2, -1, true));
		// some values packed, as the service tables have them
		Rng r(draw(1u << 30, "packed seed"));
		for (auto &t : defs[i].tables) for (size_t k = 0; k < t.fields.size(); k++) if (t.fields[k].type == "I")
			for (auto &rec : t.recs) if (!rec.removed && !rec.cells[k].null && !rec.cells[k].absent && r.pct(40)) {
				Bytes b = r.pct(50) ? r.text(r.below(4000)) : rec.cells[k].blob;
				b = deflate(b);
				if (r.pct(15) && b.size() > 1) b.resize(b.size() - 1 - r.below(b.size() - 1)); // a damaged one is shown as stored
				rec.cells[k] = blob_cell(b);
			}
		stretch(defs[i]);
		paths.push_back(fmt("/sim/w/%zu.1cd", i));
		put_db(defs[i], paths[i]);
	}
	if (n == 2 && draw(3, "same file twice") == 2) paths[1] = paths[0], defs[1] = defs[0];
	vector<Bytes> img;
	for (auto &p : paths) img.push_back(fs_read(p));
	vector<FaultRule> f = gen_benign();
	uint32_t bursts = draw(3, "failures");
	for (uint32_t i = 0; i < bursts; i++) {
		uint32_t kinds = draw(4, "what fails") == 3 ? 1u << OP_OPEN | 1u << OP_READ | 1u << OP_WRITE | 1u << OP_CREATE : 1u << OP_READ;
		f.push_back(fault_err(kinds, draw(120, "fails from"), draw(2, "errno") ? 5 : 24, 1 + draw(6, "fails count")));
	}
	uint32_t nops = 3 + draw(50, "operations");
	Result res = run_instance([&] {
		Browser b;
		for (size_t i = 0; i < n; i++) { b.dbs.emplace_back(); b.dbs[i].def = &defs[i]; b.dbs[i].path = paths[i]; }
		b.open(0, draw(2, "exclusive"));
		for (uint32_t i = 0; i < nops; i++) b.op();
		for (auto &d : b.dbs) state(mix(hash64(d.def->tables[0].data_bytes), b.walks.size()));
		b.walks.clear();
		while (!b.dbs.empty()) b.dbs.pop_back();
		return 0;
	}, f);
	need_no_crash(res, "browsing");
	if (res.code) harness_error("unexpected status");
	for (size_t i = 0; i < n; i++) if (fs_read(paths[i]) != img[i]) fail("file-changed", "browsing changed " + paths[i]);
	check_no_escape();
}

} // namespace sim
