// 1CD image builder and the oracle's view of exported data. Written from the format, not from the code under test.
#include "db.h"
#include <algorithm>
#include <cassert>
#include <list>
#include <numeric>
#include <zlib.h>

namespace sim {

const char *const ver_name[6] = { "8.0.3", "8.0.5", "8.1.0", "8.2.0", "8.2.14", "8.3.8" };

int FieldDef::raw_size() const
{
	if (type == "B") return len;
	if (type == "L") return 1;
	if (type == "N") return (len + 2) / 2;
	if (type == "NC") return len * 2;
	if (type == "NVC") return len * 2 + 2;
	if (type == "RV") return 16;
	if (type == "DT") return 7;
	if (type == "VB") return len + 2;
	return 8; // NT T I V8
}
bool TableDef::hidden_version() const
{
	if (!recordlock) return false;
	for (auto &f : fields) if (f.type == "RV") return false;
	return true;
}
bool TableDef::has_blob() const
{
	if (force_blob) return true;
	for (auto &f : fields) if (f.blob()) return true;
	return false;
}
bool TableDef::blob_file(Ver v) const
{
	if (!has_blob()) return false;
	if (!late_blob || v == V838) return true;
	for (auto &f : fields) if (f.blob()) return true;
	return false;
}
int TableDef::field(const string &n) const
{
	for (size_t i = 0; i < fields.size(); i++) if (fields[i].name == n) return i;
	harness_error("no field " + n + " in " + name);
}
vector<size_t> TableDef::live() const
{
	vector<size_t> r;
	for (size_t i = 0; i < recs.size(); i++) if (!recs[i].removed) r.push_back(i);
	return r;
}
uint32_t TableDef::primary_index() const
{
	for (size_t i = 0; i < indexes.size(); i++) if (indexes[i].primary) return i;
	return ~0u;
}
vector<size_t> TableDef::export_order() const
{
	uint32_t p = primary_index();
	if (p == ~0u) return live();
	return vector<size_t>(order[p].begin(), order[p].end());
}
TableDef *DbDef::table(const string &n)
{
	for (auto &t : tables) if (t.name == n) return &t;
	return nullptr;
}

// ---------------------------------------------------------------- text
Bytes utf16(const string &s)
{
	Bytes r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		uint32_t v;
		int n;
		if (c < 0x80) { v = c; n = 1; }
		else if (c < 0xe0) { v = c & 31; n = 2; }
		else if (c < 0xf0) { v = c & 15; n = 3; }
		else { v = c & 7; n = 4; }
		for (int k = 1; k < n; k++) v = v << 6 | (s[i + k] & 63);
		i += n;
		if (v < 0x10000) put16(r, v);
		else { v -= 0x10000; put16(r, 0xd800 + (v >> 10)); put16(r, 0xdc00 + (v & 1023)); }
	}
	return r;
}
string utf8(const Bytes &b)
{
	string r;
	for (size_t i = 0; i + 1 < b.size(); i += 2) {
		uint32_t v = get16(b, i);
		if (v >= 0xd800 && v < 0xdc00 && i + 3 < b.size()) { v = 0x10000 + ((v & 1023) << 10) + (get16(b, i + 2) & 1023); i += 2; }
		if (v < 0x80) r += v;
		else if (v < 0x800) { r += 0xc0 | v >> 6; r += 0x80 | (v & 63); }
		else if (v < 0x10000) { r += 0xe0 | v >> 12; r += 0x80 | (v >> 6 & 63); r += 0x80 | (v & 63); }
		else { r += 0xf0 | v >> 18; r += 0x80 | (v >> 12 & 63); r += 0x80 | (v >> 6 & 63); r += 0x80 | (v & 63); }
	}
	return r;
}
Cell raw_cell(const Bytes &raw) { Cell c; c.raw = raw; return c; }
Cell blob_cell(const Bytes &b) { Cell c; c.blob = b; if (b.empty()) c.absent = true; return c; }
Cell null_cell() { Cell c; c.null = true; return c; }
Cell mkcell(const FieldDef &f, const string &s)
{
	Cell c;
	if (f.type == "NC") { c.raw = utf16(s); c.raw.resize(f.len * 2); for (size_t i = utf16(s).size(); i < c.raw.size(); i += 2) c.raw[i] = ' '; }
	else if (f.type == "NVC") {
		Bytes u = utf16(s);
		u.resize(std::min<size_t>(u.size(), f.len * 2));
		put16(c.raw, u.size() / 2);
		append(c.raw, u);
		while ((int)c.raw.size() < f.raw_size()) put16(c.raw, ' ');
	}
	else if (f.type == "NT") { c.blob = utf16(s); c.absent = s.empty(); }
	else if (f.type == "T" || f.type == "I") { c.blob = B(s); c.absent = s.empty(); }
	else if (f.type == "N") { // digits without point, "-" first for negative
		bool neg = !s.empty() && s[0] == '-';
		string d = neg ? s.substr(1) : s;
		d = string(f.len - std::min<size_t>(d.size(), f.len), '0') + d;
		string nib = string(1, char(neg ? 0 : 1)) + string();
		for (char ch : d) nib += char(ch - '0');
		if (nib.size() & 1) nib += char(0);
		for (size_t i = 0; i < nib.size(); i += 2) c.raw.push_back(nib[i] << 4 | nib[i + 1]);
		c.raw.resize(f.raw_size());
	}
	else if (f.type == "DT") { for (size_t i = 0; i < 14; i += 2) c.raw.push_back((s[i] - '0') << 4 | (s[i + 1] - '0')); }
	else if (f.type == "L") c.raw.push_back(s == "true");
	else { c.raw = B(s); c.raw.resize(f.raw_size()); }
	return c;
}
static const char hexd[] = "0123456789abcdef";
static string hexs(const uint8_t *p, size_t n)
{
	string r;
	for (size_t i = 0; i < n; i++) { r += hexd[p[i] >> 4]; r += hexd[p[i] & 15]; }
	return r;
}
string guid_1c(const uint8_t *p) { return hexs(p + 12, 4) + "-" + hexs(p + 10, 2) + "-" + hexs(p + 8, 2) + "-" + hexs(p, 2) + "-" + hexs(p + 2, 6); }
string guid_ms(const uint8_t *p)
{
	uint8_t a[16] = { p[3], p[2], p[1], p[0], p[5], p[4], p[7], p[6], p[8], p[9], p[10], p[11], p[12], p[13], p[14], p[15] };
	return hexs(a, 4) + "-" + hexs(a + 4, 2) + "-" + hexs(a + 6, 2) + "-" + hexs(a + 8, 2) + "-" + hexs(a + 10, 6);
}
static string xml_escape(const string &s)
{
	string r;
	for (char c : s) {
		if (c == '&') r += "&amp;";
		else if (c == '<') r += "&lt;";
		else if (c == '>') r += "&gt;";
		else if (c == '\'') r += "&apos;";
		else if (c == '"') r += "&quot;";
		else r += c;
	}
	return r;
}
static string base64(const Bytes &b)
{
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	string r;
	for (size_t i = 0; i < b.size(); i += 3) {
		if (i && i % 54 == 0) r += "\r\n";
		uint32_t v = b[i] << 16 | (i + 1 < b.size() ? b[i + 1] << 8 : 0) | (i + 2 < b.size() ? b[i + 2] : 0);
		r += t[v >> 18]; r += t[v >> 12 & 63];
		r += i + 1 < b.size() ? t[v >> 6 & 63] : '=';
		r += i + 2 < b.size() ? t[v & 63] : '=';
	}
	return r;
}
string type_name(const FieldDef &f)
{
	if (f.type == "B") return "binary";
	if (f.type == "L") return "bool";
	if (f.type == "N") return "number";
	if (f.type == "NC") return "fixed string";
	if (f.type == "NVC") return "string";
	if (f.type == "RV") return "version";
	if (f.type == "NT") return "memo";
	if (f.type == "T") return "text";
	if (f.type == "I") return "image";
	if (f.type == "DT") return "datetime";
	if (f.type == "V8") return "hidden version";
	return "var binary";
}
static bool ends(const string &s, const char *e) { string x = e; return s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0; }
string xml_value(const TableDef &t, const FieldDef &f, const Cell &c, bool ms)
{
	if (f.type == "B") {
		if (f.len == 16) {
			string up = f.name;
			for (auto &ch : up) ch = toupper(ch);
			if (ends(up, "REF") || ends(up, "ID")) return guid_1c(c.raw.data());
		}
		return hexs(c.raw.data(), c.raw.size());
	}
	if (f.type == "VB") { size_t n = get16(c.raw, 0); return hexs(c.raw.data() + 2, n); }
	if (f.type == "L") return c.raw[0] ? "true" : "false";
	if (f.type == "N") {
		string d;
		for (size_t i = 0; i < c.raw.size(); i++) { d += char('0' + (c.raw[i] >> 4)); d += char('0' + (c.raw[i] & 15)); }
		bool neg = d[0] == '0';
		d = d.substr(1, f.len);
		string ip = d.substr(0, f.len - f.prec), fp = d.substr(f.len - f.prec);
		while (ip.size() > 1 && ip[0] == '0') ip.erase(0, 1);
		if (ip.empty()) ip = "0";
		while (!fp.empty() && fp.back() == '0') fp.pop_back();
		return (neg ? "-" : "") + ip + (fp.empty() ? "" : "." + fp);
	}
	if (f.type == "NC") return xml_escape(utf8(c.raw));
	if (f.type == "NVC") { size_t n = get16(c.raw, 0); return xml_escape(utf8(Bytes(c.raw.begin() + 2, c.raw.begin() + 2 + n * 2))); }
	if (f.type == "RV" || f.type == "V8") {
		string r;
		for (size_t i = 0; i < c.raw.size(); i += 4) r += (i ? ":" : "") + std::to_string((int32_t)get32(c.raw, i));
		return r;
	}
	if (f.type == "NT") return xml_escape(utf8(c.blob));
	if (f.type == "T") return xml_escape(Str(c.blob));
	if (f.type == "I") return base64(c.blob);
	if (f.type == "DT") {
		string h = hexs(c.raw.data(), 7);
		return h.substr(0, 4) + "-" + h.substr(4, 2) + "-" + h.substr(6, 2) + "T" + h.substr(8, 2) + ":" + h.substr(10, 2) + ":" + h.substr(12, 2);
	}
	return "?";
}
string xml_export(const TableDef &t, bool ms, bool mark_images)
{
	string r = "\xef\xbb\xbf<?xml version=\"1.0\" encoding=\"UTF-8\"?>\r\n<!--Файл сформирован программой Tool_1CD-->\r\n<Table Name=\"" + t.name + "\">\r\n\t<Fields>\r\n";
	vector<FieldDef> fs = t.fields;
	if (t.hidden_version()) { FieldDef v; v.name = "VERSION"; v.type = "V8"; fs.push_back(v); }
	for (auto &f : fs)
		r += "\t\t<Field Name=\"" + f.name + "\" Type=\"" + type_name(f) + "\" Length=\"" + std::to_string(f.len) + "\" Precision=\"" + std::to_string(f.prec) + "\" NotNull=\"" + (f.null ? "false" : "true") + "\"/>\r\n";
	r += "\t</Fields>\r\n\t<Records>\r\n";
	for (size_t n : t.export_order()) {
		r += "\t\t<Record>\r\n";
		for (size_t i = 0; i < fs.size(); i++) {
			Cell hid;
			hid.raw = t.recs[n].hidden;
			const Cell &c = i < t.fields.size() ? t.recs[n].cells[i] : hid;
			r += "\t\t\t<" + fs[i].name;
			if (c.null || (mark_images && fs[i].type == "I" && c.absent)) r += "/>\r\n";
			else if (mark_images && fs[i].type == "I") r += ">\x01</" + fs[i].name + ">\r\n";
			else r += ">" + xml_value(t, fs[i], c, ms) + "</" + fs[i].name + ">\r\n";
		}
		r += "\t\t</Record>\r\n";
	}
	return r + "\t</Records>\r\n</Table>\r\n";
}

// ---------------------------------------------------------------- image builder
struct Build {
	uint32_t ps;
	std::map<uint32_t, Bytes> page;
	uint32_t next = 0;
	struct Run { uint32_t first, n; Bytes fill; };
	vector<Run> runs;
	vector<uint32_t> holes;
	Rng r{1};
	uint32_t frag, gaps, wide_after;
	uint64_t wide, allocs = 0;
	uint32_t add() { page[next] = Bytes(ps); return next++; }
	uint32_t run(uint64_t n, const Bytes &fill)
	{
		if (next + n > 0xffff0000ull) harness_error("too many pages");
		runs.push_back({ next, (uint32_t)n, fill });
		next += n;
		return next - n;
	}
	uint32_t alloc()
	{
		if (wide && allocs++ == wide_after) run(wide, Bytes());
		if (!holes.empty() && r.pct(frag)) {
			size_t k = r.below(holes.size());
			uint32_t p = holes[k];
			holes.erase(holes.begin() + k);
			return p;
		}
		while (frag && r.pct(frag / 2)) holes.push_back(add());
		while (gaps && r.pct(gaps)) holes.push_back(add());
		return add();
	}
};
struct Obj {
	uint32_t head = 0;
	const Bytes *content = nullptr;
	const Gap *gap = nullptr;
	vector<uint32_t> fat, data;
	uint64_t len(uint32_t ps) const { return content->size() + gap->n * ps; }
};

static Bytes build_data(TableDef &t)
{
	Bytes out;
	size_t blobs = 0;
	for (auto &f : t.fields) if (f.blob()) blobs++;
	int rl = 1;
	if (t.hidden_version()) rl += 8;
	for (auto &f : t.fields) rl += f.size();
	if (rl < 5) rl = 5;
	t.reclen = rl;
	t.data_gap.at = std::min<uint64_t>(t.data_gap.at, t.recs.size() * rl / t.ps);
	// chain of free records: every removed record points to the next removed one
	vector<uint32_t> rem;
	for (size_t i = 0; i < t.recs.size(); i++) if (t.recs[i].removed) rem.push_back(i);
	for (size_t i = 0; i < t.recs.size(); i++) {
		Rec &r = t.recs[i];
		Bytes b;
		if (r.removed) {
			b.push_back(1);
			auto it = std::upper_bound(rem.begin(), rem.end(), (uint32_t)i);
			put32(b, it == rem.end() ? 0 : t.phys(*it));
			Rng junk(i + 77);
			while ((int)b.size() < rl) b.push_back(junk.below(256));
			append(out, b);
			continue;
		}
		b.push_back(0);
		auto put_field = [&](size_t k) {
			const FieldDef &f = t.fields[k];
			const Cell &c = r.cells[k];
			if (f.null) b.push_back(c.null ? 0 : 1);
			if (c.null) { b.resize(b.size() + f.raw_size()); return; }
			if (f.blob()) {
				size_t bi = 0;
				for (size_t q = 0; q < k; q++) if (t.fields[q].blob()) bi++;
				put32(b, t.start[i * blobs + bi]);
				put32(b, t.length[i * blobs + bi]);
			} else append(b, c.raw);
		};
		for (size_t k = 0; k < t.fields.size(); k++) if (t.fields[k].type == "RV") put_field(k);
		if (t.hidden_version()) { if (r.hidden.size() != 8) r.hidden.resize(8); append(b, r.hidden); }
		for (size_t k = 0; k < t.fields.size(); k++) if (t.fields[k].type != "RV") put_field(k);
		if ((int)b.size() > rl) harness_error("record of " + t.name + " is too long");
		b.resize(rl);
		append(out, b);
	}
	return out;
}
static Bytes build_blob(TableDef &t, Rng &r, uint32_t frag)
{
	size_t nb = 0;
	for (auto &f : t.fields) if (f.blob()) nb++;
	t.start.assign(t.recs.size() * nb, 0);
	t.length.assign(t.recs.size() * nb, 0);
	struct Piece { size_t ref; size_t k, n; };
	vector<Piece> pieces;
	vector<const Bytes *> src(t.recs.size() * nb);
	for (size_t i = 0; i < t.recs.size(); i++) {
		if (t.recs[i].removed) continue;
		size_t bi = 0;
		for (size_t k = 0; k < t.fields.size(); k++) if (t.fields[k].blob()) {
			size_t ref = i * nb + bi++;
			const Cell &c = t.recs[i].cells[k];
			if (c.null || c.absent) continue;
			src[ref] = &c.blob;
			t.length[ref] = c.blob.size();
			size_t n = (c.blob.size() + 249) / 250;
			if (!n) n = 1;
			for (size_t q = 0; q < n; q++) pieces.push_back({ ref, q, n });
		}
	}
	vector<uint32_t> pos(pieces.size());
	std::iota(pos.begin(), pos.end(), 0);
	uint32_t extra = frag ? r.below(4) : 0;
	vector<uint32_t> blk(pieces.size() + extra);
	std::iota(blk.begin(), blk.end(), 1);
	if (frag) for (size_t i = blk.size(); i > 1; i--) if (r.pct(frag)) std::swap(blk[i - 1], blk[r.below(i)]);
	Bytes out((pieces.size() + extra + 1) * 256);
	std::map<size_t, vector<uint32_t>> chain;
	for (size_t i = 0; i < pieces.size(); i++) chain[pieces[i].ref].push_back(blk[i]);
	vector<uint32_t> freeb(blk.begin() + pieces.size(), blk.end());
	t.blob_gap.at = std::min<uint64_t>(std::max<uint64_t>(t.blob_gap.at, 1), out.size() / t.ps);
	if (!t.blob_gap.at) t.blob_gap.n = 0;
	auto num = [&](uint32_t b) { return (uint32_t)t.blob_gap.unit(b, 256, t.ps); };
	uint32_t prev = 0;
	for (uint32_t f : freeb) { set32(out, prev * 256, num(f)); prev = f; }
	for (auto &c : chain) {
		t.start[c.first] = num(c.second[0]);
		const Bytes &s = *src[c.first];
		for (size_t q = 0; q < c.second.size(); q++) {
			size_t at = c.second[q] * 256, n = std::min<size_t>(250, s.size() - q * 250);
			set32(out, at, q + 1 < c.second.size() ? num(c.second[q + 1]) : 0);
			out[at + 4] = n; out[at + 5] = n >> 8;
			std::copy(s.begin() + q * 250, s.begin() + q * 250 + n, out.begin() + at + 6);
		}
	}
	return out;
}
static Bytes index_key(const TableDef &t, const IndexDef &ix, size_t rec, int keylen)
{
	Bytes k;
	for (auto &c : ix.cols) {
		size_t fi = t.field(c.first);
		const Cell &cell = t.recs[rec].cells[fi];
		Bytes v = cell.raw;
		if (t.fields[fi].null) v.insert(v.begin(), cell.null ? 0 : 1);
		v.resize(c.second);
		append(k, v);
	}
	k.resize(keylen);
	return k;
}
static Bytes build_index(TableDef &t, uint32_t ps, bool v838, uint32_t fill, Rng &r)
{
	vector<Bytes> page(1, Bytes(ps));
	t.order.clear();
	for (auto &ix : t.indexes) {
		int keylen = 0;
		for (auto &c : ix.cols) keylen += c.second;
		vector<std::pair<Bytes, uint32_t>> ent;
		for (size_t n : t.live()) ent.push_back({ index_key(t, ix, n, keylen), t.phys(n) });
		std::sort(ent.begin(), ent.end());
		vector<uint32_t> ord;
		for (auto &e : ent) { size_t n = e.second; if (t.phys(t.recs.size()) != t.recs.size()) for (n = 0; t.phys(n) != e.second;) n++; ord.push_back(n); }
		t.order.push_back(ord);
		uint32_t bits = 1;
		while ((1ull << bits) < t.phys(t.recs.size()) + 1ull) bits++;
		uint32_t lb = 1;
		while ((1 << lb) <= keylen) lb++;
		uint32_t recbytes = (bits + 2 * lb + 7) / 8;
		bool packed = r.pct(60);
		size_t leafcap = (ps - 30) / (recbytes + keylen), brcap = (ps - 12) / (keylen + 8);
		if (!leafcap || brcap < 2) harness_error("index key too long");
		if (fill) { leafcap = std::min<size_t>(leafcap, fill); brcap = std::min<size_t>(brcap, std::max(2u, fill)); }
		// levels, from the leaves up
		struct Nd { size_t lo, hi; uint32_t page; vector<size_t> kids; };
		vector<vector<Nd>> lev(1);
		if (ent.empty()) lev[0].push_back({ 0, 0, 0, {} });
		for (size_t i = 0; i < ent.size();) { size_t n = std::min(leafcap, ent.size() - i); lev[0].push_back({ i, i + n, 0, {} }); i += n; }
		while (lev.back().size() > 1) {
			vector<Nd> up;
			for (size_t i = 0; i < lev.back().size();) {
				size_t n = std::min(brcap, lev.back().size() - i);
				Nd x{ lev.back()[i].lo, lev.back()[i + n - 1].hi, 0, {} };
				for (size_t k = 0; k < n; k++) x.kids.push_back(i + k);
				up.push_back(x);
				i += n;
			}
			lev.push_back(up);
		}
		// page numbers, in random order; header page first or not
		vector<Nd *> all;
		for (auto &l : lev) for (auto &n : l) all.push_back(&n);
		vector<uint32_t> nums(all.size() + 1);
		std::iota(nums.begin(), nums.end(), page.size());
		if (r.pct(60)) for (size_t i = nums.size(); i > 1; i--) std::swap(nums[i - 1], nums[r.below(i)]);
		for (size_t i = 0; i < all.size(); i++) all[i]->page = nums[i];
		uint32_t hdr = nums[all.size()];
		page.resize(page.size() + nums.size(), Bytes(ps));
		auto ref = [&](uint32_t p) { p = t.index_gap.unit(p, ps, ps); return v838 ? p : p * ps; };
		set32(page[0], 4 + 4 * (&ix - &t.indexes[0]), ref(hdr));
		set32(page[hdr], 0, ref(lev.back()[0].page));
		page[hdr][4] = keylen; page[hdr][5] = keylen >> 8;
		auto be = [&](Bytes &b, size_t at, uint32_t v) { for (int i = 0; i < 4; i++) b[at + i] = v >> (24 - 8 * i); };
		for (size_t l = 0; l < lev.size(); l++) for (size_t i = 0; i < lev[l].size(); i++) {
			Nd &n = lev[l][i];
			Bytes &p = page[n.page];
			uint32_t cnt = l ? n.kids.size() : n.hi - n.lo;
			p[0] = (l == 0 ? 2 : 0) | (l + 1 == lev.size() ? 1 : 0);
			p[2] = cnt; p[3] = cnt >> 8;
			set32(p, 4, i ? ref(lev[l][i - 1].page) : 0xffffffff);
			set32(p, 8, i + 1 < lev[l].size() ? ref(lev[l][i + 1].page) : 0xffffffff);
			if (l) {
				for (size_t k = 0; k < n.kids.size(); k++) {
					Nd &kid = lev[l - 1][n.kids[k]];
					size_t at = 12 + k * (keylen + 8);
					std::copy(ent[kid.hi - 1].first.begin(), ent[kid.hi - 1].first.end(), p.begin() + at);
					be(p, at + keylen, ent[kid.hi - 1].second);
					be(p, at + keylen + 4, ref(kid.page));
				}
			} else {
				// record numbers take as many bits as this page needs; keys share prefixes and drop trailing zeros
				uint32_t maxn = 0, pb = 1;
				for (uint32_t k = 0; k < cnt; k++) maxn = std::max(maxn, ent[n.lo + k].second);
				while (maxn >> pb) pb++;
				uint32_t rb = (pb + 2 * lb + 7) / 8, numbits = rb * 8 - 2 * lb;
				uint32_t mask = numbits >= 32 ? 0xffffffff : (1u << numbits) - 1;
				bool pack = packed && rb <= 8;
				set32(p, 14, mask);
				uint32_t km = (1u << lb) - 1;
				p[18] = km; p[19] = km >> 8; p[20] = km; p[21] = km >> 8;
				p[22] = numbits; p[24] = lb; p[26] = lb; p[28] = rb;
				size_t kp = ps;
				for (uint32_t k = 0; k < cnt; k++) {
					const Bytes &key = ent[n.lo + k].first;
					uint32_t left = 0, right = 0;
					if (pack) {
						while (right < (uint32_t)keylen && !key[keylen - 1 - right]) right++;
						if (k) while (left < keylen - right && key[left] == ent[n.lo + k - 1].first[left]) left++;
					}
					uint64_t v = (((uint64_t)right << lb | left) << numbits) | ent[n.lo + k].second;
					for (uint32_t q = 0; q < rb; q++) p[30 + k * rb + q] = q < 8 ? v >> 8 * q : 0;
					kp -= keylen - left - right;
					std::copy(key.begin() + left, key.end() - right, p.begin() + kp);
				}
				uint32_t fre = kp - 30 - cnt * rb;
				p[12] = fre; p[13] = fre >> 8;
			}
		}
	}
	t.index_gap.at = std::min<uint64_t>(t.index_gap.at, page.size());
	Bytes out;
	for (auto &p : page) append(out, p);
	return out;
}
static string describe_table(const TableDef &t)
{
	auto q = [](const string &s) { string r = "\""; for (char c : s) { if (c == '"') r += '"'; r += c; } return r + "\""; };
	string s = "{" + q(t.name) + ",0,\r\n{\"Fields\"";
	for (auto &f : t.fields) s += ",\r\n{" + q(f.name) + ",\"" + f.type + "\"," + (f.null ? "1" : "0") + "," + std::to_string(f.len) + "," + std::to_string(f.prec) + ",\"" + (f.cs ? "CS" : "CI") + "\"}";
	s += "\r\n},\r\n{\"Indexes\"";
	for (auto &ix : t.indexes) {
		s += ",\r\n{" + q(ix.name) + "," + (ix.primary ? "1" : "0");
		for (auto &c : ix.cols) s += ",\r\n{" + q(c.first) + "," + std::to_string(c.second) + "}";
		s += "\r\n}";
	}
	s += "\r\n},\r\n{\"Recordlock\",\"" + string(t.recordlock ? "1" : "0") + "\"},\r\n";
	s += "{\"Files\"," + std::to_string(t.data) + "," + std::to_string(t.blob) + "," + std::to_string(t.index) + "}\r\n}";
	return s;
}

static const Gap nogap;
Img mk1cd(DbDef &db)
{
	Rng r(db.seed);
	bool v838 = db.ver == V838;
	if (!v838) db.pagesize = 4096;
	uint32_t ps = db.pagesize;
	Build im;
	im.ps = ps; im.frag = db.frag; im.gaps = db.gaps;
	im.r = Rng(db.seed ^ 0xabcdef);
	im.wide = db.wide; im.wide_after = db.wide_after;
	for (int i = 0; i < 3; i++) im.add();
	for (auto &t : db.tables) {
		size_t nb = 0;
		for (auto &f : t.fields) nb += f.blob();
		t.start.assign(t.recs.size() * nb, 0);
		t.length.assign(t.recs.size() * nb, 0);
		t.ps = ps;
		t.blob_bytes = t.blob_file(db.ver) ? build_blob(t, r, db.frag) : Bytes();
		t.data_bytes = build_data(t);
		if (t.indexes.empty()) t.index_gap.n = 0;
		t.index_bytes = t.indexes.empty() ? Bytes() : build_index(t, ps, v838, db.index_fill, r);
	}
	// header pages
	std::vector<Obj> objs;
	struct Slot { uint32_t *dst; };
	vector<uint32_t *> heads;
	for (auto &t : db.tables) {
		if (!v838) heads.push_back(&t.descr);
		heads.push_back(&t.data);
		if (t.blob_file(db.ver)) heads.push_back(&t.blob); else t.blob = 0;
		if (!t.indexes.empty()) heads.push_back(&t.index); else t.index = 0;
	}
	for (auto &l : db.lost) heads.push_back(&l.page);
	if (db.frag) for (size_t i = heads.size(); i > 1; i--) if (r.pct(db.frag)) std::swap(heads[i - 1], heads[r.below(i)]);
	for (auto h : heads) *h = im.alloc();
	std::list<Bytes> *keep = new std::list<Bytes>();
	// root object
	Bytes root;
	if (db.ver <= V805) { root = B(db.lang); root.resize(8); }
	else { root = B(db.lang); root.resize(32); }
	put32(root, db.tables.size());
	if (v838) {
		// a blob file: block 1 holds the root record, then the descriptions
		vector<Bytes> recs;
		recs.push_back(root);
		for (auto &t : db.tables) { t.descr_text = describe_table(t); if (t.descr_edit) t.descr_edit(t.descr_text); recs.push_back(B(t.descr_text)); }
		recs[0].resize(recs[0].size() + 4 * db.tables.size());
		size_t total = 0;
		vector<vector<uint32_t>> ch(recs.size());
		for (auto &x : recs) { if (x.empty()) x.push_back('{'); total += (x.size() + 249) / 250; }
		vector<uint32_t> blk(total);
		std::iota(blk.begin(), blk.end(), 1);
		if (db.frag) for (size_t i = blk.size(); i > 2; i--) if (r.pct(db.frag)) std::swap(blk[i - 1], blk[1 + r.below(i - 1)]);
		size_t at = 0;
		for (size_t i = 0; i < recs.size(); i++) for (size_t k = 0; k < (recs[i].size() + 249) / 250; k++) ch[i].push_back(blk[at++]);
		for (size_t i = 0; i < db.tables.size(); i++) { set32(recs[0], 36 + 4 * i, ch[i + 1][0]); db.tables[i].descr = ch[i + 1][0]; }
		Bytes f((total + 1) * 256);
		for (size_t i = 0; i < recs.size(); i++) for (size_t k = 0; k < ch[i].size(); k++) {
			size_t a = ch[i][k] * 256, n = std::min<size_t>(250, recs[i].size() - k * 250);
			set32(f, a, k + 1 < ch[i].size() ? ch[i][k + 1] : 0);
			f[a + 4] = n; f[a + 5] = n >> 8;
			std::copy(recs[i].begin() + k * 250, recs[i].begin() + k * 250 + n, f.begin() + a + 6);
		}
		root = f;
	} else {
		for (auto &t : db.tables) { t.descr_text = describe_table(t); if (t.descr_edit) t.descr_edit(t.descr_text); put32(root, t.descr); }
	}
	auto add = [&](uint32_t head, const Bytes &c, const Gap &g = nogap) { keep->push_back(c); Obj o; o.head = head; o.content = &keep->back(); o.gap = &g; objs.push_back(o); };
	add(2, root);
	for (auto &t : db.tables) {
		if (!v838) add(t.descr, utf16(t.descr_text));
		add(t.data, t.data_bytes, t.data_gap);
		if (t.blob) add(t.blob, t.blob_bytes, t.blob_gap);
		if (t.index) add(t.index, t.index_bytes, t.index_gap);
	}
	for (auto &l : db.lost) add(l.page, l.content);
	uint32_t per_fat = v838 ? ps / 4 : 1023, direct = ps / 4 - 6;
	struct Want { Obj *o; bool fat; size_t k; }; // the first page of a gap stands for all of it
	vector<Want> want;
	for (auto &o : objs) {
		size_t n = (o.len(ps) + ps - 1) / ps;
		size_t nf = v838 ? (n > direct ? (n + per_fat - 1) / per_fat : 0) : (n + per_fat - 1) / per_fat;
		o.data.resize(n); o.fat.resize(nf);
		for (size_t k = 0; k < nf; k++) want.push_back({ &o, true, k });
		for (size_t k = 0; k < n; k++) if (k <= o.gap->at || k >= o.gap->at + o.gap->n) want.push_back({ &o, false, k });
	}
	if (db.frag) for (size_t i = want.size(); i > 1; i--) if (r.pct(db.frag)) std::swap(want[i - 1], want[r.below(i)]);
	for (auto &w : want) {
		if (w.fat || !w.o->gap->n || w.k != w.o->gap->at) { (w.fat ? w.o->fat : w.o->data)[w.k] = im.alloc(); continue; }
		uint32_t first = im.run(w.o->gap->n, w.o->gap->fill);
		for (uint64_t k = 0; k < w.o->gap->n; k++) w.o->data[w.k + k] = first + k;
	}
	for (uint32_t i = 0; i < db.freepages; i++) im.holes.push_back(im.add());
	for (auto &o : objs) {
		Bytes &h = im.page[o.head];
		uint32_t v1 = 1 + r.below(50), v2 = r.below(50);
		if (v838) {
			h[0] = 0x1c; h[1] = 0xfd;
			h[2] = o.fat.empty() ? 0 : 1;
			set32(h, 4, v1); set32(h, 8, v2); set32(h, 12, 0);
			set32(h, 16, o.len(ps)); set32(h, 20, o.len(ps) >> 32);
		} else {
			std::copy_n("1CDBOBV8", 8, h.begin());
			set32(h, 8, o.len(ps));
			set32(h, 12, v1); set32(h, 16, v2); set32(h, 20, 0);
		}
		const vector<uint32_t> &top = v838 && o.fat.empty() ? o.data : o.fat;
		for (size_t k = 0; k < top.size(); k++) set32(h, 24 + 4 * k, top[k]);
		for (size_t k = 0; k < o.fat.size(); k++) {
			Bytes &f = im.page[o.fat[k]];
			size_t lo = k * per_fat, hi = std::min<size_t>(lo + per_fat, o.data.size());
			if (!v838) set32(f, 0, hi - lo);
			for (size_t q = lo; q < hi; q++) set32(f, (v838 ? 0 : 4) + 4 * (q - lo), o.data[q]);
		}
		for (size_t k = 0; k * ps < o.content->size(); k++) {
			size_t n = std::min<size_t>(ps, o.content->size() - k * ps);
			Bytes &p = im.page[o.data[k >= o.gap->at ? k + o.gap->n : k]];
			std::copy(o.content->begin() + k * ps, o.content->begin() + k * ps + n, p.begin());
			if (n < ps && r.pct(50)) for (size_t q = n; q < ps; q++) p[q] = r.below(256); // slack
		}
	}
	// free pages keep stale contents
	db.free = im.holes;
	if (r.pct(40)) for (uint32_t p : im.holes) { im.page[p] = r.bytes(ps); if (im.page[p][0] == 0x1c) im.page[p][0] = 0x1d; } // (a header there would be one of a lost object)
	Bytes &fh = im.page[1];
	vector<uint32_t> lists;
	uint32_t per = ps / 4;
	if (!v838) {
		std::copy_n("1CDBOBV8", 8, fh.begin());
		size_t n = (db.free.size() + 1023) / 1024;
		if (r.pct(20)) n++; // a list page left from earlier
		for (size_t i = 0; i < n; i++) lists.push_back(im.add());
		set32(im.page[1], 8, db.free.size());
		set32(im.page[1], 12, r.below(50)); set32(im.page[1], 16, r.below(50));
		for (size_t i = 0; i < n; i++) set32(im.page[1], 24 + 4 * i, lists[i]);
	} else {
		fh[0] = 0x1c; fh[1] = 0xff;
		size_t n = (db.free.size() + per - 1) / per;
		for (size_t i = 0; i < n; i++) lists.push_back(im.add());
		set32(im.page[1], 4, db.free.size());
		set32(im.page[1], 8, r.below(50));
		for (size_t i = 0; i < n; i++) set32(im.page[1], 12 + 4 * i, lists[i]);
	}
	for (size_t i = 0; i < db.free.size(); i++) set32(im.page[lists[i / per]], 4 * (i % per), db.free[i]);
	if (db.lost_last && !db.lost.empty()) {
		Bytes h = im.page[db.lost.back().page];
		std::fill(im.page[db.lost.back().page].begin(), im.page[db.lost.back().page].end(), 0);
		db.lost.back().page = im.add();
		im.page[im.next - 1] = h;
	}
	Bytes &c = im.page[0];
	std::copy_n("1CDBMSV8", 8, c.begin());
	static const uint8_t vv[6][4] = { { 8, 0, 3, 0 }, { 8, 0, 5, 0 }, { 8, 1, 0, 0 }, { 8, 2, 0, 0 }, { 8, 2, 14, 0 }, { 8, 3, 8, 0 } };
	for (int i = 0; i < 4; i++) c[8 + i] = vv[db.ver][i];
	db.pages = im.next;
	set32(c, 12, db.pages);
	set32(c, 16, 1);
	if (v838) set32(c, 20, ps);
	delete keep;
	Img out;
	out.data.reserve(im.page.size() * ps);
	if (!im.runs.empty()) {
		out.ps = ps;
		out.pages = im.next;
		for (auto &q : im.runs) if (!q.fill.empty()) {
			out.runs[q.first] = PRun{ q.n, out.data.size(), true };
			append(out.data, q.fill);
		}
	}
	for (auto &p : im.page) {
		if (p.second.size() != ps) harness_error("a page that was not allocated");
		if (out.ps) {
			PRun *last = nullptr;
			if (!out.runs.empty()) { auto it = out.runs.lower_bound(p.first); if (it != out.runs.begin()) { --it; if (it->first + it->second.n == p.first && !it->second.same) last = &it->second; } }
			if (last) last->n++; else out.runs[p.first] = PRun{ 1, out.data.size(), false };
		}
		append(out.data, p.second);
	}
	return out;
}

// ---------------------------------------------------------------- random content
string random_text(Rng &r, int maxlen, bool wild)
{
	static const char *const piece[] = { "a", "Z", "0", " ", "_", "ж", "Ю", "ё", "&", "<", ">", "'", "\"", "é", "世", "\xf0\x9f\x98\x80", "{", "}", ",", "\\", "%", ";" };
	string s;
	int used = 0;
	int n = r.range(0, maxlen);
	while (used < n) {
		const char *p = wild ? piece[r.below(22)] : piece[r.below(8)];
		int u = (unsigned char)*p >= 0xf0 ? 2 : 1;
		if (used + u > n) break;
		s += p;
		used += u;
	}
	return s;
}
string random_ident(Rng &r, int maxlen)
{
	static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
	string s;
	s += al[r.below(26)];
	int n = r.range(0, maxlen - 1);
	for (int i = 0; i < n; i++) s += al[r.below(36)];
	return s;
}
static Cell random_cell(Rng &r, const FieldDef &f, int size)
{
	if (f.null && r.pct(25)) return null_cell();
	if (f.type == "B") return raw_cell(r.pct(10) ? Bytes(f.len, 0) : r.bytes(f.len));
	if (f.type == "L") return raw_cell(Bytes(1, r.below(2)));
	if (f.type == "N") {
		string d;
		int n = r.range(1, f.len);
		bool nz = false;
		for (int i = 0; i < n; i++) { int q = r.pct(20) ? 0 : r.below(10); nz |= q != 0; d += char('0' + q); }
		return mkcell(f, (nz && r.pct(40) ? "-" : "") + d);
	}
	if (f.type == "NC" || f.type == "NVC") return mkcell(f, random_text(r, f.len, r.pct(50)));
	if (f.type == "RV") return raw_cell(r.bytes(16));
	if (f.type == "DT") {
		char b[32];
		snprintf(b, sizeof b, "%04u%02u%02u%02u%02u%02u", r.range(1000, 9999), r.range(1, 12), r.range(1, 28), r.below(24), r.below(60), r.below(60));
		return mkcell(f, b);
	}
	if (f.type == "VB") {
		uint32_t n = r.range(0, f.len);
		Bytes b;
		put16(b, n);
		append(b, r.bytes(f.len));
		return raw_cell(b);
	}
	// blobs: sizes around the 250-byte and page boundaries
	static const uint32_t edge[] = { 1, 2, 249, 250, 251, 500, 501, 750, 3999, 4096, 4250 };
	uint32_t n = r.pct(15) ? 0 : r.pct(35) ? edge[r.below(11)] : r.below(size > 1 && r.pct(6) ? 20000 : size && r.pct(40) ? 3000 : 600);
	if (f.type == "I") return blob_cell(r.bytes(n));
	if (f.type == "T") return blob_cell(B(random_text(r, n, r.pct(50))));
	string s = random_text(r, n / 2, r.pct(50));
	return blob_cell(utf16(s));
}
void random_record(Rng &r, TableDef &t, int size)
{
	Rec rec;
	for (auto &f : t.fields) rec.cells.push_back(random_cell(r, f, size));
	rec.hidden = r.bytes(8);
	t.recs.push_back(rec);
}
void make_indexes(Rng &r, TableDef &t, int n, bool primary)
{
	vector<size_t> can;
	for (size_t i = 0; i < t.fields.size(); i++) if (!t.fields[i].blob() && t.fields[i].type != "RV" && t.fields[i].size() <= 400) can.push_back(i);
	if (can.empty()) return;
	for (int k = 0; k < n; k++) {
		IndexDef ix;
		ix.name = "IX" + std::to_string(k) + random_ident(r, 4);
		ix.primary = primary && k == n - 1;
		int cols = r.range(1, std::min<int>(3, can.size()));
		for (int c = 0; c < cols; c++) {
			auto &f = t.fields[can[r.below(can.size())]];
			bool dup = false;
			for (auto &x : ix.cols) dup |= x.first == f.name;
			if (!dup) ix.cols.push_back({ f.name, f.size() });
		}
		t.indexes.push_back(ix);
	}
}
TableDef random_table(Rng &r, const string &name, int size)
{
	static const char *const types[] = { "B", "L", "N", "NC", "NVC", "RV", "NT", "T", "I", "DT", "VB" };
	TableDef t;
	t.name = name;
	int nf = r.range(1, size ? 9 : 5);
	bool rv = false;
	for (int i = 0; i < nf; i++) {
		FieldDef f;
		f.type = types[r.below(11)];
		if (f.type == "RV") { if (rv) f.type = "N"; rv = true; }
		f.name = random_ident(r, 8);
		if (r.pct(20)) f.name = "_" + f.name;
		if (f.type == "B" && r.pct(30)) f.name += r.pct(50) ? "REF" : "ID";
		for (auto &x : t.fields) if (x.name == f.name) f.name += std::to_string(i);
		f.null = f.type != "RV" && r.pct(30);
		if (f.type == "B" || f.type == "VB") f.len = r.pct(40) ? 16 : r.range(1, 40);
		else if (f.type == "N") { f.len = r.range(1, 20); f.prec = r.range(0, f.len); }
		else if (f.type == "NC" || f.type == "NVC") f.len = r.range(1, r.pct(20) ? 150 : 30);
		f.cs = r.pct(50);
		t.fields.push_back(f);
	}
	t.recordlock = r.pct(25);
	if (r.pct(15)) t.force_blob = true;
	int k = r.below(10);
	if (k < 3) {}
	else if (k < 8) make_indexes(r, t, r.range(1, 3), true);
	else make_indexes(r, t, r.range(1, 2), false);
	int n = r.pct(10) ? 0 : r.range(1, size == 0 ? 6 : size == 1 ? 40 : 400);
	if (r.pct(70)) { Rec z; z.removed = true; t.recs.push_back(z); } // record 0: head of the free records
	for (int i = 0; i < n; i++) {
		random_record(r, t, size);
		if (r.pct(12)) t.recs.back().removed = true;
	}
	// equal neighbours: index order must still be exact
	if (n > 2 && r.pct(20)) { t.recs.push_back(t.recs.back()); }
	return t;
}
DbDef random_db(Rng &r, Ver v, int size)
{
	DbDef db;
	db.ver = v;
	db.seed = r.next();
	if (v == V838) { static const uint32_t p[] = { 8192, 4096, 16384, 32768, 65536 }; db.pagesize = p[r.pct(60) ? 0 : r.below(size ? 5 : 3)]; }
	db.lang = r.pct(80) ? "ru_RU" : r.pct(50) ? "en_US" : "uk";
	if (v <= V805 && db.lang.size() > 7) db.lang.resize(7);
	int n = r.range(1, size ? 6 : 3);
	for (int i = 0; i < n; i++) {
		string nm = (r.pct(60) ? "_" : "") + random_ident(r, 12);
		for (auto &t : db.tables) if (t.name == nm) nm += std::to_string(i);
		db.tables.push_back(random_table(r, nm, r.pct(30) ? 0 : size));
	}
	if (r.pct(70)) db.frag = r.range(5, 100);
	if (r.pct(50)) db.gaps = r.range(5, 60);
	if (r.pct(40)) db.freepages = r.range(1, 12);
	if (r.pct(50)) db.index_fill = r.range(1, 6);
	return db;
}

} // namespace sim
