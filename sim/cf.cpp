// 1C containers (cf and nested ones): independent writer and reader.
#include "db.h"
#include <algorithm>
#include <cstring>
#include <map>
#include <zlib.h>

namespace sim {

Bytes deflate(const Bytes &b, int level)
{
	z_stream z;
	memset(&z, 0, sizeof z);
	if (deflateInit2(&z, level, Z_DEFLATED, -15, 8, Z_DEFAULT_STRATEGY) != Z_OK) harness_error("deflateInit2");
	Bytes out(deflateBound(&z, b.size()) + 64);
	z.next_in = (Bytef *)b.data(); z.avail_in = b.size();
	z.next_out = out.data(); z.avail_out = out.size();
	if (::deflate(&z, Z_FINISH) != Z_STREAM_END) harness_error("deflate");
	out.resize(z.total_out);
	deflateEnd(&z);
	return out;
}
bool inflate(const Bytes &b, Bytes &out)
{
	z_stream z;
	memset(&z, 0, sizeof z);
	if (inflateInit2(&z, -15) != Z_OK) harness_error("inflateInit2");
	z.next_in = (Bytef *)b.data(); z.avail_in = b.size();
	out.clear();
	Bytes buf(65536);
	int rc;
	do {
		z.next_out = buf.data(); z.avail_out = buf.size();
		rc = ::inflate(&z, Z_NO_FLUSH);
		out.insert(out.end(), buf.begin(), buf.begin() + (buf.size() - z.avail_out));
	} while (rc == Z_OK && (z.avail_in || !z.avail_out));
	inflateEnd(&z);
	return rc == Z_STREAM_END;
}

struct CfOut {
	Bytes b;
	CfLayout *l;
	// appends a block header with data; returns its offset
	size_t piece(const Bytes &d, size_t from, size_t n, size_t page, uint32_t total)
	{
		size_t at = b.size();
		char h[40];
		snprintf(h, sizeof h, "\r\n%08x %08x %08x \r\n", total, (unsigned)page, 0x7fffffffu);
		b.insert(b.end(), h, h + 31);
		b.insert(b.end(), d.begin() + from, d.begin() + from + n);
		b.resize(at + 31 + page);
		return at;
	}
	void link(size_t at, size_t next)
	{
		char h[16];
		snprintf(h, sizeof h, "%08x", (unsigned)next);
		memcpy(&b[at + 20], h, 8);
	}
};
Bytes mkcf(const vector<CfNode> &kids, bool zipped, CfLayout *l)
{
	CfOut o;
	o.l = l;
	put32(o.b, 0x7fffffff);
	put32(o.b, l ? l->page : 512);
	put32(o.b, kids.size() & 0xff);
	put32(o.b, 0);
	Bytes fat(kids.size() * 12);
	struct Doc { Bytes d; bool fat; size_t pagemin; vector<std::pair<size_t, size_t>> cut; size_t first = 0, prev = 0; };
	vector<Doc> docs;
	docs.push_back({ fat, true, l ? l->page : 512, {} });
	for (auto &k : kids) {
		Bytes h;
		put64(h, k.created); put64(h, k.modified); put32(h, 0);
		append(h, utf16(k.name));
		put32(h, 0);
		docs.push_back({ h, false, 0, {} });
		Bytes d = k.dir ? mkcf(k.kids, false, l) : k.data;
		docs.push_back({ zipped ? deflate(d) : d, false, 0, {} });
	}
	// cut the documents into chained blocks
	for (auto &d : docs) {
		size_t at = 0;
		int guard = 0;
		while (l && l->r && l->frag && l->r->pct(l->frag) && d.d.size() - at > 1 && guard++ < 6) {
			size_t n = 1 + l->r->below(d.d.size() - at - 1);
			d.cut.push_back({ at, n });
			at += n;
		}
		d.cut.push_back({ at, d.d.size() - at });
	}
	// the FAT's first block comes right after the file header; all other blocks in random order of documents
	vector<std::pair<size_t, size_t>> order;
	vector<size_t> nextcut(docs.size(), 0);
	order.push_back({ 0, 0 });
	nextcut[0] = 1;
	for (;;) {
		vector<size_t> can;
		for (size_t i = 0; i < docs.size(); i++) if (nextcut[i] < docs[i].cut.size()) can.push_back(i);
		if (can.empty()) break;
		size_t pick = l && l->r && l->frag ? can[l->r->below(can.size())] : can[0];
		order.push_back({ pick, nextcut[pick]++ });
	}
	size_t freelist = 0x7fffffff;
	for (auto &q : order) {
		Doc &d = docs[q.first];
		auto c = d.cut[q.second];
		bool last = q.second + 1 == d.cut.size();
		size_t page = c.second;
		if (q.first == 0 && last) page = std::max(page, d.pagemin);
		else if (last && l && l->r && l->frag && l->r->pct(30)) page += l->r->below(40);
		if (l && l->holes && l->r && q.second + q.first > 0 && l->r->pct(20)) { // a free block
			Bytes junk = l->r->bytes(l->r->below(60));
			size_t at = o.piece(junk, 0, junk.size(), junk.size(), 0x7fffffff);
			o.link(at, freelist);
			freelist = at;
		}
		size_t at = o.piece(d.d, c.first, c.second, page, q.second ? 0 : d.d.size());
		if (q.second) o.link(d.prev, at); else d.first = at;
		d.prev = at;
	}
	set32(o.b, 0, freelist);
	// fill in the FAT
	for (size_t i = 0; i < kids.size(); i++) {
		set32(fat, i * 12, docs[1 + 2 * i].first);
		set32(fat, i * 12 + 4, docs[2 + 2 * i].first);
		set32(fat, i * 12 + 8, 0x7fffffff);
	}
	size_t at = 16, pos = 0;
	for (auto &c : docs[0].cut) {
		std::copy(fat.begin() + c.first, fat.begin() + c.first + c.second, o.b.begin() + at + 31);
		pos += c.second;
		at = strtoul(string(o.b.begin() + at + 20, o.b.begin() + at + 28).c_str(), nullptr, 16);
	}
	return o.b;
}

struct CfIn {
	const Bytes &b;
	string err;
	std::map<size_t, size_t> used; // start -> end of blocks seen
	bool head(size_t at, uint32_t &total, uint32_t &page, uint32_t &next)
	{
		if (at < 16 || at + 31 > b.size()) { err = fmt("block at %zu is outside the container of %zu bytes", at, b.size()); return false; }
		auto p = &b[at];
		if (p[0] != 13 || p[1] != 10 || p[10] != ' ' || p[19] != ' ' || p[28] != ' ' || p[29] != 13 || p[30] != 10) { err = fmt("block header at %zu is malformed", at); return false; }
		uint32_t v[3] = {};
		for (int k = 0; k < 3; k++) for (int i = 0; i < 8; i++) {
			int c = p[2 + 9 * k + i];
			int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
			if (d < 0) { err = fmt("block header at %zu has a bad digit", at); return false; }
			v[k] = v[k] << 4 | d;
		}
		total = v[0]; page = v[1]; next = v[2];
		if (at + 31 + (size_t)page > b.size()) { err = fmt("block at %zu of %u bytes ends outside the container of %zu bytes", at, page, b.size()); return false; }
		if (used.count(at)) { err = fmt("block at %zu is used twice", at); return false; }
		used[at] = at + 31 + page;
		return true;
	}
};
CfRead rdcf(const Bytes &b, bool zipped)
{
	CfRead r;
	if (b.size() < 16) { r.error = "shorter than a header"; return r; }
	r.storage_ver = get32(b, 8);
	if (b.size() == 16) { if (get32(b, 0) != 0x7fffffff) r.error = "free list in an empty container"; return r; }
	CfIn in{ b, "", {} };
	auto doc = [&](size_t at, Bytes &out) {
		uint32_t total = 0, t, page, next;
		bool first = true;
		out.clear();
		size_t cur = at;
		do {
			if (!in.head(cur, t, page, next)) return false;
			if (first) total = t;
			first = false;
			size_t n = std::min<size_t>(page, total - out.size());
			out.insert(out.end(), b.begin() + cur + 31, b.begin() + cur + 31 + n);
			cur = next;
		} while (cur != 0x7fffffff);
		if (out.size() != total) { in.err = fmt("document at %zu holds %zu bytes of %u", at, out.size(), total); return false; }
		return true;
	};
	Bytes fat;
	if (!doc(16, fat)) { r.error = "table of contents: " + in.err; return r; }
	if (fat.size() % 12) { r.error = "table of contents is not whole"; return r; }
	std::set<string> names;
	for (size_t i = 0; i < fat.size(); i += 12) {
		if (get32(fat, i + 8) != 0x7fffffff) { r.error = "table of contents entry is malformed"; return r; }
		CfNode n;
		Bytes h;
		if (!doc(get32(fat, i), h)) { r.error = "file header: " + in.err; return r; }
		if (h.size() < 24 || get32(h, h.size() - 4)) { r.error = "file header is malformed"; return r; }
		n.created = get64(h, 0); n.modified = get64(h, 8);
		n.name = utf8(Bytes(h.begin() + 20, h.end() - 4));
		if (get32(fat, i + 4) == 0x7fffffff || get32(fat, i + 4) == 0) {}
		else {
			Bytes d;
			if (!doc(get32(fat, i + 4), d)) { r.error = n.name + ": " + in.err; return r; }
			if (zipped) { if (!inflate(d, n.data)) { r.error = n.name + ": not a deflate stream"; return r; } }
			else n.data = d;
		}
		if (!names.insert(n.name).second) { r.error = "two files named " + n.name; return r; }
		r.files.push_back(n);
	}
	// free blocks
	uint32_t f = get32(b, 0), t, page, next;
	while (f != 0x7fffffff) {
		if (!in.head(f, t, page, next)) { r.error = "free list: " + in.err; return r; }
		f = next;
	}
	size_t end = 16;
	for (auto &u : in.used) {
		if (u.first < end) { r.error = fmt("blocks overlap at %zu", u.first); return r; }
		end = u.second;
	}
	return r;
}

} // namespace sim
