// C07: configuration containers through the library's own interface.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include "V8Catalog.h"
#include "V8File.h"
#include "TV8FileStream.h"

using System::Classes::TMemoryStream;
using System::Classes::TStream;

namespace sim {

namespace {
struct MNode {
	string name;
	bool cat = false;
	Bytes data;
	uint64_t cre = 0, mod = 0; // V8 time
	vector<std::unique_ptr<MNode>> kids;
	MNode *kid(const string &n) { for (auto &k : kids) if (lower(k->name) == lower(n)) return k.get(); return nullptr; }
	size_t at(MNode *k) { for (size_t i = 0; i < kids.size(); i++) if (kids[i].get() == k) return i; return ~0; }
};
struct Cat {
	MNode root;
	string path;      // "" for a container in a stream
	bool zipped = false, cfu = false;
	std::unique_ptr<TMemoryStream> mem;
	std::unique_ptr<V8Catalog> cat;
	int64_t zone = 0;
	int nops = 0;

	uint64_t now() const { return (uint64_t)((S->now_ns / 100000 + zone * 10000) + 62135596800ll * 10000); }
	static uint64_t ft64(const System::FILETIME &f) { uint64_t v; memcpy(&v, &f, 8); return v; }
	uint64_t v8(const System::FILETIME &f) const { return (int64_t)ft64(f) / 1000 + zone * 10000 + 504911232000000ll; }
	System::FILETIME ft(uint64_t v) const { int64_t x = ((int64_t)v - 504911232000000ll - zone * 10000) * 1000; System::FILETIME f; memcpy(&f, &x, 8); return f; }
	void touched(V8File *f, MNode *m, uint64_t before, bool create)
	{
		uint64_t t = v8(f->get_time_modify()), after = now();
		if (after < before) std::swap(before, after); // the clock was set back
		if (t + 10000 < before || t > after) fail("wrong-time", fmt("file %s: its time of change is %lld, the clock showed %lld to %lld", m->name.c_str(), (long long)t, (long long)before, (long long)after));
		m->mod = t;
		if (create) {
			t = v8(f->get_time_create());
			if (t + 10000 < before || t > after) fail("wrong-time", fmt("file %s: its time of creation is %lld, the clock showed %lld to %lld", m->name.c_str(), (long long)t, (long long)before, (long long)after));
			m->cre = t;
		}
	}
	void open()
	{
		if (path.empty()) {
			cat.reset(new V8Catalog(mem.get(), zipped, true));
		} else if (draw(2, "kind from the name")) cat.reset(new V8Catalog(path));
		else if (cfu) cat.reset(new V8Catalog(path));
		else cat.reset(new V8Catalog(path, zipped));
		if (!cat->isOpen()) fail("open-failed", "the container is not recognised");
	}
	static bool vet(const MNode &m, const vector<CfNode> &files, const string &what, string &cls, string &msg)
	{
		std::map<string, const CfNode *> have;
		for (auto &f : files) have[f.name] = &f;
		for (auto &k : m.kids) {
			string p = what + "/" + k->name;
			auto it = have.find(k->name);
			if (it == have.end()) { cls = "missing-file"; msg = p + " is missing"; return false; }
			const CfNode &f = *it->second;
			if (f.created != k->cre || f.modified != k->mod) { cls = "wrong-time"; msg = fmt("%s: times %lld %lld instead of %lld %lld", p.c_str(), (long long)f.created, (long long)f.modified, (long long)k->cre, (long long)k->mod); return false; }
			if (k->cat) {
				CfRead c = rdcf(f.data, false);
				if (!c.error.empty()) { cls = "broken-structure"; msg = p + ": " + c.error; return false; }
				if (!vet(*k, c.files, p, cls, msg)) return false;
			} else if (f.data != k->data) { cls = "wrong-contents"; msg = p + ": " + diff_bytes(f.data, k->data); return false; }
			have.erase(it);
		}
		if (!have.empty()) { cls = "wrong-contents"; msg = what + "/" + have.begin()->first + " should not be there"; return false; }
		return true;
	}
	// what is stored, as an independent reader sees it
	void check_stored(const string &when)
	{
		Bytes raw;
		if (path.empty()) { raw.resize(mem->GetSize()); if (!raw.empty()) memcpy(raw.data(), mem->GetMemory(), raw.size()); }
		else raw = fs_read(path);
		if (cfu) { Bytes x; if (!inflate(raw, x)) fail("broken-structure", when + ": the file is not a deflate stream"); raw = x; }
		CfRead c = rdcf(raw, zipped);
		if (!c.error.empty()) fail("broken-structure", when + ": " + c.error);
		string cls, msg;
		if (!vet(root, c.files, when, cls, msg)) fail(cls, msg);
		probe("containers checked");
		state(hash64(raw));
	}
	void check_api(V8Catalog *c, MNode &m, const string &what)
	{
		std::set<string> names;
		for (V8File *f = c->get_first(); f; f = f->get_next()) {
			if (!names.insert(f->get_file_name()).second) fail("wrong-contents", what + " lists " + f->get_file_name() + " twice");
			if (names.size() > m.kids.size()) break;
		}
		for (auto &k : m.kids) if (!names.count(k->name)) fail("missing-file", what + " does not list " + k->name);
		if (names.size() != m.kids.size()) fail("wrong-contents", what + " lists files that are not there");
		for (auto &k : m.kids) {
			V8File *f = c->get_file(draw(3, "case") == 1 ? lower(k->name) : k->name);
			if (!f) fail("missing-file", what + "/" + k->name + " is not found");
			check_file(f, *k, what);
		}
	}
	void check_file(V8File *f, MNode &k, const string &what)
	{
		string p = what + "/" + k.name;
		if (v8(f->get_time_create()) / 10000 != k.cre / 10000 || v8(f->get_time_modify()) / 10000 != k.mod / 10000) fail("wrong-time", p + ": times differ from those given");
		if (f->is_catalog() != k.cat) fail("wrong-contents", p + (k.cat ? " is not seen as a catalog" : " is seen as a catalog"));
		if (k.cat) {
			V8Catalog *s = f->get_catalog();
			if (!s) fail("wrong-contents", p + " has no catalog");
			check_api(s, k, p);
			return;
		}
		if (f->get_catalog()) fail("wrong-contents", p + " has a catalog");
		size_t n = f->get_file_length();
		if (n != k.data.size()) fail("wrong-length", p + fmt(": length %zu instead of %zu", n, k.data.size()));
		Bytes b(n + 3, 0xEE);
		size_t got;
		if (draw(4, "read by") == 1) {
			TMemoryStream s;
			f->save_to_stream(&s);
			got = s.GetSize();
			if (got == n && n) memcpy(b.data(), s.GetMemory(), n);
		} else got = f->read(b.data(), 0, n);
		b.resize(n);
		if (got != n) fail("wrong-length", p + fmt(": %zu bytes read of %zu", got, n));
		if (b != k.data) fail("wrong-contents", p + ": " + diff_bytes(b, k.data));
		if (n) {
			size_t a = draw(n, "read from"), l = draw(n - a + 4, "read length"), w = std::min(l, n - a);
			Bytes c(l + 1, 0xEE);
			size_t g = f->read(c.data(), a, l);
			if (g != w || (w && memcmp(c.data(), &k.data[a], w))) fail("wrong-contents", p + fmt(": reading %zu bytes at %zu gave %zu or other bytes", l, a, g));
		}
	}
	Bytes content(Rng &r)
	{
		static const int sz[] = { 0, 1, 2, 15, 16, 31, 47, 100, 480, 481, 511, 512, 513, 1024, 2000, 5000, 70000 };
		size_t n = sz[draw(17, "size")];
		if (n > 4 && draw(3, "odd size")) n += r.below(n / 4 + 1);
		Bytes b = draw(2, "text") ? r.text(n) : r.bytes(n);
		b.resize(n);
		if (n > 4) b[4] = 'x'; // no container header
		return b;
	}
	string fresh_name(MNode &m, Rng &r)
	{
		for (;;) {
			string n;
			switch (r.below(5)) {
			case 0: n = random_guid(r); break;
			case 1: n = "f" + std::to_string(r.below(30)); break;
			case 2: n = "Имя " + random_ident(r, 9); break;
			case 3: n = random_ident(r, 3); break;
			default: n = random_ident(r, 120);
			}
			if (!m.kid(n)) return n;
		}
	}
	void write_data(V8File *f, MNode *m, Rng &r)
	{
		uint64_t t0 = now();
		int k = pick_weighted({ 4, 3, 3, 3, 2, 2 }, "write by");
		Bytes b = content(r);
		if (k == 5) { // through a stream of the file, in pieces
			TV8FileStream *s = f->get_stream();
			size_t at = draw(m->data.size() + 1, "stream at");
			s->Seek(at, System::Classes::soFromBeginning);
			size_t half = b.size() / 2;
			s->Write(b.data(), half);
			s->Write(b.data() + half, b.size() - half);
			if (m->data.size() < at + b.size()) m->data.resize(at + b.size());
			std::copy(b.begin(), b.end(), m->data.begin() + at);
			if (b.size() > 2) {
				s->Seek(-(int64_t)b.size(), System::Classes::soFromCurrent);
				Bytes c(b.size());
				size_t g = s->Read(c.data(), c.size());
				if (g != c.size() || c != b) fail("wrong-contents", m->name + ": its stream gives other bytes than were written");
			}
			delete s;
			touched(f, m, t0, false);
		} else if (k == 0) { f->write(b.data(), (int)b.size()); m->data = b; touched(f, m, t0, false); }
		else if (k == 1) { TMemoryStream s; s.Write(b.data(), b.size()); f->write(&s); m->data = b; touched(f, m, t0, false); }
		else if (k == 4) { TMemoryStream s; s.Write(b.data(), b.size()); f->write_and_close(&s); m->data = b; }
		else {
			size_t at = draw(3, "append") ? draw(m->data.size() + 1, "write at") : m->data.size();
			if (b.empty()) return;
			if (k == 2) f->write(b.data(), at, b.size());
			else { TMemoryStream s; s.Write(b.data(), b.size()); s.Seek(0, System::Classes::soFromBeginning); f->write(&s, at, b.size()); }
			if (m->data.size() < at + b.size()) m->data.resize(at + b.size());
			std::copy(b.begin(), b.end(), m->data.begin() + at);
			touched(f, m, t0, false);
		}
	}
	void check_dir(const string &dir, MNode &m)
	{
		std::set<string> n;
		for (auto &f : fs_list(dir)) n.insert(f);
		for (auto &k : m.kids) {
			string p = dir + "/" + k->name;
			if (!n.count(k->name)) fail("missing-file", p + " was not saved");
			n.erase(k->name);
			if (k->cat) { if (!fs_is_dir(p)) fail("wrong-contents", p + " is no directory"); check_dir(p, *k); continue; }
			Bytes b = fs_read(p);
			if (b != k->data) fail("wrong-contents", p + ": " + diff_bytes(b, k->data));
			int64_t want = ((int64_t)k->mod - 504911232000000ll) / 10000 - 11644473600ll - zone;
			if (fs_mtime(p) != want) fail("wrong-time", fmt("%s: saved with time %lld instead of %lld", p.c_str(), (long long)fs_mtime(p), (long long)want));
		}
		if (!n.empty()) fail("wrong-contents", dir + "/" + *n.begin() + " is in no container");
	}
	void op(Rng &r)
	{
		// where
		V8Catalog *c = cat.get();
		MNode *m = &root;
		string where;
		int depth = 0;
		for (; depth < 3; depth++) {
			vector<MNode *> subs;
			for (auto &k : m->kids) if (k->cat) subs.push_back(k.get());
			if (subs.empty() || !draw(2, "descend")) break;
			MNode *s = subs[draw(subs.size(), "which catalog")];
			V8File *f = c->get_file(s->name);
			if (!f) fail("missing-file", s->name + " is not found");
			c = f->get_catalog();
			if (!c) fail("wrong-contents", s->name + " is not seen as a catalog");
			m = s;
			where += s->name + "/";
		}
		vector<MNode *> plain;
		for (auto &k : m->kids) if (!k->cat) plain.push_back(k.get());
		int k = pick_weighted({ 8, 6, 4, 3, 3, 2, 2, 3, 2, 2, 1, 1 }, "operation");
		if (k == 1 && plain.empty()) k = 0;
		if ((k == 3 || k == 5 || k == 6 || k == 9) && m->kids.empty()) k = 0;
		MNode *any = m->kids.empty() ? nullptr : m->kids[draw(m->kids.size(), "file")].get();
		uint64_t t0 = now();
		trace("container operation %d in %s", k, where.c_str());
		switch (k) {
		case 0: { // a new file
			auto n = std::make_unique<MNode>();
			n->name = fresh_name(*m, r);
			V8File *f = c->createFile(n->name);
			touched(f, n.get(), t0, true);
			if (draw(6, "leave empty")) write_data(f, n.get(), r);
			m->kids.push_back(std::move(n));
			probe("files created");
			break;
		}
		case 1: {
			MNode *p = plain[draw(plain.size(), "which file")];
			V8File *f = draw(2, "by") ? c->get_file(p->name) : c->createFile(p->name);
			if (!f) fail("missing-file", p->name + " is not found");
			write_data(f, p, r);
			probe("files rewritten");
			break;
		}
		case 2: { // a new catalog
			if (depth > 2) break;
			auto n = std::make_unique<MNode>();
			n->name = fresh_name(*m, r);
			n->cat = true;
			if (draw(3, "ready-made catalog") == 1) { // written as a whole
				vector<CfNode> kids;
				for (int i = r.below(4); i > 0; i--) { CfNode x; x.name = "r" + std::to_string(i); x.data = r.text(r.below(700)); x.created = 634000000000000ull + r.below(100000) * 10000; x.modified = x.created + 777; kids.push_back(x); }
				Bytes img = mkcf(kids, false);
				V8File *f = c->createFile(n->name);
				if (draw(2, "looked at before")) f->is_catalog();
				f->write(img.data(), (int)img.size());
				touched(f, n.get(), t0, true);
				for (auto &x : kids) { auto q = std::make_unique<MNode>(); q->name = x.name; q->data = x.data; q->cre = x.created; q->mod = x.modified; n->kids.push_back(std::move(q)); }
			} else {
				V8Catalog *s = c->CreateCatalog(n->name);
				if (!s) fail("refused-write", "no catalog was created");
				V8File *f = c->get_file(n->name);
				if (!f) fail("missing-file", n->name + " is not found");
				touched(f, n.get(), t0, true);
			}
			m->kids.push_back(std::move(n));
			probe("catalogs created");
			break;
		}
		case 3: { // delete
			if (draw(2, "delete by")) c->delete_file(draw(3, "case") == 1 ? lower(any->name) : any->name);
			else { V8File *f = c->get_file(any->name); if (!f) fail("missing-file", any->name + " is not found"); f->delete_file(); delete f; }
			string gone = any->name;
			m->kids.erase(m->kids.begin() + m->at(any));
			if (c->get_file(gone)) fail("wrong-contents", gone + " is found after it was deleted");
			probe("files deleted");
			break;
		}
		case 4: // read everything here
			check_api(c, *m, where);
			if (c->get_file(fresh_name(*m, r))) fail("wrong-contents", "a file that does not exist is found");
			break;
		case 5: { // rename
			V8File *f = c->get_file(any->name);
			if (!f) fail("missing-file", any->name + " is not found");
			string old = any->name, n = fresh_name(*m, r);
			f->set_file_name(n);
			any->name = n;
			if (c->get_file(old)) fail("wrong-contents", old + " is found after it was renamed");
			if (c->get_file(n) != f) fail("missing-file", n + " is not found after a file got this name");
			probe("files renamed");
			break;
		}
		case 6: { // times
			V8File *f = c->get_file(any->name);
			if (!f) fail("missing-file", any->name + " is not found");
			uint64_t a = 633000000000000ull + r.below(1u << 30) * 10000ull, b = a + r.below(100000000);
			if (draw(2, "as")) { b -= b % 10000; f->set_time_create(ft(a)); f->set_time_modify(ft(b)); }
			else { f->set_time_create(V8Time(a)); f->set_time_modify(V8Time(b)); }
			any->cre = a;
			any->mod = b;
			// times alone are not a change that is stored; a write that keeps them is
			if (!any->cat) { TMemoryStream s; s.Write(any->data.data(), any->data.size()); f->write_and_close(&s); }
			else { string n = fresh_name(*m, r); f->set_file_name(n); any->name = n; }
			probe("times set");
			break;
		}
		case 7: // flush
			cat->Flush();
			check_stored("flushed");
			probe("flushes");
			break;
		case 8: { // close one file
			if (!any) break;
			V8File *f = c->get_file(any->name);
			if (!f) fail("missing-file", any->name + " is not found");
			if (draw(2, "flush only")) f->flush(); else f->close();
			break;
		}
		case 9: { // save to a directory
			string d = fmt("/sim/w/out%d", nops);
			cat->SaveToDir(d);
			check_dir(d, root);
			probe("saved to directories");
			break;
		}
		case 10:
			if (path.empty() || cfu) break;
			cat->HalfClose();
			check_stored("half closed");
			cat->HalfOpen(path);
			probe("half closed");
			break;
		case 11: reopen(); break;
		}
	}
	void reopen()
	{
		cat.reset();
		check_stored("closed");
		open();
		if (draw(2, "look after opening")) check_api(cat.get(), root, "");
		probe("reopenings");
	}
};
}

void c07()
{
	gen_env();
	Cat x;
	static const int64_t zone[] = { 0, 3 * 3600, -34200 };
	x.zone = zone[S->tz];
	int kind = pick_weighted({ 4, 2, 2, 3 }, "container");
	static const char *const names[3][3] = { { "a.cf", "b.EPF", "c.erf" }, { "a.cfu", "b.CFU", "a.cfu" }, { "a.bin", "b", "c.x.y" } };
	if (kind < 3) x.path = string("/sim/w/") + names[kind][draw(3, "file name")];
	x.zipped = kind == 0 || (kind == 3 && draw(2, "zipped"));
	x.cfu = kind == 1;
	Bytes start;
	bool existing = draw(2, "existing container");
	if (existing) {
		Rng r(draw(1u << 30, "container seed"));
		vector<CfNode> kids;
		int n = r.below(6);
		auto mk = [&](const string &nm) { CfNode c; c.name = nm; c.data = r.pct(50) ? r.text(r.below(1200)) : r.bytes(r.below(r.pct(10) ? 20000 : 900)); if (c.data.size() > 4) c.data[4] = 'x'; c.created = 634000000000000ull + r.below(1u << 30) * 10000ull + r.below(10000); c.modified = c.created + r.below(1000000); return c; };
		auto model = [&](MNode &m, const CfNode &c) { auto q = std::make_unique<MNode>(); q->name = c.name; q->data = c.data; q->cre = c.created; q->mod = c.modified; q->cat = c.dir; m.kids.push_back(std::move(q)); return m.kids.back().get(); };
		for (int i = 0; i < n; i++) {
			CfNode c = mk(i % 2 ? random_guid(r) : "file" + std::to_string(i));
			if (r.pct(25)) { c.dir = true; c.data.clear(); for (int k = r.below(4); k > 0; k--) c.kids.push_back(mk("s" + std::to_string(k))); }
			MNode *m = model(x.root, c);
			for (auto &k : c.kids) model(*m, k);
			kids.push_back(c);
		}
		CfLayout l;
		l.r = &r;
		l.frag = r.pct(60) ? r.range(10, 90) : 0;
		l.holes = r.pct(50);
		start = mkcf(kids, x.zipped, &l);
		if (x.path.empty()) {}
		else fs_put(x.path, x.cfu ? deflate(start) : start);
	}
	uint32_t n = 1 + draw(40, "operations");
	Rng r(draw(1u << 30, "operation seed"));
	Result res = run_instance([&] {
		if (x.path.empty()) { x.mem.reset(new TMemoryStream); if (!start.empty()) x.mem->Write(start.data(), start.size()); }
		try {
			x.open();
			if (existing) x.check_api(x.cat.get(), x.root, "existing");
			for (uint32_t i = 0; i < n; i++) { x.nops = i; x.op(r); }
			x.reopen();
			x.check_api(x.cat.get(), x.root, "at the end");
			x.cat.reset();
			x.check_stored("closed at the end");
		}
		catch (std::exception &e) { fail("unexpected-error", string("an operation failed: ") + e.what()); }
		return 0;
	}, gen_benign());
	need_no_crash(res, "container");
	if (res.code) harness_error("unexpected status");
	check_no_escape();
	check_tmp_clean("container");
}

} // namespace sim
