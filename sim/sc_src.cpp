// C21: the files of a configuration read (and written) by their paths, whatever holds the configuration.
#include "world.h"
#include <algorithm>
#include <cstring>
#include <memory>
#include "Class_1CD.h"
#include "Table.h"
#include "V8Object.h"
#include "ConfigStorage.h"

using System::Classes::TMemoryStream;

namespace sim {

namespace {
// what is in a container, all the way down
void descend(CfNode &n, int depth = 0)
{
	if (depth > 8 || n.data.size() < 16) return;
	if (n.data.size() < 18 ? memcmp(n.data.data(), "\xff\xff\xff\x7f", 4) : memcmp(n.data.data() + 16, "\r\n", 2)) return;
	CfRead c = rdcf(n.data, false);
	if (!c.error.empty()) return;
	n.kids = c.files;
	n.dir = true;
	for (auto &k : n.kids) descend(k, depth + 1);
}
CfNode *kid(CfNode &n, const string &name)
{
	for (auto &k : n.kids) if (lower(k.name) == lower(name)) return &k;
	return nullptr;
}
struct Held { ConfigFile *cf; string top; Bytes want; string what; };
struct Source {
	string what;
	int kind; // 0 table, 1 container, 2 directory
	CfNode tree;
	std::unique_ptr<ConfigStorage> st;
	vector<Held> held;
	bool written = false;
};
string respelled(const string &s, bool fold)
{
	string r = s;
	if (fold) switch (draw(4, "letter case")) {
	case 1: r = lower(r); break;
	case 2: for (auto &c : r) if (c >= 'a' && c <= 'z') c -= 32; break;
	}
	return r;
}
uint64_t failures()
{
	uint64_t n = 0;
	for (auto &f : S->inst[S->cur].faults) if (f.kind == FaultRule::ERR) n += f.fired;
	return n;
}

struct Reader {
	vector<Source> src;
	Rng rng{ 1 };

	void compare(const Held &h, bool whole)
	{
		auto *s = h.cf->str;
		if (s->GetSize() != (int64_t)h.want.size()) fail("wrong-contents", fmt("%s: %lld bytes, not %zu", h.what.c_str(), (long long)s->GetSize(), h.want.size()));
		size_t at = 0;
		if (!whole) { at = h.want.empty() ? 0 : draw(h.want.size(), "read at"); s->Seek((long long)at, System::Classes::soBeginning); }
		Bytes got;
		while (at + got.size() < h.want.size()) {
			size_t k = 1 + (draw(3, "read in parts") == 2 ? draw(700, "part") : h.want.size());
			Bytes b(k);
			uint64_t before = failures();
			int64_t n = s->Read(b.data(), k);
			if (n < (int64_t)std::min(k, h.want.size() - at - got.size()) && failures() != before) throw 1;
			if (n <= 0) break;
			got.insert(got.end(), b.begin(), b.begin() + n);
		}
		Bytes w(h.want.begin() + at, h.want.end());
		if (got != w) fail("wrong-contents", h.what + ": " + diff_bytes(got, w));
		probe("files compared");
	}
	// once storage fails, reading may fail with it, and is tried again
	void check(const Held &h, bool whole)
	{
		for (int tries = 0; tries < 60; tries++) {
			uint64_t before = failures();
			string err;
			try { if (tries) h.cf->str->Seek((long long)0, System::Classes::soBeginning); compare(h, whole); return; }
			catch (std::exception &e) { err = e.what(); }
			catch (...) { err = "an exception"; }
			if (failures() == before) fail("refused-read", h.what + ": " + err);
			probe("reads failed by the storage");
		}
	}
	void release(Source &s, size_t i)
	{
		Held h = s.held[i];
		s.held.erase(s.held.begin() + i);
		uint64_t before = failures();
		try { s.st->close(h.cf); }
		catch (...) { if (failures() == before) fail("refused-read", h.what + ": closing"); }
	}
	// a path of something there is, or (want null) is not
	string path(Source &s, CfNode *&want, string &top)
	{
		CfNode *n = &s.tree;
		string p;
		bool fold = s.kind != 2;
		uint32_t miss = draw(5, "missing") == 4 ? 1 + draw(3, "how") : 0;
		for (;;) {
			if (n->kids.empty()) break;
			CfNode *k = &n->kids[draw(n->kids.size(), "file")];
			string nm = respelled(k->name, fold);
			if (n == &s.tree) top = lower(k->name);
			p += (p.empty() ? "" : fold && draw(2, "separator") ? "\\" : "/") + nm;
			n = k;
			if (!n->dir || draw(4, "stop") == 3) break;
		}
		want = n == &s.tree ? nullptr : n;
		if (miss || !want) {
			static const char *const absent[] = { "deleted", "empty1", "no such file", "x" };
			if (p.empty() || miss == 1) { // another name at the end
				size_t at = p.find_last_of("/\\");
				CfNode *up = &s.tree;
				string a = absent[draw(4, "absent")];
				if (at != string::npos) { a += "~"; p = p.substr(0, at + 1) + a; }
				else { p = a; if (kid(*up, p)) { p += "~"; } top = lower(p); }
			} else if (miss == 2) { if (!want->dir && s.kind == 2) p += "~"; else p += want->dir ? "/no~such" : "/x"; }
			else { p += "~"; if (n != &s.tree && p.find_first_of("/\\") == string::npos) top = lower(p); }
			want = nullptr;
		}
		return p;
	}
	void op()
	{
		Source &s = src[draw(src.size(), "source")];
		string err;
		switch (pick_weighted({ 8, 2, 3, 2, 1, s.kind ? 3u : 0u }, "operation")) {
		case 0: { // read
			CfNode *want = nullptr;
			string top, p = path(s, want, top);
			for (auto &h : s.held) if (h.top == top) return; // one handle per file
			if (want && want->dir && s.kind != 0) return;
			string what = s.what + ", file " + p;
			ConfigFile *cf = nullptr;
			for (int tries = 0;; tries++) {
				uint64_t before = failures();
				bool threw = false;
				try { cf = s.st->readfile(p); }
				catch (std::exception &e) { threw = true; err = e.what(); }
				catch (...) { threw = true; err = "an exception"; }
				bool failed = failures() != before;
				if (failed) probe("reads failed by the storage");
				if (!threw && (cf || !failed)) break;
				if (!failed) fail("refused-read", what + ": " + err);
				if (tries > 60) return;
			}
			if (!want) {
				if (cf) fail("read-missing", what + " is not there, yet it was read");
				probe("missing files");
				return;
			}
			if (!cf) fail("missing-file", what + " was not found");
			Held h{ cf, top, want->data, what };
			s.held.push_back(h);
			check(h, true);
			if (p.find_first_of("/\\") != string::npos) probe("nested files");
			if (draw(3, "keep open") != 2) release(s, s.held.size() - 1); else probe("files kept open");
			break;
		}
		case 1: if (!s.held.empty()) { size_t i = draw(s.held.size(), "held"); check(s.held[i], false); } break;
		case 2: if (!s.held.empty()) release(s, draw(s.held.size(), "held")); break;
		case 3: { // existence: of the first part of the path only
			CfNode *want = nullptr;
			string top, p = path(s, want, top);
			bool have = s.st->fileexists(p), there = s.kind == 2 ? want != nullptr : kid(s.tree, top) != nullptr;
			if (have != there) fail("wrong-existence", s.what + ": " + p + (there ? " is said not to exist" : " is said to exist"));
			probe("existence asked");
			break;
		}
		case 4: V8Object::garbage(); S->now_ns += 120ll * 1000000000; break;
		case 5: { // write
			CfNode *n = &s.tree;
			string p, top;
			vector<string> made;
			for (int depth = 0;; depth++) {
				vector<CfNode *> dirs;
				if (made.empty()) for (auto &k : n->kids) if (k.dir) dirs.push_back(&k);
				string d;
				if (!dirs.empty() && draw(3, "into") == 2) { n = dirs[draw(dirs.size(), "directory")]; d = n->name; }
				else if (s.kind == 1 && depth < 3 && draw(6, "new directory") == 5) {
					d = fmt("n%u", draw(20, "name"));
					if (made.empty() && kid(*n, d)) break;
					made.push_back(d);
				} else break;
				if (top.empty()) top = lower(d);
				p += respelled(d, s.kind == 1) + (s.kind == 1 && draw(2, "separator") ? "\\" : "/");
			}
			CfNode *k = nullptr;
			vector<CfNode *> files;
			if (made.empty()) for (auto &x : n->kids) if (!x.dir) files.push_back(&x);
			string nm;
			if (!files.empty() && draw(2, "again")) { k = files[draw(files.size(), "file")]; nm = respelled(k->name, s.kind == 1); }
			else { nm = fmt("w%u.t", draw(30, "name")); if (made.empty()) k = kid(*n, nm); if (k && k->dir) return; }
			if (top.empty()) top = lower(nm);
			for (auto &h : s.held) if (h.top == top) return;
			p += nm;
			Bytes d = rng.bytes(draw(3, "size") ? draw(600, "length") : draw(20000, "length"));
			TMemoryStream m;
			m.Write(d.data(), d.size());
			if (draw(2, "position")) m.Seek((long long)0, System::Classes::soBeginning);
			bool ok = false, threw = false;
			try { ok = s.st->writefile(p, &m); }
			catch (std::exception &e) { threw = true; err = e.what(); }
			catch (...) { threw = true; err = "an exception"; }
			if (threw || !ok) fail("refused-write", s.what + ", file " + p + ": " + err);
			for (auto &d : made) { n->kids.emplace_back(); n = &n->kids.back(); n->name = d; n->dir = true; }
			if (!k) { n->kids.emplace_back(); k = &n->kids.back(); k->name = nm; }
			k->data = d;
			s.written = true;
			probe("files written");
			break;
		}
		}
	}
};
void same(const CfNode &want, const CfNode &got, const string &what)
{
	std::map<string, const CfNode *> have;
	for (auto &k : got.kids) if (!have.emplace(lower(k.name), &k).second) fail("wrong-contents", what + ": two files " + k.name);
	for (auto &k : want.kids) {
		auto it = have.find(lower(k.name));
		if (it == have.end()) fail("missing-file", what + ": no file " + k.name);
		if (k.dir) {
			CfNode g = *it->second;
			descend(g);
			if (!g.dir) fail("wrong-contents", what + ": " + k.name + " is no directory");
			same(k, g, what + "/" + k.name);
		} else if (it->second->data != k.data) fail("wrong-contents", what + ": file " + k.name + ": " + diff_bytes(it->second->data, k.data));
		have.erase(it);
	}
	if (!have.empty()) fail("wrong-contents", what + ": file " + have.begin()->first + " was not there");
}
void put_tree(const CfNode &n, const string &dir)
{
	fs_mkdir(dir);
	for (auto &k : n.kids) if (k.dir) put_tree(k, dir + "/" + k.name); else fs_put(dir + "/" + k.name, k.data);
}
} // namespace

CfNode random_tree(Rng &r, int depth, bool cyr)
{
	CfNode d;
	d.dir = true;
	std::set<string> names;
	for (int i = r.range(depth ? 0 : 1, depth ? 4 : 9); i > 0; i--) {
		CfNode k;
		static const char *const fixed[] = { "root", "version", "module", "text", "info" };
		k.name = r.pct(30) ? fixed[r.below(5)] : cyr && r.pct(20) ? "модуль" + random_ident(r, 3) : r.pct(40) ? random_guid(r) + (r.pct(30) ? ".0" : "") : random_ident(r, 6);
		if (!names.insert(lower(k.name)).second) continue;
		if (depth < 3 && r.pct(25)) { CfNode s = random_tree(r, depth + 1, cyr); s.name = k.name; k = s; }
		else k.data = r.bytes(r.pct(10) ? 0 : r.pct(20) ? r.below(9000) : r.below(500));
		k.created = k.modified = 635000000000000ull + r.below(1000000) * 10000ull;
		d.kids.push_back(k);
	}
	return d;
}

void c21()
{
	gen_env();
	uint32_t kinds = 1 + draw(7, "sources"); // bits: infobase, container, directory
	Reader rd;
	ConfWorld w;
	bool base = kinds & 1;
	if (base) {
		w = gen_infobase(-1, true);
		put_db(w.db, "/sim/w/a.1cd");
		for (int i = 0; i < 2; i++) {
			Source s;
			s.what = i ? "main configuration" : "database configuration";
			s.kind = 0;
			s.tree.dir = true;
			for (CfNode n : i ? w.dc : w.ddc) {
				Bytes p;
				if (stored_packed(n.name)) { if (!inflate(n.data, p)) harness_error("a drawn file is not packed"); n.data = p; }
				descend(n);
				s.tree.kids.push_back(n);
			}
			if (!s.tree.kids.empty() || draw(2, "empty")) rd.src.push_back(std::move(s));
		}
	}
	Rng r(draw(1u << 30, "seed"));
	string cfpath;
	if (kinds & 2) {
		static const char *const nm[] = { "/sim/w/c.cf", "/sim/w/c.EPF", "/sim/w/c.dat" };
		uint32_t k = draw(3, "name");
		cfpath = nm[k];
		Source s;
		s.what = "container";
		s.kind = 1;
		s.tree = random_tree(r, 0, true);
		CfLayout l;
		l.r = &r;
		l.frag = r.below(60);
		fs_put(cfpath, mkcf(s.tree.kids, k != 2, &l));
		rd.src.push_back(std::move(s));
	}
	if (kinds & 4) {
		Source s;
		s.what = "directory";
		s.kind = 2;
		s.tree = random_tree(r, 0, true);
		put_tree(s.tree, "/sim/w/dir");
		rd.src.push_back(std::move(s));
	}
	if (rd.src.empty()) return;
	vector<FaultRule> f = gen_benign();
	// reads of the database fail for a while (a container in a temporary file that cannot be read is taken for no container: not claimed)
	if (kinds == 1) for (uint32_t b = draw(3, "failures"); b > 0; b--) {
		FaultRule x = fault_err(1u << OP_READ | (draw(3, "what fails") ? 0u : 1u << OP_OPEN), draw(200, "fails from"), draw(2, "errno") ? 5 : 24, 1 + draw(6, "fails count"));
		x.path = "/sim/w/a.1cd";
		f.push_back(x);
	}
	uint32_t nops = 4 + draw(40, "operations");
	Bytes img;
	if (base) img = fs_read("/sim/w/a.1cd");
	Result res = run_instance([&] {
		std::unique_ptr<T_1CD> db;
		std::unique_ptr<TableFiles> tc, ts;
		for (int tries = 0; base && tries < 60; tries++) {
			uint64_t before = failures();
			try {
				db.reset(new T_1CD("/sim/w/a.1cd", nullptr, false));
				tc.reset(new TableFiles(db->table_config));
				ts.reset(new TableFiles(db->table_configsave));
				for (auto &s : rd.src) if (s.kind == 0) {
					if (s.what[0] == 'd') s.st.reset(new ConfigStorageTableConfig(tc.get())); else s.st.reset(new ConfigStorageTableConfigSave(tc.get(), ts.get()));
				}
				break;
			} catch (...) {
				if (failures() == before) fail("refused-read", "opening");
				for (auto &s : rd.src) s.st.reset();
				tc.reset(); ts.reset(); db.reset();
			}
		}
		for (auto &s : rd.src) {
			if (s.kind == 1) s.st.reset(new ConfigStorageCFFile(cfpath));
			if (s.kind == 2) s.st.reset(new ConfigStorageDirectory("/sim/w/dir"));
			if (!s.st) return 0;
		}
		for (uint32_t i = 0; i < nops; i++) rd.op();
		for (auto &s : rd.src) { while (!s.held.empty()) rd.release(s, draw(s.held.size(), "held")); s.st.reset(); }
		tc.reset(); ts.reset();
		// what was written
		for (auto &s : rd.src) if (s.written) {
			if (s.kind == 1) {
				CfNode got;
				CfRead c = rdcf(fs_read(cfpath), cfpath.substr(cfpath.size() - 4) != ".dat");
				if (!c.error.empty()) fail("broken-structure", "container: " + c.error);
				got.kids = c.files;
				same(s.tree, got, s.what);
			} else {
				std::function<CfNode(string)> scan = [&](string d) { CfNode n; n.dir = true; for (auto &x : fs_list(d)) { CfNode k; if (fs_is_dir(d + "/" + x)) k = scan(d + "/" + x); else k.data = fs_read(d + "/" + x); k.name = x; n.kids.push_back(k); } return n; };
				std::function<void(const CfNode &, const CfNode &, string)> cmp = [&](const CfNode &a, const CfNode &b, string at) {
					if (a.kids.size() != b.kids.size()) fail("wrong-contents", at + ": another number of files");
					for (auto &k : a.kids) {
						const CfNode *g = nullptr;
						for (auto &x : b.kids) if (x.name == k.name) g = &x;
						if (!g || g->dir != k.dir) fail("missing-file", at + "/" + k.name);
						if (k.dir) cmp(k, *g, at + "/" + k.name);
						else if (g->data != k.data) fail("wrong-contents", at + "/" + k.name + ": " + diff_bytes(g->data, k.data));
					}
				};
				cmp(s.tree, scan("/sim/w/dir"), "directory");
			}
			probe("written sources compared");
		}
		for (auto &s : rd.src) state(mix(hash64(B(s.what)), s.tree.kids.size()));
		return 0;
	}, f);
	need_no_crash(res, "reading a configuration");
	if (res.code) harness_error("unexpected status");
	if (base && fs_read("/sim/w/a.1cd") != img) fail("file-changed", "reading changed the database");
	check_no_escape();
}

} // namespace sim
