// C06: only an import changes the database file. C16: commands of one run are independent.
#include "world.h"
#include <algorithm>

namespace sim {

static string tree_id(const string &dir)
{
	string r;
	for (auto &f : fs_walk(dir)) {
		string p = dir + "/" + f;
		Node *n = fs_node(p);
		r += f + fmt(" %llx %lld %o\n", (unsigned long long)(n->dir ? 0 : hash64(fs_read(p))), (long long)(n->dir ? 0 : n->mtime), n->mode);
	}
	return r;
}
vector<FaultRule> gen_trouble(const InstState *dry)
{
	vector<FaultRule> v = gen_benign();
	uint32_t n = draw(3, "failures");
	for (uint32_t i = 0; i < n; i++) {
		FaultRule f;
		int k = pick_weighted({ 5, 2, 1 }, "failure");
		f.kind = k == 0 ? FaultRule::ERR : k == 1 ? FaultRule::KILL : FaultRule::TORN_KILL;
		static const uint32_t ops[] = { 1u << OP_WRITE, 1u << OP_READ, 1u << OP_OPEN | 1u << OP_CREATE, 1u << OP_MKDIR, 1u << OP_CLOSE, 1u << OP_STAT, 1u << OP_UNLINK | 1u << OP_RENAME | 1u << OP_TRUNC, (1u << OP_N) - 1 };
		f.ops = k == 2 ? 1u << OP_WRITE : ops[draw(8, "failing operation")];
		uint32_t total = 0;
		if (dry) for (int o = 0; o < OP_N; o++) if (f.ops >> o & 1) total += dry->nops[o];
		f.at = draw(dry ? total + 1 : draw(2, "late") ? 2000 : 60, "failing at");
		static const int err[] = { 5, 28, 13, 24, 30, 12 };
		f.err = err[draw(6, "errno")];
		static const uint32_t cnt[] = { 1, 1, 3, 100000 };
		f.count = cnt[draw(4, "failing count")];
		f.arg = draw(1001, "torn part");
		v.push_back(f);
	}
	return v;
}
void c06()
{
	Session s = gen_session();
	vector<string> a = { draw(2, "relative") ? s.db : s.db.substr(7) };
	gen_options(a, s, true);
	uint32_t n = 1 + draw(4, "commands");
	vector<string> cargs;
	bool import = false, bad = s.bad_log, refused = false;
	for (uint32_t i = 0; i < n; i++) {
		Cmd c = gen_cmd(s, fmt("/sim/w/o%u", i), BAD | IMPORT);
		bad |= c.fails;
		if (c.import) { import = true; refused |= !c.tables.empty(); probe("imports asked for"); }
		cargs.insert(cargs.end(), c.args.begin(), c.args.end());
	}
	a.insert(a.end(), cargs.begin(), cargs.end());
	bool ro = s.ne && draw(3, "read-only to the user") == 2;
	if (ro) { fs_chmod(s.db, 0444); if (draw(2, "directory too")) fs_chmod(s.dir, 0555); probe("databases the user may only read"); }
	vector<FaultRule> fr;
	bool trouble = draw(3, "trouble") == 2;
	if (trouble) fr = gen_trouble(nullptr); else fr = gen_benign();
	string before = tree_id(s.dir);
	Bytes img = fs_read(s.db);
	S->hist.clear();
	Result r = run_cli(a, fr);
	string what = join(a);
	if (!trouble) need_no_crash(r, what);
	bool frozen = !import || s.ne || !s.writable;
	for (auto &h : S->hist) {
		string p = h.path.c_str(), q = h.path2.c_str();
		bool in = !p.compare(0, s.dir.size() + 1, s.dir + "/") || !q.compare(0, s.dir.size() + 1, s.dir + "/");
		if (!in) continue;
		bool change = h.op == OP_WRITE || h.op == OP_TRUNC || h.op == OP_UNLINK || h.op == OP_RENAME || h.op == OP_MKDIR || h.op == OP_CREATE || h.op == OP_UTIME;
		if (!change) continue;
		if (frozen) fail("readonly-write", what + ": " + op_name[h.op] + " on " + p);
		if (p != s.db || (h.op != OP_WRITE && h.op != OP_TRUNC)) fail("other-changed", what + ": " + op_name[h.op] + " on " + p);
	}
	string after = tree_id(s.dir);
	if (frozen) { if (after != before) fail("file-changed", what + ":\nbefore\n" + before + "after\n" + after); probe("untouched databases checked"); }
	else {
		string rel = s.db.substr(s.dir.size() + 1);
		auto strip = [&](const string &x) { string o; size_t i = 0; while (i < x.size()) { size_t e = x.find('\n', i) + 1; if (x.compare(i, rel.size() + 1, rel + " ")) o += x.substr(i, e - i); i = e; } return o; };
		if (strip(before) != strip(after)) fail("other-changed", what + ":\nbefore\n" + before + "after\n" + after);
		probe("databases imported into checked");
	}
	if (!trouble) {
		if (!r.code && (s.ne || !s.writable) && refused) fail("unreported", what + ": an import into a database opened for reading was not reported");
		if (!bad && !s.unsure && !(refused && (s.ne || !s.writable))) need_ok(r, what);
		if (ro && !bad && !import) probe("read-only databases exported");
		check_tmp_clean(what);
	}
	check_no_escape();
	state(mix(fs_tree_hash("/sim/w"), r.code));
}

// ---------------------------------------------------------------- C16
static void no_database()
{
	gen_env();
	string db = "/sim/w/none.1cd";
	Rng r(draw(1000, "no database seed"));
	switch (draw(5, "no database")) {
	case 0: break;
	case 1: fs_mkdir(db); break;
	case 2: fs_put(db, Bytes()); break;
	case 3: fs_put(db, r.bytes(r.below(40000))); break;
	case 4: { DbDef d = gen_db(0); put_db(d, db); fs_chmod(db, 0); break; }
	}
	fs_mkdir("/sim/w/out");
	vector<string> a = { db };
	if (draw(2, "-ne")) a.push_back("-ne");
	a.insert(a.end(), { "-eax", "/sim/w/out", "-sts", "/sim/w/out/s" });
	Result x = run_cli(a);
	need_no_crash(x, join(a));
	if (!x.code || x.err.empty()) fail("unreported", join(a) + ": there is no such database, and it is not reported: " + x.describe());
	if (!fs_list("/sim/w/out").empty()) fail("extra-output", join(a) + ": output without a database");
	probe("runs without a database");
	check_tmp_clean(join(a));
}
static bool s_quiet(const vector<string> &o) { return std::find(o.begin(), o.end(), "-nv") != o.end(); }
void c16()
{
	if (draw(25, "no database") == 24) { no_database(); return; }
	Session s = gen_session();
	vector<string> opt;
	gen_options(opt, s, true);
	uint32_t n = 1 + draw(5, "commands");
	vector<Cmd> cmds;
	for (uint32_t i = 0; i < n; i++) cmds.push_back(gen_cmd(s, fmt("/sim/w/o%u", i), BAD | IMPORT));
	// the same, one by one, each on the database as it is by then
	fs_mkdir("/sim/one");
	fs_copy("/sim/w", "/sim/one/w0");
	vector<Result> alone;
	for (uint32_t i = 0; i < n; i++) {
		vector<string> a = { s.db };
		a.insert(a.end(), opt.begin(), opt.end());
		a.insert(a.end(), cmds[i].args.begin(), cmds[i].args.end());
		Result r = run_cli(a);
		need_no_crash(r, join(a));
		alone.push_back(r);
		bool fails = s.bad_log || cmds[i].fails || (cmds[i].import && (s.ne || !s.writable) && !cmds[i].tables.empty());
		if (fails && (!r.code || r.err.empty())) if (!s_quiet(opt) || !r.code) fail("unreported", join(a) + ": cannot be done and is not reported: " + r.describe());
		if (!fails && !s.unsure) need_ok(r, join(a));
		probe(fails ? "failing commands" : "commands");
	}
	fs_copy("/sim/w", "/sim/one/done");
	fs_remove("/sim/w");
	fs_copy("/sim/one/w0", "/sim/w");
	// together
	vector<string> a;
	uint32_t at = draw(n + 1, "place of the database name");
	for (uint32_t i = 0; i < n; i++) {
		if (i == at) a.push_back(s.db);
		vector<string> c = cmds[i].args;
		if (draw(5, "quotes") == 4) for (size_t k = 1; k < c.size(); k++) {
			uint32_t q = draw(4, "quoted how"); // quotation marks around an argument or left at its end belong to the command line
			if (q == 1) c[k] = '"' + c[k] + '"';
			if (q == 2) c[k] += '"';
			if (q == 3) c[k] = '"' + c[k] + "\"\"";
		}
		a.insert(a.end(), c.begin(), c.end());
	}
	if (at == n) a.push_back(s.db);
	if (draw(2, "options first")) a.insert(a.begin(), opt.begin(), opt.end()); else a.insert(a.end(), opt.begin(), opt.end());
	Result r = run_cli(a, gen_benign());
	string what = join(a);
	need_no_crash(r, what);
	bool any = false;
	string first;
	for (uint32_t i = 0; i < n; i++) {
		any |= alone[i].code != 0;
		if (!cmds[i].out.empty()) {
			string rel = cmds[i].out.substr(6);
			string d = diff_outputs("/sim/one/done" + rel, "/sim/w" + rel);
			if (!d.empty()) fail("wrong-contents", what + fmt(": command %u, ", i + 1) + join(cmds[i].args) + ", does something else than when run alone: " + d);
		}
	}
	string d = diff_dbs(fs_read("/sim/one/done" + s.db.substr(6)), fs_read(s.db));
	if (!d.empty()) fail("wrong-contents", what + ": the database differs from that after single runs: " + d);
	for (uint32_t i = 0; i < n; i++) if (alone[i].code) { // what it says when run alone, it says here
		size_t e = alone[i].err.find_last_not_of('\n'), b = alone[i].err.rfind('\n', e) + 1;
		if (e == string::npos) continue;
		string l = alone[i].err.substr(b, e - b + 1);
		if (r.err.find(l) == string::npos) fail("unreported", what + fmt(": command %u, ", i + 1) + join(cmds[i].args) + ", fails, and its message, " + l + ", is not given: " + r.describe());
	}
	if (any && !r.code) fail("unreported", what + ": a command failed, the exit status is 0: " + r.describe());
	if (!any) need_ok(r, what);
	probe("runs compared");
	check_no_escape();
	check_tmp_clean(what);
	state(fs_tree_hash("/sim/w"));
}

} // namespace sim
