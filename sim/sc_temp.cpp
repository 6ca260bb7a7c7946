// C13: temporary files.
#include "world.h"
#include <algorithm>

namespace sim {

void c13()
{
	Session s = gen_session(-1, 1);
	uint32_t n = 1 + draw(3, "instances");
	vector<vector<string>> args(n);
	vector<vector<string>> outs(n);
	vector<bool> bad(n);
	for (uint32_t i = 0; i < n; i++) {
		args[i] = { "-ne", s.db };
		uint32_t k = draw(8, "options");
		if (k & 1) args[i].insert(args[i].end(), { "-bf", "yes" });
		if (k & 2) args[i].insert(args[i].end(), { "-pb", "no" });
		for (uint32_t c = 1 + draw(3, "commands"); c > 0; c--) {
			Cmd m = gen_cmd(s, fmt("/sim/w/o%u.%u", i, c), draw(3, "bad ones") == 2 ? BAD : 0);
			args[i].insert(args[i].end(), m.args.begin(), m.args.end());
			if (!m.out.empty()) outs[i].push_back(m.out);
			bad[i] = bad[i] | m.fails;
		}
	}
	fs_mkdir("/sim/one");
	fs_copy("/sim/w", "/sim/one/w0");
	// each alone, in an empty temporary directory
	uint32_t ops = 0;
	vector<int> code(n);
	for (uint32_t i = 0; i < n; i++) {
		Result r = run_cli(args[i]);
		need_no_crash(r, join(args[i]));
		if (!bad[i]) need_ok(r, join(args[i]));
		code[i] = r.code;
		ops += last_inst().total;
		check_tmp_clean(join(args[i]));
	}
	fs_copy("/sim/w", "/sim/one/done");
	fs_remove("/sim/w");
	fs_copy("/sim/one/w0", "/sim/w");
	// what is in the temporary directory already
	std::set<string> old;
	uint32_t left = draw(16, "leftovers");
	auto put = [&](const string &p) { fs_put("/sim/tmp/" + p, B("left by " + p)); };
	if (left & 1) { fs_mkdir("/sim/tmp/t1cd"); put("t1cd/0123-4567-89ab-cdef"); fs_mkdir("/sim/tmp/t1cd/sub"); put("t1cd/sub/x"); }
	else if (left & 8) put("t1cd");
	if (left & 2) { put("other.tmp"); put("t1cd.txt"); fs_mkdir("/sim/tmp/t1cd-old"); put("t1cd-old/a"); }
	if (left & 4) { // of a run that was killed
		Result r = run_cli(args[0], { fault_kill((1u << OP_N) - 1, draw(ops + 1, "killed at")) });
		if (r.killed) probe("leftovers of killed runs");
		fs_remove("/sim/w");
		fs_copy("/sim/one/w0", "/sim/w");
	}
	for (auto &f : fs_list("/sim/tmp")) old.insert(f);
	fs_copy("/sim/tmp", "/sim/one/tmp0");
	S->hist.clear();
	size_t base = S->ninst;
	vector<Result> rs;
	vector<int> slot;
	string what;
	bool inter = n > 1 && draw(4, "at the same time");
	vector<FaultRule> kill;
	int victim = n > 1 && draw(4, "one is killed") == 3 ? (int)draw(n, "which") : -1;
	if (victim >= 0) kill = { fault_kill((1u << OP_N) - 1, draw(ops / n + 1, "killed at")) };
	if (inter) {
		vector<Launch> ls;
		for (uint32_t i = 0; i < n; i++) { Launch l; l.fn = cli(args[i]); if ((int)i == victim) l.faults = kill; ls.push_back(l); }
		rs = run_interleaved(ls);
		for (auto &l : ls) slot.push_back(l.inst);
		probe("interleaved runs");
		what = "at the same time";
	} else for (uint32_t i = 0; i < n; i++) {
		rs.push_back(run_cli(args[i], (int)i == victim ? kill : vector<FaultRule>()));
		slot.push_back((base + i) % 8);
		what = "one after another";
	}
	std::map<int, string> own; // instance: its directory
	for (auto &h : S->hist) {
		string p = h.path.c_str();
		if (p.compare(0, 9, "/sim/tmp/")) continue;
		bool change = (h.op == OP_WRITE || h.op == OP_TRUNC || h.op == OP_UNLINK || h.op == OP_RENAME || h.op == OP_MKDIR || h.op == OP_CREATE || h.op == OP_UTIME) && !h.err;
		if (!change) continue;
		string top = p.substr(9);
		bool in = top.find('/') != string::npos;
		top.resize(std::min(top.size(), top.find('/')));
		if (old.count(top)) fail("other-changed", what + fmt(": %s on %s, which was there before", op_name[h.op], p.c_str()));
		auto it = own.find(h.inst);
		if (it == own.end()) {
			if (h.op != OP_MKDIR || in) fail("wrong-place", what + fmt(": the first change in the temporary directory is %s of %s", op_name[h.op], p.c_str()));
			for (auto &o : own) if (o.second == top) fail("wrong-place", what + ": two instances use the temporary directory " + top);
			own[h.inst] = top;
		} else if (it->second != top) fail("wrong-place", what + fmt(": %s of %s is outside of the directory %s of the run", op_name[h.op], p.c_str(), it->second.c_str()));
		probe("operations on temporary files");
	}
	for (uint32_t i = 0; i < n; i++) {
		string w = what + ": " + join(args[i]);
		if ((int)i == victim) { if (rs[i].killed) { probe("killed"); if (own.count(slot[i])) fs_remove("/sim/tmp/" + own[slot[i]]); } else need_no_crash(rs[i], w); }
		else {
			need_no_crash(rs[i], w);
			if (rs[i].code != code[i]) fail("unexpected-failure", w + fmt(": exit status %d, alone %d; ", rs[i].code, code[i]) + rs[i].describe());
			for (auto &o : outs[i]) {
				string d = diff_outputs("/sim/one/done" + o.substr(6), o);
				if (!d.empty()) fail("wrong-contents", w + ": other output than alone: " + d);
			}
			probe("runs compared");
		}
	}
	for (auto &f : fs_list("/sim/tmp")) if (!old.count(f)) fail("temp-left", what + ": left in the temporary directory: " + f);
	string d = diff_outputs("/sim/one/tmp0", "/sim/tmp");
	if (!d.empty()) fail("other-changed", what + ": something that was in the temporary directory before changed: " + d);
	check_no_escape();
	state(mix(fs_tree_hash("/sim/w"), S->switches));
}

} // namespace sim
