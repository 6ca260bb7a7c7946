// Simulated program instances: forked, run under the seam, reaped with a full description of how they ended.
#include "sim.h"
#include "seam.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

int ctool_main(int argc, char *argv[]);

extern "C" const char *__asan_default_options()
{
	return "detect_leaks=0:exitcode=98:allocator_may_return_null=1:alloc_dealloc_mismatch=0:max_malloc_fill_size=16777216:"
	       "malloc_fill_byte=190:detect_stack_use_after_return=0:abort_on_error=0:disable_coredump=1:handle_abort=0:"
	       "max_allocation_size_mb=1200:quarantine_size_mb=16:print_legend=0:symbolize=0:print_full_thread_history=0";
}

namespace sim {

extern int err_memfd; // where instances write ASan reports and assertion messages
int err_memfd = -1;
int cpu_limit = 20;

struct ArenaBuf : std::streambuf {
	AStr *dst;
	explicit ArenaBuf(AStr *d) : dst(d) {}
	int overflow(int c) override { if (c != EOF && dst->size() < (4u << 20)) dst->push_back((char)c); return c; }
	std::streamsize xsputn(const char *p, std::streamsize n) override { if (dst->size() < (4u << 20)) dst->append(p, n); return n; }
};

static void at_exit_mark()
{
	if (seam_on) S->inst[S->cur].clean_exit = true;
#ifdef SIM_COV
	seam_on = false; // development: the coverage counters are written to the real disk
#endif
}
// registered before any other constructor of the executable, so it runs after every static destructor
__attribute__((constructor(101))) static void early() { atexit(at_exit_mark); }

[[noreturn]] static void instance_main(int slot, const ProgFn &fn, bool inter)
{
	struct rlimit rl = { (rlim_t)cpu_limit, (rlim_t)cpu_limit + 5 };
	setrlimit(RLIMIT_CPU, &rl);
	struct rlimit core = { 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
	if (err_memfd >= 0) { dup2(err_memfd, 1); dup2(err_memfd, 2); }
	InstState &I = S->inst[slot];
	static ArenaBuf ob(&I.out), eb(&I.err);
	std::cout.rdbuf(&ob);
	std::cerr.rdbuf(&eb);
	std::clog.rdbuf(&eb);
	setenv("TMPDIR", "/sim/tmp", 1);
	static const char *const zones[] = { "UTC0", "MSK-3", "XST9:30" };
	setenv("TZ", zones[S->tz % 3], 1);
	unsetenv("TMP");
	unsetenv("TEMP");
	if (inter) seam_wait_turn(slot);
	S->cur = slot;
	seam_on = true;
	int rc = fn();
	I.in_exit = true;
	exit(rc);
}

static string mem_err()
{
	string r;
	if (err_memfd < 0) return r;
	off_t n = lseek(err_memfd, 0, SEEK_END);
	if (n > 60000) n = 60000;
	if (n > 0) { r.resize(n); ssize_t k = pread(err_memfd, &r[0], n, 0); r.resize(k > 0 ? k : 0); }
	return r;
}

static Result classify(int slot, int st)
{
	InstState &I = S->inst[slot];
	Result r;
	r.out.assign(I.out.data(), I.out.size());
	r.err.assign(I.err.data(), I.err.size());
	if (I.killed && WIFEXITED(st) && WEXITSTATUS(st) == 0) r.killed = true;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { r.hang = true; r.crash = "operation budget exceeded (endless loop over file operations)"; }
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
		r.asan = true;
		string e = mem_err();
		size_t p = e.find("ERROR: AddressSanitizer");
		r.crash = p == string::npos ? "sanitizer report" : e.substr(p, e.find('\n', p) - p);
		// strip addresses, which do not identify a failure
		size_t q = r.crash.find(" on ");
		if (q != string::npos) r.crash.resize(q);
		if ((p = e.find("\nREAD of")) != string::npos || (p = e.find("\nWRITE of")) != string::npos) r.crash += ", " + e.substr(p + 1, e.find(" at ", p) - p - 1);
	}
	else if (WIFEXITED(st) && I.clean_exit) { r.exited = true; r.code = WEXITSTATUS(st); }
	else if (WIFEXITED(st)) { r.crash = fmt("left without running its exit handlers, status %d", WEXITSTATUS(st)); }
	else if (WIFSIGNALED(st)) {
		r.sig = WTERMSIG(st);
		if (r.sig == SIGXCPU) { r.hang = true; r.crash = "processor time exceeded (endless loop)"; }
		else {
			r.crash = fmt("signal %d", r.sig);
			string e = mem_err();
			size_t p = e.find("terminate called");
			if (p != string::npos) { r.crash += ": " + e.substr(p, 200); for (auto &c : r.crash) if (c == '\n') c = ' '; }
		}
	}
	if (getenv("SIM_SHOW_ERR")) { string e = mem_err(); fprintf(stderr, "%s", e.c_str()); }
	trace("i%d ENDED %s", slot, r.describe().c_str());
	hash_str(r.out);
	hash_str(r.err);
	return r;
}
string Result::describe() const
{
	if (killed) return "killed";
	if (exited) return fmt("exit status %d", code) + (err.empty() ? string() : "; messages: " + (err.size() > 500 ? "..." + err.substr(err.size() - 500) : err));
	return "crash: " + crash;
}

static int new_slot()
{
	int s = S->ninst++ % 8;
	S->inst[s] = InstState();
	return s;
}
InstState &last_inst() { return S->inst[(S->ninst + 7) % 8]; }

static void reset_err()
{
	if (err_memfd >= 0) { if (ftruncate(err_memfd, 0)) {} lseek(err_memfd, 0, SEEK_SET); }
}

Result run_instance(const ProgFn &fn, const vector<FaultRule> &faults, uint32_t alloc_fail_at)
{
	int slot = new_slot();
	InstState &I = S->inst[slot];
	for (auto &f : faults) I.faults.push_back(f);
	I.alloc_fail_at = alloc_fail_at;
	reset_err();
	S->cur = slot;
	pid_t p = fork();
	if (p < 0) harness_error("fork");
	if (p == 0) instance_main(slot, fn, false);
	int st = 0;
	struct rusage ru;
	while (wait4(p, &st, 0, &ru) < 0 && errno == EINTR) {}
	if (ru.ru_utime.tv_sec + ru.ru_stime.tv_sec >= 2) probe(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec >= 8 ? "instances that took 8 s or more" : "instances that took 2 to 8 s");
	if (S->outcome) _exit(S->outcome == 1 ? 3 : 4);
	return classify(slot, st);
}

vector<Result> run_interleaved(vector<Launch> &ls)
{
	static sem_t *sems = nullptr;
	if (!sems) sems = (sem_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	for (int i = 0; i < 8; i++) sem_init(&sems[i], 1, 0);
	seam_set_sems(sems);
	reset_err();
	vector<pid_t> pids;
	S->interleave = true;
	S->alive_mask = 0;
	for (auto &l : ls) {
		l.inst = new_slot();
		InstState &I = S->inst[l.inst];
		for (auto &f : l.faults) I.faults.push_back(f);
		I.alloc_fail_at = l.alloc_fail_at;
		S->alive_mask |= 1 << l.inst;
	}
	for (auto &l : ls) {
		pid_t p = fork();
		if (p == 0) instance_main(l.inst, l.fn, true);
		pids.push_back(p);
	}
	size_t first = draw(ls.size(), "first instance");
	int turn = ls[first].inst;
	S->cur = turn;
	sem_post(&sems[turn]);
	vector<Result> rs(ls.size());
	size_t left = ls.size();
	while (left) {
		int st = 0;
		pid_t p = waitpid(-1, &st, 0);
		if (p < 0) { if (errno == EINTR) continue; break; }
		for (size_t i = 0; i < pids.size(); i++) if (pids[i] == p) {
			if (S->outcome) { for (auto q : pids) kill(q, SIGKILL); _exit(S->outcome == 1 ? 3 : 4); }
			rs[i] = classify(ls[i].inst, st);
			S->alive_mask &= ~(1 << ls[i].inst);
			left--;
			if (left) {
				for (auto &l : ls) if (S->alive_mask >> l.inst & 1) { S->cur = l.inst; sem_post(&sems[l.inst]); break; }
			}
		}
	}
	S->interleave = false;
	return rs;
}

// The same command line in another spelling: keys in their long or upper-case forms, values in
// quotation marks, the database named elsewhere. One draw per run, so that runs that are compared
// are spelled alike.
static vector<string> spell(const vector<string> &args)
{
	static const struct { const char *s, *l; int n; } key[] = {
		{ "h", "help", 0 }, { "nv", "NoVerbose", 0 }, { "q", "Quit", 0 }, { "eax", "ExportAllToXML", 1 }, { "bf", "BlobToFile", 1 },
		{ "pb", "ParseBlob", 1 }, { "ex", "ExportToXML", 2 }, { "ne", "NotExclusively", 0 }, { "ddc", "DumpDBConfig", 1 },
		{ "dc", "DumpConfig", 1 }, { "dvc", "DumpVendorsConfigs", 1 }, { "dac", "DumpAllConfigs", 1 }, { "drc", "DumpDepotConfig", 2 },
		{ "dpc", "DumpPartDepotConfig", 2 }, { "l", "LogFile", 1 }, { "eb", "ExportToBinary", 2 }, { "ib", "ImportFromBinary", 2 },
		{ "slo", "SaveLostObjects", 1 }, { "sts", "SaveTablesSize", 1 } };
	if (S->spelling < 0) { uint32_t k = draw(12, "spelling of the command line"); S->spelling = k < 6 ? 0 : (int)k - 5; }
	if (!S->spelling) return args;
	int how = S->spelling;
	auto fold = [](const string &s, bool up) { string r; for (char c : s) r += up ? toupper(c) : tolower(c); return r; };
	vector<vector<string>> groups;
	vector<string> files;
	for (size_t i = 0; i < args.size(); i++) {
		const string &a = args[i];
		size_t k = 0, n = sizeof key / sizeof *key;
		if (a.empty() || a[0] != '-') k = n;
		else while (k < n && fold(a.substr(1), false) != key[k].s && fold(a.substr(1), false) != fold(key[k].l, false)) k++;
		if (k == n) {
			if (a.empty() || a[0] == '-') return args; // nothing known: as it is
			files.push_back(a);
			continue;
		}
		vector<string> g;
		if (how == 1) g.push_back(string("-") + key[k].l);
		else if (how == 2) g.push_back("-" + fold(key[k].l, true));
		else if (how == 3) g.push_back("-" + fold(key[k].s, true));
		else if (how == 4) g.push_back("-" + fold(key[k].l, false));
		else g.push_back(a);
		for (int j = 0; j < key[k].n && i + 1 < args.size(); j++) {
			string v = args[++i];
			if (how == 6 && v.find('"') == string::npos) v = '"' + v + '"';
			g.push_back(v);
		}
		groups.push_back(g);
	}
	if (files.size() != 1) return args;
	size_t at = how == 5 ? groups.size() : how == 4 ? groups.size() / 2 : 0;
	vector<string> r;
	for (size_t i = 0; i <= groups.size(); i++) {
		if (i == at) r.push_back(how == 6 ? '"' + files[0] + '"' : files[0]);
		if (i < groups.size()) r.insert(r.end(), groups[i].begin(), groups[i].end());
	}
	probe("other spellings of the command line");
	return r;
}
static ProgFn cli_as(const vector<string> &as)
{
	return [as]() {
		vector<char *> v;
		string pn = "ctool1cd";
		vector<string> keep = as;
		v.push_back(&pn[0]);
		for (auto &a : keep) v.push_back(&a[0]);
		v.push_back(nullptr);
		return ctool_main((int)v.size() - 1, v.data());
	};
}
ProgFn cli(const vector<string> &args) { return cli_as(spell(args)); }
void write_img(const string &path, const Img &m)
{
	std::ofstream q(path, std::ios::binary);
	if (!m.ps) { q.write((char *)m.data.data(), m.data.size()); return; }
	for (auto &r : m.runs) for (uint64_t k = 0; k < r.second.n; k++) {
		q.seekp((r.first + k) * m.ps);
		q.write((char *)m.at((r.first + k) * m.ps), m.ps);
	}
	q.close();
	if (truncate(path.c_str(), m.size())) {}
}
void dump_tree(const string &base)
{
	if (system(("mkdir -p '" + base + "'").c_str())) {}
	for (auto &f : fs_walk("/sim")) {
		string d = base + "/" + f;
		if (f.back() == '/') { if (system(("mkdir -p '" + d + "'").c_str())) {} continue; }
		write_img(d, fs_img("/sim/" + f));
	}
}
Result run_cli(const vector<string> &args, const vector<FaultRule> &faults, uint32_t alloc_fail_at)
{
	string s;
	vector<string> as = spell(args);
	for (auto &a : as) s += " " + a;
	trace("RUN ctool1cd%s", s.c_str());
	static int nth = 0;
	if (const char *d = getenv("SIM_DUMP_RUNS")) dump_tree(fmt("%s/%d", d, nth++)); // the files as this run meets them
	if (S->sample.size() < 1500) {
		S->sample += ("ctool1cd" + s).c_str();
		for (auto &f : faults) S->sample += fmt(" {fault kind %d at operation %u of mask %x}", f.kind, f.at, f.ops).c_str();
		if (alloc_fail_at) S->sample += fmt(" {allocation %u fails}", alloc_fail_at).c_str();
		S->sample += "; ";
	}
	Result r = run_instance(cli_as(as), faults, alloc_fail_at);
	for (size_t i = 0; i + 1 < args.size(); i++) { // messages may have gone to a log file
		string k;
		for (char c : args[i]) k += (char)tolower(c);
		if (k != "-l" && k != "-logfile") continue;
		Bytes b;
		if (fs_get(args[i + 1][0] == '/' ? args[i + 1] : "/sim/w/" + args[i + 1], b)) r.err.append(b.begin(), b.end());
	}
	return r;
}
FaultRule fault_err(uint32_t ops, uint32_t at, int err, uint32_t count)
{
	FaultRule f;
	f.kind = FaultRule::ERR; f.ops = ops; f.at = at; f.err = err; f.count = count;
	return f;
}
FaultRule fault_kill(uint32_t ops, uint32_t at)
{
	FaultRule f;
	f.kind = FaultRule::KILL; f.ops = ops; f.at = at;
	return f;
}

} // namespace sim
