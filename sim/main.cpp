// Seeded search, replay, minimisation and evidence.
#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
namespace sim { extern int err_memfd; extern int cpu_limit; int dev_main(int, char **); }
using std::map;

static double wall()
{
	struct timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static const Property *find_prop(const string &id)
{
	for (auto &p : properties()) if (id == p.id) return &p;
	return nullptr;
}
static uint64_t seed_of(const string &prop, uint64_t seed, uint64_t index)
{
	uint64_t h = mix(mix(0x51ED, seed), index);
	return mix(h, hash64(prop.data(), prop.size()));
}

struct Outcome {
	int kind = 0; // 0 ok, 1 violation, 2 harness error
	string cls, msg;
	uint64_t hash = 0;
	vector<uint32_t> choices;
};

// One run in a forked child. With vals == nullptr choices come from the PRNG.
static Outcome run_once(const Property *p, uint64_t prng, const vector<uint32_t> *vals, bool tracing)
{
	arena_reset();
	S->prng = prng;
	S->tracing = tracing;
	if (vals) { S->replay = true; S->replay_vals.assign(vals->begin(), vals->end()); }
	fflush(stdout);
	pid_t c = fork();
	if (c == 0) {
		setpgid(0, 0);
		signal(SIGALRM, SIG_DFL);
		alarm(170);
		p->fn();
		_exit(0);
	}
	setpgid(c, c);
	int st = 0;
	while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
	kill(-c, SIGKILL);
	Outcome o;
	o.kind = S->outcome;
	if (!o.kind && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		o.kind = 2;
		o.msg = WIFSIGNALED(st) ? fmt("the scenario itself died with signal %d", WTERMSIG(st)) : fmt("the scenario itself ended with status %d", WEXITSTATUS(st));
		char b[4000];
		ssize_t n = pread(err_memfd, b, sizeof b - 1, 0);
		if (n > 0) { b[n] = 0; o.msg += string("\n") + b; }
	} else {
		o.cls.assign(S->vclass.data(), S->vclass.size());
		o.msg.assign(S->vmsg.data(), S->vmsg.size());
	}
	o.choices.assign(S->choices.begin(), S->choices.end());
	o.hash = S->trace_hash;
	return o;
}

// ---------------------------------------------------------------- known findings
static vector<std::pair<string, string>> known; // property, class prefix
static void load_known(const string &file)
{
	std::ifstream f(file);
	string l;
	while (std::getline(f, l)) {
		// "finding: property=<id> class=<class> <text>"
		if (l.compare(0, 9, "finding: ")) continue;
		size_t a = l.find("property="), b = l.find("class=");
		if (a == string::npos || b == string::npos) continue;
		known.push_back({ l.substr(a + 9, l.find(' ', a) - a - 9), l.substr(b + 6, l.find(' ', b) - b - 6) });
	}
}
static bool is_known(const string &prop, const string &cls)
{
	for (auto &k : known) if (k.first == prop && k.second == cls) return true;
	return false;
}

// ---------------------------------------------------------------- minimisation
static Outcome minimise(const Property *p, Outcome v, double budget)
{
	double end = wall() + budget;
	auto trim = [](vector<uint32_t> &c) { while (!c.empty() && c.back() == 0) c.pop_back(); };
	auto tryit = [&](vector<uint32_t> c) {
		trim(c);
		if (c == v.choices) return false;
		Outcome o = run_once(p, 0, &c, false);
		if (o.kind != 1 || o.cls != v.cls) return false;
		// keep what was really drawn, if not longer
		vector<uint32_t> d = o.choices;
		trim(d);
		if (d.size() > c.size()) d = c;
		o.choices = d;
		v = o;
		return true;
	};
	trim(v.choices);
	bool progress = true;
	while (progress && wall() < end) {
		progress = false;
		for (size_t len = std::max<size_t>(1, v.choices.size() / 2); wall() < end; len /= 2) {
			for (size_t i = v.choices.size(); i > 0 && wall() < end;) { // delete from the back
				size_t a = i >= len ? i - len : 0;
				vector<uint32_t> c(v.choices.begin(), v.choices.begin() + a);
				c.insert(c.end(), v.choices.begin() + i, v.choices.end());
				size_t before = v.choices.size();
				if (tryit(c)) { progress = true; i = std::min(i, v.choices.size()); if (v.choices.size() >= before) i = a; }
				else i = a;
			}
			for (size_t i = 0; i < v.choices.size() && wall() < end; i += len) { // zero
				vector<uint32_t> c = v.choices;
				bool any = false;
				for (size_t j = i; j < c.size() && j < i + len; j++) if (c[j]) { c[j] = 0; any = true; }
				if (any && tryit(c)) progress = true;
			}
			if (len == 1) break;
		}
		for (size_t i = 0; i < v.choices.size() && wall() < end; i++) { // lower single values
			while (i < v.choices.size() && v.choices[i] > 1 && wall() < end) {
				vector<uint32_t> c = v.choices;
				c[i] /= 2;
				if (tryit(c)) { progress = true; continue; }
				if (i >= v.choices.size() || v.choices[i] < 2) break;
				c = v.choices;
				c[i]--;
				if (tryit(c)) { progress = true; continue; }
				break;
			}
		}
	}
	return v;
}

static string jesc(const string &s)
{
	string r;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c == '\n') r += "\\n";
		else if (c < 32) r += fmt("\\u%04x", c);
		else r += c;
	}
	return r;
}
static string valid_utf8(const string &s)
{
	string r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		size_t n = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
		bool ok = n && i + n <= s.size();
		for (size_t k = 1; ok && k < n; k++) ok = ((unsigned char)s[i + k] >> 6) == 2;
		if (ok) { r.append(s, i, n); i += n; }
		else { r += fmt("<%02x>", c); i++; }
	}
	return r;
}

static void write_replay(const string &path, const Property *p, uint64_t seed, uint64_t index, const Outcome &v, const Outcome &orig)
{
	std::ofstream f(path);
	f << "{\n \"property\": \"" << p->id << "\",\n \"seed\": " << seed << ",\n \"run\": " << index << ",\n";
	f << " \"class\": \"" << jesc(v.cls) << "\",\n \"violation\": \"" << jesc(valid_utf8(v.msg)) << "\",\n";
	f << " \"choices_before_minimising\": " << orig.choices.size() << ",\n";
	f << " \"choices\": [";
	for (size_t i = 0; i < v.choices.size(); i++) f << (i ? "," : "") << v.choices[i];
	f << "],\n \"choice_labels\": [";
	for (size_t i = 0; i < S->clabels.size() && i < v.choices.size(); i++) f << (i ? "," : "") << "\"" << jesc(S->clabels[i].c_str()) << "\"";
	f << "],\n \"trace\": [\n";
	size_t n = S->trace.size();
	for (size_t i = 0; i < n; i++) {
		if (n > 3000 && i == 1500) { f << "  \"... " << n - 3000 << " lines left out ...\",\n"; i = n - 1500; }
		f << "  \"" << jesc(valid_utf8(string(S->trace[i].c_str()))) << "\"" << (i + 1 < n ? "," : "") << "\n";
	}
	f << " ]\n}\n";
}
static bool read_replay(const string &path, string &prop, string &cls, vector<uint32_t> &vals)
{
	std::ifstream f(path);
	if (!f) return false;
	std::stringstream ss;
	ss << f.rdbuf();
	string t = ss.str();
	auto str = [&](const char *k) {
		size_t a = t.find(string("\"") + k + "\": \"");
		if (a == string::npos) return string();
		a = t.find("\": \"", a) + 4;
		string r;
		while (a < t.size() && t[a] != '"') { if (t[a] == '\\') a++; r += t[a++]; }
		return r;
	};
	prop = str("property");
	cls = str("class");
	size_t a = t.find("\"choices\": [");
	if (a == string::npos) return false;
	a += 12;
	while (t[a] != ']') { vals.push_back(strtoul(&t[a], nullptr, 10)); while (t[a] != ',' && t[a] != ']') a++; if (t[a] == ',') a++; }
	return true;
}

// ---------------------------------------------------------------- workers
struct Agg {
	uint64_t runs = 0, ops = 0, insts = 0, switches = 0, choices = 0;
	double sim_s = 0;
	uint64_t fired[8] = {};
	map<string, uint64_t> probes;
	std::unordered_set<uint64_t> states, hashes;
	map<string, uint64_t> known_hits;
	vector<string> samples;
	vector<std::pair<uint64_t, uint64_t>> runhash;
};
static void collect(Agg &a)
{
	a.runs++;
	a.ops += S->ops_total;
	a.insts += S->ninst;
	a.switches += S->switches;
	a.choices += S->choices.size();
	a.sim_s += (S->now_ns - 1500000000ll * 1000000000ll) * 1e-9;
	for (int i = 0; i < 8; i++) a.fired[i] += S->faults_fired[i];
	for (auto &p : S->probes) a.probes[p.first.c_str()] += p.second;
	for (auto h : S->states) a.states.insert(h);
	a.hashes.insert(S->trace_hash);
	if (a.samples.size() < 1 && !S->sample.empty()) a.samples.push_back(S->sample.c_str());
}

static int *stop_flag;

static void worker(const Property *p, uint64_t seed, int w, int nw, uint64_t runs, double deadline, const string &out)
{
	Agg a;
	std::ofstream f(out);
	for (uint64_t i = w; i < runs; i += nw) {
		if (wall() > deadline || *stop_flag) break;
		Outcome o = run_once(p, seed_of(p->id, seed, i), nullptr, false);
		if (o.kind == 2) { f << "error " << i << " " << jesc(o.msg) << "\n"; *stop_flag = 1; break; }
		collect(a);
		if (a.runhash.size() < 4) a.runhash.push_back({ i, o.hash });
		if (o.kind == 1) {
			if (is_known(p->id, o.cls)) { a.known_hits[o.cls]++; continue; }
			f << "violation " << i << " " << o.hash << " " << o.cls << "\n" << jesc(o.msg) << "\n" << o.choices.size();
			for (auto c : o.choices) f << " " << c;
			f << "\n";
			*stop_flag = 1;
			break;
		}
	}
	f << "agg " << a.runs << " " << a.ops << " " << a.insts << " " << a.switches << " " << a.choices << " " << a.sim_s;
	for (auto x : a.fired) f << " " << x;
	f << "\n";
	for (auto &x : a.probes) f << "probe " << x.second << " " << x.first << "\n";
	for (auto &x : a.known_hits) f << "known " << x.second << " " << x.first << "\n";
	for (auto &x : a.runhash) f << "rh " << x.first << " " << x.second << "\n";
	for (auto &x : a.samples) f << "sample " << jesc(x) << "\n";
	f << "states";
	for (auto x : a.states) f << " " << x;
	f << "\nhashes";
	for (auto x : a.hashes) f << " " << x;
	f << "\n";
	f.close();
	_exit(0);
}

static void setup()
{
	arena_map(6ull << 30);
	err_memfd = (int)syscall(SYS_memfd_create, "err", 0);
}

static string self_exe()
{
	char b[4096];
	ssize_t n = syscall(SYS_readlink, "/proc/self/exe", b, sizeof b - 1);
	b[n > 0 ? n : 0] = 0;
	return b;
}
static string capture(const string &cmd)
{
	FILE *f = popen(cmd.c_str(), "r");
	string r;
	char b[4096];
	size_t n;
	while (f && (n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
	if (f) pclose(f);
	return r;
}

int main(int argc, char **argv)
{
	if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR")) {
		if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_ASLR", "1", 1); execv(self_exe().c_str(), argv); }
	}
	if (argc > 1 && string(argv[1]) == "dev") return dev_main(argc - 2, argv + 2);
	signal(SIGPIPE, SIG_IGN);
	setenv("LC_ALL", "C.UTF-8", 1);
	map<string, string> o;
	vector<string> pos;
	for (int i = 1; i < argc; i++) {
		string s = argv[i];
		if (s.compare(0, 2, "--") == 0 && i + 1 < argc) o[s.substr(2)] = argv[++i];
		else pos.push_back(s);
	}
	if (pos.empty()) { fprintf(stderr, "usage: sim check|replay|hash|list ...\n"); return 2; }
	string cmd = pos[0];
	if (o.count("cpu")) cpu_limit = atoi(o["cpu"].c_str());
	if (cmd == "list") { for (auto &p : properties()) printf("%s %u\n", p.id, p.quick_runs); return 0; }

	if (cmd == "replay") {
		string prop, cls;
		vector<uint32_t> vals;
		if (pos.size() < 2 || !read_replay(pos[1], prop, cls, vals)) { fprintf(stderr, "cannot read the replay file\n"); return 2; }
		const Property *p = find_prop(prop);
		if (!p) return 2;
		setup();
		Outcome r = run_once(p, 0, &vals, true);
		if (o.count("trace")) for (auto &t : S->trace) printf("  %s\n", t.c_str());
		if (o.count("dump")) dump_tree(o["dump"]);
		printf("replay: outcome %d hash %016llx class %s\n%s\n", r.kind, (unsigned long long)r.hash, r.cls.c_str(), r.msg.c_str());
		if (r.kind == 1) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), pos[1].c_str()); return 1; }
		return r.kind ? 2 : 0;
	}
	const Property *p = find_prop(o["property"]);
	if (!p) { fprintf(stderr, "unknown property\n"); return 2; }
	uint64_t seed = o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 10) : 1;
	if (cmd == "hash" || cmd == "one") {
		setup();
		for (size_t i = 1; i < pos.size(); i++) {
			uint64_t idx = strtoull(pos[i].c_str(), nullptr, 10);
			Outcome r = run_once(p, seed_of(p->id, seed, idx), nullptr, cmd == "one");
			if (cmd == "one") {
				for (auto &t : S->trace) printf("  %s\n", t.c_str());
				printf("outcome %d class %s\n%s\n", r.kind, r.cls.c_str(), r.msg.c_str());
				InstState &I = last_inst();
				printf("--- last instance stdout\n%s--- stderr\n%s", I.out.c_str(), I.err.c_str());
				for (auto &pr : S->probes) printf("probe %s %llu\n", pr.first.c_str(), (unsigned long long)pr.second);
				if (o.count("dump")) dump_tree(o["dump"]);
			}
			printf("%llu %llu %d %s\n", (unsigned long long)idx, (unsigned long long)r.hash, r.kind, r.cls.c_str());
		}
		return 0;
	}
	if (cmd != "check") return 2;

	double t0 = wall();
	if (o.count("known")) load_known(o["known"]);
	string tier = o.count("tier") ? o["tier"] : "quick";
	uint64_t runs = o.count("runs") ? strtoull(o["runs"].c_str(), nullptr, 10) : p->quick_runs;
	double cap = o.count("wall") ? atof(o["wall"].c_str()) : 60;
	int nw = o.count("workers") ? atoi(o["workers"].c_str()) : 8;
	string tmp = o.count("tmp") ? o["tmp"] : "/tmp";
	stop_flag = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	vector<pid_t> ws;
	for (int w = 0; w < nw; w++) {
		pid_t c = fork();
		if (c == 0) { setup(); worker(p, seed, w, nw, runs, t0 + cap, fmt("%s/w%d", tmp.c_str(), w)); }
		ws.push_back(c);
	}
	for (auto c : ws) { int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {} }
	double t_search = wall() - t0;

	Agg A;
	map<uint64_t, uint64_t> rh;
	bool have = false, err = false;
	uint64_t vidx = 0;
	Outcome v;
	for (int w = 0; w < nw; w++) {
		std::ifstream f(fmt("%s/w%d", tmp.c_str(), w));
		string l, k;
		bool done = false;
		while (std::getline(f, l)) {
			std::stringstream s(l);
			s >> k;
			if (k == "error") { err = true; fprintf(stderr, "harness error in run: %s\n", l.c_str()); }
			else if (k == "violation") {
				uint64_t i;
				Outcome x;
				s >> i >> x.hash >> x.cls;
				string m, cl;
				std::getline(f, m);
				std::getline(f, cl);
				x.msg = m;
				x.kind = 1;
				std::stringstream c(cl);
				size_t n;
				c >> n;
				x.choices.resize(n);
				for (auto &q : x.choices) c >> q;
				if (!have || i < vidx) { have = true; vidx = i; v = x; }
			} else if (k == "agg") {
				uint64_t r, op, in, sw, ch;
				double ss;
				s >> r >> op >> in >> sw >> ch >> ss;
				A.runs += r; A.ops += op; A.insts += in; A.switches += sw; A.choices += ch; A.sim_s += ss;
				for (auto &x : A.fired) { uint64_t q; s >> q; x += q; }
			} else if (k == "probe" || k == "known") {
				uint64_t n; string nm;
				s >> n;
				std::getline(s, nm);
				(k == "probe" ? A.probes : A.known_hits)[nm.substr(1)] += n;
			} else if (k == "rh") { uint64_t i, h; s >> i >> h; rh[i] = h; }
			else if (k == "sample") { if (A.samples.size() < 3) A.samples.push_back(l.substr(7)); }
			else if (k == "states" || k == "hashes") { uint64_t h; while (s >> h) (k == "states" ? A.states : A.hashes).insert(h); if (k == "hashes") done = true; }
		}
		if (!done) { err = true; fprintf(stderr, "worker %d left no result\n", w); }
		unlink(fmt("%s/w%d", tmp.c_str(), w).c_str());
	}
	setup();
	// determinism: the first runs once more, in a fresh process
	int rechecked = 0;
	if (!err && !have) {
		string c = "'" + self_exe() + "' hash --property " + p->id + " --seed " + std::to_string(seed) + " --cpu " + std::to_string(cpu_limit);
		int n = tier == "quick" ? 6 : 24;
		for (auto &x : rh) { if (n-- <= 0) break; c += " " + std::to_string(x.first); }
		std::stringstream s(capture(c));
		string l;
		while (std::getline(s, l)) {
			unsigned long long i, h;
			if (sscanf(l.c_str(), "%llu %llu", &i, &h) == 2) {
				rechecked++;
				if (rh[i] != h) { err = true; fprintf(stderr, "run %llu is not deterministic: %016llx then %016llx\n", i, (unsigned long long)rh[i], h); }
			}
		}
		if (!rechecked && A.runs) { err = true; fprintf(stderr, "the determinism recheck produced nothing\n"); }
	}
	int rc = 0;
	string rpath;
	if (have) {
		fprintf(stderr, "run %llu violates: %s\n", (unsigned long long)vidx, v.msg.c_str());
		Outcome a = run_once(p, 0, &v.choices, false), b = run_once(p, 0, &v.choices, false);
		if (a.kind == 1 && b.kind == 1 && a.hash != b.hash) fprintf(stderr, "the violation repeats, but its trace differs: the code under test depends on something outside the simulator\n");
		if (a.kind != 1 && b.kind == 1) a = b;
		if (a.kind != 1) {
			err = true;
			fprintf(stderr, "the violation does not repeat: %d %s %016llx / %d %s %016llx / first %s\n", a.kind, a.cls.c_str(), (unsigned long long)a.hash, b.kind, b.cls.c_str(), (unsigned long long)b.hash, v.cls.c_str());
		} else {
			Outcome m = minimise(p, a, o.count("minimise") ? atof(o["minimise"].c_str()) : 20);
			Outcome t = run_once(p, 0, &m.choices, true);
			if (t.kind != 1) { m = a; t = run_once(p, 0, &m.choices, true); }
			if (t.kind != 1) t = a;
			t.choices = m.choices;
			rpath = o["replays"] + "/" + p->id + "-" + std::to_string(seed) + "-" + std::to_string(vidx) + ".json";
			write_replay(rpath, p, seed, vidx, t, v);
			string r = capture("'" + self_exe() + "' replay '" + rpath + "'");
			char want[64];
			snprintf(want, sizeof want, "outcome 1 hash %016llx", (unsigned long long)t.hash);
			if (r.find(want) == string::npos) fprintf(stderr, "a fresh process does not reproduce the violation exactly: %s\n", r.c_str());
			{ rc = 1; fprintf(stderr, "minimised from %zu to %zu choices: %s\n", v.choices.size(), m.choices.size(), t.msg.c_str()); }
		}
	}
	// a known finding must still be there; each listed one that was met is named
	for (auto &k : A.known_hits) printf("KNOWN-FINDING: property=%s %s (met in %llu runs)\n", p->id, k.first.c_str(), (unsigned long long)k.second);
	double W = wall() - t0;
	if (o.count("evidence")) {
		static const char *fk[8] = { "error_return", "short_transfer", "kill", "torn_write_and_kill", "clock_jump", "allocation_failure", "", "" };
		std::ofstream f(o["evidence"]);
		f << "{\n \"property\": \"" << p->id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
		f << " \"coverage\": {\n  \"evaluations\": " << A.runs << ",\n  \"distinct_nontrivial\": " << A.hashes.size() << ",\n";
		f << "  \"rule\": \"" << jesc(p->rule) << " Distinct: runs whose full event traces (every operation at the seam, every choice, all program output) differ.\",\n";
		f << "  \"samples\": [";
		for (size_t i = 0; i < A.samples.size(); i++) f << (i ? ", " : "") << "\"" << valid_utf8(A.samples[i]) << "\"";
		f << "],\n";
		f << "  \"distinct_states\": " << A.states.size() << ",\n";
		f << "  \"runs_per_hour\": " << (uint64_t)(A.runs / std::max(0.001, t_search) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(A.runs / std::max(0.001, t_search) * 3600) << ",\n";
		f << "  \"program_instances_run\": " << A.insts << ",\n  \"operations_at_the_seam\": " << A.ops << ",\n  \"simulated_seconds\": " << (uint64_t)A.sim_s << ",\n";
		f << "  \"instance_switches\": " << A.switches << ",\n  \"choices_drawn\": " << A.choices << ",\n";
		f << "  \"faults_fired\": {";
		for (int i = 0; i < 6; i++) f << (i ? ", " : "") << "\"" << fk[i] << "\": " << A.fired[i];
		f << "},\n  \"probes\": {";
		bool first = true;
		for (auto &x : A.probes) { f << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second; first = false; }
		f << "},\n  \"runs_repeated_in_a_fresh_process_with_equal_trace\": " << rechecked << ",\n";
		f << "  \"real_components\": \"" << jesc(p->real) << "\",\n  \"stubbed_components\": \"" << jesc(p->stub) << "\"\n },\n";
		f << " \"assumptions\": [\"The simulated file system keeps POSIX semantics; a write that returned survives the death of the process (not of the machine).\", \"The generator and the independent readers in /verif/sim describe the file formats as Tool1CD documents them.\"],\n";
		f << " \"wall_s\": " << W << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
	}
	printf("%s: %llu runs, %zu distinct, %.1f s search, %.1f s total\n", p->id, (unsigned long long)A.runs, A.hashes.size(), t_search, W);
	if (rc == 1) printf("VIOLATION property=%s replay=%s\n", p->id, rpath.c_str());
	fflush(stdout);
	if (err && rc != 1) return 2;
	return rc;
}
