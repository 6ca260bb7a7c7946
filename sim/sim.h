// The simulator's interface for worlds and property scenarios.
#pragma once
#include "arena.h"
#include <functional>
#include <set>

namespace sim {

typedef std::vector<uint8_t> Bytes;
using std::string;
using std::vector;

// ---------------------------------------------------------------- randomness
// Every decision of a run is one entry of the choice log. 0 is always the simplest choice.
uint32_t draw(uint32_t n, const char *label);             // [0, n)
inline uint32_t range(uint32_t lo, uint32_t hi, const char *l) { return lo + draw(hi - lo + 1, l); }
inline bool chance(uint32_t pct, const char *l) { return draw(100, l) >= 100 - pct; }
size_t pick_weighted(std::initializer_list<int> w, const char *label);

// bulk generator for contents; seeded by one draw
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 32) % n) : 0; }
	uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
	bool pct(uint32_t p) { return below(100) < p; }
	Bytes bytes(size_t n);
	Bytes text(size_t n);
};

// ---------------------------------------------------------------- virtual file system
enum Op { OP_OPEN, OP_CREATE, OP_READ, OP_WRITE, OP_MKDIR, OP_UNLINK, OP_RENAME, OP_STAT, OP_LIST, OP_SEEK,
	OP_CLOSE, OP_TRUNC, OP_UTIME, OP_N };
extern const char *const op_name[OP_N];

// a file longer than memory: runs of pages that have bytes, all others are zeros
struct PRun { uint64_t n, off; bool same; }; // n pages at off of the bytes; same: n times the page at off
typedef std::map<uint64_t, PRun, std::less<uint64_t>, AA<std::pair<const uint64_t, PRun>>> ARuns;
struct Img { // the harness's copy of a file, long or not
	uint32_t ps = 0;       // 0: all bytes are in data
	uint64_t pages = 0;
	std::map<uint64_t, PRun> runs;
	Bytes data;
	Img() {}
	Img(const Bytes &b) : data(b) {}
	uint64_t size() const { return ps ? pages * ps : data.size(); }
	const uint8_t *at(uint64_t off) const; // valid to the end of its page
	string differs(const Img &o) const; // how
	bool operator==(const Img &o) const;
	bool operator!=(const Img &o) const { return !(*this == o); }
};
struct Node {
	bool dir = false;
	uint32_t ps = 0;       // of a long file
	uint64_t pages = 0;
	ARuns runs;
	uint64_t size() const { return ps ? pages * ps : data.size(); }
	void get(uint64_t pos, void *to, uint64_t n) const;
	bool equals(uint64_t pos, const void *p, uint64_t n) const;
	void put(uint64_t pos, const void *from, uint64_t n);
	void resize(uint64_t n);
	uint32_t mode = 0644;
	int64_t mtime = 0, atime = 0; // seconds
	uint64_t ino = 0;
	AVec<uint8_t> data;
	AMap<Node *> kids;
	int links = 1;
};

struct FaultRule {
	enum Kind { ERR, SHORT, KILL, TORN_KILL, JUMP } kind = ERR;
	uint32_t ops = 0;       // bit mask of Op
	AStr path;              // substring of the path ("" = any)
	uint32_t at = 0;        // fires at the at-th matching operation (0-based)
	uint32_t count = 1;     // and for this many matching ones
	int err = 5;
	int64_t arg = 0;        // JUMP: nanoseconds; SHORT/TORN: bytes let through (permille of the request)
	// state
	uint32_t seen = 0, fired = 0;
};

struct OpRec { // history of mutating operations and opens
	uint8_t op; uint8_t inst; uint8_t wr; int16_t err; AStr path, path2; int64_t off, len;
	uint32_t out;  // characters the instance had printed to its error stream
	bool same;     // a write that changed nothing
};

struct OpLog { uint8_t op; AStr path; }; // every operation, while log_ops is set

struct InstState { // one simulated program instance
	uint32_t nops[OP_N] = {};
	uint32_t total = 0;
	AVec<FaultRule> faults;
	AStr out, err;          // captured stdout/stderr text
	uint32_t alloc_fail_at = 0; // 1-based allocation number that fails (0: none)
	uint32_t allocs = 0;
	bool clean_exit = false, killed = false, in_exit = false;
	uint32_t open_now = 0, open_max = 0;
};

struct Sim {
	Node *root = nullptr;
	AStr cwd;
	uint64_t next_ino = 1000;
	int64_t now_ns = 0;
	int64_t tick_ns = 20000; // time per operation
	uint64_t ent_seed = 1;
	uint64_t tick_seed = 1;
	int spelling = -1;        // of command lines
	uint32_t tz = 0;          // time zone of the instances
	bool tracing = false;
	uint64_t trace_hash = 1469598103934665603ull;
	AVec<AStr> trace;
	AVec<OpRec> hist;
	bool record_hist = true, hist_reads = false;
	bool log_ops = false;
	AVec<OpLog> oplog;
	AVec<uint32_t> choices;       // values drawn
	AVec<AStr> clabels;           // only when tracing
	bool replay = false;
	AVec<uint32_t> replay_vals;
	uint64_t prng = 1;
	AMap<uint64_t> probes;
	AVec<uint64_t> states;
	AVec<AStr> escapes;           // mutations attempted outside /sim
	InstState inst[8];
	int cur = 0;                  // running instance (index in inst)
	int ninst = 0;
	uint64_t disk_free = 4ull << 30;
	uint64_t op_budget = 6000000;
	uint64_t ops_total = 0;
	uint64_t faults_fired[8] = {};
	// two-instance interleaving
	bool interleave = false;
	int alive_mask = 0;
	uint32_t switch_pct = 30;
	int64_t switches = 0;
	// outcome of the run
	int outcome = 0;              // 0 running/ok, 1 violation, 2 harness error
	AStr vclass, vmsg;
	AVec<AStr> notes;
	AStr sample;
};
extern Sim *S;

void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_bytes(const void *p, size_t n);
void hash_str(const string &s);
void state(uint64_t h);                 // a state reached, for the distinct-state measure
void probe(const char *name, uint64_t n = 1);
[[noreturn]] void fail(const string &cls, const string &msg);      // property violated
[[noreturn]] void harness_error(const string &msg);
string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// harness-side access to the virtual file system (no faults, no trace)
void fs_mkdir(const string &path);
void fs_put(const string &path, const Bytes &data, int64_t mtime = 0);
void fs_put(const string &path, const Img &img, int64_t mtime = 0);
bool fs_get(const string &path, Bytes &out); // of a long file: its bytes and runs, good for comparing only
Img fs_img(const string &path);
Bytes fs_read(const string &path);      // harness_error when missing
bool fs_exists(const string &path);
bool fs_is_dir(const string &path);
void fs_remove(const string &path);     // recursive
void fs_chmod(const string &path, uint32_t mode);
vector<string> fs_list(const string &dir);          // names, sorted
vector<string> fs_walk(const string &dir);          // relative paths of files below dir, directories end with '/'
int64_t fs_mtime(const string &path);
Node *fs_node(const string &path);
void fs_copy(const string &from, const string &to);
uint64_t fs_tree_hash(const string &dir);
string fs_diff(const string &a, const string &b);   // "" when equal trees

// ---------------------------------------------------------------- program instances
struct Result {
	bool exited = false;    // ended by itself through exit()
	int code = -1;
	bool killed = false;    // by an injected kill
	bool hang = false;
	int sig = 0;
	bool asan = false;
	string crash;           // description when it crashed
	string out, err;
	bool ok() const { return exited && code == 0; }
	string describe() const;
};

typedef std::function<int()> ProgFn;    // body of an instance: returns the exit status
struct Launch {
	ProgFn fn;
	vector<FaultRule> faults;
	uint32_t alloc_fail_at = 0;
	int inst = -1;                      // slot used (output)
};
Result run_instance(const ProgFn &fn, const vector<FaultRule> &faults = {}, uint32_t alloc_fail_at = 0);
vector<Result> run_interleaved(vector<Launch> &ls); // cooperative interleaving at file operations
ProgFn cli(const vector<string> &args); // ctool1cd's main with these arguments (program name excluded)
void write_img(const string &path, const Img &m); // into a real file, with holes
void dump_tree(const string &base); // copies the simulated files into a real directory
Result run_cli(const vector<string> &args, const vector<FaultRule> &faults = {}, uint32_t alloc_fail_at = 0);
InstState &last_inst();

FaultRule fault_err(uint32_t ops, uint32_t at, int err, uint32_t count = 1);
FaultRule fault_kill(uint32_t ops, uint32_t at);

// ---------------------------------------------------------------- scenarios
typedef void (*Scenario)();
struct Property {
	const char *id;
	Scenario fn;
	uint32_t quick_runs;
	const char *rule;         // how cases are made and what makes one non-trivial
	const char *real, *stub;
};
extern const vector<Property> &properties();
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash64(const Bytes &b) { return hash64(b.data(), b.size()); }
string hex(const Bytes &b, size_t maxn = 32);
string diff_bytes(const Bytes &got, const Bytes &want);
inline Bytes B(const string &s) { return Bytes(s.begin(), s.end()); }
inline string Str(const Bytes &b) { return string(b.begin(), b.end()); }

} // namespace sim
