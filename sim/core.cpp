// Arena, choice log, trace, and harness-side file system access.
#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {

// ---------------------------------------------------------------- arena
static char *const BASE = (char *)0x300000000000ull;
struct Head {
	size_t used, size;
	void *freel[56];
};
static Head *H() { return (Head *)BASE; }
Sim *S;

static int cls_of(size_t n) // sizes: powers of two and the midpoints between
{
	size_t c = 16;
	int k = 0;
	while (c < n) { c = (k & 1) ? c / 3 * 4 : c / 2 * 3; k++; }
	return k;
}
static size_t size_of(int k)
{
	size_t c = 16;
	for (int i = 0; i < k; i++) c = (i & 1) ? c / 3 * 4 : c / 2 * 3;
	return c;
}
void *aalloc(size_t n)
{
	int k = cls_of(n);
	if (k >= 56) { fprintf(stderr, "arena: huge allocation %zu\n", n); if (S) S->outcome = 2; _exit(4); }
	if (void *p = H()->freel[k]) { H()->freel[k] = *(void **)p; return p; }
	size_t sz = (size_of(k) + 15) & ~size_t(15);
	if (H()->used + sz > H()->size) { fprintf(stderr, "arena: out of space\n"); if (S) S->outcome = 2; _exit(4); }
	void *p = BASE + H()->used;
	H()->used += sz;
	return p;
}
void afree(void *p, size_t n)
{
	if (!p) return;
	int k = cls_of(n);
	*(void **)p = H()->freel[k];
	H()->freel[k] = p;
}
void arena_map(size_t bytes)
{
	void *p = mmap(BASE, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (p != (void *)BASE) { perror("arena mmap"); _exit(4); }
	H()->size = bytes;
}
void arena_reset()
{
	size_t size = H()->size;
	size_t used = H()->used;
	if (used) madvise(BASE, (used + 4095) & ~size_t(4095), MADV_REMOVE);
	memset((void *)H(), 0, sizeof(Head));
	H()->size = size;
	H()->used = (sizeof(Head) + 63) & ~size_t(63);
	S = new (aalloc(sizeof(Sim))) Sim();
	auto mk = [](const char *name) {
		Node *n = new (aalloc(sizeof(Node))) Node();
		n->dir = true; n->mode = 0755; n->ino = S->next_ino++;
		(void)name;
		return n;
	};
	S->root = mk("/");
	S->now_ns = 1500000000ll * 1000000000ll;
	fs_mkdir("/sim/tmp");
	fs_mkdir("/sim/w");
	S->cwd = "/sim/w";
}

// ---------------------------------------------------------------- choices
uint32_t draw(uint32_t n, const char *label)
{
	if (n == 0) n = 1;
	uint32_t v;
	if (S->replay) {
		size_t i = S->choices.size();
		v = i < S->replay_vals.size() ? S->replay_vals[i] % n : 0;
	} else {
		uint64_t &s = S->prng;
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		z ^= z >> 31;
		v = uint32_t((z >> 32) % n);
	}
	S->choices.push_back(v);
	if (S->tracing) S->clabels.push_back(AStr(label) + "/" + std::to_string(n).c_str());
	S->trace_hash = mix(S->trace_hash, v + 77);
	return v;
}
size_t pick_weighted(std::initializer_list<int> w, const char *label)
{
	int sum = 0;
	for (int x : w) sum += x;
	int v = draw(sum, label);
	size_t i = 0;
	for (int x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
Bytes Rng::bytes(size_t n)
{
	Bytes r(n);
	size_t i = 0;
	for (; i + 8 <= n; i += 8) { uint64_t v = next(); memcpy(&r[i], &v, 8); }
	for (; i < n; i++) r[i] = uint8_t(next() >> 40);
	// never the mark of an object's header page (8.3.8): data in a page given back would look like a lost object
	for (i = 1; i < n; i++) if (r[i] == 0xfd && r[i - 1] == 0x1c) r[i] = 0xfe;
	return r;
}
Bytes Rng::text(size_t n)
{
	static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789 \n\t{}\",<>&";
	Bytes r(n);
	for (auto &c : r) c = al[below(sizeof(al) - 1)];
	return r;
}

// ---------------------------------------------------------------- trace
uint64_t hash64(const void *p, size_t n, uint64_t h)
{
	const uint8_t *b = (const uint8_t *)p;
	while (n >= 8) { uint64_t v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 29; b += 8; n -= 8; }
	uint64_t v = n;
	for (size_t i = 0; i < n; i++) v = (v << 8) | b[i];
	h = (h ^ v) * 0x9FB21C651E98DF25ull;
	return h ^ (h >> 32);
}
void hash_bytes(const void *p, size_t n) { S->trace_hash = mix(S->trace_hash, hash64(p, n)); }
void hash_str(const string &s) { hash_bytes(s.data(), s.size()); }
void trace(const char *f, ...)
{
	char b[1200];
	va_list a;
	va_start(a, f);
	int n = vsnprintf(b, sizeof b, f, a);
	va_end(a);
	if (n >= (int)sizeof b) n = sizeof b - 1;
	hash_bytes(b, n);
	if (S->tracing && S->trace.size() < 20000) S->trace.push_back(AStr(b, n));
}
void state(uint64_t h) { if (S->states.size() < 4096) S->states.push_back(h); }
void probe(const char *name, uint64_t n) { S->probes[AStr(name)] += n; }
void fail(const string &cls, const string &msg)
{
	if (!S->outcome) {
		S->outcome = 1;
		S->vclass = cls.c_str();
		S->vmsg = msg.c_str();
		trace("VIOLATION %s: %s", cls.c_str(), msg.c_str());
	}
	_exit(3);
}
void harness_error(const string &msg)
{
	S->outcome = 2;
	S->vclass = "harness";
	S->vmsg = msg.c_str();
	_exit(4);
}
string fmt(const char *f, ...)
{
	char b[4096];
	va_list a;
	va_start(a, f);
	vsnprintf(b, sizeof b, f, a);
	va_end(a);
	return b;
}
string hex(const Bytes &b, size_t maxn)
{
	string r;
	for (size_t i = 0; i < b.size() && i < maxn; i++) r += fmt("%02x", b[i]);
	if (b.size() > maxn) r += "...";
	return r;
}
string diff_bytes(const Bytes &got, const Bytes &want)
{
	size_t i = 0, n = std::min(got.size(), want.size());
	while (i < n && got[i] == want[i]) i++;
	if (i == got.size() && i == want.size()) return "equal";
	return fmt("length got %zu want %zu, first difference at %zu: got %s want %s", got.size(), want.size(), i,
		hex(Bytes(got.begin() + i, got.end()), 16).c_str(), hex(Bytes(want.begin() + i, want.end()), 16).c_str());
}

// ---------------------------------------------------------------- file system, harness side
static Node *mknode(bool dir)
{
	Node *n = new (aalloc(sizeof(Node))) Node();
	n->dir = dir;
	n->mode = dir ? 0755 : 0644;
	n->ino = S->next_ino++;
	n->mtime = n->atime = S->now_ns / 1000000000;
	return n;
}
Node *fs_new_node(bool dir) { return mknode(dir); }
Node *fs_node(const string &path)
{
	Node *n = S->root;
	size_t i = 0;
	while (i < path.size()) {
		while (i < path.size() && path[i] == '/') i++;
		if (i >= path.size()) break;
		size_t j = path.find('/', i);
		if (j == string::npos) j = path.size();
		if (!n->dir) return nullptr;
		auto it = n->kids.find(std::string_view(path).substr(i, j - i));
		if (it == n->kids.end()) return nullptr;
		n = it->second;
		i = j;
	}
	return n;
}
void fs_mkdir(const string &path)
{
	Node *n = S->root;
	size_t i = 0;
	while (i < path.size()) {
		while (i < path.size() && path[i] == '/') i++;
		if (i >= path.size()) break;
		size_t j = path.find('/', i);
		if (j == string::npos) j = path.size();
		AStr nm(path.data() + i, j - i);
		auto it = n->kids.find(nm);
		if (it == n->kids.end()) it = n->kids.emplace(nm, mknode(true)).first;
		n = it->second;
		i = j;
	}
}
void fs_put(const string &path, const Bytes &data, int64_t mtime)
{
	size_t p = path.rfind('/');
	fs_mkdir(path.substr(0, p));
	Node *d = fs_node(path.substr(0, p));
	Node *n = mknode(false);
	n->data.assign(data.begin(), data.end());
	if (mtime) n->mtime = mtime;
	d->kids[AStr(path.c_str() + p + 1)] = n;
}
void fs_put(const string &path, const Img &img, int64_t mtime)
{
	fs_put(path, img.data, mtime);
	Node *n = fs_node(path);
	n->ps = img.ps;
	n->pages = img.pages;
	for (auto &r : img.runs) n->runs[r.first] = r.second;
}
bool fs_get(const string &path, Bytes &out)
{
	Node *n = fs_node(path);
	if (!n || n->dir) return false;
	out.assign(n->data.begin(), n->data.end());
	if (n->ps) {
		auto put = [&](uint64_t v) { for (int i = 0; i < 64; i += 8) out.push_back(v >> i); };
		for (auto &r : n->runs) { put(r.first); put(r.second.n); put(r.second.off); put(r.second.same); }
		put(n->pages);
	}
	return true;
}
Img fs_img(const string &path)
{
	Node *n = fs_node(path);
	if (!n || n->dir) harness_error("fs_img: no file " + path);
	Img r;
	r.data.assign(n->data.begin(), n->data.end());
	r.ps = n->ps;
	r.pages = n->pages;
	for (auto &q : n->runs) r.runs[q.first] = q.second;
	return r;
}
template <class M> static const PRun *find_run(const M &runs, uint64_t page, uint64_t &first)
{
	auto it = runs.upper_bound(page);
	if (it == runs.begin()) return nullptr;
	--it;
	if (page - it->first >= it->second.n) return nullptr;
	first = it->first;
	return &it->second;
}
const uint8_t *Img::at(uint64_t off) const
{
	if (!ps) return &data[off];
	static const Bytes zeros(65536);
	uint64_t first;
	const PRun *r = find_run(runs, off / ps, first);
	return r ? &data[r->off + (r->same ? 0 : (off / ps - first) * ps) + off % ps] : &zeros[off % ps];
}
string Img::differs(const Img &o) const
{
	if (size() != o.size()) return fmt("%llu bytes, not %llu", (unsigned long long)size(), (unsigned long long)o.size());
	if (!ps) return diff_bytes(data, o.data);
	for (uint64_t p = 0; p < pages; p++) if (memcmp(at(p * ps), o.at(p * ps), ps)) return fmt("page %llu: ", (unsigned long long)p) + diff_bytes(Bytes(at(p * ps), at(p * ps) + ps), Bytes(o.at(p * ps), o.at(p * ps) + ps));
	return "no difference";
}
bool Img::operator==(const Img &o) const
{
	if (size() != o.size()) return false;
	if (!ps) return data == o.data;
	std::set<uint64_t> check; // pages where a run of either begins or ends
	for (const Img *i : { this, &o }) for (auto &r : i->runs) {
		if (r.second.same) { check.insert(r.first); check.insert(r.first + r.second.n - 1); }
		else for (uint64_t k = 0; k < r.second.n; k++) check.insert(r.first + k);
		if (r.first) check.insert(r.first - 1);
		check.insert(r.first + r.second.n);
	}
	for (uint64_t p : check) if (p < pages && memcmp(at(p * ps), o.at(p * ps), ps)) return false;
	return true;
}
// calls f with every part that is in one page
template <class F> static void parts(uint32_t ps, uint64_t pos, uint64_t n, F f)
{
	for (uint64_t done = 0; done < n;) {
		uint64_t k = std::min<uint64_t>(n - done, ps - (pos + done) % ps);
		f((pos + done) / ps, (pos + done) % ps, done, k);
		done += k;
	}
}
static const uint8_t *page_of(const Node &n, uint64_t page)
{
	uint64_t first;
	const PRun *r = find_run(n.runs, page, first);
	return r ? &n.data[r->off + (r->same ? 0 : (page - first) * n.ps)] : nullptr;
}
void Node::get(uint64_t pos, void *to, uint64_t n) const
{
	if (!n) return;
	if (!ps) { memcpy(to, data.data() + pos, n); return; }
	parts(ps, pos, n, [&](uint64_t page, uint64_t in, uint64_t done, uint64_t k) {
		const uint8_t *p = page_of(*this, page);
		if (p) memcpy((char *)to + done, p + in, k); else memset((char *)to + done, 0, k);
	});
}
bool Node::equals(uint64_t pos, const void *q, uint64_t n) const
{
	if (pos + n > size()) return false;
	if (!n) return true;
	if (!ps) return !memcmp(data.data() + pos, q, n);
	bool eq = true;
	parts(ps, pos, n, [&](uint64_t page, uint64_t in, uint64_t done, uint64_t k) {
		const uint8_t *p = page_of(*this, page);
		if (p) eq &= !memcmp((const char *)q + done, p + in, k);
		else for (uint64_t i = 0; i < k; i++) eq &= !((const char *)q)[done + i];
	});
	return eq;
}
void Node::put(uint64_t pos, const void *from, uint64_t n)
{
	if (pos + n > size()) resize(pos + n);
	if (!n) return;
	if (!ps) { memcpy(data.data() + pos, from, n); return; }
	parts(ps, pos, n, [&](uint64_t page, uint64_t in, uint64_t done, uint64_t k) {
		uint64_t first;
		const PRun *r = find_run(runs, page, first);
		if (!r || r->same) { // it gets bytes of its own
			uint64_t off = data.size();
			data.resize(off + ps, 0);
			if (r) {
				PRun q = *r;
				memcpy(&data[off], &data[q.off], ps);
				runs.erase(first);
				if (page > first) runs[first] = PRun{ page - first, q.off, true };
				if (page + 1 < first + q.n) runs[page + 1] = PRun{ first + q.n - page - 1, q.off, true };
			}
			runs[page] = PRun{ 1, off, false };
			r = &runs[page];
			first = page;
		}
		memcpy(&data[r->off + (page - first) * ps + in], (const char *)from + done, k);
	});
}
void Node::resize(uint64_t n)
{
	if (!ps) { data.resize(n, 0); return; }
	uint64_t had = pages;
	pages = (n + ps - 1) / ps; // whole pages are all that is ever wanted
	if (pages >= had) return;
	runs.erase(runs.lower_bound(pages), runs.end());
	if (!runs.empty()) { auto it = --runs.end(); if (it->first + it->second.n > pages) it->second.n = pages - it->first; }
}
Bytes fs_read(const string &path)
{
	Bytes b;
	if (!fs_get(path, b)) harness_error("fs_read: no file " + path);
	return b;
}
bool fs_exists(const string &path) { return fs_node(path) != nullptr; }
bool fs_is_dir(const string &path) { Node *n = fs_node(path); return n && n->dir; }
void fs_remove(const string &path)
{
	size_t p = path.rfind('/');
	Node *d = fs_node(path.substr(0, p));
	if (d) d->kids.erase(AStr(path.c_str() + p + 1));
}
void fs_chmod(const string &path, uint32_t mode) { if (Node *n = fs_node(path)) n->mode = mode; }
vector<string> fs_list(const string &dir)
{
	vector<string> r;
	Node *n = fs_node(dir);
	if (n && n->dir) for (auto &k : n->kids) r.push_back(k.first.c_str());
	return r;
}
static void walk(Node *n, const string &rel, vector<string> &out)
{
	for (auto &k : n->kids) {
		string r = rel + k.first.c_str();
		if (k.second->dir) { out.push_back(r + "/"); walk(k.second, r + "/", out); }
		else out.push_back(r);
	}
}
vector<string> fs_walk(const string &dir)
{
	vector<string> r;
	Node *n = fs_node(dir);
	if (n && n->dir) walk(n, "", r);
	return r;
}
int64_t fs_mtime(const string &path) { Node *n = fs_node(path); return n ? n->mtime : 0; }
static Node *clone(Node *n)
{
	Node *c = mknode(n->dir);
	c->mode = n->mode; c->mtime = n->mtime; c->atime = n->atime;
	c->data = n->data;
	c->ps = n->ps; c->pages = n->pages; c->runs = n->runs;
	for (auto &k : n->kids) c->kids[k.first] = clone(k.second);
	return c;
}
void fs_copy(const string &from, const string &to)
{
	Node *n = fs_node(from);
	if (!n) harness_error("fs_copy: no " + from);
	fs_remove(to);
	size_t p = to.rfind('/');
	fs_mkdir(to.substr(0, p));
	fs_node(to.substr(0, p))->kids[AStr(to.c_str() + p + 1)] = clone(n);
}
uint64_t fs_tree_hash(const string &dir)
{
	uint64_t h = 7;
	for (auto &f : fs_walk(dir)) {
		h = mix(h, hash64(f.data(), f.size()));
		Bytes b;
		if (fs_get(dir + "/" + f, b)) h = mix(h, hash64(b));
	}
	return h;
}
string fs_diff(const string &a, const string &b)
{
	auto wa = fs_walk(a), wb = fs_walk(b);
	std::set<string> sa(wa.begin(), wa.end()), sb(wb.begin(), wb.end());
	for (auto &x : sa) if (!sb.count(x)) return x + " only in " + a;
	for (auto &x : sb) if (!sa.count(x)) return x + " only in " + b;
	for (auto &x : sa) {
		Bytes p, q;
		if (fs_get(a + "/" + x, p) && fs_get(b + "/" + x, q) && p != q) return x + ": " + diff_bytes(p, q);
	}
	return "";
}

} // namespace sim
