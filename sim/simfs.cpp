// The seam: libc entry points used by libstdc++'s file buffers, Boost.Filesystem, Boost.Uuid and the
// program itself are defined here, in the executable, and so take precedence over libc's. Paths below
// /sim go to the virtual file system; other paths are read-only to the simulated program.
#include "sim.h"
#include "seam.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#include <utime.h>

namespace sim {

const char *const op_name[OP_N] = { "open", "create", "read", "write", "mkdir", "unlink", "rename", "stat", "list",
	"seek", "close", "trunc", "utime" };
bool seam_on = false; // true only inside a simulated program instance
static sem_t *sems;   // one per instance, for interleaving
void seam_set_sems(sem_t *s) { sems = s; }
static int64_t quantum = 0;

Node *fs_new_node(bool dir);

struct Fd { Node *n; int64_t pos; int flags; AStr *path; bool used; };
static const int MAXFD = 4096;
static Fd fds[MAXFD];
struct SimDir { vector<string> names; size_t i; Node *n; int fd; struct dirent64 de; };
static std::set<void *> *dirs;

static string abspath(const char *p)
{
	string s = p;
	if (s.empty() || s[0] != '/') s = string(S->cwd.c_str()) + "/" + s;
	// normalise
	vector<string> parts;
	size_t i = 0;
	while (i < s.size()) {
		while (i < s.size() && s[i] == '/') i++;
		size_t j = s.find('/', i);
		if (j == string::npos) j = s.size();
		if (j > i) {
			string c = s.substr(i, j - i);
			if (c == "..") { if (!parts.empty()) parts.pop_back(); }
			else if (c != ".") parts.push_back(c);
		}
		i = j;
	}
	string r;
	for (auto &c : parts) r += "/" + c;
	return r.empty() ? "/" : r;
}
static bool insim(const char *p)
{
	if (!seam_on) return false;
	if (!p || !*p) return false;
	if (p[0] != '/') return true;
	string a = abspath(p);
	return a == "/sim" || a.compare(0, 5, "/sim/") == 0;
}
static bool mine(int fd) { return seam_on && fd >= 0 && fd < MAXFD && fds[fd].used; }

static void escape(const char *what, const char *p)
{
	S->escapes.push_back(AStr(what) + " " + (p ? p : "(null)"));
	trace("ESCAPE %s %s", what, p ? p : "(null)");
}

static void die_now(const char *why)
{
	InstState &I = S->inst[S->cur];
	I.killed = true;
	trace("i%d KILLED %s", S->cur, why);
	_exit(0);
}

static void maybe_switch()
{
	if (!S->interleave || !(S->alive_mask & ~(1 << S->cur))) return;
	if (quantum > 0) { quantum--; return; }
	int me = S->cur, other = -1;
	for (int i = 0; i < 8; i++) if (i != me && (S->alive_mask >> i & 1)) other = i;
	uint32_t v = draw(40, "quantum");
	quantum = v == 0 ? 1000000 : v < 30 ? v : (v - 29) * 40;
	if (other < 0) return;
	S->switches++;
	trace("switch i%d -> i%d", me, other);
	S->cur = other;
	sem_post(&sems[other]);
	while (sem_wait(&sems[me]) != 0) {}
	S->cur = me;
}
void seam_wait_turn(int me)
{
	while (sem_wait(&sems[me]) != 0) {}
	S->cur = me;
}

// One operation at the seam. Returns 0 or an errno; *let is lowered for a short transfer.
static int sim_op(Op op, const string &path, int64_t off, int64_t len, int64_t *let = nullptr, bool *torn_kill = nullptr)
{
	maybe_switch();
	InstState &I = S->inst[S->cur];
	I.nops[op]++;
	I.total++;
	if (++S->ops_total > S->op_budget) {
		trace("operation budget exceeded");
		I.killed = true;
		S->notes.push_back("op-budget");
		_exit(97);
	}
	S->tick_seed = S->tick_seed * 6364136223846793005ull + 1442695040888963407ull;
	S->now_ns += S->tick_ns + (int64_t)((S->tick_seed >> 33) % (uint64_t)(S->tick_ns + 1));
	if (S->log_ops && S->oplog.size() < 200000) S->oplog.push_back(OpLog{ (uint8_t)op, AStr(path.c_str()) });
	int err = 0;
	for (auto &f : I.faults) {
		if (!(f.ops >> op & 1)) continue;
		if (!f.path.empty() && path.find(f.path.c_str()) == string::npos) continue;
		uint32_t k = f.seen++;
		if (k < f.at || k - f.at >= f.count) continue;
		switch (f.kind) {
		case FaultRule::ERR: err = f.err; break;
		case FaultRule::SHORT: if (let && *let > 1) { *let = 1 + (*let - 1) * f.arg / 1000; } else continue; break;
		case FaultRule::KILL: f.fired++; S->faults_fired[f.kind]++; die_now(op_name[op]); break;
		case FaultRule::TORN_KILL: if (let && torn_kill) { *let = *let * f.arg / 1000; *torn_kill = true; } else { f.fired++; S->faults_fired[f.kind]++; die_now(op_name[op]); } break;
		case FaultRule::JUMP: S->now_ns += f.arg; break;
		}
		f.fired++;
		S->faults_fired[f.kind]++;
	}
	if (S->tracing || op != OP_SEEK)
		trace("i%d %s %s @%lld +%lld%s%s", S->cur, op_name[op], path.c_str(), (long long)off, (long long)len,
			err ? " ERR " : "", err ? strerror(err) : (let && *let != len ? " SHORT" : ""));
	return err;
}
static void hist(Op op, int wr, int err, const string &p, const string &p2 = "", int64_t off = 0, int64_t len = 0, bool same = false)
{
	if (!S->record_hist || S->hist.size() > 2000000) return;
	S->hist.push_back(OpRec{ (uint8_t)op, (uint8_t)S->cur, (uint8_t)wr, (int16_t)err, AStr(p.c_str()), AStr(p2.c_str()), off, len, (uint32_t)S->inst[S->cur].err.size(), same });
}

static Node *lookup(const string &abs) { return fs_node(abs); }
static void split(const string &abs, string &dir, string &name)
{
	size_t p = abs.rfind('/');
	dir = abs.substr(0, p);
	if (dir.empty()) dir = "/";
	name = abs.substr(p + 1);
}
static int64_t now_s() { return S->now_ns / 1000000000; }

static int bind_fd(int fd, Node *n, int flags, const string &abs)
{
	if (fd < 0 || fd >= MAXFD) { errno = EMFILE; return -1; }
	fds[fd].n = n;
	fds[fd].pos = 0;
	fds[fd].flags = flags;
	fds[fd].path = new (aalloc(sizeof(AStr))) AStr(abs.c_str());
	fds[fd].used = true;
	InstState &I = S->inst[S->cur];
	I.open_now++;
	if (I.open_now > I.open_max) I.open_max = I.open_now;
	return fd;
}
static int devnull() { return (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0); }

// returns errno, or 0 and the node
static int do_open(const char *path, int flags, int mode, Node *&out, string &abs)
{
	abs = abspath(path);
	bool wr = (flags & O_ACCMODE) != O_RDONLY;
	Node *n = lookup(abs);
	Op op = (!n && (flags & O_CREAT)) ? OP_CREATE : OP_OPEN;
	int e = sim_op(op, abs, flags & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND), 0);
	n = lookup(abs);
	if (!e && S->inst[S->cur].open_now >= 1000) e = EMFILE;
	if (!e) {
		string d, nm;
		split(abs, d, nm);
		Node *dn = lookup(d);
		size_t L = strlen(path);
		if (nm.size() > 255 || abs.size() > 4095) e = ENAMETOOLONG;
		else if (!dn) e = ENOENT;
		else if (!dn->dir) e = ENOTDIR;
		else if (!n && !(flags & O_CREAT)) e = ENOENT;
		else if (!n && L && path[L - 1] == '/') e = EISDIR;
		else if (n && (flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
		else if (n && n->dir && wr) e = EISDIR;
		else if (n && !n->dir && (flags & O_DIRECTORY)) e = ENOTDIR;
		else if (n && wr && !(n->mode & 0200)) e = EACCES;
		else if (n && !wr && !n->dir && !(n->mode & 0400)) e = EACCES;
		else if (!n && !(dn->mode & 0200)) e = EACCES;
		if (!e && !n) {
			n = fs_new_node(false);
			n->mode = mode & 0777;
			dn->kids[AStr(nm.c_str())] = n;
			dn->mtime = now_s();
			hist(OP_CREATE, 1, 0, abs);
		} else if (!e && (flags & O_TRUNC) && wr) {
			n->data.clear(); n->runs.clear(); n->ps = 0;
			n->mtime = now_s();
			hist(OP_TRUNC, 1, 0, abs);
		}
	}
	hist(OP_OPEN, wr, e, abs);
	out = n;
	return e;
}

static ssize_t do_read(int fd, void *buf, size_t len)
{
	Fd &f = fds[fd];
	int64_t let = (int64_t)len;
	int e = sim_op(OP_READ, f.path->c_str(), f.pos, len, &let);
	if (e) { hist(OP_READ, 0, e, f.path->c_str(), "", f.pos, len); errno = e; return -1; }
	if (f.n->dir) { errno = EISDIR; return -1; }
	if ((f.flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
	int64_t sz = f.n->size();
	int64_t n = f.pos >= sz ? 0 : std::min<int64_t>(let, sz - f.pos);
	if (S->hist_reads) hist(OP_READ, 0, 0, f.path->c_str(), "", f.pos, n);
	if (n > 0) f.n->get(f.pos, buf, n);
	f.pos += n;
	return n;
}
static ssize_t do_write(int fd, const void *buf, size_t len)
{
	Fd &f = fds[fd];
	if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
	if (f.flags & O_APPEND) f.pos = f.n->size();
	int64_t let = (int64_t)len;
	bool torn = false;
	int e = sim_op(OP_WRITE, f.path->c_str(), f.pos, len, &let, &torn);
	if (!e && len) {
		int64_t grow = f.pos + let - (int64_t)f.n->size();
		if (!f.n->ps && f.pos + let > (1ll << 30)) e = EFBIG;
		else if (grow > 0 && (uint64_t)grow > S->disk_free) e = ENOSPC;
		else if (grow > 0) S->disk_free -= grow;
	}
	bool same = !e && f.n->equals(f.pos, buf, let);
	hist(OP_WRITE, 1, e, f.path->c_str(), "", f.pos, let, same);
	if (e) { errno = e; return -1; }
	f.n->put(f.pos, buf, let);
	hash_bytes(buf, let);
	f.n->mtime = now_s();
	f.pos += let;
	if (torn) die_now("torn write");
	return let;
}
static void fill_stat(Node *n, struct stat *st)
{
	memset(st, 0, sizeof *st);
	st->st_dev = 77;
	st->st_ino = n->ino;
	st->st_mode = n->mode | (n->dir ? S_IFDIR : S_IFREG);
	st->st_nlink = n->links;
	st->st_size = n->dir ? 4096 : n->size();
	st->st_blksize = 4096;
	st->st_blocks = (st->st_size + 511) / 512;
	st->st_mtim.tv_sec = st->st_ctim.tv_sec = n->mtime;
	st->st_atim.tv_sec = n->atime;
}
static int do_stat(const string &abs, struct stat *st)
{
	int e = sim_op(OP_STAT, abs, 0, 0);
	if (e) { errno = e; return -1; }
	string d, nm;
	split(abs, d, nm);
	if (nm.size() > 255) { errno = ENAMETOOLONG; return -1; }
	Node *n = lookup(abs);
	if (!n) {
		Node *p = lookup(d);
		errno = p && !p->dir ? ENOTDIR : ENOENT;
		return -1;
	}
	fill_stat(n, st);
	return 0;
}
static int do_unlink(const string &abs, bool rmdir_)
{
	int e = sim_op(OP_UNLINK, abs, rmdir_, 0);
	if (!e) {
		Node *n = lookup(abs);
		string d, nm;
		split(abs, d, nm);
		Node *dn = lookup(d);
		if (!n) e = ENOENT;
		else if (rmdir_ && !n->dir) e = ENOTDIR;
		else if (!rmdir_ && n->dir) e = EISDIR;
		else if (rmdir_ && !n->kids.empty()) e = ENOTEMPTY;
		else if (!(dn->mode & 0200)) e = EACCES;
		else { dn->kids.erase(dn->kids.find(nm)); n->links = 0; dn->mtime = now_s(); }
	}
	hist(OP_UNLINK, 1, e, abs);
	if (e) { errno = e; return -1; }
	return 0;
}
static int do_mkdir(const string &abs, int mode)
{
	int e = sim_op(OP_MKDIR, abs, 0, 0);
	if (!e) {
		string d, nm;
		split(abs, d, nm);
		Node *dn = lookup(d);
		if (nm.size() > 255) e = ENAMETOOLONG;
		else if (!dn) e = ENOENT;
		else if (!dn->dir) e = ENOTDIR;
		else if (lookup(abs)) e = EEXIST;
		else if (!(dn->mode & 0200)) e = EACCES;
		else {
			Node *n = fs_new_node(true);
			n->mode = mode & 0777 & ~022;
			dn->kids[AStr(nm.c_str())] = n;
			dn->mtime = now_s();
		}
	}
	hist(OP_MKDIR, 1, e, abs);
	if (e) { errno = e; return -1; }
	return 0;
}
static int do_rename(const string &a, const string &b)
{
	int e = sim_op(OP_RENAME, a, 0, 0);
	if (!e) {
		Node *n = lookup(a), *m = lookup(b);
		string da, na, db, nb;
		split(a, da, na);
		split(b, db, nb);
		Node *pa = lookup(da), *pb = lookup(db);
		if (!n || !pb) e = ENOENT;
		else if (m && m->dir && !n->dir) e = EISDIR;
		else if (m && m->dir && !m->kids.empty()) e = ENOTEMPTY;
		else if (m != n) {
			pa->kids.erase(pa->kids.find(na));
			if (m) m->links = 0;
			pb->kids[AStr(nb.c_str())] = n;
		}
	}
	hist(OP_RENAME, 1, e, a, b);
	if (e) { errno = e; return -1; }
	return 0;
}
static int do_utime(const string &abs, int64_t at, int64_t mt)
{
	int e = sim_op(OP_UTIME, abs, mt, 0);
	Node *n = lookup(abs);
	if (!e && !n) e = ENOENT;
	hist(OP_UTIME, 1, e, abs);
	if (e) { errno = e; return -1; }
	n->atime = at;
	n->mtime = mt;
	return 0;
}
static void seam_close(int fd)
{
	if (!mine(fd)) return;
	S->inst[S->cur].open_now--;
	fds[fd].used = false;
}
static string at_path(int dfd, const char *p)
{
	if (p && p[0] != '/' && mine(dfd)) return string(fds[dfd].path->c_str()) + (*p ? "/" : "") + p;
	return p ? p : "";
}

} // namespace sim

using namespace sim;

template <class F> static F real(const char *name)
{
	void *p = dlsym(RTLD_NEXT, name);
	return (F)p;
}

extern "C" {

// ---------------------------------------------------------------- descriptors
ssize_t read(int fd, void *b, size_t n)
{
	if (mine(fd)) return do_read(fd, b, n);
	return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
	if (mine(fd)) return do_write(fd, b, n);
	return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	if (!mine(fd)) return syscall(SYS_writev, fd, v, c);
	string all;
	for (int i = 0; i < c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
	return do_write(fd, all.data(), all.size());
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
	if (!mine(fd)) return syscall(SYS_readv, fd, v, c);
	ssize_t t = 0;
	for (int i = 0; i < c; i++) {
		ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return t ? t : r;
		t += r;
		if ((size_t)r < v[i].iov_len) break;
	}
	return t;
}
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
	if (!mine(fd)) return syscall(SYS_pread64, fd, b, n, o);
	int64_t p = fds[fd].pos;
	fds[fd].pos = o;
	ssize_t r = do_read(fd, b, n);
	fds[fd].pos = p;
	return r;
}
ssize_t pread64(int fd, void *b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o)
{
	if (!mine(fd)) return syscall(SYS_pwrite64, fd, b, n, o);
	int64_t p = fds[fd].pos;
	fds[fd].pos = o;
	ssize_t r = do_write(fd, b, n);
	fds[fd].pos = p;
	return r;
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w)
{
	if (!mine(fd)) return syscall(SYS_lseek, fd, o, w);
	Fd &f = fds[fd];
	int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? f.pos : (int64_t)f.n->size();
	if (base + o < 0) { errno = EINVAL; return -1; }
	int e = sim_op(OP_SEEK, f.path->c_str(), base + o, 0);
	if (e) { errno = e; return -1; }
	return f.pos = base + o;
}
off_t lseek64(int fd, off_t o, int w) { return lseek(fd, o, w); }
int close(int fd)
{
	int e = 0;
	if (mine(fd)) {
		e = sim_op(OP_CLOSE, fds[fd].path->c_str(), 0, 0);
		seam_close(fd);
	}
	int r = (int)syscall(SYS_close, fd);
	if (e) { errno = e; return -1; }
	return r;
}
static int open_common(const char *p, int flags, int mode)
{
	if (!insim(p)) {
		if (seam_on && ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) && strcmp(p, "/dev/null")) {
			escape("open", p);
			errno = EACCES;
			return -1;
		}
		if (seam_on && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"))) { errno = ENOENT; return -1; }
		return (int)syscall(SYS_openat, AT_FDCWD, p, flags, mode);
	}
	Node *n;
	string abs;
	int e = do_open(p, flags, mode & ~022, n, abs);
	if (e) { errno = e; return -1; }
	return bind_fd(devnull(), n, flags, abs);
}
int open(const char *p, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;
	va_end(a);
	return open_common(p, flags, mode);
}
int open64(const char *p, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;
	va_end(a);
	return open_common(p, flags, mode);
}
static int openat_common(int d, const char *p, int flags, int mode)
{
	if (mine(d) && p[0] != '/') return open_common(at_path(d, p).c_str(), flags, mode);
	if (d == AT_FDCWD || p[0] == '/') return open_common(p, flags, mode);
	return (int)syscall(SYS_openat, d, p, flags, mode);
}
int openat(int d, const char *p, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;
	va_end(a);
	return openat_common(d, p, flags, mode);
}
int openat64(int d, const char *p, int flags, ...)
{
	va_list a;
	va_start(a, flags);
	int mode = (flags & O_CREAT) ? va_arg(a, int) : 0;
	va_end(a);
	return openat_common(d, p, flags, mode);
}
int __openat64_2(int d, const char *p, int flags) { return openat_common(d, p, flags, 0); }
int __openat_2(int d, const char *p, int flags) { return openat_common(d, p, flags, 0); }
int __open_2(const char *p, int flags) { return open_common(p, flags, 0); }
int __open64_2(const char *p, int flags) { return open_common(p, flags, 0); }
int creat(const char *p, mode_t m) { return open_common(p, O_CREAT | O_WRONLY | O_TRUNC, m); }

// ---------------------------------------------------------------- FILE
static FILE *fopen_common(const char *p, const char *m, const char *sym)
{
	if (!insim(p)) {
		static auto r = real<FILE *(*)(const char *, const char *)>("fopen");
		if (seam_on && (m[0] != 'r' || strchr(m, '+')) && strcmp(p, "/dev/null")) {
			escape(sym, p);
			errno = EACCES;
			return nullptr;
		}
		return r(p, m);
	}
	int flags = m[0] == 'r' ? 0 : m[0] == 'w' ? O_CREAT | O_TRUNC : O_CREAT | O_APPEND;
	flags |= strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
	Node *n;
	string abs;
	int e = do_open(p, flags, 0644, n, abs);
	if (e) { errno = e; return nullptr; }
	int fd = devnull();
	if (fd < 0) return nullptr;
	FILE *f = real<FILE *(*)(int, const char *)>("fdopen")(fd, "r+");
	if (bind_fd(fd, n, flags, abs) < 0) { real<int (*)(FILE *)>("fclose")(f); errno = EMFILE; return nullptr; }
	return f;
}
FILE *fopen(const char *p, const char *m) { return fopen_common(p, m, "fopen"); }
FILE *fopen64(const char *p, const char *m) { return fopen_common(p, m, "fopen64"); }
int fclose(FILE *f)
{
	static auto r = real<int (*)(FILE *)>("fclose");
	int e = 0;
	int fd = fileno(f);
	if (mine(fd)) {
		e = sim_op(OP_CLOSE, fds[fd].path->c_str(), 0, 0);
		seam_close(fd);
	}
	int x = r(f);
	if (e) { errno = e; return -1; }
	return x;
}
int ioctl(int fd, unsigned long req, ...)
{
	va_list a;
	va_start(a, req);
	void *p = va_arg(a, void *);
	va_end(a);
	if (mine(fd)) {
		if (req == FIONREAD) { *(int *)p = (int)std::max<int64_t>(0, (int64_t)fds[fd].n->size() - fds[fd].pos); return 0; }
		errno = ENOTTY;
		return -1;
	}
	return (int)syscall(SYS_ioctl, fd, req, p);
}
int poll(struct pollfd *p, nfds_t n, int t)
{
	if (n == 1 && mine(p[0].fd)) { p[0].revents = p[0].events; return 1; }
	return (int)syscall(SYS_poll, p, n, t);
}

// ---------------------------------------------------------------- stat
int stat(const char *p, struct stat *st)
{
	if (insim(p)) return do_stat(abspath(p), st);
	return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st)
{
	if (insim(p)) return do_stat(abspath(p), st);
	return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st)
{
	if (mine(fd)) { fill_stat(fds[fd].n, st); return 0; }
	return (int)syscall(SYS_fstat, fd, st);
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int fl)
{
	if (mine(d) && (!*p)) return fstat(d, st);
	if (mine(d) && p[0] != '/') return do_stat(abspath(at_path(d, p).c_str()), st);
	if ((d == AT_FDCWD || p[0] == '/') && insim(p)) return do_stat(abspath(p), st);
	return (int)syscall(SYS_newfstatat, d, p, st, fl);
}
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx)
{
	struct stat st;
	bool m = false;
	int r = 0;
	if (mine(d) && (!p || !*p)) { m = true; fill_stat(fds[d].n, &st); }
	else if (mine(d) && p[0] != '/') { m = true; r = do_stat(abspath(at_path(d, p).c_str()), &st); }
	else if ((d == AT_FDCWD || p[0] == '/') && insim(p)) { m = true; r = do_stat(abspath(p), &st); }
	if (!m) return (int)syscall(SYS_statx, d, p, fl, mask, sx);
	if (r) return r;
	memset(sx, 0, sizeof *sx);
	sx->stx_mask = STATX_BASIC_STATS;
	sx->stx_blksize = 4096;
	sx->stx_nlink = st.st_nlink;
	sx->stx_mode = st.st_mode;
	sx->stx_ino = st.st_ino;
	sx->stx_size = st.st_size;
	sx->stx_blocks = st.st_blocks;
	sx->stx_mtime.tv_sec = sx->stx_ctime.tv_sec = st.st_mtime;
	sx->stx_atime.tv_sec = st.st_atime;
	sx->stx_dev_minor = 77;
	return 0;
}
int access(const char *p, int m)
{
	if (insim(p)) {
		struct stat st;
		if (do_stat(abspath(p), &st)) return -1;
		if ((m & W_OK) && !(st.st_mode & 0200)) { errno = EACCES; return -1; }
		return 0;
	}
	return (int)syscall(SYS_access, p, m);
}

// ---------------------------------------------------------------- namespace
#define GUARD(what, p) if (!insim(p)) { if (seam_on) { escape(what, p); errno = EACCES; return -1; }
int mkdir(const char *p, mode_t m) { GUARD("mkdir", p) return (int)syscall(SYS_mkdir, p, m); } return do_mkdir(abspath(p), m); }
int rmdir(const char *p) { GUARD("rmdir", p) return (int)syscall(SYS_rmdir, p); } return do_unlink(abspath(p), true); }
int unlink(const char *p) { GUARD("unlink", p) return (int)syscall(SYS_unlink, p); } return do_unlink(abspath(p), false); }
int remove(const char *p)
{
	GUARD("remove", p) return real<int (*)(const char *)>("remove")(p); }
	Node *n = lookup(abspath(p));
	return do_unlink(abspath(p), n && n->dir);
}
int unlinkat(int d, const char *p, int fl)
{
	string q = at_path(d, p);
	if (!mine(d) && p[0] != '/' && d != AT_FDCWD) {
		if (seam_on) { escape("unlinkat", p); errno = EACCES; return -1; }
		return (int)syscall(SYS_unlinkat, d, p, fl);
	}
	GUARD("unlinkat", q.c_str()) return (int)syscall(SYS_unlinkat, d, p, fl); }
	return do_unlink(abspath(q.c_str()), fl & AT_REMOVEDIR);
}
int rename(const char *a, const char *b)
{
	GUARD("rename", a) return (int)syscall(SYS_rename, a, b); }
	if (!insim(b)) { escape("rename", b); errno = EACCES; return -1; }
	return do_rename(abspath(a), abspath(b));
}
int link(const char *a, const char *b) { if (!seam_on) return (int)syscall(SYS_link, a, b); (void)a; if (!insim(b)) escape("link", b); errno = EPERM; return -1; }
int symlink(const char *a, const char *b) { if (!seam_on) return (int)syscall(SYS_symlink, a, b); (void)a; if (!insim(b)) escape("symlink", b); errno = EPERM; return -1; }
int chmod(const char *p, mode_t m)
{
	GUARD("chmod", p) return (int)syscall(SYS_chmod, p, m); }
	Node *n = lookup(abspath(p));
	hist(OP_UTIME, 1, 0, abspath(p), "chmod");
	if (!n) { errno = ENOENT; return -1; }
	n->mode = m & 07777;
	return 0;
}
int fchmod(int fd, mode_t m)
{
	if (mine(fd)) { hist(OP_UTIME, 1, 0, fds[fd].path->c_str(), "chmod"); fds[fd].n->mode = m & 07777; return 0; }
	if (seam_on) { errno = EPERM; return -1; }
	return (int)syscall(SYS_fchmod, fd, m);
}
static int trunc_node(Node *n, const string &path, int64_t len)
{
	int e = sim_op(OP_TRUNC, path, len, 0);
	hist(OP_TRUNC, 1, e, path, "", len);
	if (e) { errno = e; return -1; }
	if (!n->ps && len > (1ll << 30)) { errno = EFBIG; return -1; }
	n->resize(len);
	n->mtime = now_s();
	return 0;
}
int truncate(const char *p, off_t len)
{
	GUARD("truncate", p) return (int)syscall(SYS_truncate, p, len); }
	Node *n = lookup(abspath(p));
	if (!n) { errno = ENOENT; return -1; }
	if (!(n->mode & 0200)) { errno = EACCES; return -1; }
	return trunc_node(n, abspath(p), len);
}
int truncate64(const char *p, off_t len) { return truncate(p, len); }
int ftruncate(int fd, off_t len)
{
	if (mine(fd)) return trunc_node(fds[fd].n, fds[fd].path->c_str(), len);
	return (int)syscall(SYS_ftruncate, fd, len);
}
int ftruncate64(int fd, off_t len) { return ftruncate(fd, len); }
int fsync(int fd) { return mine(fd) ? 0 : (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { return mine(fd) ? 0 : (int)syscall(SYS_fdatasync, fd); }
int utime(const char *p, const struct utimbuf *t)
{
	GUARD("utime", p) return real<int (*)(const char *, const struct utimbuf *)>("utime")(p, t); }
	return do_utime(abspath(p), t ? t->actime : now_s(), t ? t->modtime : now_s());
}
int utimensat(int d, const char *p, const struct timespec *t, int fl)
{
	string q = at_path(d, p);
	GUARD("utimensat", q.c_str()) return (int)syscall(SYS_utimensat, d, p, t, fl); }
	return do_utime(abspath(q.c_str()), t ? t[0].tv_sec : now_s(), t ? t[1].tv_sec : now_s());
}
ssize_t readlink(const char *p, char *b, size_t n)
{
	if (insim(p)) { errno = lookup(abspath(p)) ? EINVAL : ENOENT; return -1; }
	return syscall(SYS_readlink, p, b, n);
}
char *getcwd(char *b, size_t n)
{
	if (!seam_on) {
		if (!b) { b = (char *)malloc(4096); n = 4096; }
		return syscall(SYS_getcwd, b, n) < 0 ? nullptr : b;
	}
	if (!b) { b = (char *)malloc(4096); n = 4096; }
	if (S->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; }
	strcpy(b, S->cwd.c_str());
	return b;
}
int chdir(const char *p)
{
	if (!insim(p)) return seam_on ? (errno = EACCES, -1) : (int)syscall(SYS_chdir, p);
	Node *n = lookup(abspath(p));
	if (!n || !n->dir) { errno = ENOENT; return -1; }
	S->cwd = abspath(p).c_str();
	return 0;
}
int statvfs64(const char *p, struct statvfs64 *v)
{
	if (insim(p)) { memset(v, 0, sizeof *v); v->f_bsize = v->f_frsize = 4096; v->f_bavail = v->f_bfree = S->disk_free / 4096; v->f_blocks = 1 << 20; return 0; }
	return real<int (*)(const char *, struct statvfs64 *)>("statvfs64")(p, v);
}
int fstatfs64(int fd, struct statfs64 *v)
{
	if (mine(fd)) { memset(v, 0, sizeof *v); v->f_type = 0xEF53; v->f_bsize = 4096; return 0; }
	return (int)syscall(SYS_fstatfs, fd, v);
}
ssize_t sendfile64(int o, int i, off_t *off, size_t n)
{
	if (mine(o) || mine(i)) { errno = EINVAL; return -1; }
	return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) { return sendfile64(o, i, off, n); }
int posix_fadvise64(int fd, off_t a, off_t b, int c) { return mine(fd) ? 0 : (int)syscall(SYS_fadvise64, fd, a, b, c); }

// ---------------------------------------------------------------- directories
DIR *fdopendir(int fd)
{
	if (!mine(fd)) return real<DIR *(*)(int)>("fdopendir")(fd);
	if (!fds[fd].n->dir) { errno = ENOTDIR; return nullptr; }
	int e = sim_op(OP_LIST, fds[fd].path->c_str(), 0, 0);
	if (e) { errno = e; return nullptr; }
	SimDir *d = new SimDir();
	d->n = fds[fd].n;
	d->fd = fd;
	d->i = 0;
	d->names.push_back(".");
	d->names.push_back("..");
	for (auto &k : d->n->kids) d->names.push_back(k.first.c_str());
	// the order a directory is listed in is not specified: shuffle, seeded
	for (size_t i = d->names.size(); i > 1; i--) {
		S->ent_seed = S->ent_seed * 6364136223846793005ull + 1442695040888963407ull;
		std::swap(d->names[i - 1], d->names[(S->ent_seed >> 33) % i]);
	}
	if (!dirs) dirs = new std::set<void *>();
	dirs->insert(d);
	return (DIR *)d;
}
DIR *opendir(const char *p)
{
	if (!insim(p)) return real<DIR *(*)(const char *)>("opendir")(p);
	int fd = open_common(p, O_RDONLY | O_DIRECTORY, 0);
	return fd < 0 ? nullptr : fdopendir(fd);
}
struct dirent64 *readdir64(DIR *dp)
{
	if (!dirs || !dirs->count(dp)) return real<struct dirent64 *(*)(DIR *)>("readdir64")(dp);
	SimDir *d = (SimDir *)dp;
	while (d->i < d->names.size()) {
		string nm = d->names[d->i++];
		auto it = d->n->kids.find(nm);
		if (nm != "." && nm != ".." && it == d->n->kids.end()) continue;
		bool isdir = it == d->n->kids.end() || it->second->dir;
		memset(&d->de, 0, sizeof d->de);
		d->de.d_ino = 1;
		d->de.d_type = isdir ? DT_DIR : DT_REG;
		strncpy(d->de.d_name, nm.c_str(), 255);
		return &d->de;
	}
	return nullptr;
}
struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
int closedir(DIR *dp)
{
	if (!dirs || !dirs->count(dp)) return real<int (*)(DIR *)>("closedir")(dp);
	SimDir *d = (SimDir *)dp;
	dirs->erase(dp);
	seam_close(d->fd);
	syscall(SYS_close, d->fd);
	delete d;
	return 0;
}
int dirfd(DIR *dp)
{
	if (!dirs || !dirs->count(dp)) return real<int (*)(DIR *)>("dirfd")(dp);
	return ((SimDir *)dp)->fd;
}

// ---------------------------------------------------------------- entropy and clocks
static void entropy(void *b, size_t n)
{
	uint8_t *p = (uint8_t *)b;
	for (size_t i = 0; i < n; i++) {
		S->ent_seed = S->ent_seed * 6364136223846793005ull + 1442695040888963407ull;
		p[i] = uint8_t(S->ent_seed >> 41);
	}
}
ssize_t getrandom(void *b, size_t n, unsigned fl)
{
	if (!seam_on) return syscall(SYS_getrandom, b, n, fl);
	entropy(b, n);
	return n;
}
int getentropy(void *b, size_t n)
{
	if (!seam_on) return syscall(SYS_getrandom, b, n, 0) < 0 ? -1 : 0;
	entropy(b, n);
	return 0;
}
uint32_t arc4random(void)
{
	uint32_t v = 0;
	if (!seam_on) { if (syscall(SYS_getrandom, &v, 4, 0) < 0) v = 4; return v; }
	entropy(&v, 4);
	return v;
}
int clock_gettime(clockid_t c, struct timespec *t)
{
	if (!seam_on) return (int)syscall(SYS_clock_gettime, c, t);
	t->tv_sec = S->now_ns / 1000000000;
	t->tv_nsec = S->now_ns % 1000000000;
	return 0;
}
int gettimeofday(struct timeval *t, void *)
{
	if (!seam_on) { struct timespec s; syscall(SYS_clock_gettime, 0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
	S->now_ns += 1000;
	t->tv_sec = S->now_ns / 1000000000;
	t->tv_usec = S->now_ns % 1000000000 / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t) *t = s.tv_sec;
	return s.tv_sec;
}

} // extern "C"

// ---------------------------------------------------------------- allocation failures
namespace sim {
}
static void *sim_new(size_t n)
{
	if (sim::seam_on) {
		InstState &I = S->inst[S->cur];
		I.allocs++;
		if (I.alloc_fail_at && I.allocs == I.alloc_fail_at) {
			S->faults_fired[5]++;
			trace("i%d ALLOCATION %u of %zu bytes FAILS", S->cur, I.allocs, n);
			throw std::bad_alloc();
		}
		if (n > (1ull << 30)) throw std::bad_alloc();
	}
	void *p = malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	return p;
}
void *operator new(size_t n) { return sim_new(n); }
void *operator new[](size_t n) { return sim_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }
