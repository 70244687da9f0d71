#include <sys/mman.h>
// In-memory file system and stdio on top of it.
#include "sim.h"
#include "vfs.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <climits>
#include <dirent.h>
#include <fcntl.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <unistd.h>

struct Inode { bool dir = false; std::string data; u64 ino = 0; int64_t mtime = 0; };
typedef std::shared_ptr<Inode> INode;
static std::map<std::string, INode> g_fs;
static std::map<std::string, std::vector<FileVersion>> g_hist;
static u64 g_ino = 100;
struct Handle { INode in; std::string path; size_t pos = 0; bool rd = false, wr = false, app = false, open = false; int fd = -1; int pending = 0; };
static std::vector<std::unique_ptr<Handle>> g_h;
static std::vector<int> g_fcount;
std::string g_stdout_cap, g_stderr_cap;
static std::map<std::string, std::vector<u64>> g_fault_times;
void filelock(void *f);
void fileunlock(void *f);

std::string vfs_norm(const std::string &p) {
  std::vector<std::string> parts; std::string cur;
  std::string s = p.empty() || p[0] != '/' ? "/" + p : p;
  s += '/';
  for (char c : s) {
    if (c == '/') { if (cur == "..") { if (!parts.empty()) parts.pop_back(); } else if (!cur.empty() && cur != ".") parts.push_back(cur); cur.clear(); }
    else cur += c;
  }
  std::string o; for (auto &x : parts) o += "/" + x;
  return o.empty() ? "/" : o;
}
static INode mk(bool dir) { INode n(new Inode); n->dir = dir; n->ino = ++g_ino; n->mtime = (int64_t)(wall_ns() / SEC); return n; }
void vfs_reset() { g_fs.clear(); g_fs["/"] = mk(true); g_fcount.assign(g_sc->faults.size(), 0); }
void vfs_mkdir_p(const std::string &p) {
  std::string n = vfs_norm(p), acc;
  size_t i = 1;
  while (i <= n.size()) { size_t e = n.find('/', i); if (e == std::string::npos) e = n.size(); acc = n.substr(0, e); if (acc.size() && !g_fs.count(acc)) g_fs[acc] = mk(true); i = e + 1; }
}
static std::string parent(const std::string &n) { size_t i = n.rfind('/'); return i == 0 ? "/" : n.substr(0, i); }
// walks component by component like a kernel; returns 0 and the canonical path (which may not exist in its last component)
static int walk(const char *p, std::string &out, bool &want_dir) {
  std::string s = p; want_dir = false;
  if (s.empty()) return ENOENT;
  if (s.size() >= PATH_MAX) return ENAMETOOLONG;
  if (s[0] != '/') s = "/" + s;
  std::string cur = ""; // "" is root
  std::vector<std::string> comps; std::string c;
  for (size_t i = 1; i <= s.size(); i++) { if (i == s.size() || s[i] == '/') { if (!c.empty()) comps.push_back(c); c.clear(); } else c += s[i]; }
  want_dir = s.back() == '/' || (!comps.empty() && (comps.back() == "." || comps.back() == ".."));
  for (size_t i = 0; i < comps.size(); i++) {
    auto it = g_fs.find(cur.empty() ? "/" : cur);
    if (it == g_fs.end()) return ENOENT;
    if (!it->second->dir) return ENOTDIR;
    if (comps[i].size() > 255) return ENAMETOOLONG;
    if (comps[i] == ".") continue;
    if (comps[i] == "..") { size_t k = cur.rfind('/'); cur = k == std::string::npos ? "" : cur.substr(0, k); continue; }
    cur += "/" + comps[i];
  }
  out = cur.empty() ? "/" : cur;
  return 0;
}
static INode lookup(const char *p, int &err, std::string *np = nullptr) {
  std::string n; bool wd; err = walk(p, n, wd);
  if (np) *np = n;
  if (err) return nullptr;
  auto it = g_fs.find(n);
  if (it == g_fs.end()) { err = ENOENT; return nullptr; }
  if (wd && !it->second->dir) { err = ENOTDIR; return nullptr; }
  return it->second;
}
static void hist(const std::string &n) {
  auto it = g_fs.find(n);
  g_hist[n].push_back({g_now, it != g_fs.end() && !it->second->dir, it != g_fs.end() ? it->second->data : ""});
}
void vfs_put(const std::string &p, const std::string &data) { std::string n = vfs_norm(p); vfs_mkdir_p(parent(n)); INode f = mk(false); f->data = data; g_fs[n] = f; hist(n); }
void vfs_truncate(const std::string &p, size_t len) { std::string n = vfs_norm(p); auto it = g_fs.find(n); if (it == g_fs.end() || it->second->dir) return; if (len < it->second->data.size()) it->second->data.resize(len); hist(n); }
void vfs_append(const std::string &p, const std::string &d) { std::string n = vfs_norm(p); auto it = g_fs.find(n); if (it == g_fs.end() || it->second->dir) return; it->second->data += d; hist(n); }
void vfs_remove(const std::string &p) {
  std::string n = vfs_norm(p);
  for (auto it = g_fs.begin(); it != g_fs.end();) { if (it->first == n || it->first.compare(0, n.size() + 1, n + "/") == 0) { std::string k = it->first; bool d = it->second->dir; it = g_fs.erase(it); if (!d) hist(k); } else ++it; }
}
void vfs_move(const std::string &a, const std::string &b) { std::string na = vfs_norm(a), nb = vfs_norm(b); auto it = g_fs.find(na); if (it == g_fs.end()) return; INode in = it->second; g_fs.erase(it); g_fs[nb] = in; hist(na); hist(nb); }
bool vfs_get(const std::string &p, std::string &out) { auto it = g_fs.find(vfs_norm(p)); if (it == g_fs.end() || it->second->dir) return false; out = it->second->data; return true; }
bool vfs_isdir(const std::string &p) { auto it = g_fs.find(vfs_norm(p)); return it != g_fs.end() && it->second->dir; }
std::vector<FileVersion> vfs_history(const std::string &p) { auto it = g_hist.find(vfs_norm(p)); return it == g_hist.end() ? std::vector<FileVersion>() : it->second; }
std::vector<std::string> vfs_list(const std::string &prefix) { std::vector<std::string> v; for (auto &k : g_fs) if (k.first.compare(0, prefix.size(), prefix) == 0) v.push_back(k.first); return v; }
std::string vfs_dump() {
  std::string o;
  for (auto &k : g_fs) o += strf("%d %zu %zu\n", k.second->dir, k.first.size(), k.second->data.size()) + k.first + k.second->data;
  return o + "-\n";
}
size_t vfs_load(const std::string &s, size_t i) {
  g_fs.clear(); g_hist.clear();
  while (i < s.size() && s[i] != '-') {
    size_t e = s.find('\n', i); int d; size_t a, b;
    if (sscanf(s.c_str() + i, "%d %zu %zu", &d, &a, &b) != 3) break;
    i = e + 1;
    std::string p = s.substr(i, a); INode f = mk(d); f->data = s.substr(i + a, b); g_fs[p] = f; if (!d) hist(p);
    i += a + b;
  }
  return i + 2;
}
static size_t total_bytes() { size_t t = 0; for (auto &k : g_fs) t += k.second->data.size(); return t; }

// ---------- faults ----------
static bool path_match(const std::string &pat, const std::string &p) {
  if (pat.empty() || pat == "*") return true;
  if (pat.back() == '*') return p.compare(0, pat.size() - 1, pat, 0, pat.size() - 1) == 0;
  return pat == p;
}
static const Fault *file_fault(const char *op, const std::string &path) {
  if (!g_faults_on) return nullptr;
  const Fault *hit = nullptr;
  for (size_t i = 0; i < g_sc->faults.size(); i++) {
    const Fault &f = g_sc->faults[i];
    if (f.kind != "file" || f.op != op || !path_match(f.path, path)) continue;
    if (f.epoch >= 0 && f.epoch != g_epoch) continue;
    int n = ++g_fcount[i];
    if ((f.off > 0 && n == f.off) || (f.off < 0 && n >= -f.off)) hit = &f;
  }
  if (hit) {
    count(strf("fault.file_%s_%s", op, hit->err ? strerrorname_np(hit->err) : "short").c_str());
    ev("file fault %s %s err %d", op, path.c_str(), hit->err);
    g_fault_times[path].push_back(g_now);
    Conn *c = g_cur->accepting && acceptor_thread() == g_cur ? g_cur->accepting : g_cur->conn;
    if (c) { c->fault_files++; c->faulted_paths.insert(path); if (!strcmp(op, "stat")) c->faulted_stats.insert(path); if (acceptor_thread() == g_cur) { c->list_fault = true; if (hit->off < 0 && hit->err) c->list_fault_persistent = true; } }
  }
  return hit;
}
bool vfs_file_faulted_prefix(const std::string &p) { for (auto &f : g_fault_times) if (f.first.compare(0, p.size(), p) == 0 && !f.second.empty()) return true; return false; }
bool vfs_file_faulted(const std::string &p, u64 from, u64 to) { auto it = g_fault_times.find(p); if (it == g_fault_times.end()) return false; for (u64 t : it->second) if (t >= from && t <= to) return true; return false; }

// ---------- handles ----------
extern u64 g_durable;
static int h_open(const char *path, int flags, int &err) {
  std::string n; bool wd; err = walk(path, n, wd);
  if (auto f = file_fault("open", err ? std::string(path) : n)) { if (f->err) { err = f->err; return -1; } }
  if (err) return -1;
  auto it = g_fs.find(n);
  int acc = flags & O_ACCMODE;
  if (it == g_fs.end()) {
    if (!(flags & O_CREAT)) { err = ENOENT; return -1; }
    auto pi = g_fs.find(parent(n));
    if (pi == g_fs.end()) { err = ENOENT; return -1; }
    if (!pi->second->dir) { err = ENOTDIR; return -1; }
    if (wd) { err = EISDIR; return -1; }
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { err = EEXIST; return -1; }
    if (it->second->dir && acc != O_RDONLY) { err = EISDIR; return -1; }
    if (wd && !it->second->dir) { err = ENOTDIR; return -1; }
  }
  std::unique_ptr<Handle> h(new Handle);
  h->path = n; h->rd = acc != O_WRONLY; h->wr = acc != O_RDONLY; h->app = flags & O_APPEND; h->open = true;
  g_h.push_back(std::move(h));
  int id = (int)g_h.size() - 1;
  int fd = fd_alloc_file(id, false);
  if (fd < 0) {
    g_h.pop_back(); err = EMFILE; g_fault_times[n].push_back(g_now);
    Conn *c = g_cur->accepting && acceptor_thread() == g_cur ? g_cur->accepting : g_cur->conn;
    if (c) { c->fault_files++; c->faulted_paths.insert(n); if (acceptor_thread() == g_cur) c->list_fault = true; }
    return -1;
  }
  if (it == g_fs.end()) { g_fs[n] = mk(false); it = g_fs.find(n); g_durable++; }
  else if ((flags & O_TRUNC) && acc != O_RDONLY) { it->second->data.clear(); g_durable++; }
  g_h[id]->in = it->second; g_h[id]->fd = fd;
  ev("open %s -> fd %d", n.c_str(), fd);
  if (acc == O_RDONLY && g_cur->conn) g_cur->conn->http_consumed++;
  return id;
}
std::string vfs_handle_path(int h) { return g_h[h]->path; }
ssize_t vfs_handle_read(int hi, char *b, size_t n) {
  Handle *h = g_h[hi].get();
  if (!h->open || !h->rd) { errno = EBADF; return -1; }
  if (h->in->dir) { errno = EISDIR; return -1; }
  size_t cap = n;
  if (auto f = file_fault("read", h->path)) { if (f->err) { errno = f->err; return -1; } cap = std::max<size_t>(1, std::min<size_t>(n, f->arg)); }
  size_t av = h->pos < h->in->data.size() ? h->in->data.size() - h->pos : 0;
  size_t k = std::min(av, cap);
  memcpy(b, h->in->data.data() + h->pos, k);
  h->pos += k;
  return k;
}
static int64_t g_used = -1;
ssize_t vfs_handle_write(int hi, const char *b, size_t n) {
  Handle *h = g_h[hi].get();
  if (!h->open || !h->wr) { errno = EBADF; return -1; }
  if (h->pending) { errno = h->pending; h->pending = 0; return -1; }
  size_t k = n; int err = 0;
  if (auto f = file_fault("write", h->path)) { k = std::min<size_t>(n, f->arg); err = f->err; if (!err && !k) k = 1; if (k == n && !err) k = n; }
  int64_t cap = g_sc->o("diskcap", -1);
  if (cap >= 0 && g_faults_on) {
    size_t used = total_bytes();
    size_t room = (int64_t)used < cap ? cap - used : 0;
    if (k > room) { k = room; err = ENOSPC; count("fault.disk_full"); ev("disk full %s", h->path.c_str()); g_fault_times[h->path].push_back(g_now); if (g_cur->conn) { g_cur->conn->fault_files++; g_cur->conn->faulted_paths.insert(h->path); } }
  }
  if (h->app) h->pos = h->in->data.size();
  if (k) {
    if (h->in->data.size() < h->pos + k) h->in->data.resize(h->pos + k);
    memcpy(&h->in->data[h->pos], b, k);
    h->pos += k; h->in->mtime = (int64_t)(wall_ns() / SEC);
    if (h->path.compare(0, 9, "/var/log/") || h->path.find("access") != std::string::npos) g_durable++; // not the diagnostic log
    ev("write %s %zu", h->path.c_str(), k);
  }
  if (err) { if (k) { h->pending = err; return k; } errno = err; return -1; }
  (void)g_used;
  return k;
}
void vfs_handle_close(int hi) { Handle *h = g_h[hi].get(); h->open = false; h->in.reset(); }
int vfs_open_files() { int n = 0; for (auto &h : g_h) if (h->open) n++; return n; }

// ---------- stdio ----------
struct SF { int h; char *buf; };
static std::map<FILE *, SF> g_files;
#define SITE ((uintptr_t)__builtin_return_address(0))
static ssize_t ck_read(void *p, char *b, size_t n) { point(P_IO, 0); return vfs_handle_read((int)(intptr_t)p, b, n); }
static ssize_t ck_write(void *p, const char *b, size_t n) {
  size_t d = 0;
  while (d < n) { point(P_IO, 0); ssize_t k = vfs_handle_write((int)(intptr_t)p, b + d, n - d); if (k < 0) break; d += k; } // glibc retries short writes
  return d;
}
static int ck_seek(void *p, off64_t *off, int wh) {
  Handle *h = g_h[(int)(intptr_t)p].get();
  if (auto f = file_fault("seek", h->path)) { errno = f->err; return -1; }
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)h->pos : (int64_t)h->in->data.size();
  base += *off; if (base < 0) { errno = EINVAL; return -1; }
  point(P_IO, 0);
  h->pos = base; *off = base; return 0;
}
static int ck_close(void *p) {
  int hi = (int)(intptr_t)p; Handle *h = g_h[hi].get();
  const Fault *f = file_fault("close", h->path);
  ev("close file %s", h->path.c_str());
  fd_release_file(h->fd);
  vfs_handle_close(hi);
  if (f) { errno = f->err ? f->err : EIO; return -1; }
  return 0;
}
static FILE *wrap_stream(int h, const char *mode) {
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE *f = fopencookie((void *)(intptr_t)h, mode, io);
  char *buf = (char *)malloc(4096);
  setvbuf(f, buf, _IOFBF, 4096);
  __fsetlocking(f, FSETLOCKING_BYCALLER);
  g_files[f] = {h, buf};
  return f;
}
static ssize_t out_write(void *p, const char *b, size_t n) { point(P_IO, 0); ((std::string *)p)->append(b, n); if (g_verbose) fprintf(::stderr, "  | %.*s\n", (int)n, b); return n; }
void fd_mark_raw(int);
extern "C" {
FILE *sim_stdout, *sim_stderr, *sim_stdin;
}
void stdio_init() {
  cookie_io_functions_t io = {nullptr, out_write, nullptr, nullptr};
  sim_stdout = fopencookie(&g_stdout_cap, "w", io); sim_stderr = fopencookie(&g_stderr_cap, "w", io); sim_stdin = fopencookie(&g_stdout_cap, "r", io);
  setvbuf(sim_stderr, nullptr, _IONBF, 0);
  for (FILE *f : {sim_stdout, sim_stderr, sim_stdin}) { __fsetlocking(f, FSETLOCKING_BYCALLER); g_files[f] = {-1, nullptr}; }
}
static bool chk(FILE *f, const char *fn) {
  if (g_files.count(f)) return true;
  violation("*", "stdio-on-closed-stream", strf("%s on a stream that is not open", fn));
  finish_run("badstream");
}
struct FG { FILE *f; FG(FILE *f, const char *fn, uintptr_t site) : f(f) { chk(f, fn); point(P_IO, site); filelock(f); } ~FG() { int e = errno; fileunlock(f); errno = e; } };
void stdio_flush_all() { std::vector<FILE *> v; for (auto &k : g_files) if (k.second.h >= 0 && g_h[k.second.h]->wr) v.push_back(k.first); for (auto f : v) fflush(f); }
extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
  point(P_IO, SITE);
  int fl;
  bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else if (mode[0] == 'a') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  else { errno = EINVAL; return nullptr; }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  int err, h = h_open(path, fl, err);
  if (h < 0) { errno = err; return nullptr; }
  std::string m; for (const char *q = mode; *q; q++) if (*q == 'r' || *q == 'w' || *q == 'a' || *q == '+') m += *q;
  return wrap_stream(h, m.c_str());
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_freopen(const char *path, const char *mode, FILE *) { return sim_fopen(path, mode); }
FILE *sim_fdopen(int fd, const char *mode) {
  int h = fd_file_handle(fd); if (h < 0) { errno = EBADF; return nullptr; }
  std::string m; for (const char *q = mode; *q; q++) if (*q == 'r' || *q == 'w' || *q == 'a' || *q == '+') m += *q;
  return wrap_stream(h, m.c_str());
}
int sim_fclose(FILE *f) {
  int r, e;
  {
    chk(f, "fclose"); point(P_IO, SITE); filelock(f);
    chk(f, "fclose");
    SF s = g_files[f];
    g_files.erase(f);
    r = fclose(f); e = errno;
    fileunlock(f);
    if (s.buf) free(s.buf);
  }
  errno = e; return r;
}
int sim_fflush(FILE *f) {
  if (!f) { std::vector<FILE *> v; for (auto &k : g_files) v.push_back(k.first); for (auto x : v) if (g_files.count(x)) { FG g(x, "fflush", SITE); fflush(x); } return 0; }
  FG g(f, "fflush", SITE); return fflush(f);
}
size_t sim_fread(void *p, size_t a, size_t b, FILE *f) { FG g(f, "fread", SITE); return fread(p, a, b, f); }
size_t sim_fwrite(const void *p, size_t a, size_t b, FILE *f) { FG g(f, "fwrite", SITE); return fwrite(p, a, b, f); }
char *sim_fgets(char *s, int n, FILE *f) { FG g(f, "fgets", SITE); return fgets(s, n, f); }
int sim_fgetc(FILE *f) { FG g(f, "fgetc", SITE); return fgetc(f); }
int sim_getc(FILE *f) { FG g(f, "getc", SITE); return fgetc(f); }
int sim_ungetc(int c, FILE *f) { FG g(f, "ungetc", SITE); return ungetc(c, f); }
int sim_fputs(const char *s, FILE *f) { FG g(f, "fputs", SITE); return fputs(s, f); }
int sim_fputc(int c, FILE *f) { FG g(f, "fputc", SITE); return fputc(c, f); }
int sim_putc(int c, FILE *f) { FG g(f, "putc", SITE); return fputc(c, f); }
int sim_fseek(FILE *f, long o, int w) { FG g(f, "fseek", SITE); return fseek(f, o, w); }
int sim_fseeko(FILE *f, off_t o, int w) { FG g(f, "fseeko", SITE); return fseeko(f, o, w); }
long sim_ftell(FILE *f) { FG g(f, "ftell", SITE); return ftell(f); }
off_t sim_ftello(FILE *f) { FG g(f, "ftello", SITE); return ftello(f); }
void sim_rewind(FILE *f) { FG g(f, "rewind", SITE); rewind(f); }
int sim_feof(FILE *f) { chk(f, "feof"); return feof(f); }
int sim_ferror(FILE *f) { chk(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE *f) { chk(f, "clearerr"); clearerr(f); }
int sim_setvbuf(FILE *f, char *, int mode, size_t) { chk(f, "setvbuf"); if (mode == _IONBF) return setvbuf(f, nullptr, _IONBF, 0); return 0; }
void sim_setbuf(FILE *, char *) {}
int sim_fileno(FILE *f) { chk(f, "fileno"); if (f == sim_stdin) return 0; if (f == sim_stdout) return 1; if (f == sim_stderr) return 2; return g_h[g_files[f].h]->fd; }
void sim_flockfile(FILE *f) { chk(f, "flockfile"); point(P_SYNC, SITE); filelock(f); }
void sim_funlockfile(FILE *f) { fileunlock(f); point(P_SYNC, SITE); }
int sim_vfprintf(FILE *f, const char *fmt, va_list a) { FG g(f, "vfprintf", SITE); return vfprintf(f, fmt, a); }
int sim_fprintf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); FG g(f, "fprintf", SITE); int r = vfprintf(f, fmt, a); va_end(a); return r; }
int sim_printf(const char *fmt, ...) { va_list a; va_start(a, fmt); FG g(sim_stdout, "printf", SITE); int r = vfprintf(sim_stdout, fmt, a); va_end(a); return r; }
int sim_vprintf(const char *fmt, va_list a) { FG g(sim_stdout, "vprintf", SITE); return vfprintf(sim_stdout, fmt, a); }
int sim_puts(const char *s) { FG g(sim_stdout, "puts", SITE); fputs(s, sim_stdout); return fputc('\n', sim_stdout); }
int sim_putchar(int c) { FG g(sim_stdout, "putchar", SITE); return fputc(c, sim_stdout); }
void sim_perror(const char *s) { int e = errno; FG g(sim_stderr, "perror", SITE); fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); }
int sim_fscanf(FILE *f, const char *fmt, ...) { va_list a; va_start(a, fmt); FG g(f, "fscanf", SITE); int r = vfscanf(f, fmt, a); va_end(a); return r; }
void *sim_malloc(size_t);
void *sim_realloc(void *, size_t);
void sim_free(void *);
ssize_t sim_getdelim(char **line, size_t *n, int delim, FILE *f) {
  char *tmp = nullptr; size_t tn = 0; ssize_t r;
  { FG g(f, "getline", SITE); r = getdelim(&tmp, &tn, delim, f); }
  int e = errno;
  if (r >= 0) {
    if (!*line || *n < (size_t)r + 1) { size_t want = std::max<size_t>(120, r + 1); char *q = (char *)sim_realloc(*line, want); if (!q) { free(tmp); errno = ENOMEM; return -1; } *line = q; *n = want; }
    memcpy(*line, tmp, r + 1);
  } else if (!*line) { *line = (char *)sim_malloc(120); *n = 120; }
  free(tmp); errno = e; return r;
}
ssize_t sim_getline(char **line, size_t *n, FILE *f) { return sim_getdelim(line, n, '\n', f); }
ssize_t sim___getdelim(char **line, size_t *n, int delim, FILE *f) { return sim_getdelim(line, n, delim, f); }

// ---------- file system calls ----------
static int do_stat(const char *p, struct stat *st, uintptr_t site) {
  point(P_IO, site);
  int err; std::string np; INode in = lookup(p, err, &np);
  if (auto f = file_fault("stat", np)) { if (f->err) { errno = f->err; return -1; } }
  if (!in) { errno = err; return -1; }
  memset(st, 0, sizeof *st);
  st->st_mode = in->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = in->data.size(); st->st_ino = in->ino; st->st_nlink = 1; st->st_mtim.tv_sec = in->mtime; st->st_blksize = 4096;
  return 0;
}
int sim_stat(const char *p, struct stat *st) { return do_stat(p, st, SITE); }
int sim_lstat(const char *p, struct stat *st) { return do_stat(p, st, SITE); }
int sim_stat64(const char *p, struct stat *st) { return do_stat(p, st, SITE); }
int sim_fstatat(int, const char *p, struct stat *st, int) { return do_stat(p, st, SITE); }
int sim_fstat(int fd, struct stat *st) {
  point(P_IO, SITE);
  memset(st, 0, sizeof *st);
  int h = fd_file_handle(fd);
  if (h < 0) { if (conn_of_fd(fd) || (fd >= 0 && fd < 3)) { st->st_mode = S_IFSOCK | 0600; return 0; } errno = EBADF; return -1; }
  if (auto f = file_fault("stat", g_h[h]->path)) { if (f->err) { errno = f->err; return -1; } }
  INode in = g_h[h]->in;
  st->st_mode = in->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = in->data.size(); st->st_ino = in->ino; st->st_nlink = 1; st->st_blksize = 4096; st->st_mtim.tv_sec = in->mtime;
  return 0;
}
int sim_access(const char *p, int) { struct stat st; return do_stat(p, &st, SITE); }
int sim_mkdir(const char *p, mode_t) {
  point(P_IO, SITE);
  std::string n; bool wd; int err = walk(p, n, wd);
  if (auto f = file_fault("mkdir", n)) { if (f->err) { errno = f->err; return -1; } }
  if (err) { errno = err; return -1; }
  if (g_fs.count(n)) { errno = EEXIST; return -1; }
  auto pi = g_fs.find(parent(n));
  if (pi == g_fs.end()) { errno = ENOENT; return -1; }
  if (!pi->second->dir) { errno = ENOTDIR; return -1; }
  g_fs[n] = mk(true); g_durable++; ev("mkdir %s", n.c_str()); return 0;
}
int sim_unlink(const char *p) {
  point(P_IO, SITE);
  int err; std::string n; INode in = lookup(p, err, &n);
  if (auto f = file_fault("unlink", n)) { if (f->err) { errno = f->err; return -1; } }
  if (!in) { errno = err; return -1; }
  if (in->dir) { errno = EISDIR; return -1; }
  g_fs.erase(n); g_durable++; ev("unlink %s", n.c_str()); if (g_hist.count(n)) hist(n); return 0;
}
int sim_rmdir(const char *p) {
  point(P_IO, SITE);
  int err; std::string n; INode in = lookup(p, err, &n);
  if (!in) { errno = err; return -1; }
  if (!in->dir) { errno = ENOTDIR; return -1; }
  auto it = g_fs.upper_bound(n + "/"); if (it != g_fs.end() && it->first.compare(0, n.size() + 1, n + "/") == 0) { errno = ENOTEMPTY; return -1; }
  g_fs.erase(n); g_durable++; return 0;
}
int sim_remove(const char *p) { int err; INode in = lookup(p, err); if (in && in->dir) return sim_rmdir(p); return sim_unlink(p); }
int sim_rename(const char *a, const char *b) {
  point(P_IO, SITE);
  int err; std::string na, nb; bool wd; INode in = lookup(a, err, &na);
  if (auto f = file_fault("rename", na)) { if (f->err) { errno = f->err; return -1; } }
  if (!in) { errno = err; return -1; }
  err = walk(b, nb, wd); if (err) { errno = err; return -1; }
  if (!g_fs.count(parent(nb))) { errno = ENOENT; return -1; }
  if (in->dir) { errno = ENOSYS; return -1; }
  g_fs.erase(na); g_fs[nb] = in; g_durable++; ev("rename %s %s", na.c_str(), nb.c_str()); return 0;
}
char *sim_realpath(const char *p, char *out) {
  point(P_IO, SITE);
  int err; std::string n; INode in = lookup(p, err, &n);
  if (auto f = file_fault("stat", n)) { if (f->err) { errno = f->err; return nullptr; } }
  if (!in) { errno = err; return nullptr; }
  if (!out) out = (char *)sim_malloc(PATH_MAX);
  strcpy(out, n.c_str()); return out;
}
int sim_open(const char *p, int fl, ...) {
  point(P_IO, SITE);
  int err, h = h_open(p, fl, err);
  if (h < 0) { errno = err; return -1; }
  int fd = g_h[h]->fd; fd_mark_raw(fd); return fd;
}
int sim_open64(const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_openat(int, const char *p, int fl, ...) { return sim_open(p, fl, 0644); }
int sim_creat(const char *p, mode_t) { return sim_open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644); }
void *sim_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off) {
  if (fd < 0 || (flags & MAP_ANONYMOUS)) return mmap(addr, n, prot, flags, fd, off);
  int h = fd_file_handle(fd); if (h < 0) { errno = EBADF; return MAP_FAILED; }
  point(P_IO, SITE);
  Handle *x = g_h[h].get();
  if (x->in->dir) { errno = ENODEV; return MAP_FAILED; }
  if (auto f = file_fault("read", x->path)) { errno = f->err ? f->err : ENOMEM; return MAP_FAILED; }
  char *m = (char *)mmap(addr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) return m;
  const std::string &d = x->in->data;
  if (off >= 0 && (size_t)off < d.size()) memcpy(m, d.data() + off, std::min(n, d.size() - (size_t)off));
  return m;
}
off_t sim_lseek(int fd, off_t o, int wh) {
  int h = fd_file_handle(fd); if (h < 0) { errno = ESPIPE; return -1; }
  off64_t x = o; if (ck_seek((void *)(intptr_t)h, &x, wh)) return -1; return x;
}
ssize_t sim_pread(int fd, void *b, size_t n, off_t o) { int h = fd_file_handle(fd); if (h < 0) { errno = EBADF; return -1; } point(P_IO, SITE); size_t s = g_h[h]->pos; g_h[h]->pos = o; ssize_t r = vfs_handle_read(h, (char *)b, n); g_h[h]->pos = s; return r; }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o) { int h = fd_file_handle(fd); if (h < 0) { errno = EBADF; return -1; } point(P_IO, SITE); size_t s = g_h[h]->pos; g_h[h]->pos = o; ssize_t r = vfs_handle_write(h, (const char *)b, n); g_h[h]->pos = s; return r; }
ssize_t sim_write(int, const void *, size_t);
int sim_vdprintf(int fd, const char *fmt, va_list a) { char *s = nullptr; int n = vasprintf(&s, fmt, a); if (n < 0) return -1; for (int d = 0; d < n;) { ssize_t k = sim_write(fd, s + d, n - d); if (k <= 0) { int e = errno; free(s); errno = e; return -1; } d += (int)k; } free(s); return n; }
int sim_dprintf(int fd, const char *fmt, ...) { va_list a; va_start(a, fmt); int r = sim_vdprintf(fd, fmt, a); va_end(a); return r; }
ssize_t sim_sendfile(int out, int in, off_t *off, size_t n) {
  int h = fd_file_handle(in); if (h < 0) { errno = EBADF; return -1; }
  std::string s(std::min<size_t>(n, 65536), 0);
  size_t save = g_h[h]->pos; if (off) g_h[h]->pos = *off;
  ssize_t k = vfs_handle_read(h, &s[0], s.size());
  if (k <= 0) { g_h[h]->pos = save; return k; }
  ssize_t w = net_send(out, s.data(), k, 0, SITE);
  g_h[h]->pos = off ? save : save + (w > 0 ? w : 0);
  if (off && w > 0) *off += w;
  return w;
}
int sim_fsync(int fd) { point(P_IO, SITE); int h = fd_file_handle(fd); if (h < 0) { errno = EBADF; return -1; } if (auto f = file_fault("fsync", g_h[h]->path)) { errno = f->err ? f->err : EIO; return -1; } return 0; }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t n) { point(P_IO, SITE); int h = fd_file_handle(fd); if (h < 0) { errno = EBADF; return -1; } g_h[h]->in->data.resize(n); return 0; }
int sim_mkstemp(char *t) {
  static int n = 0; size_t l = strlen(t); if (l < 6) { errno = EINVAL; return -1; }
  for (;;) { char b[8]; snprintf(b, sizeof b, "%06d", n++ % 1000000); memcpy(t + l - 6, b, 6); if (!g_fs.count(vfs_norm(t))) break; }
  return sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
}
int sim_chmod(const char *, mode_t) { return 0; }
mode_t sim_umask(mode_t) { return 022; }
char *sim_getcwd(char *b, size_t n) { if (n < 2) { errno = ERANGE; return nullptr; } strcpy(b, "/"); return b; }
int sim_chdir(const char *) { return 0; }
}
