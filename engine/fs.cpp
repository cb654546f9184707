// An in-memory file system behind the libc calls std::fs makes. File contents may be symbolic.
// sx_fault(v) makes the v-th fallible call from now on fail with EIO, for a symbolic v.
#include "engine.h"
#include <errno.h>
#include <fcntl.h>

#define BI(name) addB(name, [](Exec &x, State &s, const CallInfo &ci) { Args a{x, s, ci}; (void)a;
#define END });
#define RET(v) setRet(x, ci, 0, v)
#define FAILWITH(e) do { setErrno(x, e); RET(C(~0ull)); return; } while (0)
// a call that may fail or be preempted; nothing may have changed before it
// transfers on an open file may fail; operations on names are also points at which another thread may be scheduled
#define FAULTY() do { if (faultHit(x, s)) FAILWITH(EIO); } while (0)
#define FALLIBLE() do { if (schedPoint(x)) return; if (faultHit(x, s)) FAILWITH(EIO); } while (0)

static Fs &F(State &s) { // for reading
  if (s.fs->inodes.empty()) {
    s.fs->inodes.push_back(Inode{true, nullptr});
    s.fs->paths["/"] = 0;
    s.fs->inodes.push_back(Inode{true, nullptr});
    s.fs->paths["/vfs"] = 1;
  }
  return *s.fs;
}
static Fs &W(State &s) { // for writing
  F(s);
  if (s.fs->rc > 1) { Fs *n = new Fs(*s.fs); s.fs->rc--; s.fs = n; }
  return *s.fs;
}
static FileData &own(std::shared_ptr<FileData> &p) {
  if (p.use_count() > 1) p = std::make_shared<FileData>(*p);
  return *p;
}
static std::string norm(const std::string &base, const std::string &p) {
  std::string full = !p.empty() && p[0] == '/' ? p : base + "/" + p;
  std::vector<std::string> parts; std::string cur;
  for (size_t i = 0; i <= full.size(); i++) {
    if (i == full.size() || full[i] == '/') {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
    } else cur.push_back(full[i]);
  }
  std::string r;
  for (auto &q : parts) r += "/" + q;
  return r.empty() ? "/" : r;
}
static std::string parent(const std::string &p) { size_t i = p.rfind('/'); return i == 0 ? "/" : p.substr(0, i); }
static std::string baseAt(State &s, uint64_t fd) {
  if ((int)fd == AT_FDCWD) return "/vfs";
  Fs &f = F(s);
  auto it = f.fds.find((int)fd);
  return it == f.fds.end() ? "/nonexistent" : it->second.path;
}
static bool faultHit(Exec &x, State &s) {
  if (!s.faultArmed || s.faultFired || (s.cur != 0) != s.faultBg) return false;
  bool hit = s.faultVar.e ? x.decide(mkCmp(K_EQ, s.faultVar.e, mkConst(s.fsOps, 64))) : s.faultVar.c == s.fsOps;
  s.fsOps++;
  if (hit) s.faultFired = true;
  return hit;
}
static int doOpen(State &s, const std::string &p, int flags, int &err) {
  Fs &f = F(s);
  auto it = f.paths.find(p);
  if (it == f.paths.end()) {
    if (!(flags & O_CREAT)) { err = ENOENT; return -1; }
    auto d = f.paths.find(parent(p));
    if (d == f.paths.end()) { err = ENOENT; return -1; }
    if (!f.inodes[d->second].dir) { err = ENOTDIR; return -1; }
    Fs &w = W(s);
    w.inodes.push_back(Inode{false, std::make_shared<FileData>()});
    w.paths[p] = w.inodes.size() - 1;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { err = EEXIST; return -1; }
    bool dir = f.inodes[it->second].dir;
    if (dir && (flags & O_ACCMODE) != O_RDONLY) { err = EISDIR; return -1; }
    if (!dir && (flags & O_DIRECTORY)) { err = ENOTDIR; return -1; }
    if (!dir && (flags & O_TRUNC)) { Fs &w = W(s); w.inodes[w.paths[p]].data = std::make_shared<FileData>(); }
  }
  Fs &w = W(s);
  int fd = w.nextFd++;
  Fd n; n.ino = w.paths[p]; n.flags = flags; n.path = p;
  w.fds[fd] = n;
  return fd;
}
static int doUnlink(State &s, const std::string &p, bool rmdir) {
  Fs &f = F(s);
  auto it = f.paths.find(p);
  if (it == f.paths.end()) return ENOENT;
  bool dir = f.inodes[it->second].dir;
  if (dir != rmdir) return dir ? EISDIR : ENOTDIR;
  if (dir) {
    auto nx = f.paths.lower_bound(p + "/");
    if (nx != f.paths.end() && nx->first.compare(0, p.size() + 1, p + "/") == 0) return ENOTEMPTY;
  }
  W(s).paths.erase(p);
  return 0;
}
static void putStat(Exec &x, State &s, uint64_t buf, int ino) {
  Inode &n = F(s).inodes[ino];
  for (int i = 0; i < 144; i += 8) storeVal(x, buf + i, C(0), 64);
  storeVal(x, buf + 8, C(ino + 1), 64);
  storeVal(x, buf + 16, C(1), 64);
  storeVal(x, buf + 24, C(n.dir ? 0040755 : 0100644), 32);
  storeVal(x, buf + 48, C(n.dir ? 4096 : n.data->d.size()), 64);
  storeVal(x, buf + 56, C(4096), 64);
}
static void statPath(Exec &x, State &s, const CallInfo &ci, unsigned pi, unsigned bi, const std::string &base) {
  Args a{x, s, ci};
  std::string p = norm(base, readCStr(x, a.c(pi)));
  Fs &f = F(s);
  auto it = f.paths.find(p);
  if (it == f.paths.end()) FAILWITH(ENOENT);
  putStat(x, s, a.c(bi), it->second);
  RET(C(0));
}
static Fd *fdOf(State &s, uint64_t fd) { Fs &f = F(s); auto it = f.fds.find((int)fd); return it == f.fds.end() ? nullptr : &it->second; }
static uint64_t doRead(Exec &x, State &s, uint64_t fd, uint64_t buf, uint64_t n, uint64_t pos) {
  Fd &d = *fdOf(s, fd);
  FileData &fd_ = *F(s).inodes[d.ino].data;
  if (pos >= fd_.d.size()) return 0;
  n = std::min<uint64_t>(n, fd_.d.size() - pos);
  if (!n) return 0;
  int64_t off;
  Obj *o = objAt(s, buf, n, true, off, "read into");
  memcpy(o->d + off, fd_.d.data() + pos, n);
  bool sym = false;
  if (!fd_.s.empty()) for (uint64_t i = 0; i < n; i++) if (fd_.s[pos + i]) { sym = true; break; }
  if (sym && !o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
  if (o->s) for (uint64_t i = 0; i < n; i++) o->s[off + i] = sym ? fd_.s[pos + i] : nullptr;
  return n;
}
static void resizeFile(FileData &f, uint64_t n) {
  if (n > (1u << 26)) pathEnd(E_LIMIT, "file size");
  f.d.resize(n, 0);
  if (!f.s.empty()) f.s.resize(n, nullptr);
}
static uint64_t doWrite(Exec &x, State &s, uint64_t fd, uint64_t buf, uint64_t n, uint64_t pos) {
  (void)x;
  int ino = fdOf(s, fd)->ino;
  if (!n) return 0;
  int64_t off;
  Obj *o = objAt(s, buf, n, false, off, "write from");
  FileData &f = own(W(s).inodes[ino].data);
  if (pos + n > f.d.size()) resizeFile(f, pos + n);
  memcpy(f.d.data() + pos, o->d + off, n);
  bool sym = false;
  if (o->s) for (uint64_t i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (sym && f.s.empty()) f.s.resize(f.d.size(), nullptr);
  if (!f.s.empty()) for (uint64_t i = 0; i < n; i++) f.s[pos + i] = sym ? o->s[off + i] : nullptr;
  return n;
}
static void openCall(Exec &x, State &s, const CallInfo &ci, const std::string &base, unsigned i) {
  Args a{x, s, ci};
  FALLIBLE();
  std::string p = norm(base, readCStr(x, a.c(i)));
  int err = 0, fd = doOpen(s, p, (int)a.c(i + 1), err);
  if (fd < 0) FAILWITH(err);
  RET(C((uint64_t)fd));
}
static void listDir(State &s, Fd &d) {
  if (d.listed) return;
  d.listed = true; d.list = {".", ".."};
  std::string pre = d.path == "/" ? "/" : d.path + "/";
  Fs &f = F(s);
  for (auto it = f.paths.lower_bound(pre); it != f.paths.end() && it->first.compare(0, pre.size(), pre) == 0; ++it) {
    std::string rest = it->first.substr(pre.size());
    if (!rest.empty() && rest.find('/') == std::string::npos) d.list.push_back(rest);
  }
}
// DIR* handles are heap objects holding the descriptor
static uint64_t dirHandle(Exec &x, State &s, int fd) { uint64_t h = allocObj(s, 8, OK_FILE, 0); storeVal(x, h, C(fd), 64); return h; }

void regFsBuiltins() {
  BI("open64") openCall(x, s, ci, "/vfs", 0); END
  BI("open") openCall(x, s, ci, "/vfs", 0); END
  BI("openat64") std::string b = baseAt(s, a.c(0)); openCall(x, s, ci, b, 1); END
  BI("openat") std::string b = baseAt(s, a.c(0)); openCall(x, s, ci, b, 1); END
  BI("close")
    uint64_t fd = a.c(0);
    if (fd <= 2) { RET(C(0)); return; }
    if (!fdOf(s, fd)) FAILWITH(EBADF);
    W(s).fds.erase((int)fd); RET(C(0));
  END
  BI("read")
    uint64_t fd = a.c(0), buf = a.c(1), n = a.c(2);
    Fd *d = fdOf(s, fd); if (!d || (d->flags & O_ACCMODE) == O_WRONLY) FAILWITH(EBADF);
    if (F(s).inodes[d->ino].dir) FAILWITH(EISDIR);
    FAULTY();
    uint64_t r = doRead(x, s, fd, buf, n, fdOf(s, fd)->pos);
    W(s); fdOf(s, fd)->pos += r; RET(C(r));
  END
  BI("pread64")
    uint64_t fd = a.c(0), buf = a.c(1), n = a.c(2), pos = a.c(3);
    Fd *d = fdOf(s, fd); if (!d || (d->flags & O_ACCMODE) == O_WRONLY) FAILWITH(EBADF);
    if (F(s).inodes[d->ino].dir) FAILWITH(EISDIR);
    FAULTY();
    RET(C(doRead(x, s, fd, buf, n, pos)));
  END
  BI("write")
    uint64_t fd = a.c(0), buf = a.c(1), n = a.c(2);
    if (fd <= 2) { RET(C(n)); return; }
    Fd *d = fdOf(s, fd); if (!d || (d->flags & O_ACCMODE) == O_RDONLY) FAILWITH(EBADF);
    FAULTY();
    d = fdOf(s, fd);
    uint64_t pos = d->flags & O_APPEND ? F(s).inodes[d->ino].data->d.size() : d->pos;
    uint64_t r = doWrite(x, s, fd, buf, n, pos);
    W(s); fdOf(s, fd)->pos = pos + r; RET(C(r));
  END
  BI("writev")
    uint64_t fd = a.c(0), iov = a.c(1), cnt = a.c(2), tot = 0;
    Fd *d = fd <= 2 ? nullptr : fdOf(s, fd);
    if (fd > 2) { if (!d || (d->flags & O_ACCMODE) == O_RDONLY) FAILWITH(EBADF); FAULTY(); }
    for (uint64_t i = 0; i < cnt; i++) {
      uint64_t p = x.concretize(loadVal(x, iov + i * 16, 64), 64), n = x.concretize(loadVal(x, iov + i * 16 + 8, 64), 64);
      if (fd > 2) { d = fdOf(s, fd); uint64_t pos = d->pos; doWrite(x, s, fd, p, n, pos); W(s); fdOf(s, fd)->pos = pos + n; }
      tot += n;
    }
    RET(C(tot));
  END
  BI("pwrite64")
    uint64_t fd = a.c(0), buf = a.c(1), n = a.c(2), pos = a.c(3);
    Fd *d = fdOf(s, fd); if (!d || (d->flags & O_ACCMODE) == O_RDONLY) FAILWITH(EBADF);
    FAULTY();
    RET(C(doWrite(x, s, fd, buf, n, pos)));
  END
  BI("lseek64")
    uint64_t fd = a.c(0); int64_t off = (int64_t)a.c(1); int wh = (int)a.c(2);
    if (!fdOf(s, fd)) FAILWITH(EBADF);
    FAULTY();
    Fd *d = fdOf(s, fd);
    int64_t sz = F(s).inodes[d->ino].dir ? 0 : (int64_t)F(s).inodes[d->ino].data->d.size();
    int64_t p = wh == 0 ? off : wh == 1 ? (int64_t)d->pos + off : sz + off;
    if (p < 0) FAILWITH(EINVAL);
    W(s); fdOf(s, fd)->pos = p; RET(C(p));
  END
  BI("ftruncate64")
    uint64_t fd = a.c(0), n = a.c(1);
    Fd *d = fdOf(s, fd); if (!d || (d->flags & O_ACCMODE) == O_RDONLY) FAILWITH(EINVAL);
    FAULTY();
    int ino = fdOf(s, fd)->ino;
    resizeFile(own(W(s).inodes[ino].data), n); RET(C(0));
  END
  for (const char *n : {"fsync", "fdatasync"}) BI(n) if (!fdOf(s, a.c(0))) FAILWITH(EBADF); FAULTY(); RET(C(0)); END
  BI("mkdir")
    FALLIBLE();
    std::string p = norm("/vfs", readCStr(x, a.c(0)));
    Fs &f = F(s);
    if (f.paths.count(p)) FAILWITH(EEXIST);
    auto d = f.paths.find(parent(p));
    if (d == f.paths.end()) FAILWITH(ENOENT);
    if (!f.inodes[d->second].dir) FAILWITH(ENOTDIR);
    Fs &w = W(s);
    w.inodes.push_back(Inode{true, nullptr}); w.paths[p] = w.inodes.size() - 1;
    RET(C(0));
  END
  BI("unlink") FALLIBLE(); int e = doUnlink(s, norm("/vfs", readCStr(x, a.c(0))), false); if (e) FAILWITH(e); RET(C(0)); END
  BI("rmdir") FALLIBLE(); int e = doUnlink(s, norm("/vfs", readCStr(x, a.c(0))), true); if (e) FAILWITH(e); RET(C(0)); END
  BI("unlinkat") FALLIBLE(); int e = doUnlink(s, norm(baseAt(s, a.c(0)), readCStr(x, a.c(1))), (a.c(2) & AT_REMOVEDIR) != 0); if (e) FAILWITH(e); RET(C(0)); END
  BI("rename")
    FALLIBLE();
    std::string p = norm("/vfs", readCStr(x, a.c(0))), q = norm("/vfs", readCStr(x, a.c(1)));
    Fs &w = W(s);
    if (!w.paths.count(p) || !w.paths.count(parent(q))) FAILWITH(ENOENT);
    int ino = w.paths[p];
    if (w.inodes[ino].dir) {
      if (w.paths.count(q)) FAILWITH(ENOTEMPTY);
      std::vector<std::pair<std::string, int>> mv;
      for (auto it = w.paths.lower_bound(p + "/"); it != w.paths.end() && it->first.compare(0, p.size() + 1, p + "/") == 0; ++it) mv.push_back(*it);
      for (auto &m : mv) { w.paths.erase(m.first); w.paths[q + m.first.substr(p.size())] = m.second; }
    } else if (w.paths.count(q) && w.inodes[w.paths[q]].dir) FAILWITH(EISDIR);
    w.paths.erase(p); w.paths[q] = ino; RET(C(0));
  END
  BI("fstat64") uint64_t fd = a.c(0); Fd *d = fdOf(s, fd); if (!d) FAILWITH(EBADF); int ino = d->ino; putStat(x, s, a.c(1), ino); RET(C(0)); END
  BI("stat64") statPath(x, s, ci, 0, 1, "/vfs"); END
  BI("lstat64") statPath(x, s, ci, 0, 1, "/vfs"); END
  BI("fstatat64") std::string b = baseAt(s, a.c(0)); statPath(x, s, ci, 1, 2, b); END
  BI("access") std::string p = norm("/vfs", readCStr(x, a.c(0))); if (!F(s).paths.count(p)) FAILWITH(ENOENT); RET(C(0)); END
  BI("opendir")
    if (schedPoint(x)) return;
    if (faultHit(x, s)) { setErrno(x, EIO); RET(C(0)); return; }
    int err = 0, fd = doOpen(s, norm("/vfs", readCStr(x, a.c(0))), O_RDONLY | O_DIRECTORY, err);
    if (fd < 0) { setErrno(x, err); RET(C(0)); return; }
    RET(C(dirHandle(x, s, fd)));
  END
  BI("fdopendir") uint64_t fd = a.c(0); if (!fdOf(s, fd)) { setErrno(x, EBADF); RET(C(0)); return; } RET(C(dirHandle(x, s, fd))); END
  BI("dirfd") RET(C(x.concretize(loadVal(x, a.c(0), 64), 64))); END
  BI("closedir") uint64_t h = a.c(0); uint64_t fd = x.concretize(loadVal(x, h, 64), 64); W(s).fds.erase((int)fd); freeObj(s, h, OK_FILE); RET(C(0)); END
  BI("readdir64")
    uint64_t fd = x.concretize(loadVal(x, a.c(0), 64), 64);
    W(s);
    Fd *d = fdOf(s, fd);
    if (!d) { setErrno(x, EBADF); RET(C(0)); return; }
    listDir(s, *d);
    while (d->listPos < d->list.size() && d->listPos >= 2 && !F(s).paths.count(d->path + "/" + d->list[d->listPos])) d->listPos++;
    if (d->listPos >= d->list.size()) { RET(C(0)); return; }
    std::string nm = d->list[d->listPos++];
    if (!d->dirBuf) d->dirBuf = allocObj(s, 280, OK_GLOBAL, 0);
    uint64_t b = d->dirBuf;
    bool dir = nm == "." || nm == ".." || F(s).inodes[F(s).paths[d->path + "/" + nm]].dir;
    storeVal(x, b, C(1), 64); storeVal(x, b + 8, C(0), 64); storeVal(x, b + 16, C(280), 16); storeVal(x, b + 18, C(dir ? 4 : 8), 8);
    for (size_t i = 0; i <= nm.size(); i++) storeVal(x, b + 19 + i, C(i < nm.size() ? (uint8_t)nm[i] : 0), 8);
    RET(C(b));
  END
  BI("realpath")
    std::string p = norm("/vfs", readCStr(x, a.c(0)));
    if (!F(s).paths.count(p)) { setErrno(x, ENOENT); RET(C(0)); return; }
    uint64_t h = a.c(1);
    if (!h) { h = allocObj(s, p.size() + 1, OK_HEAP, 0); s.heapLive++; }
    for (size_t i = 0; i <= p.size(); i++) storeVal(x, h + i, C(i < p.size() ? (uint8_t)p[i] : 0), 8);
    RET(C(h));
  END
  BI("getcwd")
    uint64_t b = a.c(0); const char *c = "/vfs";
    for (int i = 0; i < 5; i++) storeVal(x, b + i, C((uint8_t)c[i]), 8);
    RET(C(b));
  END
  BI("readlink") FAILWITH(EINVAL); END
  BI("fcntl") uint64_t fd = a.c(0); if (fd > 2 && !fdOf(s, fd)) FAILWITH(EBADF); RET(C(0)); END
  BI("fcntl64") uint64_t fd = a.c(0); if (fd > 2 && !fdOf(s, fd)) FAILWITH(EBADF); RET(C(0)); END
  // ---- harness interface
  BI("__xpg_strerror_r") uint64_t p = a.c(1); const char *m = "error"; for (int i = 0; i < 6; i++) storeVal(x, p + i, C((uint8_t)m[i]), 8); RET(C(0)); END
  // the v-th fallible call from now on fails (v may be symbolic)
  BI("sx_fault") Val v = a.v(0); s.faultArmed = true; s.faultFired = false; s.fsOps = 0; s.faultVar = v; s.faultBg = false; END
  // the same for the calls of the other threads
  BI("sx_fault_bg") Val v = a.v(0); s.faultArmed = true; s.faultFired = false; s.fsOps = 0; s.faultVar = v; s.faultBg = true; END
  BI("sx_fault_off") s.faultArmed = false; RET(C(s.faultFired ? 1 : 0)); END
}
