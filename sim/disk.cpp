#include "disk.h"
#include <errno.h>
#include <string.h>
#include <set>
#include <vector>
#include "rt.h"
extern "C" { FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *); }
const char *io_kind_name[] = {"none", "truncated file", "damaged byte", "EIO from a byte on", "EIO once", "disk full", "one failing write", "failing close", "failing open"};
std::map<std::string, std::string> disk; IoPlan io_plan; DiskStats io_stat;
namespace {
struct Cookie { std::string *data; std::string view; size_t pos = 0; IoPlan p; uint64_t s; bool writing, once = false; };
std::map<FILE *, Cookie *> open_;
std::set<FILE *> dir_;
uint64_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
ssize_t rd(void *c_, char *b, size_t n) {
     Cookie *c = (Cookie *) c_; io_stat.reads++;
     size_t lim = c->view.size();
     if (c->p.kind == IoPlan::TRUNCATE && (size_t) c->p.pos < lim) { lim = c->p.pos; if (c->pos + n > lim) io_stat.fired = 1; }
     bool eio = c->p.kind == IoPlan::EIO_ALWAYS || (c->p.kind == IoPlan::EIO_ONCE && !c->once);
     if (eio && c->pos >= (size_t) c->p.pos) { c->once = true; io_stat.fired++; errno = EIO; return -1; }
     if (eio && lim > (size_t) c->p.pos) lim = c->p.pos;
     size_t k = c->pos < lim ? lim - c->pos : 0; if (k > n) k = n;
     if (c->p.chunk && k > 1) { size_t m = c->p.chunk == 1 ? 1 : 1 + rnd(c->s) % c->p.chunk; if (k > m) { k = m; io_stat.short_reads++; } }
     if (c->p.kind == IoPlan::MUTATE && c->pos <= (size_t) c->p.pos && (size_t) c->p.pos < c->pos + k) io_stat.fired = 1;
     memcpy(b, c->view.data() + c->pos, k); c->pos += k; return k;
}
ssize_t wr(void *c_, const char *b, size_t n) {
     Cookie *c = (Cookie *) c_; io_stat.writes++; size_t k = n;
     if (c->p.kind == IoPlan::FULL && c->pos + n > (size_t) c->p.pos) { k = (size_t) c->p.pos > c->pos ? c->p.pos - c->pos : 0; io_stat.fired++; io_stat.at_write = c->pos; errno = ENOSPC; }
     if (c->p.kind == IoPlan::FAIL_ONCE && !c->once && c->pos + n > (size_t) c->p.pos) { c->once = true; io_stat.fired++; io_stat.at_write = c->pos; errno = EIO; return 0; }
     c->data->resize(std::max(c->data->size(), c->pos)); c->data->replace(c->pos, std::min(k, c->data->size() - c->pos), b, k); c->pos += k; return k;
}
int sk(void *c_, off64_t *o, int w) {
     Cookie *c = (Cookie *) c_; long long p = w == SEEK_SET ? *o : w == SEEK_CUR ? (long long) c->pos + *o : (long long) (c->writing ? c->data->size() : c->view.size()) + *o;
     if (p < 0) { errno = EINVAL; return -1; } c->pos = p; *o = p; return 0;
}
int cl(void *c_) { Cookie *c = (Cookie *) c_; int r = 0; if (c->p.kind == IoPlan::CLOSE) { io_stat.fired++; errno = EIO; r = -1; } delete c; return r; }
FILE *mk(std::string *d, const char *mode, const IoPlan &p) {
     Cookie *c = new Cookie; c->data = d; c->p = p; c->s = p.seed * 0x9e3779b97f4a7c15ull + 99; c->writing = mode[0] != 'r';
     if (mode[0] == 'w') d->clear(); if (mode[0] == 'a') c->pos = d->size();
     if (!c->writing) { c->view = *d; if (p.kind == IoPlan::MUTATE && (size_t) p.pos < c->view.size()) c->view[p.pos] = (char) p.arg; }
     cookie_io_functions_t f = {rd, wr, sk, cl}; FILE *r = fopencookie(c, mode, f); if (!r) { delete c; return 0; }
     if (p.buf >= 0) setvbuf(r, 0, p.buf ? _IOFBF : _IONBF, p.buf ? p.buf : 0);
     open_[r] = c; return r;
}
}
void disk_reset() {
     std::vector<FILE *> v; for (auto &q : open_) v.push_back(q.first);
     open_.clear(); dir_.clear(); io_plan = IoPlan(); for (FILE *f : v) if (f != stdin && f != stdout) __real_fclose(f);
     disk.clear(); io_stat = DiskStats();
}
FILE *disk_open(const char *name, const char *mode) {
     IoPlan p = io_plan; if (!p.name.empty() && p.name != name) { int b = p.buf, c = p.chunk; uint64_t s = p.seed; p = IoPlan(); p.buf = b; p.chunk = c; p.seed = s; }
     if (p.kind == IoPlan::OPEN) { io_stat.fired++; errno = mode[0] == 'r' ? EACCES : EMFILE; return 0; }
     if (mode[0] == 'r' && !disk.count(name)) { errno = ENOENT; return 0; }
     FILE *f = mk(&disk[name], mode, p); if (f) { dir_.insert(f); io_stat.opens++; io_stat.open_now++; } return f;
}
int disk_close(FILE *f) { if (dir_.erase(f)) io_stat.open_now--; open_.erase(f); return __real_fclose(f); }
FILE *disk_pipe(std::string *content, bool writing) { return mk(content, writing ? "w" : "r", io_plan); }
extern "C" FILE *__wrap_fopen(const char *n, const char *m) { if (!rt_in_call) return __real_fopen(n, m); return n ? disk_open(n, m) : (errno = EFAULT, (FILE *) 0); }
extern "C" int __wrap_fclose(FILE *f) { if (!rt_in_call) return __real_fclose(f); return disk_close(f); }
bool disk_has(FILE *f) { return open_.count(f) != 0; }
