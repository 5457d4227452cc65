// rank side of the simulated MPI
#include "mpi.h"
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <math.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <complex>

using std::vector;
using std::string;

// ---------------------------------------------------------------- transport

static int g_fd = -1, g_rank = 0, g_n = 1;
static bool g_final = false, g_init = true;
static int g_poison = 0;

bool sim_io_read(int fd, void *buf, size_t n)
{
  char *p = (char *) buf;
  while (n) {
    ssize_t k = read(fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    p += k; n -= k;
  }
  return true;
}
bool sim_io_write(int fd, const void *buf, size_t n)
{
  const char *p = (const char *) buf;
  while (n) {
    ssize_t k = write(fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    p += k; n -= k;
  }
  return true;
}
void sim_send_msg(int op, const Writer &w)
{
  uint32_t h[2] = {(uint32_t) w.b.size(), (uint32_t) op};
  Blob m(sizeof(h) + w.b.size());
  memcpy(m.data(), h, sizeof(h));
  if (w.b.size()) memcpy(m.data() + sizeof(h), w.b.data(), w.b.size());
  if (!sim_io_write(g_fd, m.data(), m.size())) _exit(99);
}
Blob sim_recv_msg()
{
  uint32_t n;
  if (!sim_io_read(g_fd, &n, 4)) _exit(99);
  Blob b(n);
  if (n && !sim_io_read(g_fd, b.data(), n)) _exit(99);
  return b;
}
static void note(const string &kind, const string &text = "")
{
  Writer w; w.s(kind); w.s(text);
  sim_send_msg(OP_NOTE, w);
}
static void misuse(const string &text) { note("mpi_misuse", text); }

// ---------------------------------------------------------------- handles

struct Comm { int64_t ctx; vector<int> world; int me; int64_t seq; bool lib; };
static std::map<int, Comm> comms;
static std::map<int, vector<int> > groups;
static int next_comm = 16, next_group = 16;

struct Block { long off; long len; };
struct Type { vector<Block> blk; long size, lb, extent; bool committed; };
static std::map<int, Type> types;
static int next_type = 1024;

static vector<double> clk; static double clk_t; static size_t clk_i;
static double work_data, work_comm, work_exec; // cost of a data moving call, of making a communicator, of a set of 1d transforms

static void base_types()
{
  static const int sz[] = {0,1,1,1,1,2,2,4,4,8,8,8,8,4,8,1,2,4,8,1,2,4,8,1,12,8,8,12,16,8,16,8,8,8,1};
  static const int ex[] = {0,1,1,1,1,2,2,4,4,8,8,8,8,4,8,1,2,4,8,1,2,4,8,1,16,8,8,16,16,8,16,8,8,8,1};
  for (int i = 1; i <= 34; i++) {
    Type t; t.size = sz[i]; t.extent = ex[i]; t.lb = 0; t.committed = true;
    t.blk.push_back(Block{0, sz[i]});
    if (i == MPI_DOUBLE_INT || i == MPI_LONG_INT) t.blk[0].len = 12;
    types[i] = t;
  }
}

struct Req {
  int kind;                 // 1 send 2 recv 3 coll
  bool done, active, persistent, null;
  void *buf; int count; MPI_Datatype dt;
  Blob copy;                // what was sent
  bool check;
  int ctxcomm, peer, tag, mode;
  MPI_Status st;
  std::function<void(vector<Blob> &, int64_t)> fin;
};
static std::map<int, Req> reqs;
static int next_req = 16;

void sim_world(int n)
{
  g_n = n;
  Comm c; c.ctx = 1; c.me = g_rank; c.seq = 0; c.lib = false;
  for (int i = 0; i < n; i++) c.world.push_back(i);
  comms[MPI_COMM_WORLD] = c;
  Comm s; s.ctx = 1000000 + g_rank; s.me = 0; s.seq = 0; s.world.push_back(g_rank); s.lib = false;
  comms[MPI_COMM_SELF] = s;
  groups[MPI_GROUP_EMPTY] = vector<int>();
}
void sim_reset()
{
  comms.clear(); groups.clear(); types.clear(); reqs.clear();
  next_comm = 16; next_group = 16; next_type = 1024; next_req = 16;
  base_types();
  sim_world(g_n);
}
void sim_attach(int fd, int rank, int n)
{
  g_fd = fd; g_rank = rank; g_n = n;
  sim_reset();
}
void sim_clock(const vector<double> &inc, double base) { clk = inc; clk_t = base; clk_i = 0; work_data = work_comm = work_exec = 0; }
void sim_work(double data, double comm) { clk.assign(1, 0.0); clk_t = 0; clk_i = 0; work_data = data; work_comm = comm; work_exec = 0; }
void sim_exec(double each) { sim_work(0, 0); work_exec = each; }
void sim_exec_done() { clk_t += work_exec; }
static double clk_epoch = 0;
void sim_epoch(double t) { clk_epoch = t; }
double sim_time() { return clk_t; }
void sim_poison(int on) { g_poison = on; }
int sim_live_comms() { return (int) comms.size() - 2; }
int sim_live_groups() { return (int) groups.size() - 1; }
int sim_live_requests() { return (int) reqs.size(); }
int sim_live_types() { return (int) types.size() - 34; }

[[noreturn]] static void die(const string &msg)
{
  note("mpi_error", msg);
  fflush(stdout);
  Writer w; w.i(86);
  sim_send_msg(OP_ABORT, w);
  _exit(86);
}

static Comm &C(MPI_Comm c, const char *fn)
{
  if (g_final) die(string(fn) + ": called after MPI_Finalize");
  std::map<int, Comm>::iterator it = comms.find(c);
  if (it == comms.end()) die(string(fn) + ": invalid communicator");
  return it->second;
}
static Type &T(MPI_Datatype d, const char *fn)
{
  std::map<int, Type>::iterator it = types.find(d);
  if (it == types.end()) die(string(fn) + ": invalid datatype");
  return it->second;
}
static Blob packb(const void *buf, long count, MPI_Datatype d, const char *fn)
{
  Type &t = T(d, fn);
  if (count < 0) die(string(fn) + ": negative count");
  if (!t.committed) die(string(fn) + ": datatype not committed");
  Blob b(t.size * count);
  if (count == 0 || t.size == 0) return b;
  if (!buf) die(string(fn) + ": NULL buffer with nonzero count");
  char *q = b.data();
  if (t.blk.size() == 1 && t.blk[0].len == t.extent && t.blk[0].off == 0) {
    memcpy(q, buf, t.size * count);
    return b;
  }
  for (long i = 0; i < count; i++)
    for (size_t k = 0; k < t.blk.size(); k++) {
      memcpy(q, (const char *) buf + i * t.extent + t.blk[k].off, t.blk[k].len);
      q += t.blk[k].len;
    }
  return b;
}
static void unpackb(const char *src, long bytes, void *buf, long count, MPI_Datatype d, const char *fn)
{
  Type &t = T(d, fn);
  if (bytes == 0) return;
  if (bytes > t.size * count) die(string(fn) + ": message truncated");
  if (!buf) die(string(fn) + ": NULL buffer with nonzero count");
  if (t.blk.size() == 1 && t.blk[0].len == t.extent && t.blk[0].off == 0) {
    memcpy(buf, src, bytes);
    return;
  }
  long left = bytes;
  for (long i = 0; i < count && left > 0; i++)
    for (size_t k = 0; k < t.blk.size() && left > 0; k++) {
      long l = std::min(left, t.blk[k].len);
      memcpy((char *) buf + i * t.extent + t.blk[k].off, src, l);
      src += l; left -= l;
    }
}
static void unpackb(const Blob &b, void *buf, long count, MPI_Datatype d, const char *fn)
{ unpackb(b.data(), (long) b.size(), buf, count, d, fn); }

static void poison(void *buf, long count, MPI_Datatype d, const char *fn)
{
  if (!g_poison || count <= 0 || !buf) return;
  Type &t = T(d, fn);
  for (long i = 0; i < count; i++)
    for (size_t k = 0; k < t.blk.size(); k++)
      memset((char *) buf + i * t.extent + t.blk[k].off, 0xFB, t.blk[k].len);
}

// ---------------------------------------------------------------- requests

static int new_req(int kind)
{
  int id = next_req++;
  Req r; r.kind = kind; r.done = false; r.active = true; r.persistent = false; r.null = false;
  r.buf = NULL; r.count = 0; r.dt = MPI_BYTE; r.check = false; r.ctxcomm = 0; r.peer = r.tag = r.mode = 0;
  memset(&r.st, 0, sizeof(r.st));
  r.st.MPI_SOURCE = MPI_ANY_SOURCE; r.st.MPI_TAG = MPI_ANY_TAG;
  reqs[id] = r;
  return id;
}

static void post_send(int id)
{
  clk_t += work_data;
  Req &r = reqs[id];
  Comm &c = C(r.ctxcomm, "send");
  int n = (int) c.world.size();
  r.done = false; r.active = true;
  if (r.peer == MPI_PROC_NULL) { r.done = true; r.null = true; return; }
  if (r.peer < 0 || r.peer >= n) die("send: invalid destination rank");
  if (r.tag < 0) die("send: invalid tag");
  r.copy = packb(r.buf, r.count, r.dt, "send");
  Writer w;
  w.i(id); w.i(c.ctx); w.i(c.me); w.i(r.peer); w.i(c.world[r.peer]); w.i(r.tag); w.i(r.mode); w.blob(r.copy);
  sim_send_msg(OP_SEND, w);
}
static void post_recv(int id)
{
  Req &r = reqs[id];
  Comm &c = C(r.ctxcomm, "recv");
  int n = (int) c.world.size();
  r.done = false; r.active = true;
  if (r.peer == MPI_PROC_NULL) {
    r.done = true; r.null = true;
    r.st.MPI_SOURCE = MPI_PROC_NULL; r.st.MPI_TAG = MPI_ANY_TAG; r.st._bytes = 0;
    return;
  }
  if (r.peer != MPI_ANY_SOURCE && (r.peer < 0 || r.peer >= n)) die("recv: invalid source rank");
  Type &t = T(r.dt, "recv");
  if (r.count < 0) die("recv: negative count");
  if (r.count && t.size && !r.buf) die("recv: NULL buffer with nonzero count");
  poison(r.buf, r.count, r.dt, "recv");
  Writer w;
  w.i(id); w.i(c.ctx); w.i(c.me); w.i(r.peer); w.i(r.tag); w.i(t.size * (long) r.count);
  sim_send_msg(OP_RECV, w);
}

// deliveries attached to a reply of the coordinator
static void deliveries(Reader &rd)
{
  int64_t n = rd.i();
  for (int64_t k = 0; k < n; k++) {
    int id = (int) rd.i();
    int64_t kind = rd.i();
    std::map<int, Req>::iterator it = reqs.find(id);
    if (kind == 1) {
      if (it != reqs.end()) {
        Req &r = it->second;
        if (r.check) {
          Blob now = packb(r.buf, r.count, r.dt, "send");
          if (now != r.copy) misuse("send buffer modified before the send completed");
        }
        r.copy.clear();
        r.done = true;
      }
    } else if (kind == 2) {
      int src = (int) rd.i(), tag = (int) rd.i();
      Blob b = rd.blob();
      if (it != reqs.end()) {
        Req &r = it->second;
        unpackb(b, r.buf, r.count, r.dt, "recv");
        r.st.MPI_SOURCE = src; r.st.MPI_TAG = tag; r.st._bytes = (int) b.size(); r.st.MPI_ERROR = 0;
        r.done = true;
      }
    } else {
      int64_t base = rd.i();
      int64_t m = rd.i();
      vector<Blob> v;
      for (int64_t j = 0; j < m; j++) v.push_back(rd.blob());
      if (it != reqs.end()) {
        it->second.fin(v, base);
        reqs[id].done = true;
      }
    }
  }
}

// mode 0 all, 1 any, 2 some, 3 testall, 4 testany, 5 testsome
// returns flag, idx = completed positions within ids
static int64_t wait_rpc(int mode, const vector<int> &ids, vector<int> &idx)
{
  Writer w;
  w.i(mode); w.i((int64_t) ids.size());
  for (size_t i = 0; i < ids.size(); i++) {
    w.i(ids[i]);
    Req &r = reqs[ids[i]];
    w.i(r.null ? 1 : 0);          // completes by itself
  }
  sim_send_msg(OP_WAIT, w);
  Blob b = sim_recv_msg();
  Reader rd(b);
  int64_t flag = rd.i();
  int64_t n = rd.i();
  idx.clear();
  for (int64_t i = 0; i < n; i++) idx.push_back((int) rd.i());
  deliveries(rd);
  return flag;
}

static void set_status(MPI_Status *s, const MPI_Status &v) { if (s) *s = v; }
static MPI_Status empty_status()
{
  MPI_Status s; memset(&s, 0, sizeof(s));
  s.MPI_SOURCE = MPI_ANY_SOURCE; s.MPI_TAG = MPI_ANY_TAG;
  return s;
}
// consume a completed request
static void consume(MPI_Request *r, MPI_Status *st)
{
  Req &q = reqs[*r];
  set_status(st, q.st);
  if (q.persistent) { q.active = false; q.done = false; }
  else { reqs.erase(*r); *r = MPI_REQUEST_NULL; }
}
static bool inactive(MPI_Request r)
{
  if (r == MPI_REQUEST_NULL) return true;
  std::map<int, Req>::iterator it = reqs.find(r);
  if (it == reqs.end()) die("invalid request");
  return !it->second.active;
}
static int wait_generic(int mode, int n, MPI_Request *rq, int *outcount, int *indices, int *flag, MPI_Status *sts)
{
  if (g_final) die("wait: called after MPI_Finalize");
  vector<int> ids, pos, idx;
  for (int i = 0; i < n; i++)
    if (!inactive(rq[i])) { ids.push_back(rq[i]); pos.push_back(i); }
    else if ((mode == 0 || mode == 3) && sts) sts[i] = empty_status();
  if (ids.empty()) {
    if (outcount) *outcount = MPI_UNDEFINED;
    if (indices && (mode == 1 || mode == 4)) *indices = MPI_UNDEFINED;
    if (flag) *flag = 1;
    if (sts && (mode == 1 || mode == 4)) *sts = empty_status();
    return MPI_SUCCESS;
  }
  int64_t f = wait_rpc(mode, ids, idx);
  if (flag) *flag = (int) f;
  if (mode == 0 || (mode == 3 && f)) {
    for (size_t k = 0; k < ids.size(); k++) consume(&rq[pos[k]], sts ? &sts[pos[k]] : NULL);
  } else if (mode == 1 || (mode == 4 && f)) {
    *indices = pos[idx[0]];
    consume(&rq[pos[idx[0]]], sts);
  } else if (mode == 4) {
    *indices = MPI_UNDEFINED;
  } else if (mode == 2 || mode == 5) {
    *outcount = (int) idx.size();
    for (size_t k = 0; k < idx.size(); k++) {
      indices[k] = pos[idx[k]];
      consume(&rq[pos[idx[k]]], sts ? &sts[k] : NULL);
    }
  }
  return MPI_SUCCESS;
}

extern "C" {

// ---------------------------------------------------------------- environment

int MPI_Init(int *, char ***) { g_init = true; return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) { if (p) *p = r; g_init = true; return 0; }
int MPI_Initialized(int *f) { *f = g_init; return 0; }
int MPI_Finalized(int *f) { *f = g_final; return 0; }
int MPI_Finalize()
{
  if (g_final) die("MPI_Finalize: called twice");
  g_final = true;
  Writer w; sim_send_msg(OP_FINALIZE, w);
  return 0;
}
int MPI_Abort(MPI_Comm, int code)
{
  fflush(stdout);
  Writer w; w.i(code); sim_send_msg(OP_ABORT, w);
  _exit(87);
}
int MPI_Query_thread(int *p) { *p = 0; return 0; }
int MPI_Is_thread_main(int *p) { *p = 1; return 0; }
double MPI_Wtime()
{
  double t = clk_epoch + clk_t;
  double inc = clk.empty() ? 1.0e-6 : clk[clk_i++ % clk.size()];
  clk_t += inc;
  return t;
}
double MPI_Wtick() { return 1.0e-6; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_library_version(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "error %d", e); return 0; }
int MPI_Error_class(int e, int *c) { *c = e; return 0; }
int MPI_Pcontrol(int, ...) { return 0; }

// ---------------------------------------------------------------- communicators

int MPI_Comm_rank(MPI_Comm c, int *r) { *r = C(c, "MPI_Comm_rank").me; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = (int) C(c, "MPI_Comm_size").world.size(); return 0; }
static MPI_Group mkgroup(const vector<int> &v)
{
  if (v.empty()) return MPI_GROUP_EMPTY;
  groups[next_group] = v; return next_group++;
}
static vector<int> &G(MPI_Group g)
{
  std::map<int, vector<int> >::iterator it = groups.find(g);
  if (it == groups.end()) die("invalid group");
  return it->second;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = mkgroup(C(c, "MPI_Comm_group").world); return 0; }
int MPI_Comm_test_inter(MPI_Comm, int *f) { *f = 0; return 0; }
int MPI_Comm_set_name(MPI_Comm, const char *) { return 0; }
int MPI_Comm_get_name(MPI_Comm, char *n, int *l) { n[0] = 0; *l = 0; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_get_errhandler(MPI_Comm, MPI_Errhandler *e) { *e = MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *, MPI_Errhandler *e) { *e = 3; return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = 0; return 0; }
int MPI_Comm_get_attr(MPI_Comm, int k, void *v, int *f)
{
  static int ub = 32767;
  if (k == MPI_TAG_UB) { *(int **) v = &ub; *f = 1; } else *f = 0;
  return 0;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { return c; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r)
{
  Comm &x = C(a, "MPI_Comm_compare"), &y = C(b, "MPI_Comm_compare");
  if (a == b || x.ctx == y.ctx) *r = MPI_IDENT;
  else if (x.world == y.world) *r = MPI_CONGRUENT;
  else {
    vector<int> p = x.world, q = y.world;
    std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
    *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  }
  return 0;
}

// ---------------------------------------------------------------- groups

int MPI_Group_size(MPI_Group g, int *n) { *n = (int) G(g).size(); return 0; }
int MPI_Group_rank(MPI_Group g, int *r)
{
  vector<int> &v = G(g);
  *r = MPI_UNDEFINED;
  for (size_t i = 0; i < v.size(); i++) if (v[i] == g_rank) *r = (int) i;
  return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int *rk, MPI_Group *out)
{
  vector<int> v = G(g), o;
  std::set<int> seen;
  for (int i = 0; i < n; i++) {
    if (rk[i] < 0 || rk[i] >= (int) v.size()) die("MPI_Group_incl: invalid rank");
    if (!seen.insert(rk[i]).second) die("MPI_Group_incl: duplicate rank");
    o.push_back(v[rk[i]]);
  }
  *out = mkgroup(o); return 0;
}
int MPI_Group_excl(MPI_Group g, int n, const int *rk, MPI_Group *out)
{
  vector<int> v = G(g), o;
  for (int i = 0; i < (int) v.size(); i++) if (std::find(rk, rk + n, i) == rk + n) o.push_back(v[i]);
  *out = mkgroup(o); return 0;
}
int MPI_Group_range_incl(MPI_Group g, int n, int r[][3], MPI_Group *out)
{
  vector<int> v = G(g), o;
  for (int i = 0; i < n; i++)
    for (int x = r[i][0]; r[i][2] > 0 ? x <= r[i][1] : x >= r[i][1]; x += r[i][2]) o.push_back(v.at(x));
  *out = mkgroup(o); return 0;
}
int MPI_Group_union(MPI_Group a, MPI_Group b, MPI_Group *out)
{
  vector<int> o = G(a), y = G(b);
  for (size_t i = 0; i < y.size(); i++) if (std::find(o.begin(), o.end(), y[i]) == o.end()) o.push_back(y[i]);
  *out = mkgroup(o); return 0;
}
int MPI_Group_intersection(MPI_Group a, MPI_Group b, MPI_Group *out)
{
  vector<int> x = G(a), y = G(b), o;
  for (size_t i = 0; i < x.size(); i++) if (std::find(y.begin(), y.end(), x[i]) != y.end()) o.push_back(x[i]);
  *out = mkgroup(o); return 0;
}
int MPI_Group_difference(MPI_Group a, MPI_Group b, MPI_Group *out)
{
  vector<int> x = G(a), y = G(b), o;
  for (size_t i = 0; i < x.size(); i++) if (std::find(y.begin(), y.end(), x[i]) == y.end()) o.push_back(x[i]);
  *out = mkgroup(o); return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb)
{
  vector<int> x = G(a), y = G(b);
  for (int i = 0; i < n; i++) {
    if (ra[i] == MPI_PROC_NULL) { rb[i] = MPI_PROC_NULL; continue; }
    vector<int>::iterator it = std::find(y.begin(), y.end(), x.at(ra[i]));
    rb[i] = it == y.end() ? MPI_UNDEFINED : (int) (it - y.begin());
  }
  return 0;
}
int MPI_Group_compare(MPI_Group a, MPI_Group b, int *r)
{
  vector<int> p = G(a), q = G(b);
  if (p == q) { *r = MPI_IDENT; return 0; }
  std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
  *r = p == q ? MPI_SIMILAR : MPI_UNEQUAL;
  return 0;
}
int MPI_Group_free(MPI_Group *g)
{
  G(*g);
  if (*g != MPI_GROUP_EMPTY) groups.erase(*g);
  *g = MPI_GROUP_NULL; return 0;
}

// ---------------------------------------------------------------- datatypes

int MPI_Type_size(MPI_Datatype d, int *s) { *s = (int) T(d, "MPI_Type_size").size; return 0; }
int MPI_Type_get_extent(MPI_Datatype d, MPI_Aint *lb, MPI_Aint *e)
{ Type &t = T(d, "MPI_Type_get_extent"); *lb = t.lb; *e = t.extent; return 0; }
static MPI_Datatype mktype(vector<Block> &raw, long lb, long extent)
{
  Type t; t.size = 0; t.lb = lb; t.extent = extent; t.committed = false;
  for (size_t i = 0; i < raw.size(); i++) {
    if (raw[i].len == 0) continue;
    t.size += raw[i].len;
    if (!t.blk.empty() && t.blk.back().off + t.blk.back().len == raw[i].off) t.blk.back().len += raw[i].len;
    else t.blk.push_back(raw[i]);
  }
  types[next_type] = t;
  return next_type++;
}
static void addblk(vector<Block> &v, const Type &t, long off, int n)
{
  for (int i = 0; i < n; i++)
    for (size_t k = 0; k < t.blk.size(); k++) v.push_back(Block{off + i * t.extent + t.blk[k].off, t.blk[k].len});
}
int MPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype *o)
{ Type t = T(d, "MPI_Type_contiguous"); vector<Block> v; addblk(v, t, 0, n); *o = mktype(v, 0, n * t.extent); return 0; }
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype d, MPI_Datatype *o)
{
  Type t = T(d, "MPI_Type_vector"); vector<Block> v;
  for (int i = 0; i < n; i++) addblk(v, t, (long) i * st * t.extent, bl);
  *o = mktype(v, 0, n ? ((long) (n - 1) * st + bl) * t.extent : 0); return 0;
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype d, MPI_Datatype *o)
{
  Type t = T(d, "MPI_Type_create_hvector"); vector<Block> v;
  for (int i = 0; i < n; i++) addblk(v, t, (long) i * st, bl);
  *o = mktype(v, 0, n ? (long) (n - 1) * st + bl * t.extent : 0); return 0;
}
int MPI_Type_indexed(int n, const int *bl, const int *dis, MPI_Datatype d, MPI_Datatype *o)
{
  Type t = T(d, "MPI_Type_indexed"); vector<Block> v; long e = 0;
  for (int i = 0; i < n; i++) { addblk(v, t, (long) dis[i] * t.extent, bl[i]); e = std::max(e, ((long) dis[i] + bl[i]) * t.extent); }
  *o = mktype(v, 0, e); return 0;
}
int MPI_Type_create_indexed_block(int n, int bl, const int *dis, MPI_Datatype d, MPI_Datatype *o)
{ vector<int> b(n, bl); return MPI_Type_indexed(n, b.data(), dis, d, o); }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *dis, const MPI_Datatype *d, MPI_Datatype *o)
{
  vector<Block> v; long e = 0;
  for (int i = 0; i < n; i++) { Type t = T(d[i], "MPI_Type_create_struct"); addblk(v, t, dis[i], bl[i]); e = std::max(e, dis[i] + bl[i] * t.extent); }
  *o = mktype(v, 0, e); return 0;
}
int MPI_Type_create_subarray(int nd, const int *sz, const int *sub, const int *st, int order, MPI_Datatype d, MPI_Datatype *o)
{
  Type t = T(d, "MPI_Type_create_subarray"); vector<Block> v;
  long tot = 1, cnt = 1;
  for (int i = 0; i < nd; i++) { tot *= sz[i]; cnt *= sub[i]; }
  for (long c = 0; c < cnt; c++) {
    long rem = c, off = 0, mul = 1;
    for (int q = 0; q < nd; q++) {
      int i = order == MPI_ORDER_FORTRAN ? q : nd - 1 - q;
      off += (rem % sub[i] + st[i]) * mul; rem /= sub[i]; mul *= sz[i];
    }
    addblk(v, t, off * t.extent, 1);
  }
  *o = mktype(v, 0, tot * t.extent); return 0;
}
int MPI_Type_create_resized(MPI_Datatype d, MPI_Aint lb, MPI_Aint e, MPI_Datatype *o)
{ vector<Block> v = T(d, "resized").blk; *o = mktype(v, lb, e); return 0; }
int MPI_Type_commit(MPI_Datatype *d) { T(*d, "MPI_Type_commit").committed = true; return 0; }
int MPI_Type_free(MPI_Datatype *d)
{
  T(*d, "MPI_Type_free");
  if (*d < 1024) die("MPI_Type_free: predefined datatype");
  types.erase(*d); *d = MPI_DATATYPE_NULL; return 0;
}
int MPI_Type_dup(MPI_Datatype d, MPI_Datatype *o) { Type t = T(d, "MPI_Type_dup"); types[next_type] = t; *o = next_type++; return 0; }
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return 0; }
int MPI_Pack(const void *in, int n, MPI_Datatype d, void *out, int osz, int *pos, MPI_Comm)
{
  Blob b = packb(in, n, d, "MPI_Pack");
  if (*pos + (long) b.size() > osz) die("MPI_Pack: buffer too small");
  if (b.size()) memcpy((char *) out + *pos, b.data(), b.size());
  *pos += (int) b.size(); return 0;
}
int MPI_Unpack(const void *in, int isz, int *pos, void *out, int n, MPI_Datatype d, MPI_Comm)
{
  long sz = T(d, "MPI_Unpack").size * n;
  if (*pos + sz > isz) die("MPI_Unpack: buffer too small");
  unpackb((const char *) in + *pos, sz, out, n, d, "MPI_Unpack");
  *pos += (int) sz; return 0;
}
int MPI_Pack_size(int n, MPI_Datatype d, MPI_Comm, int *s) { *s = (int) (n * T(d, "MPI_Pack_size").size); return 0; }

// ---------------------------------------------------------------- point to point

// mode: 0 standard, 1 synchronous, 2 buffered (always eager), 3 ready
static int mk_send(const void *buf, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, int mode, bool check, bool post, bool pers)
{
  C(c, "send");
  int id = new_req(1);
  Req &r = reqs[id];
  r.buf = (void *) buf; r.count = n; r.dt = d; r.peer = dst; r.tag = tag; r.ctxcomm = c; r.mode = mode; r.check = check;
  r.persistent = pers; r.active = post;
  if (post) post_send(id);
  return id;
}
static int mk_recv(void *buf, int n, MPI_Datatype d, int src, int tag, MPI_Comm c, bool post, bool pers)
{
  C(c, "recv");
  int id = new_req(2);
  Req &r = reqs[id];
  r.buf = buf; r.count = n; r.dt = d; r.peer = src; r.tag = tag; r.ctxcomm = c;
  r.persistent = pers; r.active = post;
  if (post) post_recv(id);
  return id;
}
static int send_mode(const void *buf, int n, MPI_Datatype d, int dst, int tag, MPI_Comm c, int mode)
{ MPI_Request q = mk_send(buf, n, d, dst, tag, c, mode, false, true, false); return MPI_Wait(&q, MPI_STATUS_IGNORE); }
int MPI_Send(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c) { return send_mode(b, n, d, p, t, c, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c) { return send_mode(b, n, d, p, t, c, 1); }
int MPI_Rsend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c) { return send_mode(b, n, d, p, t, c, 3); }
int MPI_Bsend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c) { return send_mode(b, n, d, p, t, c, 2); }
int MPI_Buffer_attach(void *, int) { return 0; }
int MPI_Buffer_detach(void *, int *) { return 0; }
int MPI_Isend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_send(b, n, d, p, t, c, 0, true, true, false); return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_send(b, n, d, p, t, c, 1, true, true, false); return 0; }
int MPI_Irsend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_send(b, n, d, p, t, c, 3, true, true, false); return 0; }
int MPI_Ibsend(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_send(b, n, d, p, t, c, 2, false, true, false); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_recv(b, n, d, p, t, c, true, false); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Status *s)
{ MPI_Request q = mk_recv(b, n, d, p, t, c, true, false); return MPI_Wait(&q, s); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype sd, int dst, int st, void *rb, int rn, MPI_Datatype rd, int src, int rt, MPI_Comm c, MPI_Status *s)
{
  MPI_Request q[2]; MPI_Status ss[2];
  q[0] = mk_send(sb, sn, sd, dst, st, c, 0, false, true, false);
  q[1] = mk_recv(rb, rn, rd, src, rt, c, true, false);
  MPI_Waitall(2, q, ss);
  if (s) *s = ss[1];
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype d, int dst, int st, int src, int rt, MPI_Comm c, MPI_Status *s)
{
  MPI_Request q[2]; MPI_Status ss[2];
  q[0] = mk_send(b, n, d, dst, st, c, 0, false, true, false);
  q[1] = mk_recv(b, n, d, src, rt, c, true, false);
  MPI_Waitall(2, q, ss);
  if (s) *s = ss[1];
  return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_send(b, n, d, p, t, c, 0, true, false, true); return 0; }
int MPI_Ssend_init(const void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_send(b, n, d, p, t, c, 1, true, false, true); return 0; }
int MPI_Recv_init(void *b, int n, MPI_Datatype d, int p, int t, MPI_Comm c, MPI_Request *r) { *r = mk_recv(b, n, d, p, t, c, false, true); return 0; }
int MPI_Start(MPI_Request *r)
{
  std::map<int, Req>::iterator it = reqs.find(*r);
  if (it == reqs.end() || !it->second.persistent || it->second.active) die("MPI_Start: bad request");
  it->second.null = false;
  if (it->second.kind == 1) post_send(*r); else post_recv(*r);
  return 0;
}
int MPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) MPI_Start(&r[i]); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { MPI_Status t; int rc = wait_generic(0, 1, r, NULL, NULL, NULL, s ? s : &t); return rc; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { return wait_generic(0, n, r, NULL, NULL, NULL, s); }
int MPI_Waitany(int n, MPI_Request *r, int *i, MPI_Status *s) { return wait_generic(1, n, r, NULL, i, NULL, s); }
int MPI_Waitsome(int n, MPI_Request *r, int *oc, int *i, MPI_Status *s) { return wait_generic(2, n, r, oc, i, NULL, s); }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *s) { return wait_generic(3, 1, r, NULL, NULL, f, s); }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *s) { return wait_generic(3, n, r, NULL, NULL, f, s); }
int MPI_Testany(int n, MPI_Request *r, int *i, int *f, MPI_Status *s) { return wait_generic(4, n, r, NULL, i, f, s); }
int MPI_Testsome(int n, MPI_Request *r, int *oc, int *i, MPI_Status *s) { return wait_generic(5, n, r, oc, i, NULL, s); }
int MPI_Request_free(MPI_Request *r)
{
  std::map<int, Req>::iterator it = reqs.find(*r);
  if (it == reqs.end()) die("MPI_Request_free: invalid request");
  reqs.erase(it); *r = MPI_REQUEST_NULL; return 0;
}
int MPI_Request_get_status(MPI_Request r, int *f, MPI_Status *s)
{
  if (inactive(r)) { *f = 1; if (s) *s = empty_status(); return 0; }
  *f = reqs[r].done ? 1 : 0; if (*f && s) *s = reqs[r].st; return 0;
}
int MPI_Cancel(MPI_Request *r)
{
  Req &q = reqs[*r];
  if (q.kind == 2 && !q.done) { Writer w; w.i(*r); sim_send_msg(OP_CANCEL, w); q.null = true; q.st._cancelled = 1; }
  return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return 0; }
static int probe(int src, int tag, MPI_Comm c, int blocking, int *flag, MPI_Status *s)
{
  Comm &k = C(c, "probe");
  Writer w; w.i(k.ctx); w.i(k.me); w.i(src); w.i(tag); w.i(blocking);
  sim_send_msg(OP_PROBE, w);
  Blob b = sim_recv_msg(); Reader rd(b);
  int64_t f = rd.i(); int a = (int) rd.i(), t = (int) rd.i(); int64_t n = rd.i();
  deliveries(rd);
  if (flag) *flag = (int) f;
  if (f && s) { s->MPI_SOURCE = a; s->MPI_TAG = t; s->MPI_ERROR = 0; s->_bytes = (int) n; s->_cancelled = 0; }
  return 0;
}
int MPI_Probe(int s, int t, MPI_Comm c, MPI_Status *st) { return probe(s, t, c, 1, NULL, st); }
int MPI_Iprobe(int s, int t, MPI_Comm c, int *f, MPI_Status *st) { return probe(s, t, c, 0, f, st); }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype d, int *n)
{
  long z = T(d, "MPI_Get_count").size;
  *n = z == 0 ? 0 : (s->_bytes % z ? MPI_UNDEFINED : (int) (s->_bytes / z)); return 0;
}
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype d, int *n) { return MPI_Get_count(s, d, n); }

} // extern C

// ---------------------------------------------------------------- collectives

typedef std::function<void(vector<Blob> &, int64_t)> Fin;

// post a collective: blobs = one (same for everyone) or one per member
static int coll_post(MPI_Comm c, const string &kind, const string &sig, const vector<Blob> &blobs, Fin fin)
{
  Comm &k = C(c, kind.c_str());
  int id = new_req(3);
  reqs[id].fin = fin;
  Writer w;
  w.i(id); w.i(k.ctx); w.i(k.me); w.i((int64_t) k.world.size()); w.i(k.seq++);
  w.s(kind); w.s(sig); w.i((int64_t) blobs.size());
  for (size_t i = 0; i < blobs.size(); i++) w.blob(blobs[i]);
  sim_send_msg(OP_COLL, w);
  return id;
}
static int coll(MPI_Comm c, const string &kind, const string &sig, const vector<Blob> &blobs, Fin fin)
{
  MPI_Request q = coll_post(c, kind, sig, blobs, fin);
  return MPI_Wait(&q, MPI_STATUS_IGNORE);
}
static string num(long v) { char b[32]; sprintf(b, "%ld", v); return b; }

static std::map<int, std::pair<MPI_User_function *, int> > userops;
static int next_op = 64;

template <class X> static void red(X *a, const X *b, long n, MPI_Op op)
{
  for (long i = 0; i < n; i++) switch (op) {
    case MPI_MAX: if (b[i] > a[i]) a[i] = b[i]; break;
    case MPI_MIN: if (b[i] < a[i]) a[i] = b[i]; break;
    case MPI_SUM: a[i] = (X) (a[i] + b[i]); break;
    case MPI_PROD: a[i] = (X) (a[i] * b[i]); break;
    case MPI_LAND: a[i] = (X) (a[i] && b[i]); break;
    case MPI_LOR: a[i] = (X) (a[i] || b[i]); break;
    case MPI_LXOR: a[i] = (X) (!a[i] != !b[i]); break;
    case MPI_REPLACE: a[i] = b[i]; break;
    default: die("unsupported reduction operation");
  }
}
template <class X> static void redi(X *a, const X *b, long n, MPI_Op op)
{
  for (long i = 0; i < n; i++) switch (op) {
    case MPI_BAND: a[i] = a[i] & b[i]; break;
    case MPI_BOR: a[i] = a[i] | b[i]; break;
    case MPI_BXOR: a[i] = a[i] ^ b[i]; break;
    default: red(a + i, b + i, 1, op);
  }
}
template <class X> static void redloc(X *a, const X *b, long n, MPI_Op op)
{
  for (long i = 0; i < n; i++) {
    bool t = op == MPI_MAXLOC ? b[i].v > a[i].v : b[i].v < a[i].v;
    if (t || (b[i].v == a[i].v && b[i].i < a[i].i)) a[i] = b[i];
  }
}
struct DI { double v; int i; } __attribute__((packed));
struct FI { float v; int i; };
struct II { int v; int i; };
struct LI { long v; int i; } __attribute__((packed));

// a = a op b, elements in packed representation
static void reduce2(Blob &a, const Blob &b, long n, MPI_Datatype d, MPI_Op op)
{
  if (n == 0) return;
  void *x = a.data(); const void *y = b.data();
  if (userops.count(op)) {
    int k = (int) n; MPI_Datatype t = d;
    Blob tmp = a; Blob acc = b;           // user function: inout = in op inout
    userops[op].first(tmp.data(), acc.data(), &k, &t);
    a = acc; return;
  }
  switch (d) {
    case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: redi((signed char *) x, (const signed char *) y, n, op); break;
    case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: redi((unsigned char *) x, (const unsigned char *) y, n, op); break;
    case MPI_SHORT: case MPI_INT16_T: redi((short *) x, (const short *) y, n, op); break;
    case MPI_UNSIGNED_SHORT: case MPI_UINT16_T: redi((unsigned short *) x, (const unsigned short *) y, n, op); break;
    case MPI_INT: case MPI_INT32_T: redi((int *) x, (const int *) y, n, op); break;
    case MPI_UNSIGNED: case MPI_UINT32_T: redi((unsigned *) x, (const unsigned *) y, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: case MPI_AINT: case MPI_OFFSET: case MPI_COUNT:
      redi((long *) x, (const long *) y, n, op); break;
    case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: redi((unsigned long *) x, (const unsigned long *) y, n, op); break;
    case MPI_FLOAT: red((float *) x, (const float *) y, n, op); break;
    case MPI_DOUBLE: red((double *) x, (const double *) y, n, op); break;
    case MPI_LONG_DOUBLE: red((long double *) x, (const long double *) y, n, op); break;
    case MPI_DOUBLE_INT: redloc((DI *) x, (const DI *) y, n, op); break;
    case MPI_FLOAT_INT: redloc((FI *) x, (const FI *) y, n, op); break;
    case MPI_2INT: redloc((II *) x, (const II *) y, n, op); break;
    case MPI_LONG_INT: redloc((LI *) x, (const LI *) y, n, op); break;
    default: die("unsupported reduction datatype");
  }
}

static vector<Blob> one(const Blob &b) { return vector<Blob>(1, b); }

static int reduce_post(const char *name, const void *sb, void *rb, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c, int scan)
{
  Comm &k = C(c, name);
  int me = k.me;
  if (root >= (int) k.world.size()) die(string(name) + ": invalid root");
  Blob b = packb(sb == MPI_IN_PLACE ? rb : sb, n, d, name);
  return coll_post(c, name, "root" + num(root) + " n" + num(n) + " t" + num(d) + " op" + num(op), one(b),
    [=](vector<Blob> &v, int64_t) {
      if (root >= 0 && root != me) return;
      Blob a;
      int hi = scan == 1 ? me + 1 : (scan == 2 ? me : (int) v.size());
      if (hi == 0) return;
      a = v[0];
      for (int i = 1; i < hi; i++) reduce2(a, v[i], n, d, op);
      unpackb(a, rb, n, d, name);
    });
}
static int wait1(int id) { MPI_Request q = id; return MPI_Wait(&q, MPI_STATUS_IGNORE); }

static int bcast_post(void *b, int n, MPI_Datatype d, int root, MPI_Comm c)
{
  Comm &k = C(c, "MPI_Bcast");
  int me = k.me;
  if (root < 0 || root >= (int) k.world.size()) die("MPI_Bcast: invalid root");
  Blob x;
  if (me == root) x = packb(b, n, d, "MPI_Bcast");
  else T(d, "MPI_Bcast");
  return coll_post(c, "MPI_Bcast", "root" + num(root) + " bytes" + num(T(d, "MPI_Bcast").size * n), one(x),
    [=](vector<Blob> &v, int64_t) { if (me != root) unpackb(v[root], b, n, d, "MPI_Bcast"); });
}
static int gather_post(const char *name, const void *sb, int sn, MPI_Datatype sd, void *rb, const vector<long> &cnt,
                       const vector<long> &dis, MPI_Datatype rd, int root, MPI_Comm c, const string &sig)
{
  Comm &k = C(c, name);
  int me = k.me;
  if (root >= (int) k.world.size()) die(string(name) + ": invalid root");
  bool take = root < 0 || root == me;
  Blob b;
  if (sb == MPI_IN_PLACE) {
    long ext = T(rd, name).extent;
    b = packb((char *) rb + dis[me] * ext, cnt[me], rd, name);
  } else b = packb(sb, sn, sd, name);
  return coll_post(c, name, "root" + num(root) + sig, one(b),
    [=](vector<Blob> &v, int64_t) {
      if (!take) return;
      long ext = T(rd, name).extent;
      for (size_t i = 0; i < v.size(); i++)
        unpackb(v[i], (char *) rb + dis[i] * ext, cnt[i], rd, name);
    });
}
static void uniform(int n, long cnt, vector<long> &c, vector<long> &d)
{ for (int i = 0; i < n; i++) { c.push_back(cnt); d.push_back(cnt * i); } }
static vector<long> lv(const int *p, int n) { return p ? vector<long>(p, p + n) : vector<long>(n, 0); }

static int scatter(const char *name, const void *sb, const vector<long> &cnt, const vector<long> &dis, MPI_Datatype sd,
                   void *rb, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{
  Comm &k = C(c, name);
  int me = k.me, n = (int) k.world.size();
  if (root < 0 || root >= n) die(string(name) + ": invalid root");
  vector<Blob> bl(n);
  if (me == root)
    for (int i = 0; i < n; i++) bl[i] = packb((const char *) sb + dis[i] * T(sd, name).extent, cnt[i], sd, name);
  return coll(c, name, "root" + num(root), bl,
    [=](vector<Blob> &v, int64_t) { if (rb != MPI_IN_PLACE) unpackb(v[root], rb, rn, rd, name); });
}
// displacements in bytes
static int a2a_post(const char *name, const void *sb, const vector<long> &sc, const vector<long> &sdis, const vector<MPI_Datatype> &st,
                    void *rb, const vector<long> &rc, const vector<long> &rdis, const vector<MPI_Datatype> &rt, MPI_Comm c)
{
  clk_t += work_data;
  Comm &k = C(c, name);
  int n = (int) k.world.size(), me = k.me;
  vector<Blob> bl(n);
  for (int i = 0; i < n; i++) {
    if (sb == MPI_IN_PLACE) bl[i] = packb((const char *) rb + rdis[i], rc[i], rt[i], name);
    else if (sc[i] > 0) bl[i] = packb((const char *) sb + sdis[i], sc[i], st[i], name);
    else if (sc[i] < 0) die(string(name) + ": negative count");
  }
  if (sb != MPI_IN_PLACE)
    for (int i = 0; i < n; i++) if (rc[i] > 0) poison((char *) rb + rdis[i], rc[i], rt[i], name);
  (void) me;
  return coll_post(c, name, "", bl,
    [=](vector<Blob> &v, int64_t) {
      for (int i = 0; i < n; i++) {
        if ((long) v[i].size() != rc[i] * T(rt[i], name).size)
          die(string(name) + ": send count of rank " + num(i) + " differs from the receive count");
        if (rc[i] > 0) unpackb(v[i], (char *) rb + rdis[i], rc[i], rt[i], name);
      }
    });
}

extern "C" {

int MPI_Barrier(MPI_Comm c) { return coll(c, "MPI_Barrier", "", one(Blob()), [](vector<Blob> &, int64_t) {}); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { *r = coll_post(c, "MPI_Ibarrier", "", one(Blob()), [](vector<Blob> &, int64_t) {}); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c) { return wait1(bcast_post(b, n, d, root, c)); }
int MPI_Ibcast(void *b, int n, MPI_Datatype d, int root, MPI_Comm c, MPI_Request *r) { *r = bcast_post(b, n, d, root, c); return 0; }
static int gather_u(const char *nm, const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{
  vector<long> cnt, dis; Comm &k = C(c, nm);
  bool take = root < 0 || root == k.me;
  uniform((int) k.world.size(), take ? rn : 0, cnt, dis);
  string sig = s == MPI_IN_PLACE ? " bytes" + num(T(rd, nm).size * rn) : " bytes" + num(T(sd, nm).size * sn);
  return gather_post(nm, s, sn, sd, r, cnt, dis, rd, root, c, sig);
}
int MPI_Gather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{ return wait1(gather_u("MPI_Gather", s, sn, sd, r, rn, rd, root, c)); }
int MPI_Igather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c, MPI_Request *q)
{ *q = gather_u("MPI_Igather", s, sn, sd, r, rn, rd, root, c); return 0; }
int MPI_Allgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c)
{ return wait1(gather_u("MPI_Allgather", s, sn, sd, r, rn, rd, -1, c)); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c, MPI_Request *q)
{ *q = gather_u("MPI_Iallgather", s, sn, sd, r, rn, rd, -1, c); return 0; }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *dis, MPI_Datatype rd, int root, MPI_Comm c)
{
  Comm &k = C(c, "MPI_Gatherv"); int n = (int) k.world.size(); bool t = root == k.me;
  return wait1(gather_post("MPI_Gatherv", s, sn, sd, r, lv(t ? rc : NULL, n), lv(t ? dis : NULL, n), rd, root, c, ""));
}
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *dis, MPI_Datatype rd, MPI_Comm c)
{
  int n = (int) C(c, "MPI_Allgatherv").world.size();
  return wait1(gather_post("MPI_Allgatherv", s, sn, sd, r, lv(rc, n), lv(dis, n), rd, -1, c, ""));
}
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype sd, void *r, const int *rc, const int *dis, MPI_Datatype rd, MPI_Comm c, MPI_Request *q)
{
  int n = (int) C(c, "MPI_Iallgatherv").world.size();
  *q = gather_post("MPI_Iallgatherv", s, sn, sd, r, lv(rc, n), lv(dis, n), rd, -1, c, ""); return 0;
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{ vector<long> cnt, dis; uniform((int) C(c, "MPI_Scatter").world.size(), sn, cnt, dis); return scatter("MPI_Scatter", s, cnt, dis, sd, r, rn, rd, root, c); }
int MPI_Scatterv(const void *s, const int *sc, const int *dis, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, int root, MPI_Comm c)
{
  Comm &k = C(c, "MPI_Scatterv"); int n = (int) k.world.size(); bool t = root == k.me;
  return scatter("MPI_Scatterv", s, lv(t ? sc : NULL, n), lv(t ? dis : NULL, n), sd, r, rn, rd, root, c);
}
static int a2a_u(const char *nm, const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c)
{
  int n = (int) C(c, nm).world.size();
  vector<long> sc(n, sn), rc(n, rn), sdis, rdis;
  for (int i = 0; i < n; i++) {
    sdis.push_back(s == MPI_IN_PLACE ? 0 : (long) i * sn * T(sd, nm).extent);
    rdis.push_back((long) i * rn * T(rd, nm).extent);
  }
  return a2a_post(nm, s, sc, sdis, vector<MPI_Datatype>(n, sd), r, rc, rdis, vector<MPI_Datatype>(n, rd), c);
}
static int a2a_v(const char *nm, const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
{
  int n = (int) C(c, nm).world.size();
  vector<long> sdis, rdis;
  for (int i = 0; i < n; i++) {
    sdis.push_back(s == MPI_IN_PLACE ? 0 : (long) sd[i] * T(st, nm).extent);
    rdis.push_back((long) rd[i] * T(rt, nm).extent);
  }
  return a2a_post(nm, s, s == MPI_IN_PLACE ? vector<long>(n, 0) : lv(sc, n), sdis, vector<MPI_Datatype>(n, st), r, lv(rc, n), rdis, vector<MPI_Datatype>(n, rt), c);
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c) { return wait1(a2a_u("MPI_Alltoall", s, sn, sd, r, rn, rd, c)); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype sd, void *r, int rn, MPI_Datatype rd, MPI_Comm c, MPI_Request *q) { *q = a2a_u("MPI_Ialltoall", s, sn, sd, r, rn, rd, c); return 0; }
int MPI_Alltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c)
{ return wait1(a2a_v("MPI_Alltoallv", s, sc, sd, st, r, rc, rd, rt, c)); }
int MPI_Ialltoallv(const void *s, const int *sc, const int *sd, MPI_Datatype st, void *r, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
{ *q = a2a_v("MPI_Ialltoallv", s, sc, sd, st, r, rc, rd, rt, c); return 0; }
int MPI_Alltoallw(const void *s, const int *sc, const int *sd, const MPI_Datatype *st, void *r, const int *rc, const int *rd, const MPI_Datatype *rt, MPI_Comm c)
{
  int n = (int) C(c, "MPI_Alltoallw").world.size();
  bool ip = s == MPI_IN_PLACE;
  return wait1(a2a_post("MPI_Alltoallw", s, lv(ip ? NULL : sc, n), lv(ip ? NULL : sd, n), ip ? vector<MPI_Datatype>(n, MPI_BYTE) : vector<MPI_Datatype>(st, st + n),
                        r, lv(rc, n), lv(rd, n), vector<MPI_Datatype>(rt, rt + n), c));
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c) { return wait1(reduce_post("MPI_Reduce", s, r, n, d, op, root, c, 0)); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, int root, MPI_Comm c, MPI_Request *q) { *q = reduce_post("MPI_Ireduce", s, r, n, d, op, root, c, 0); return 0; }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return wait1(reduce_post("MPI_Allreduce", s, r, n, d, op, -1, c, 0)); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c, MPI_Request *q) { *q = reduce_post("MPI_Iallreduce", s, r, n, d, op, -1, c, 0); return 0; }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return wait1(reduce_post("MPI_Scan", s, r, n, d, op, -1, c, 1)); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c) { return wait1(reduce_post("MPI_Exscan", s, r, n, d, op, -1, c, 2)); }
int MPI_Reduce_scatter(const void *s, void *r, const int *rc, MPI_Datatype d, MPI_Op op, MPI_Comm c)
{
  Comm &k = C(c, "MPI_Reduce_scatter"); int P = (int) k.world.size(); long n = 0, off = 0;
  for (int i = 0; i < P; i++) { if (i < k.me) off += rc[i]; n += rc[i]; }
  long ext = T(d, "MPI_Reduce_scatter").extent;
  Blob tmp(n * ext + 1);
  int rs = MPI_Allreduce(s == MPI_IN_PLACE ? r : s, tmp.data(), (int) n, d, op, c);
  memcpy(r, tmp.data() + off * ext, rc[k.me] * ext);
  return rs;
}
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op, MPI_Comm c)
{ vector<int> rc(C(c, "MPI_Reduce_scatter_block").world.size(), n); return MPI_Reduce_scatter(s, r, rc.data(), d, op, c); }
int MPI_Reduce_local(const void *s, void *r, int n, MPI_Datatype d, MPI_Op op)
{ Blob a = packb(s, n, d, "MPI_Reduce_local"), b = packb(r, n, d, "MPI_Reduce_local"); reduce2(a, b, n, d, op); unpackb(a, r, n, d, "MPI_Reduce_local"); return 0; }
int MPI_Op_create(MPI_User_function *f, int cm, MPI_Op *op) { userops[next_op] = std::make_pair(f, cm); *op = next_op++; return 0; }
int MPI_Op_free(MPI_Op *op) { userops.erase(*op); *op = MPI_OP_NULL; return 0; }

// ------------------------------------------------------- communicator creation

static MPI_Comm mkcomm(int64_t base, const vector<int> &world)
{
  Comm n; n.seq = 0; n.lib = true; n.me = -1;
  for (size_t i = 0; i < world.size(); i++) if (world[i] == g_rank) n.me = (int) i;
  n.world = world;
  n.ctx = base * 4096 + (world.empty() ? 0 : world[0]) + 2;
  int id = next_comm++;
  comms[id] = n;
  return id;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *out)
{
  clk_t += work_comm;
  vector<int> w = C(c, "MPI_Comm_dup").world;
  return coll(c, "MPI_Comm_dup", "", one(Blob()), [=](vector<Blob> &, int64_t base) { *out = mkcomm(base, w); });
}
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info, MPI_Comm *out) { return MPI_Comm_dup(c, out); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *out)
{
  clk_t += work_comm;
  vector<int> w = G(g), parent = C(c, "MPI_Comm_create").world;
  for (size_t i = 0; i < w.size(); i++)
    if (std::find(parent.begin(), parent.end(), w[i]) == parent.end()) die("MPI_Comm_create: group is not a subset");
  Writer wr; wr.i((int64_t) w.size()); for (size_t i = 0; i < w.size(); i++) wr.i(w[i]);
  return coll(c, "MPI_Comm_create", "", one(wr.b), [=](vector<Blob> &v, int64_t base) {
    // groups of members must be identical, groups overall disjoint
    bool mine = std::find(w.begin(), w.end(), g_rank) != w.end();
    for (size_t i = 0; i < v.size(); i++) {
      Reader rd(v[i]); vector<int> o; int64_t n = rd.i();
      for (int64_t j = 0; j < n; j++) o.push_back((int) rd.i());
      bool in = std::find(w.begin(), w.end(), parent[i]) != w.end();
      if (in && o != w) die("MPI_Comm_create: members of one group passed different groups");
      if (!in) for (size_t j = 0; j < w.size(); j++)
        if (std::find(o.begin(), o.end(), w[j]) != o.end()) die("MPI_Comm_create: overlapping groups");
    }
    *out = mine ? mkcomm(base, w) : MPI_COMM_NULL;
  });
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *out)
{
  clk_t += work_comm;
  vector<int> parent = C(c, "MPI_Comm_split").world;
  Writer wr; wr.i(color); wr.i(key);
  return coll(c, "MPI_Comm_split", "", one(wr.b), [=](vector<Blob> &v, int64_t base) {
    if (color == MPI_UNDEFINED) { *out = MPI_COMM_NULL; return; }
    vector<std::pair<int64_t, int> > m;
    for (size_t i = 0; i < v.size(); i++) {
      Reader rd(v[i]); int64_t co = rd.i(), ke = rd.i();
      if (co == color) m.push_back(std::make_pair(ke, (int) i));
    }
    std::sort(m.begin(), m.end());
    vector<int> w;
    for (size_t i = 0; i < m.size(); i++) w.push_back(parent[m[i].second]);
    *out = mkcomm(base, w);
  });
}
int MPI_Comm_split_type(MPI_Comm c, int, int key, MPI_Info, MPI_Comm *out) { return MPI_Comm_split(c, 0, key, out); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm *out)
{
  clk_t += work_comm;
  // collective over the group only: a rendezvous on a context derived from it
  vector<int> w = G(g);
  Comm &k = C(c, "MPI_Comm_create_group");
  if (std::find(w.begin(), w.end(), g_rank) == w.end()) { *out = MPI_COMM_NULL; return 0; }
  string key = "g" + num(k.ctx) + "_" + num(tag);
  for (size_t i = 0; i < w.size(); i++) key += "_" + num(w[i]);
  int64_t h = (int64_t) (std::hash<string>()(key) >> 2) | (1LL << 61);
  static std::map<int64_t, int64_t> seqs;
  int me = (int) (std::find(w.begin(), w.end(), g_rank) - w.begin());
  int id = new_req(3);
  reqs[id].fin = [=](vector<Blob> &, int64_t base) { *out = mkcomm(base, w); };
  Writer wr;
  wr.i(id); wr.i(h); wr.i(me); wr.i((int64_t) w.size()); wr.i(seqs[h]++);
  wr.s("MPI_Comm_create_group"); wr.s(""); wr.i(1); wr.blob(Blob());
  sim_send_msg(OP_COLL, wr);
  return wait1(id);
}
int MPI_Comm_free(MPI_Comm *c)
{
  C(*c, "MPI_Comm_free");
  if (*c == MPI_COMM_WORLD || *c == MPI_COMM_SELF) die("MPI_Comm_free: predefined communicator");
  comms.erase(*c);
  *c = MPI_COMM_NULL;
  return 0;
}

} // extern C
