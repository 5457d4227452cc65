// Coordinator of the simulated MPI: owns the rank processes, matches their
// messages and decides, from a seed or a script, every scheduling choice.
#include "sim.h"
#include "coord.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <time.h>
#include <map>
#include <deque>
#include <algorithm>
#include <sstream>

using std::vector;
using std::string;

typedef vector<string> Log;

struct CReq { int kind; bool done, delivered; int src, tag; Blob data; int64_t base; vector<Blob> coll; };

struct Worker {
  pid_t pid; int fd, memfd;
  int state;                 // 0 running 1 blocked 2 idle 3 dead
  Blob in;
  std::map<int64_t, CReq> req;
  int waitop;                // OP_WAIT or OP_PROBE
  int wmode; vector<int64_t> wid; vector<char> wnull;
  int64_t pctx, pme, psrc, ptag, pblock;
  int op;                    // index of the operation under way
  bool finalized; int abortcode; int wstat; bool hang, blocked;
  vector<string> ev;
  int64_t nseq = 0;
  Log notes, comm;
  Worker() : pid(-1), fd(-1), memfd(-1), state(3), waitop(0) {}
};

struct Send { int w; int64_t seq, id, ctx, me, peer, peerw, tag; Blob data; };
struct Recv { int w; int64_t seq, id, ctx, me, src, tag, max; };
struct CollEnt { int w; int64_t id; vector<Blob> blobs; };
struct Coll { string kind, sig; int64_t n; std::map<int64_t, CollEnt> e; };

static vector<Worker> W;
static std::deque<Send> sends;
static std::deque<Recv> recvs;
static std::map<std::pair<int64_t, int64_t>, Coll> colls;
static std::map<int64_t, int> ctxno;
static int64_t nextbase = 1;
static uint64_t rngs;
static Log gnotes;
static bool mismatch;
static double hang_s = 40;

static uint64_t rnd()
{
  rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17;
  return rngs * 2685821657736338717ULL >> 11;
}
static uint64_t seed0;
// a choice that does not depend on the arrival order of messages
static uint64_t mixh(uint64_t a, uint64_t b)
{
  uint64_t x = seed0 * 0x9E3779B97F4A7C15ULL + a * 0xBF58476D1CE4E5B9ULL + b * 0x94D049BB133111EBULL;
  x ^= x >> 31; x *= 0xD6E8FEB86659FD93ULL; x ^= x >> 32;
  return x;
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static int cno(int64_t c)
{
  std::map<int64_t, int>::iterator it = ctxno.find(c);
  if (it != ctxno.end()) return it->second;
  int k = (int) ctxno.size() + 1; ctxno[c] = k; return k;
}

// ---------------------------------------------------------------- processes

static void spawn(int r)
{
  int sv[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
  int big = 1 << 20;
  for (int i = 0; i < 2; i++) {
    setsockopt(sv[i], SOL_SOCKET, SO_SNDBUF, &big, sizeof(big));
    setsockopt(sv[i], SOL_SOCKET, SO_RCVBUF, &big, sizeof(big));
  }
  int mf = memfd_create("out", 0);
  fcntl(mf, F_SETFL, O_APPEND);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(3); }
  if (p == 0) {
    for (size_t i = 0; i < W.size(); i++) if (W[i].fd >= 0) close(W[i].fd);
    close(sv[0]);
    dup2(mf, 1); dup2(mf, 2);
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
    setvbuf(stdout, NULL, _IOLBF, 4096);
    rank_main(sv[1], r);
    _exit(0);
  }
  close(sv[1]);
  fcntl(sv[0], F_SETFD, FD_CLOEXEC);
  Worker w; w.pid = p; w.fd = sv[0]; w.memfd = mf; w.state = 0;
  W[r] = w;
}
static void reap(Worker &w, bool dokill)
{
  if (w.pid <= 0) return;
  if (dokill) kill(w.pid, SIGKILL);
  int st = 0;
  double t0 = now();
  while (waitpid(w.pid, &st, WNOHANG) == 0) {
    if (now() - t0 > 5) { kill(w.pid, SIGKILL); }
    usleep(200);
  }
  if (!dokill) w.wstat = st;
  w.pid = -1;
  if (w.fd >= 0) close(w.fd);
  w.fd = -1;
}
static void drop_all()
{
  for (size_t i = 0; i < W.size(); i++) {
    if (W[i].pid > 0) reap(W[i], true);
    if (W[i].memfd >= 0) close(W[i].memfd);
    W[i].memfd = -1; W[i].state = 3;
  }
  W.clear();
}

// ---------------------------------------------------------------- messages

static string num(int64_t v) { char b[32]; sprintf(b, "%lld", (long long) v); return b; }

static int send_mode;        // 0 eager 1 rendezvous 2 mixed
static int sched;            // 0 uniform 1 resume first 2 communicate first 3 starve one rank 4 exhaustive (maximal progress)
static int starve, early, logcomm;

static void handle(int r, int op, const Blob &b)
{
  Worker &w = W[r];
  Reader rd(b);
  switch (op) {
  case OP_SEND: {
    Send s; s.w = r; s.seq = w.nseq++; s.id = rd.i(); s.ctx = rd.i(); s.me = rd.i(); s.peer = rd.i(); s.peerw = rd.i(); s.tag = rd.i();
    int64_t mode = rd.i(); s.data = rd.blob();
    CReq q; q.kind = 1; q.done = q.delivered = false; q.src = q.tag = 0; q.base = 0;
    // mode 0 standard, 1 synchronous, 2 buffered
    if (mode == 2 || (mode == 0 && send_mode == 0)) q.done = true;
    if (mode == 0 && send_mode == 2 && (mixh(r, s.id) & 1)) q.done = true;
    w.req[s.id] = q;
    if (logcomm) w.comm.push_back("[\"S\"," + num(s.id) + "," + num(cno(s.ctx)) + "," + num(s.me) + "," + num(s.peer) + "," + num(s.tag) + "," + num(mode) + "," + num((int64_t) s.data.size()) + "]");
    sends.push_back(s);
    break;
  }
  case OP_RECV: {
    Recv q; q.w = r; q.seq = w.nseq++; q.id = rd.i(); q.ctx = rd.i(); q.me = rd.i(); q.src = rd.i(); q.tag = rd.i(); q.max = rd.i();
    CReq c; c.kind = 2; c.done = c.delivered = false; c.src = c.tag = 0; c.base = 0;
    w.req[q.id] = c;
    if (logcomm) w.comm.push_back("[\"R\"," + num(q.id) + "," + num(cno(q.ctx)) + "," + num(q.me) + "," + num(q.src) + "," + num(q.tag) + "," + num(q.max) + "]");
    recvs.push_back(q);
    break;
  }
  case OP_COLL: {
    int64_t id = rd.i(), ctx = rd.i(), me = rd.i(), n = rd.i(), seq = rd.i();
    string kind = rd.s(), sig = rd.s();
    int64_t nb = rd.i();
    CollEnt e; e.w = r; e.id = id;
    for (int64_t i = 0; i < nb; i++) e.blobs.push_back(rd.blob());
    CReq c; c.kind = 3; c.done = c.delivered = false; c.src = c.tag = 0; c.base = 0;
    w.req[id] = c;
    if (logcomm) w.comm.push_back("[\"C\"," + num(id) + "," + num(cno(ctx)) + "," + num(me) + "," + num(seq) + "," + num(n) + "]");
    std::pair<int64_t, int64_t> key(ctx, seq);
    std::map<std::pair<int64_t, int64_t>, Coll>::iterator it = colls.find(key);
    if (it == colls.end()) {
      Coll k; k.kind = kind; k.sig = sig; k.n = n; k.e[me] = e; colls[key] = k;
    } else {
      if (it->second.kind != kind || it->second.sig != sig || it->second.n != n) {
        gnotes.push_back("collective mismatch: " + it->second.kind + "(" + it->second.sig + ") and " + kind + "(" + sig + ")");
        mismatch = true;
      }
      it->second.e[me] = e;
    }
    break;
  }
  case OP_WAIT: {
    w.waitop = OP_WAIT; w.wmode = (int) rd.i();
    int64_t n = rd.i();
    w.wid.clear(); w.wnull.clear();
    string s;
    for (int64_t i = 0; i < n; i++) {
      w.wid.push_back(rd.i()); w.wnull.push_back((char) rd.i());
      if (!w.wnull.back()) s += (s.empty() ? "" : ",") + num(w.wid.back());
    }
    if (logcomm) w.comm.push_back("[\"W\"," + num(w.wmode) + ",[" + s + "]]");
    w.state = 1;
    break;
  }
  case OP_PROBE:
    w.waitop = OP_PROBE; w.pctx = rd.i(); w.pme = rd.i(); w.psrc = rd.i(); w.ptag = rd.i(); w.pblock = rd.i();
    if (logcomm) w.comm.push_back("[\"P\"]");
    w.state = 1;
    break;
  case OP_NOTE: { string k = rd.s(), t = rd.s(); w.notes.push_back(k + ": " + t); break; }
  case OP_OPSTART: w.op = (int) rd.i(); if (logcomm) w.comm.push_back("[\"O\"," + num(w.op) + "]"); break;
  case OP_TRACE: { int64_t k = rd.i(); if ((int64_t) w.ev.size() <= k) w.ev.resize(k + 1); w.ev[k] = rd.s(); break; }
  case OP_END: w.state = 2; break;
  case OP_FINALIZE: w.finalized = true; break;
  case OP_ABORT: w.abortcode = (int) rd.i(); break;
  case OP_CANCEL: {
    int64_t id = rd.i();
    for (size_t i = 0; i < recvs.size(); i++) if (recvs[i].w == r && recvs[i].id == id) { recvs.erase(recvs.begin() + i); break; }
    w.req[id].done = true; w.req[id].delivered = true;
    break;
  }
  default: break;
  }
}
static void pump(Worker &w, int r)
{
  size_t off = 0;
  while (w.in.size() - off >= 8) {
    uint32_t h[2]; memcpy(h, w.in.data() + off, 8);
    if (w.in.size() - off < 8 + (size_t) h[0]) break;
    Blob b(w.in.begin() + off + 8, w.in.begin() + off + 8 + h[0]);
    off += 8 + h[0];
    handle(r, (int) h[1], b);
  }
  if (off) w.in.erase(w.in.begin(), w.in.begin() + off);
}
// run until no rank computes; false if one of them hangs
static bool settle(int P)
{
  double last = now();
  for (;;) {
    vector<struct pollfd> pf; vector<int> who;
    for (int r = 0; r < P; r++)
      if (W[r].state == 0) { struct pollfd p; p.fd = W[r].fd; p.events = POLLIN; p.revents = 0; pf.push_back(p); who.push_back(r); }
    if (pf.empty()) return true;
    int k = poll(pf.data(), pf.size(), 1000);
    if (k < 0 && errno != EINTR) return false;
    if (k <= 0) { if (now() - last > hang_s) return false; continue; }
    last = now();
    for (size_t i = 0; i < pf.size(); i++) {
      if (!pf[i].revents) continue;
      Worker &w = W[who[i]];
      char buf[65536];
      ssize_t n = read(w.fd, buf, sizeof(buf));
      if (n < 0 && errno == EINTR) continue;
      if (n <= 0) {
        w.state = 3; reap(w, false);
        continue;
      }
      w.in.insert(w.in.end(), buf, buf + n);
      pump(w, who[i]);
    }
  }
}
static void reply(Worker &w, const Writer &wr)
{
  uint32_t n = (uint32_t) wr.b.size();
  Blob m(4 + n); memcpy(m.data(), &n, 4); if (n) memcpy(m.data() + 4, wr.b.data(), n);
  signal(SIGPIPE, SIG_IGN);
  // the rank blocks in read while we write, so this cannot dead-lock
  sim_io_write(w.fd, m.data(), m.size());
  w.state = 0;
}

// ---------------------------------------------------------------- scheduling

struct Act { int kind; size_t a, b; std::pair<int64_t, int64_t> key; };   // 1 match 2 coll 3 send completes 4 resume

static bool tagok(int64_t want, int64_t have) { return want == -1 || want == have; }
static const int ANY_SOURCE = -1;

static void find_matches(vector<Act> &out)
{
  // non overtaking: of the sends of one source on one context to one rank that match,
  // only the earliest; of the receives matching a send, only the earliest
  for (size_t i = 0; i < recvs.size(); i++) {
    Recv &q = recvs[i];
    vector<int64_t> seen;
    for (size_t j = 0; j < sends.size(); j++) {
      Send &s = sends[j];
      if (s.ctx != q.ctx || s.peer != q.me || s.peerw != q.w) continue;
      if (q.src != ANY_SOURCE && q.src != s.me) continue;
      if (!tagok(q.tag, s.tag)) continue;
      if (std::find(seen.begin(), seen.end(), s.me) != seen.end()) continue;
      seen.push_back(s.me);
      bool first = true;
      for (size_t k = 0; k < i; k++) {
        Recv &p = recvs[k];
        if (p.ctx == s.ctx && p.w == s.peerw && p.me == s.peer && (p.src == ANY_SOURCE || p.src == s.me) && tagok(p.tag, s.tag)) first = false;
      }
      if (first) { Act a; a.kind = 1; a.a = i; a.b = j; out.push_back(a); }
    }
  }
}
static bool probe_hit(Worker &w, int r, Send **hit)
{
  for (size_t j = 0; j < sends.size(); j++) {
    Send &s = sends[j];
    if (s.ctx == w.pctx && s.peerw == r && s.peer == w.pme && (w.psrc == ANY_SOURCE || w.psrc == s.me) && tagok(w.ptag, s.tag)) { *hit = &s; return true; }
  }
  return false;
}
static bool isdone(Worker &w, size_t i) { return w.wnull[i] || w.req[w.wid[i]].done; }
// 0 no, 1 yes, 2 only a failing poll
static int resumable(int r)
{
  Worker &w = W[r];
  if (w.state != 1) return 0;
  if (w.waitop == OP_PROBE) { Send *s; if (probe_hit(w, r, &s)) return 1; return w.pblock ? 0 : 2; }
  size_t k = 0;
  for (size_t i = 0; i < w.wid.size(); i++) if (isdone(w, i)) k++;
  if (w.wmode == 0) return k == w.wid.size();
  if (w.wmode == 1 || w.wmode == 2) return k > 0;
  if (w.wmode == 3) return k == w.wid.size() ? 1 : 2;
  return k > 0 ? 1 : 2;
}

static vector<int> script; static size_t scriptpos; static vector<std::pair<int, int> > decisions; static bool dfs;
static size_t decide(size_t n)
{
  if (n <= 1) return 0;
  size_t c;
  if (dfs) c = scriptpos < script.size() ? (size_t) script[scriptpos] % n : 0;
  else if (scriptpos < script.size()) c = (size_t) script[scriptpos] % n;
  else c = rnd() % n;
  scriptpos++;
  decisions.push_back(std::make_pair((int) n, (int) c));
  return c;
}

static void deliver(Writer &wr, Worker &w, const vector<int64_t> &ids)
{
  vector<int64_t> todo;
  if (early) {
    for (std::map<int64_t, CReq>::iterator it = w.req.begin(); it != w.req.end(); ++it)
      if (it->second.done && !it->second.delivered) todo.push_back(it->first);
  } else {
    for (size_t i = 0; i < ids.size(); i++) {
      CReq &q = w.req[ids[i]];
      if (q.done && !q.delivered) todo.push_back(ids[i]);
    }
  }
  wr.i((int64_t) todo.size());
  for (size_t i = 0; i < todo.size(); i++) {
    CReq &q = w.req[todo[i]];
    wr.i(todo[i]); wr.i(q.kind);
    if (q.kind == 2) { wr.i(q.src); wr.i(q.tag); wr.blob(q.data); }
    if (q.kind == 3) { wr.i(q.base); wr.i((int64_t) q.coll.size()); for (size_t j = 0; j < q.coll.size(); j++) wr.blob(q.coll[j]); }
    q.delivered = true; q.data.clear(); q.coll.clear();
  }
}
static void forget(Worker &w, int64_t id) { std::map<int64_t, CReq>::iterator it = w.req.find(id); if (it != w.req.end() && it->second.delivered) { it->second.done = false; w.req.erase(it); } }

static void resume(int r)
{
  Worker &w = W[r];
  Writer wr;
  if (w.waitop == OP_PROBE) {
    Send *s;
    if (probe_hit(w, r, &s)) { wr.i(1); wr.i(s->me); wr.i(s->tag); wr.i((int64_t) s->data.size()); }
    else { wr.i(0); wr.i(0); wr.i(0); wr.i(0); }
    deliver(wr, w, vector<int64_t>());
    reply(w, wr);
    return;
  }
  vector<size_t> done;
  for (size_t i = 0; i < w.wid.size(); i++) if (isdone(w, i)) done.push_back(i);
  vector<size_t> idx; int64_t flag = 1;
  int m = w.wmode;
  if (m == 0) idx = done;
  else if (m == 1) idx.push_back(done[decide(done.size())]);
  else if (m == 2) { idx = done; }
  else if (m == 3) { flag = done.size() == w.wid.size(); if (flag) idx = done; }
  else if (m == 4) { flag = !done.empty(); if (flag) idx.push_back(done[decide(done.size())]); }
  else { idx = done; }
  wr.i(flag); wr.i((int64_t) idx.size());
  vector<int64_t> ids;
  for (size_t i = 0; i < idx.size(); i++) { wr.i((int64_t) idx[i]); if (!w.wnull[idx[i]]) ids.push_back(w.wid[idx[i]]); }
  deliver(wr, w, ids);
  for (size_t i = 0; i < ids.size(); i++) forget(w, ids[i]);
  if (logcomm) {
    string s; for (size_t i = 0; i < ids.size(); i++) s += (i ? "," : "") + num(ids[i]);
    w.comm.push_back("[\"D\",[" + s + "]]");
  }
  reply(w, wr);
}

static void do_match(size_t i, size_t j)
{
  Recv q = recvs[i]; Send s = sends[j];
  CReq &rq = W[q.w].req[q.id];
  rq.done = true; rq.src = (int) s.me; rq.tag = (int) s.tag; rq.data.swap(s.data);
  std::map<int64_t, CReq>::iterator it = W[s.w].req.find(s.id);
  if (it != W[s.w].req.end()) it->second.done = true;
  recvs.erase(recvs.begin() + i);
  sends.erase(sends.begin() + j);
}
static void do_coll(const std::pair<int64_t, int64_t> &key)
{
  Coll c = colls[key];
  colls.erase(key);
  int64_t base = nextbase++;
  for (std::map<int64_t, CollEnt>::iterator it = c.e.begin(); it != c.e.end(); ++it) {
    CReq &q = W[it->second.w].req[it->second.id];
    q.done = true; q.base = base;
    for (std::map<int64_t, CollEnt>::iterator jt = c.e.begin(); jt != c.e.end(); ++jt) {
      vector<Blob> &b = jt->second.blobs;
      q.coll.push_back(b.size() == 1 ? b[0] : (size_t) it->first < b.size() ? b[it->first] : Blob());
    }
  }
}

static string jstr(const string &s, size_t lim = 4000)
{
  string o = "\"";
  for (size_t i = 0; i < s.size() && i < lim; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += ' ';
    else o += c;
  }
  return o + "\"";
}

static long getkv(const Scenario &s, const string &k, long d)
{
  std::map<string, string>::const_iterator it = s.kv.find(k);
  return it == s.kv.end() ? d : atol(it->second.c_str());
}

static int nrespawn = 0;
static string run_once(const Scenario &s, int index, bool *clean)
{
  int P = s.P;
  if ((int) W.size() < P) { size_t k = W.size(); W.resize(P); for (; k < (size_t) P; k++) { spawn((int) k); nrespawn++; } }
  for (int r = 0; r < P; r++) {
    Worker &w = W[r];
    if (w.pid <= 0) { spawn(r); nrespawn++; }
    Worker &v = W[r];
    v.req.clear(); v.ev.clear(); v.notes.clear(); v.comm.clear(); v.op = -1; v.finalized = false; v.abortcode = -1; v.wstat = 0; v.hang = v.blocked = false;
    if (ftruncate(v.memfd, 0)) {}
  }
  sends.clear(); recvs.clear(); colls.clear(); ctxno.clear(); gnotes.clear(); mismatch = false; decisions.clear(); scriptpos = 0;
  rngs = 88172645463325252ULL ^ ((uint64_t) getkv(s, "seed", 1) * 0x9E3779B97F4A7C15ULL);
  if (!rngs) rngs = 1;
  seed0 = (uint64_t) getkv(s, "seed", 1);
  for (int i = 0; i < 8; i++) rnd();
  send_mode = (int) getkv(s, "send", 0); sched = (int) getkv(s, "sched", 0); starve = (int) getkv(s, "starve", 0);
  early = (int) getkv(s, "early", 0); logcomm = (int) getkv(s, "comm", 0);
  // ranks start, and end a scenario, by reporting readiness (END)
  bool ok = settle(P);
  for (int r = 0; r < P; r++) { Writer wr; wr.i(index); wr.i(P); if (W[r].state == 2) reply(W[r], wr); }
  string verdict = "ok";
  long polls = 0, steps = 0;
  while (ok) {
    if (!settle(P)) { ok = false; verdict = "hang"; for (int r = 0; r < P; r++) if (W[r].state == 0) W[r].hang = true; break; }
    if (mismatch) { verdict = "mismatch"; break; }
    bool aborted = false;
    for (int r = 0; r < P; r++) if (W[r].abortcode >= 0) aborted = true;
    if (aborted) { verdict = "abort"; break; }
    bool anyblocked = false;
    for (int r = 0; r < P; r++) if (W[r].state == 1) anyblocked = true;
    if (!anyblocked) { verdict = "end"; break; }
    vector<Act> comm, res, futile;
    std::sort(sends.begin(), sends.end(), [](const Send &x, const Send &y) { return x.w != y.w ? x.w < y.w : x.seq < y.seq; });
    std::sort(recvs.begin(), recvs.end(), [](const Recv &x, const Recv &y) { return x.w != y.w ? x.w < y.w : x.seq < y.seq; });
    find_matches(comm);
    for (std::map<std::pair<int64_t, int64_t>, Coll>::iterator it = colls.begin(); it != colls.end(); ++it)
      if ((int64_t) it->second.e.size() == it->second.n) { Act a; a.kind = 2; a.key = it->first; comm.push_back(a); }
    if (send_mode == 2 && sched != 4)
      for (size_t j = 0; j < sends.size(); j++) {
        std::map<int64_t, CReq>::iterator it = W[sends[j].w].req.find(sends[j].id);
        if (it != W[sends[j].w].req.end() && !it->second.done && (rnd() % 4) == 0) { Act a; a.kind = 3; a.a = j; comm.push_back(a); }
      }
    for (int r = 0; r < P; r++) {
      int k = resumable(r);
      Act a; a.kind = 4; a.a = r;
      if (k == 1) res.push_back(a); else if (k == 2) futile.push_back(a);
    }
    Act a;
    if (comm.empty() && res.empty()) {
      if (futile.empty() || polls > 20000) { verdict = "deadlock"; break; }
      polls++;
      a = futile[rnd() % futile.size()];
    } else if (sched == 4) {
      if (!comm.empty()) a = comm[0];
      else {
        // ranks with a single way on first
        size_t pick = res.size();
        for (size_t i = 0; i < res.size() && pick == res.size(); i++) {
          Worker &w = W[res[i].a];
          size_t d = 0;
          if (w.waitop == OP_WAIT) for (size_t k = 0; k < w.wid.size(); k++) if (isdone(w, k)) d++;
          if (w.waitop != OP_WAIT || w.wmode != 1 || d <= 1 ) {
            // a wait-any with one completed request waits for more if others can still move
            if (w.waitop == OP_WAIT && w.wmode == 1 && w.wid.size() > 1) continue;
            pick = i;
          }
        }
        a = res[pick == res.size() ? 0 : pick];
      }
    } else {
      if (!futile.empty() && (rnd() % 4) == 0) a = futile[rnd() % futile.size()];
      else {
        vector<Act> all;
        if (sched == 1) all = res.empty() ? comm : res;
        else if (sched == 2) all = comm.empty() ? res : comm;
        else { all = comm; all.insert(all.end(), res.begin(), res.end()); }
        if (sched == 3) {
          vector<Act> keep;
          for (size_t i = 0; i < all.size(); i++) if (!(all[i].kind == 4 && (int) all[i].a == starve)) keep.push_back(all[i]);
          if (!keep.empty()) all = keep;
        }
        a = all[rnd() % all.size()];
      }
    }
    steps++;
    if (a.kind != 4 || resumable((int) a.a) == 1) polls = 0;
    if (a.kind == 1) do_match(a.a, a.b);
    else if (a.kind == 2) do_coll(a.key);
    else if (a.kind == 3) W[sends[a.a].w].req[sends[a.a].id].done = true;
    else resume((int) a.a);
  }
  bool allidle = true;
  for (int r = 0; r < P; r++) { if (W[r].state == 1) W[r].blocked = true; if (W[r].state != 2) allidle = false; }
  *clean = allidle;
  string o = "{\"id\":" + jstr(s.id) + ",\"P\":" + num(P) + ",\"verdict\":" + jstr(verdict) + ",\"steps\":" + num(steps);
  o += ",\"orphan_sends\":" + num((int64_t) sends.size()) + ",\"orphan_recvs\":" + num((int64_t) recvs.size()) + ",\"orphan_colls\":" + num((int64_t) colls.size());
  o += ",\"notes\":[";
  for (size_t i = 0; i < gnotes.size(); i++) o += (i ? "," : "") + jstr(gnotes[i]);
  o += "],\"ranks\":[";
  for (int r = 0; r < P; r++) {
    Worker &w = W[r];
    string st = "ok"; int code = 0;
    if (w.hang) st = "hang";
    else if (w.blocked) st = "blocked";
    else if (w.abortcode >= 0) { st = "abort"; code = w.abortcode; }
    else if (w.state == 3) {
      if (WIFSIGNALED(w.wstat)) { st = "signal"; code = WTERMSIG(w.wstat); }
      else { code = WEXITSTATUS(w.wstat); st = code == 77 ? "memory" : "exit"; }
    } else if (w.state == 0) st = "running";
    string txt; char buf[4096]; ssize_t n; off_t off = 0;
    while (txt.size() < 6000 && (n = pread(w.memfd, buf, sizeof(buf), off)) > 0) { txt.append(buf, n); off += n; }
    o += string(r ? "," : "") + "{\"st\":" + jstr(st) + ",\"code\":" + num(code) + ",\"fin\":" + num(w.finalized) + ",\"op\":" + num(w.op) + ",\"out\":" + jstr(txt) + ",\"notes\":[";
    for (size_t i = 0; i < w.notes.size() && i < 20; i++) o += (i ? "," : "") + jstr(w.notes[i]);
    o += "],\"ev\":[";
    for (size_t i = 0; i < w.ev.size(); i++) o += (i ? "," : "") + (w.ev[i].empty() ? string("null") : w.ev[i]);
    o += "]";
    if (logcomm) {
      o += ",\"comm\":[";
      for (size_t i = 0; i < w.comm.size(); i++) o += (i ? "," : "") + w.comm[i];
      o += "]";
    }
    o += "}";
  }
  o += "]}";
  if (!allidle) drop_all();
  return o;
}

int coordinate(const vector<Scenario> &scs, FILE *out)
{
  const char *h = getenv("SIM_HANG_S"); if (h) hang_s = atof(h);
  long failures = 0, hangs = 0;
  for (size_t k = 0; k < scs.size(); k++) {
    const Scenario &s = scs[k];
    // a code that keeps looping has been seen: the remaining scenarios would only take time
    if (hangs >= 2) { fprintf(out, "{\"id\":%s,\"skipped\":1}\n", jstr(s.id).c_str()); continue; }
    script.clear();
    std::map<string, string>::const_iterator it = s.kv.find("script");
    if (it != s.kv.end()) { std::stringstream ss(it->second); string t; while (std::getline(ss, t, ',')) script.push_back(atoi(t.c_str())); }
    long explore = getkv(s, "explore", 0);
    dfs = explore > 0;
    bool clean;
    if (!dfs) {
      string o = run_once(s, (int) k, &clean);
      fprintf(out, "%s\n", o.c_str());
      if (o.find("\"verdict\":\"hang\"") != string::npos) hangs++;
    } else {
      // depth first over the wait-any choices; runs with identical observations are merged
      std::map<string, long> seen;
      vector<string> outs; long runs = 0; bool full = false;
      script.clear();
      while (runs < explore) {
        string o = run_once(s, (int) k, &clean);
        runs++;
        if (o.find("\"verdict\":\"hang\"") != string::npos) { hangs++; outs.push_back(o); break; }
        size_t p = o.find("\"steps\":"), q = o.find(",", p + 8);
        string key = o.substr(0, p) + o.substr(q);
        if (!seen[key]++) outs.push_back(o);
        // next script
        script.clear();
        int i = (int) decisions.size() - 1;
        while (i >= 0 && decisions[i].second + 1 >= decisions[i].first) i--;
        if (i < 0) { full = true; break; }
        for (int j = 0; j < i; j++) script.push_back(decisions[j].second);
        script.push_back(decisions[i].second + 1);
      }
      for (size_t i = 0; i < outs.size(); i++) {
        outs[i].erase(outs[i].size() - 1);
        fprintf(out, "%s,\"explored\":%ld,\"complete\":%d,\"variant\":%d}\n", outs[i].c_str(), runs, full ? 1 : 0, (int) i);
      }
    }
    fflush(out);
    if (!clean) failures++;
  }
  drop_all();
  fprintf(out, "{\"done\":%d,\"respawns\":%d}\n", (int) scs.size(), nrespawn);
  fflush(out);
  return 0;
}
