// shared between coordinator, simulated MPI (rank side) and driver
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <string>
#include <vector>
#include <string.h>

typedef std::vector<char> Blob;

enum SimOp {
  OP_SEND = 1, OP_RECV, OP_COLL, OP_WAIT, OP_PROBE, OP_NOTE, OP_OPSTART,
  OP_TRACE, OP_BEGIN, OP_END, OP_FINALIZE, OP_ABORT, OP_COMM, OP_CANCEL
};

struct Writer {
  Blob b;
  void raw(const void *p, size_t n) { if (n) b.insert(b.end(), (const char *) p, (const char *) p + n); }
  void i(int64_t v) { raw(&v, 8); }
  void s(const std::string &x) { i((int64_t) x.size()); raw(x.data(), x.size()); }
  void blob(const Blob &x) { i((int64_t) x.size()); raw(x.data(), x.size()); }
};

struct Reader {
  const char *p, *e;
  Reader(const Blob &b) : p(b.data()), e(b.data() + b.size()) {}
  int64_t i() { int64_t v = 0; if (p + 8 <= e) memcpy(&v, p, 8); p += 8; return v; }
  std::string s() { int64_t n = i(); std::string x(p, p + n); p += n; return x; }
  Blob blob() { int64_t n = i(); Blob x(p, p + n); p += n; return x; }
};

// rank side entry points used by the driver
void sim_attach(int fd, int rank, int nranks);   // become a rank
void sim_send_msg(int op, const Writer &w);      // message to the coordinator
Blob sim_recv_msg();                             // reply from it
void sim_world(int nranks);                      // size of MPI_COMM_WORLD from now on
void sim_clock(const std::vector<double> &inc, double base);
void sim_epoch(double start);                      // what the clock shows at the start
void sim_work(double data, double comm);           // a clock that advances only with communication
void sim_exec(double each);                        // a clock that advances only with 1d transforms (FFTW)
double sim_time();
void sim_poison(int on);
int sim_live_comms();
int sim_live_groups();
int sim_live_requests();
int sim_live_types();
void sim_reset();                                // forget all handles
bool sim_io_read(int fd, void *buf, size_t n);
bool sim_io_write(int fd, const void *buf, size_t n);
#endif
