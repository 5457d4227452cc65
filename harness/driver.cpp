// Rank program: executes scenario operations against the library and records
// what a user of the library would observe.  It contains no knowledge of data
// layouts or of the transform: arrays are filled and read by local position.
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <vector>
#include <string>
#include "simmpi/sim.h"
#include "simmpi/coord.h"
#include "fft3d.h"
#include "fft2d.h"
#include "remap3d.h"
#include "remap2d.h"
#include "fft3d_wrap.h"
#include "fft2d_wrap.h"
#include "remap3d_wrap.h"
#include "remap2d_wrap.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n)
#define UNPOISON(p, n)
#endif

using namespace FFTMPI_NS;
using std::string; using std::vector; using std::map;

extern "C" {
const char *__asan_default_options() { return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=203:quarantine_size_mb=8:symbolize=0:handle_segv=1:print_legend=0"; }
const char *__ubsan_default_options() { return "print_stacktrace=0"; }

// Fortran side, fdrv.f90
void fd_fft3d_create(int comm, int prec, void **);
void fd_fft2d_create(int comm, int prec, void **);
void fd_fft3d_destroy(void *); void fd_fft2d_destroy(void *);
void fd_fft3d_set(void *, const char *, int); void fd_fft2d_set(void *, const char *, int);
int fd_fft3d_get_int(void *, const char *); int fd_fft2d_get_int(void *, const char *);
double fd_fft3d_get_double(void *, const char *); double fd_fft2d_get_double(void *, const char *);
int64_t fd_fft3d_get_int64(void *, const char *); int64_t fd_fft2d_get_int64(void *, const char *);
void *fd_fft3d_get_string(void *, const char *, int *); void *fd_fft2d_get_string(void *, const char *, int *);
void *fd_fft3d_get_int_vector(void *, const char *, int *); void *fd_fft2d_get_int_vector(void *, const char *, int *);
void *fd_fft3d_get_double_vector(void *, const char *, int *); void *fd_fft2d_get_double_vector(void *, const char *, int *);
void fd_fft3d_setup(void *, const int *box, const int *n, int permute, int *, int *, int *);
void fd_fft2d_setup(void *, const int *box, const int *n, int permute, int *, int *, int *);
void fd_fft3d_setup_memory(void *, void *, void *); void fd_fft2d_setup_memory(void *, void *, void *);
void fd_fft3d_compute(void *, void *, void *, int); void fd_fft2d_compute(void *, void *, void *, int);
void fd_fft3d_only_1d_ffts(void *, void *, int); void fd_fft2d_only_1d_ffts(void *, void *, int);
void fd_fft3d_only_remaps(void *, void *, void *, int); void fd_fft2d_only_remaps(void *, void *, void *, int);
void fd_fft3d_only_one_remap(void *, void *, void *, int, int); void fd_fft2d_only_one_remap(void *, void *, void *, int, int);
void fd_fft3d_tune(void *, const int *box, const int *n, int permute, int *, int *, int *, int flag, int niter, double tmax, int tflag);
void fd_fft2d_tune(void *, const int *box, const int *n, int permute, int *, int *, int *, int flag, int niter, double tmax, int tflag);
void fd_remap3d_create(int comm, void **); void fd_remap2d_create(int comm, void **);
void fd_remap3d_destroy(void *); void fd_remap2d_destroy(void *);
void fd_remap3d_set(void *, const char *, int); void fd_remap2d_set(void *, const char *, int);
void fd_remap3d_setup(void *, const int *box, int nqty, int permute, int mem, int *, int *);
void fd_remap2d_setup(void *, const int *box, int nqty, int permute, int mem, int *, int *);
void fd_remap3d_remap(void *, void *, void *, void *, void *); void fd_remap2d_remap(void *, void *, void *, void *, void *);
}

#ifdef FFT_FFTW3
extern "C" { void fftw_cleanup(void) __attribute__((weak)); void fftwf_cleanup(void) __attribute__((weak)); }
static void fw_cleanup_d() { if (fftw_cleanup) fftw_cleanup(); }
static void fw_cleanup_f() { if (fftwf_cleanup) fftwf_cleanup(); }
#endif

// ---------------------------------------------------------------- heap accounting

static volatile int in_lib = 0;
static long heap_n = 0, heap_b = 0;
#if defined(__SANITIZE_ADDRESS__)
static void mhook(const volatile void *p, size_t n) { if (in_lib && p) { heap_n++; heap_b += (long) n; } }
static void fhook(const volatile void *p) { if (in_lib && p) { heap_n--; heap_b -= (long) __sanitizer_get_allocated_size(p); } }
#endif
struct Lib { Lib() { in_lib = 1; } ~Lib() { in_lib = 0; } };

// ---------------------------------------------------------------- arrays with guards

static const size_t PAD = 2048;
struct Arr { char *base; size_t bytes, cap; FFT_SCALAR *p; };
static map<string, Arr> arrs;

static Arr mkarr(long nscalar, int mis)
{
  Arr a; a.bytes = nscalar * sizeof(FFT_SCALAR);
  size_t shift = mis ? sizeof(FFT_SCALAR) : 0;
  a.cap = PAD + shift + a.bytes + PAD;
  void *q = NULL;
  if (posix_memalign(&q, 64, a.cap)) abort();
  a.base = (char *) q;
  memset(a.base, 0xA5, a.cap);
  a.p = (FFT_SCALAR *) (a.base + PAD + shift);
  for (long i = 0; i < nscalar; i++) a.p[i] = (FFT_SCALAR) NAN;
  POISON(a.base, PAD + shift - (shift % 8));
  // poisoning works on 8 byte granules: protect everything after the end
  POISON(a.base + PAD + shift + a.bytes, PAD);
  return a;
}
static int guard_bad(Arr &a)
{
  size_t pre = (char *) a.p - a.base, post = pre + a.bytes;
  UNPOISON(a.base, a.cap);
  int bad = 0;
  for (size_t i = 0; i < pre; i++) if ((unsigned char) a.base[i] != 0xA5) bad++;
  for (size_t i = post; i < a.cap; i++) if ((unsigned char) a.base[i] != 0xA5) bad++;
  if (bad) { memset(a.base, 0xA5, pre); memset(a.base + post, 0xA5, a.cap - post); }
  POISON(a.base, pre - (pre % 8));
  POISON(a.base + post, a.cap - post);
  return bad;
}
static void rmarr(Arr &a) { UNPOISON(a.base, a.cap); free(a.base); }
static int guards() { int b = 0; for (map<string, Arr>::iterator it = arrs.begin(); it != arrs.end(); ++it) b += guard_bad(it->second); return b; }

// ---------------------------------------------------------------- objects

struct Obj {
  int kind;              // 32 = fft3d 22 = fft2d 31 = remap3d 21 = remap2d
  int api;               // 0 C++ 1 C 2 Fortran
  void *p;
  MPI_Comm comm; bool member;
  long insz, outsz;      // scalars in the tiles this rank passed to setup
  int fft, snd, rcv;
  long held = 0;         // bytes the library acquired in calls on this object and still holds
  vector<string> bufs;
};
static map<string, Obj> objs;
static map<string, MPI_Comm> comms;
static map<string, vector<int> > commranks;
static int world_me, world_n;

static string num(long v) { char b[32]; sprintf(b, "%ld", v); return b; }
static long toi(const string &s) { return strtol(s.c_str(), NULL, 10); }

static string vec(const vector<long> &v)
{
  string s = "[";
  for (size_t i = 0; i < v.size(); i++) { if (i) s += ","; s += num(v[i]); }
  return s + "]";
}
// numbers the specification can still add and subtract
static long clampi(double x) { if (!(x == x)) return 1000000000; if (x > 9e8) return 900000000; if (x < -9e8) return -900000000; return lrint(x); }

#define F3 ((FFT3d *) o.p)
#define F2 ((FFT2d *) o.p)
#define R3 ((Remap3d *) o.p)
#define R2 ((Remap2d *) o.p)
static bool is_fft(const Obj &o) { return o.kind == 32 || o.kind == 22; }
static bool is3(const Obj &o) { return o.kind > 30; }

static void do_new(Obj &o)
{
  int prec = sizeof(FFT_SCALAR) == 4 ? 1 : 2;
  Lib l;
  MPI_Fint f = MPI_Comm_c2f(o.comm);
  switch (o.kind * 10 + o.api) {
  case 320: o.p = new FFT3d(o.comm, prec); break;
  case 220: o.p = new FFT2d(o.comm, prec); break;
  case 310: o.p = new Remap3d(o.comm); break;
  case 210: o.p = new Remap2d(o.comm); break;
  case 321: fft3d_create(o.comm, prec, &o.p); break;
  case 221: fft2d_create(o.comm, prec, &o.p); break;
  case 311: remap3d_create(o.comm, &o.p); break;
  case 211: remap2d_create(o.comm, &o.p); break;
  case 322: fd_fft3d_create(f, prec, &o.p); break;
  case 222: fd_fft2d_create(f, prec, &o.p); break;
  case 312: fd_remap3d_create(f, &o.p); break;
  case 212: fd_remap2d_create(f, &o.p); break;
  }
}
static void do_new_prec(Obj &o, int prec)
{
  Lib l;
  MPI_Fint f = MPI_Comm_c2f(o.comm);
  switch (o.kind * 10 + o.api) {
  case 320: o.p = new FFT3d(o.comm, prec); break;
  case 220: o.p = new FFT2d(o.comm, prec); break;
  case 321: fft3d_create(o.comm, prec, &o.p); break;
  case 221: fft2d_create(o.comm, prec, &o.p); break;
  case 322: fd_fft3d_create(f, prec, &o.p); break;
  case 222: fd_fft2d_create(f, prec, &o.p); break;
  }
}
static void do_del(Obj &o)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: delete F3; break;
  case 220: delete F2; break;
  case 310: delete R3; break;
  case 210: delete R2; break;
  case 321: fft3d_destroy(o.p); break;
  case 221: fft2d_destroy(o.p); break;
  case 311: remap3d_destroy(o.p); break;
  case 211: remap2d_destroy(o.p); break;
  case 322: fd_fft3d_destroy(o.p); break;
  case 222: fd_fft2d_destroy(o.p); break;
  case 312: fd_remap3d_destroy(o.p); break;
  case 212: fd_remap2d_destroy(o.p); break;
  }
}
template <class T> static void setkey(T *f, const string &k, int v)
{
  if (k == "collective") f->collective = v;
  else if (k == "exchange") f->exchange = v;
  else if (k == "pack") f->packflag = v;
  else if (k == "memory") f->memoryflag = v;
  else if (k == "scale") f->scaled = v;
  else if (k == "remaponly") f->remaponly = v;
}
template <class T> static void setkeyr(T *f, const string &k, int v)
{
  if (k == "collective") f->collective = v;
  else if (k == "pack") f->packflag = v;
}
static void do_set(Obj &o, const string &k, int v)
{
  Lib l;
  const char *c = k.c_str();
  switch (o.kind * 10 + o.api) {
  case 320: setkey(F3, k, v); break;
  case 220: setkey(F2, k, v); break;
  case 310: setkeyr(R3, k, v); break;
  case 210: setkeyr(R2, k, v); break;
  case 321: fft3d_set(o.p, c, v); break;
  case 221: fft2d_set(o.p, c, v); break;
  case 311: remap3d_set(o.p, (char *) c, v); break;
  case 211: remap2d_set(o.p, (char *) c, v); break;
  case 322: fd_fft3d_set(o.p, c, v); break;
  case 222: fd_fft2d_set(o.p, c, v); break;
  case 312: fd_remap3d_set(o.p, c, v); break;
  case 212: fd_remap2d_set(o.p, c, v); break;
  }
}
#define B12(b) b[0],b[1],b[2],b[3],b[4],b[5],b[6],b[7],b[8],b[9],b[10],b[11]
#define B8(b) b[0],b[1],b[2],b[3],b[4],b[5],b[6],b[7]
static void do_setup(Obj &o, const int *n, int permute, const int *b)
{
  o.fft = o.snd = o.rcv = -1;
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->setup(n[0], n[1], n[2], B12(b), permute, o.fft, o.snd, o.rcv); break;
  case 220: F2->setup(n[0], n[1], B8(b), permute, o.fft, o.snd, o.rcv); break;
  case 321: fft3d_setup(o.p, n[0], n[1], n[2], B12(b), permute, &o.fft, &o.snd, &o.rcv); break;
  case 221: fft2d_setup(o.p, n[0], n[1], B8(b), permute, &o.fft, &o.snd, &o.rcv); break;
  case 322: fd_fft3d_setup(o.p, b, n, permute, &o.fft, &o.snd, &o.rcv); break;
  case 222: fd_fft2d_setup(o.p, b, n, permute, &o.fft, &o.snd, &o.rcv); break;
  }
}
static void do_tune(Obj &o, const int *n, int permute, const int *b, int flag, int niter, double tmax, int tflag)
{
  o.fft = o.snd = o.rcv = -1;
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->tune(n[0], n[1], n[2], B12(b), permute, o.fft, o.snd, o.rcv, flag, niter, tmax, tflag); break;
  case 220: F2->tune(n[0], n[1], B8(b), permute, o.fft, o.snd, o.rcv, flag, niter, tmax, tflag); break;
  case 321: fft3d_tune(o.p, n[0], n[1], n[2], B12(b), permute, &o.fft, &o.snd, &o.rcv, flag, niter, tmax, tflag); break;
  case 221: fft2d_tune(o.p, n[0], n[1], B8(b), permute, &o.fft, &o.snd, &o.rcv, flag, niter, tmax, tflag); break;
  case 322: fd_fft3d_tune(o.p, b, n, permute, &o.fft, &o.snd, &o.rcv, flag, niter, tmax, tflag); break;
  case 222: fd_fft2d_tune(o.p, b, n, permute, &o.fft, &o.snd, &o.rcv, flag, niter, tmax, tflag); break;
  }
}
static void do_rsetup(Obj &o, const int *b, int nqty, int permute, int mem)
{
  o.fft = o.snd = o.rcv = -1;
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 310: R3->setup(B12(b), nqty, permute, mem, o.snd, o.rcv); break;
  case 210: R2->setup(B8(b), nqty, permute, mem, o.snd, o.rcv); break;
  case 311: remap3d_setup(o.p, B12(b), nqty, permute, mem, &o.snd, &o.rcv); break;
  case 211: remap2d_setup(o.p, B8(b), nqty, permute, mem, &o.snd, &o.rcv); break;
  case 312: fd_remap3d_setup(o.p, b, nqty, permute, mem, &o.snd, &o.rcv); break;
  case 212: fd_remap2d_setup(o.p, b, nqty, permute, mem, &o.snd, &o.rcv); break;
  }
}
static void do_setupmem(Obj &o, FFT_SCALAR *s, FFT_SCALAR *r)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->setup_memory(s, r); break;
  case 220: F2->setup_memory(s, r); break;
  case 321: fft3d_setup_memory(o.p, s, r); break;
  case 221: fft2d_setup_memory(o.p, s, r); break;
  case 322: fd_fft3d_setup_memory(o.p, s, r); break;
  case 222: fd_fft2d_setup_memory(o.p, s, r); break;
  }
}
static void do_compute(Obj &o, FFT_SCALAR *a, FFT_SCALAR *b, int flag)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->compute(a, b, flag); break;
  case 220: F2->compute(a, b, flag); break;
  case 321: fft3d_compute(o.p, a, b, flag); break;
  case 221: fft2d_compute(o.p, a, b, flag); break;
  case 322: fd_fft3d_compute(o.p, a, b, flag); break;
  case 222: fd_fft2d_compute(o.p, a, b, flag); break;
  }
}
static void do_onlyremaps(Obj &o, FFT_SCALAR *a, FFT_SCALAR *b, int flag)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->only_remaps(a, b, flag); break;
  case 220: F2->only_remaps(a, b, flag); break;
  case 321: fft3d_only_remaps(o.p, a, b, flag); break;
  case 221: fft2d_only_remaps(o.p, a, b, flag); break;
  case 322: fd_fft3d_only_remaps(o.p, a, b, flag); break;
  case 222: fd_fft2d_only_remaps(o.p, a, b, flag); break;
  }
}
static void do_oneremap(Obj &o, FFT_SCALAR *a, FFT_SCALAR *b, int flag, int which)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->only_one_remap(a, b, flag, which); break;
  case 220: F2->only_one_remap(a, b, flag, which); break;
  case 321: fft3d_only_one_remap(o.p, a, b, flag, which); break;
  case 221: fft2d_only_one_remap(o.p, a, b, flag, which); break;
  case 322: fd_fft3d_only_one_remap(o.p, a, b, flag, which); break;
  case 222: fd_fft2d_only_one_remap(o.p, a, b, flag, which); break;
  }
}
static void do_only1d(Obj &o, FFT_SCALAR *a, int flag)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 320: F3->only_1d_ffts(a, flag); break;
  case 220: F2->only_1d_ffts(a, flag); break;
  case 321: fft3d_only_1d_ffts(o.p, a, flag); break;
  case 221: fft2d_only_1d_ffts(o.p, a, flag); break;
  case 322: fd_fft3d_only_1d_ffts(o.p, a, flag); break;
  case 222: fd_fft2d_only_1d_ffts(o.p, a, flag); break;
  }
}
static void do_remap(Obj &o, FFT_SCALAR *a, FFT_SCALAR *b, FFT_SCALAR *s, FFT_SCALAR *r)
{
  Lib l;
  switch (o.kind * 10 + o.api) {
  case 310: R3->remap(a, b, s, r); break;
  case 210: R2->remap(a, b, s, r); break;
  case 311: remap3d_remap(o.p, a, b, s, r); break;
  case 211: remap2d_remap(o.p, a, b, s, r); break;
  case 312: fd_remap3d_remap(o.p, a, b, s, r); break;
  case 212: fd_remap2d_remap(o.p, a, b, s, r); break;
  }
}

// ---------------------------------------------------------------- queries

template <class T> static bool member_int(T *f, const string &k, long &v)
{
#define M(n, m) if (k == n) { v = (long) f->m; return true; }
  M("collective", collective) M("exchange", exchange) M("pack", packflag)
  M("npfast1", npfast1) M("npfast2", npfast2) M("npslow1", npslow1) M("npslow2", npslow2)
  M("npbrick1", npbrick1) M("npbrick2", npbrick2) M("ntrial", ntrial) M("npertrial", npertrial) M("cbest", cbest) M("ebest", ebest) M("pbest", pbest)
  M("scaled", scaled) M("remaponly", remaponly)
  M("cbest", cbest) M("ebest", ebest) M("pbest", pbest)
  return false;
}
static bool member_int3(FFT3d *f, const string &k, long &v)
{
  if (member_int(f, k, v)) return true;
  M("npfast3", npfast3) M("npmid1", npmid1) M("npmid2", npmid2) M("npmid3", npmid3) M("npslow3", npslow3) M("npbrick3", npbrick3)
  return false;
#undef M
}
static string js(const string &s) { string o = "\""; for (size_t i = 0; i < s.size(); i++) if (s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\') o += s[i]; return o + "\""; }
// times are multiples of the tick 1e-6 of the simulated clock; reported in nanoseconds
static long ns(double t) { return clampi(rint(t * 1e9)); }

static string do_get(Obj &o, const string &type, const string &k)
{
  const char *c = k.c_str();
  int d3 = is3(o);
  if (type == "int") {
    long v = -999;
    if (o.api == 0) { if (d3) member_int3(F3, k, v); else member_int(F2, k, v); }
    else { Lib l; v = o.api == 1 ? (d3 ? fft3d_get_int(o.p, c) : fft2d_get_int(o.p, c)) : (d3 ? fd_fft3d_get_int(o.p, c) : fd_fft2d_get_int(o.p, c)); }
    return num(v);
  }
  if (type == "double") {
    double v = 0;
    if (o.api == 0) v = k == "setuptime" ? (d3 ? F3->setuptime : F2->setuptime) : k == "besttime" ? (d3 ? F3->besttime : F2->besttime) : -1;
    else { Lib l; v = o.api == 1 ? (d3 ? fft3d_get_double(o.p, c) : fft2d_get_double(o.p, c)) : (d3 ? fd_fft3d_get_double(o.p, c) : fd_fft2d_get_double(o.p, c)); }
    return num(ns(v));
  }
  if (type == "int64") {
    int64_t v = 0;
    if (o.api == 0) v = o.kind == 32 ? F3->memusage : o.kind == 22 ? F2->memusage : o.kind == 31 ? R3->memusage : R2->memusage;
    else { Lib l; v = o.api == 1 ? (d3 ? fft3d_get_int64(o.p, c) : fft2d_get_int64(o.p, c)) : (d3 ? fd_fft3d_get_int64(o.p, c) : fd_fft2d_get_int64(o.p, c)); }
    return num(clampi((double) v));
  }
  if (type == "string") {
    string v; int len = -1;
    if (o.api == 0) { v = k == "fft1d" ? (d3 ? F3->fft1d : F2->fft1d) : (d3 ? F3->precision : F2->precision); len = (int) v.size(); }
    else {
      Lib l;
      char *q = (char *) (o.api == 1 ? (d3 ? fft3d_get_string(o.p, c, &len) : fft2d_get_string(o.p, c, &len)) : (d3 ? fd_fft3d_get_string(o.p, c, &len) : fd_fft2d_get_string(o.p, c, &len)));
      if (q) v = string(q, len >= 0 && len < 1000 ? len : 0);
    }
    return js(v);
  }
  if (type == "ivec") {
    int len = -1; vector<long> r; int *q = NULL;
    if (o.api == 0) {
      len = d3 ? F3->ntrial : F2->ntrial;
      if (k == "cflags") q = d3 ? F3->cflags : F2->cflags;
      if (k == "eflags") q = d3 ? F3->eflags : F2->eflags;
      if (k == "pflags") q = d3 ? F3->pflags : F2->pflags;
    } else { Lib l; q = (int *) (o.api == 1 ? (d3 ? fft3d_get_int_vector(o.p, c, &len) : fft2d_get_int_vector(o.p, c, &len)) : (d3 ? fd_fft3d_get_int_vector(o.p, c, &len) : fd_fft2d_get_int_vector(o.p, c, &len))); }
    if (q) for (int i = 0; i < len && i < 20; i++) r.push_back(q[i]);
    return vec(r);
  }
  if (type == "dvec") {
    int len = -1; vector<long> r; double *q = NULL;
    if (o.api == 0) {
      len = d3 ? F3->ntrial : F2->ntrial;
#define V(n) if (k == #n) q = d3 ? F3->n : F2->n;
      V(tfft) V(t1d) V(tremap) V(tremap1) V(tremap2) V(tremap3)
      if (k == "tremap4" && d3) q = F3->tremap4;
    } else { Lib l; q = (double *) (o.api == 1 ? (d3 ? fft3d_get_double_vector(o.p, c, &len) : fft2d_get_double_vector(o.p, c, &len)) : (d3 ? fd_fft3d_get_double_vector(o.p, c, &len) : fd_fft2d_get_double_vector(o.p, c, &len))); }
    if (q) for (int i = 0; i < len && i < 20; i++) r.push_back(ns(q[i]));
    return vec(r);
  }
  return "null";
}

// ---------------------------------------------------------------- operations

static long elapsed(double t0) { return clampi(floor((sim_time() - t0) * 1e9 + 0.5)); }
static long tile(const int *b, int d)   // points in a tile
{
  long n = 1;
  for (int i = 0; i < d; i++) { long e = (long) b[2 * i + 1] - b[2 * i] + 1; if (e <= 0) return 0; n *= e; }
  return n;
}
static long count_of(const string &s)   // obj.in obj.out obj.fft obj.send obj.recv or a number
{
  size_t p = s.find('.');
  if (p == string::npos) return toi(s);
  Obj &o = objs[s.substr(0, p)];
  string w = s.substr(p + 1);
  long q = is_fft(o) ? 2 : 1;
  if (w == "in") return o.insz;
  if (w == "out") return o.outsz;
  if (w == "max") return std::max(o.insz, o.outsz);
  if (w == "fft") return q * o.fft;
  if (w == "send") return o.snd;
  if (w == "recv") return o.rcv;
  return 0;
}
static FFT_SCALAR *ap(const string &s) { if (s == "-") return NULL; return arrs[s].p; }

struct Snap { const FFT_SCALAR *p; vector<char> b; };
static Snap snap(const string &name) { Snap s; s.p = NULL; if (name == "-") return s; Arr &a = arrs[name]; s.p = a.p; s.b.assign((char *) a.p, (char *) a.p + a.bytes); return s; }
static int changed(const Snap &s) { return s.p && memcmp(s.p, s.b.data(), s.b.size()) ? 1 : 0; }

static vector<double> clockinc;

static string run_op(const vector<string> &t)
{
  const string &k = t[0];
  if (k == "comm") {
    // comm name r0 r1 ... : world ranks in the order they get
    int color = MPI_UNDEFINED, key = 0;
    vector<int> rk;
    for (size_t i = 2; i < t.size(); i++) { rk.push_back((int) toi(t[i])); if (rk.back() == world_me) { color = 1; key = (int) i; } }
    MPI_Comm c;
    MPI_Comm_split(MPI_COMM_WORLD, color, key, &c);
    comms[t[1]] = c; commranks[t[1]] = rk;
    return "{\"m\":" + num(color == 1) + "}";
  }
  if (k == "commfree") { MPI_Comm c = comms[t[1]]; if (c != MPI_COMM_NULL && t[1] != "W") MPI_Comm_free(&c); comms.erase(t[1]); return "{}"; }
  if (k == "new") {
    // new obj kind api comm [prec]
    Obj o; o.kind = t[2] == "f3" ? 32 : t[2] == "f2" ? 22 : t[2] == "r3" ? 31 : 21;
    o.api = t[3] == "cpp" ? 0 : t[3] == "c" ? 1 : 2;
    o.comm = comms[t[4]]; o.member = o.comm != MPI_COMM_NULL; o.p = NULL; o.insz = o.outsz = 0; o.fft = o.snd = o.rcv = 0;
    if (o.member) { if (t.size() > 5) do_new_prec(o, t[5] == "OTHER" ? (sizeof(FFT_SCALAR) == 4 ? 2 : 1) : (int) toi(t[5])); else do_new(o); }
    objs[t[1]] = o;
    return "{\"m\":" + num(o.member) + "}";
  }
  if (k == "clock") {
    // clock base_ns inc_ns...   (per rank lists separated by |)
    vector<vector<double> > l(1);
    for (size_t i = 1; i < t.size(); i++) { if (t[i] == "|") l.push_back(vector<double>()); else if (t[i] != "work" && t[i] != "exec") l.back().push_back(1e-9 * (double) toi(t[i])); }
    if (t.size() == 3 && t[1] == "exec") { sim_exec(1e-9 * (double) toi(t[2])); return "{}"; }
    if (t.size() == 4 && t[1] == "work") { sim_work(1e-9 * (double) toi(t[2]), 1e-9 * (double) toi(t[3])); return "{}"; }
    vector<double> inc = l[world_me % l.size()];
    sim_clock(inc, 0.0);
    return "{}";
  }
  if (k == "alloc") { // alloc arr count [mis]
    long n = count_of(t[2]);
    if (arrs.count(t[1])) { rmarr(arrs[t[1]]); arrs.erase(t[1]); }
    if (n < 0 || n > 50000000) return "{\"n\":" + num(n) + ",\"skip\":1}";
    arrs[t[1]] = mkarr(n, t.size() > 3 ? (int) toi(t[3]) : 0);
    return "{\"n\":" + num(n) + "}";
  }
  if (k == "free") { if (arrs.count(t[1])) { rmarr(arrs[t[1]]); arrs.erase(t[1]); } return "{}"; }
  if (k == "fill") {
    // fill arr count kind ...
    Arr &a = arrs[t[1]];
    long n = count_of(t[2]), cap = (long) (a.bytes / sizeof(FFT_SCALAR));
    if (n > cap) return "{\"n\":" + num(n) + ",\"cap\":" + num(cap) + ",\"over\":1}";
    for (long i = 0; i < cap; i++) a.p[i] = i < n || t[3] == "zero" ? (FFT_SCALAR) 0 : (FFT_SCALAR) NAN;
    if (t[3] == "tok") { long base = toi(t[4]) + (sizeof(FFT_SCALAR) == 8 ? 1073741824L : 0), stride = toi(t[5]); for (long i = 0; i < n; i++) a.p[i] = (FFT_SCALAR) (base + world_me * stride + i); }
    else if (t[3] == "sparse") {
      for (size_t i = 4; i + 3 < t.size(); i += 4)
        if (toi(t[i]) == world_me && 2 * toi(t[i + 1]) + 1 < n) { a.p[2 * toi(t[i + 1])] = (FFT_SCALAR) toi(t[i + 2]); a.p[2 * toi(t[i + 1]) + 1] = (FFT_SCALAR) toi(t[i + 3]); }
    } else if (t[3] == "rnd") {
      uint64_t x = (uint64_t) toi(t[4]) * 6364136223846793005ULL + (uint64_t) world_me * 1442695040888963407ULL + 12345; long amp = toi(t[5]);
      for (int i = 0; i < 4; i++) x = x * 6364136223846793005ULL + 1442695040888963407ULL;
      for (long i = 0; i < n; i++) { x = x * 6364136223846793005ULL + 1442695040888963407ULL; a.p[i] = (FFT_SCALAR) ((long) ((x >> 33) % (2 * amp + 1)) - amp); }
    }
    string s = "{\"n\":" + num(n) + ",\"v\":[";
    if (t[3] == "tok" || t[3] == "zero") return "{\"n\":" + num(n) + "}";
    bool first = true;
    for (long i = 0; i + 1 < n; i += 2) if (a.p[i] != 0 || a.p[i + 1] != 0) {
      s += (first ? "[" : ",[") + num(i / 2) + "," + num((long) a.p[i]) + "," + num((long) a.p[i + 1]) + "]"; first = false;
    }
    return s + "]}";
  }
  if (k == "read") {
    // read arr count sn sd: values times sn/sd, rounded
    Arr &a = arrs[t[1]];
    long n = count_of(t[2]); double S = (double) toi(t[3]) / (double) toi(t[4]);
    long bad = 0; double res = 0; vector<long> v;
    long f = 1;                                      // a finer scale, where it fits
    if (sizeof(FFT_SCALAR) == 8 && toi(t[3]) % 262144 == 0) {
      f = 256;
      for (long i = 0; i < n && (i + 1) * sizeof(FFT_SCALAR) <= a.bytes; i++) if (!(fabs((double) a.p[i] * S * 256) < 2.1e9)) f = 1;
      S *= f;
    }
    for (long i = 0; i < n && (i + 1) * sizeof(FFT_SCALAR) <= a.bytes; i++) {
      double x = (double) a.p[i] * S;
      if (!std::isfinite(x)) { bad++; v.push_back(1000000000); continue; }
      long r = x > 2.1e9 ? 2100000000 : x < -2.1e9 ? -2100000000 : lrint(x);
      double e = fabs((double) a.p[i] * S - (double) r);
      if (e > res) res = e;
      v.push_back(r);
    }
    // distance from a whole number in units of the machine epsilon
    double eps = sizeof(FFT_SCALAR) == 4 ? 1.1920929e-07 : 2.220446049250313e-16;
    double u = ceil(res / eps);
    return "{\"n\":" + num(n) + ",\"bad\":" + num(bad) + ",\"ulp\":" + num(u > 1e9 ? 1000000000 : (long) u) + ",\"f\":" + num(f) + ",\"v\":" + vec(v) + "}";
  }
  if (k == "mark") {
#ifdef FFT_FFTW3
    // what the 1d library remembers for itself is not the library's to release
    bool none = true;
    for (auto &x : objs) if (x.second.member) none = false;
    if (none) { Lib l; if (sizeof(FFT_SCALAR) == 4) fw_cleanup_f(); else fw_cleanup_d(); }
#endif
    return "{\"heap\":" + num(heap_n) + ",\"bytes\":" + num(heap_b) + ",\"comms\":" + num(sim_live_comms()) + ",\"groups\":" + num(sim_live_groups()) + ",\"reqs\":" + num(sim_live_requests()) + ",\"types\":" + num(sim_live_types()) + "}";
  }
  if (k == "barrier") { MPI_Barrier(MPI_COMM_WORLD); return "{}"; }
  // operations on an object
  Obj &o = objs[t[1]];
  if (!o.member) return "{\"m\":0}";
  int crank; MPI_Comm_rank(o.comm, &crank);
  if (k == "set") { do_set(o, t[2], (int) toi(t[3])); return "{\"m\":1}"; }
  if (k == "setup" || k == "tune") {
    int d = is3(o) ? 3 : 2, nb = 4 * d;
    int b[12];
    double t0 = sim_time();
    if (is_fft(o)) {
      int n[3] = {1, 1, 1}; size_t q = 2;
      for (int i = 0; i < d; i++) n[i] = (int) toi(t[q++]);
      int permute = (int) toi(t[q++]);
      int flag = 0, niter = 0, tflag = 0; double tmax = 0;
      if (k == "tune") { flag = (int) toi(t[q++]); niter = (int) toi(t[q++]); tmax = 1e-9 * (double) toi(t[q++]); tflag = (int) toi(t[q++]); }
      for (int i = 0; i < nb; i++) b[i] = (int) toi(t[q + crank * nb + i]);
      o.insz = 2 * tile(b, d); o.outsz = 2 * tile(b + 2 * d, d);
      if (k == "tune") do_tune(o, n, permute, b, flag, niter, tmax, tflag);
      else do_setup(o, n, permute, b);
    } else {
      size_t q = 2;
      int nqty = (int) toi(t[q++]), permute = (int) toi(t[q++]), mem = (int) toi(t[q++]);
      for (int i = 0; i < nb; i++) b[i] = (int) toi(t[q + crank * nb + i]);
      o.insz = nqty * tile(b, d); o.outsz = nqty * tile(b + 2 * d, d);
      do_rsetup(o, b, nqty, permute, mem);
    }
    return "{\"m\":1,\"r\":" + num(crank) + ",\"fft\":" + num(clampi(o.fft)) + ",\"snd\":" + num(clampi(o.snd)) + ",\"rcv\":" + num(clampi(o.rcv)) + ",\"g\":" + num(guards()) +
      ",\"dt\":" + num(elapsed(t0)) + "}";
  }
  if (k == "setupmem") { do_setupmem(o, ap(t[2]), ap(t[3])); return "{\"m\":1}"; }
  if (k == "compute" || k == "onlyremaps" || k == "oneremap" || k == "remap") {
    bool inplace = t[2] == t[3];
    Snap s; s.p = NULL; if (!inplace) s = snap(t[2]);
    double t0 = sim_time();
    if (k == "compute") do_compute(o, ap(t[2]), ap(t[3]), (int) toi(t[4]));
    else if (k == "onlyremaps") do_onlyremaps(o, ap(t[2]), ap(t[3]), (int) toi(t[4]));
    else if (k == "oneremap") do_oneremap(o, ap(t[2]), ap(t[3]), (int) toi(t[4]), (int) toi(t[5]));
    else do_remap(o, ap(t[2]), ap(t[3]), ap(t[4]), ap(t[5]));
    return "{\"m\":1,\"chg\":" + num(changed(s)) + ",\"g\":" + num(guards()) + ",\"dt\":" + num(elapsed(t0)) + "}";
  }
  if (k == "only1d") { do_only1d(o, ap(t[2]), (int) toi(t[3])); return "{\"m\":1,\"g\":" + num(guards()) + "}"; }
  if (k == "get") {
    // get obj type:key ...
    string s = "{\"m\":1,\"v\":[";
    for (size_t i = 2; i < t.size(); i++) {
      size_t p = t[i].find(':');
      s += (i > 2 ? "," : "") + do_get(o, t[i].substr(0, p), t[i].substr(p + 1));
    }
    return s + "],\"hb\":" + num(o.held) + "}";
  }
  if (k == "del") { do_del(o); objs.erase(t[1]); return "{\"m\":1}"; }
  return "null";
}

// ---------------------------------------------------------------- main

static vector<Scenario> scs;

void rank_main(int fd, int rank)
{
  sim_attach(fd, rank, 1);
  world_me = rank;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(mhook, fhook);
#endif
  for (;;) {
    { Writer w; sim_send_msg(OP_END, w); }
    Blob b = sim_recv_msg();
    Reader rd(b);
    long k = (long) rd.i(); world_n = (int) rd.i();
    sim_world(world_n); sim_reset();
    Scenario &s = scs[k];
    objs.clear(); comms.clear(); commranks.clear();
    for (map<string, Arr>::iterator it = arrs.begin(); it != arrs.end(); ++it) rmarr(it->second);
    arrs.clear();
    comms["W"] = MPI_COMM_WORLD; comms["S"] = MPI_COMM_SELF;
    sim_clock(vector<double>(), 0.0);
    // clocks neither start at zero nor agree between ranks
    double ep = s.kv.count("epoch") ? atof(s.kv["epoch"].c_str()) : 0;
    sim_epoch(ep ? ep + 16.0 * world_me : 0.0);
    sim_poison(s.kv.count("poison") ? atoi(s.kv["poison"].c_str()) : 0);
    for (size_t i = 0; i < s.ops.size(); i++) {
      { Writer w; w.i((int64_t) i); sim_send_msg(OP_OPSTART, w); }
      long before = heap_b;
      string r = run_op(s.ops[i]);
      if (s.ops[i].size() > 1 && objs.count(s.ops[i][1])) objs[s.ops[i][1]].held += heap_b - before;
      { Writer w; w.i((int64_t) i); w.s(r); sim_send_msg(OP_TRACE, w); }
    }
    fflush(stdout);
  }
}

int main(int argc, char **argv)
{
  if (argc < 3) { fprintf(stderr, "usage: fsim scenarios out\n"); return 2; }
  std::ifstream in(argv[1]);
  string line;
  while (std::getline(in, line)) {
    std::istringstream ss(line); vector<string> t; string x;
    while (ss >> x) t.push_back(x);
    if (t.empty()) continue;
    if (t[0] == "scn") {
      Scenario s; s.id = t[1]; s.P = atoi(t[2].c_str());
      for (size_t i = 3; i < t.size(); i++) { size_t p = t[i].find('='); if (p != string::npos) s.kv[t[i].substr(0, p)] = t[i].substr(p + 1); }
      scs.push_back(s);
    } else scs.back().ops.push_back(t);
  }
  FILE *f = fopen(argv[2], "w");
  if (!f) { perror(argv[2]); return 2; }
  int rc = coordinate(scs, f);
  fclose(f);
  return rc;
}
