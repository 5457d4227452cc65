// every execution of a set of 1d transforms by FFTW costs what the clock in force says
void sim_exec_done();
extern "C" {
#define EXEC(f) \
  void __real_##f(void *, void *, void *); \
  void __wrap_##f(void *p, void *a, void *b) { __real_##f(p, a, b); sim_exec_done(); }
#ifdef FFT_FFTW3
#ifdef FFT_SINGLE
EXEC(fftwf_execute_dft)
#else
EXEC(fftw_execute_dft)
#endif
#endif
}
