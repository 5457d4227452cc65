#!/bin/bash
# build.sh OUTDIR SRCDIR FFT(kiss|fftw3) PREC(double|single): driver + library sources + simulated MPI
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; src="$2"; fft="$3"; prec="$4"
mkdir -p "$out"
defs="-DFFT_MEMALIGN=64"; libs=""
if [ "$fft" = fftw3 ]; then defs="$defs -DFFT_FFTW3"; libs="-lfftw3 -Wl,--wrap=fftw_execute_dft"; else defs="$defs -DFFT_KISS"; fi
if [ "$prec" = single ]; then defs="$defs -DFFT_SINGLE"; [ "$fft" = fftw3 ] && libs="-lfftw3f -Wl,--wrap=fftwf_execute_dft"; else defs="$defs -DFFT_DOUBLE"; fi
flags="-std=c++17 -O1 -g1 -fsanitize=address -fno-omit-frame-pointer -w"
inc="-I$here/simmpi -I$here -I$src"
cd "$out"
pids=()
for f in "$src"/*.cpp; do
  b=$(basename "$f" .cpp)
  g++ $flags $defs $inc -c "$f" -o "lib_$b.o" & pids+=($!)
done
for f in driver fftwrap simmpi/simmpi simmpi/coord; do
  g++ $flags $defs $inc -c "$here/$f.cpp" -o "h_$(basename $f).o" & pids+=($!)
done
(
  for f in "$src"/*_wrap.f90; do gfortran -cpp -O1 -w -J"$out" -c "$f" -o "fw_$(basename "$f" .f90).o" || exit 1; done
  gfortran -cpp -O1 -w -ffree-line-length-none -J"$out" -I"$out" -c "$here/fdrv.f90" -o fd_fdrv.o
) & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
g++ -fsanitize=address *.o -o fsim $libs -lgfortran -lm
