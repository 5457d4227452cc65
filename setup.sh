#!/bin/bash
# nothing needs to be installed: verifies that the tools are there and that the specification parses
set -e
cd "$(dirname "$0")"
command -v g++ gfortran java python3 >/dev/null
mkdir -p .work evidence
for m in FftTrace FftGen FftSmall CommProg Pipeline Tune; do
  FFT_COS=$PWD/spec/cos.json java -Djava.io.tmpdir=$PWD/.work -cp /opt/veriftools/tla/tla2tools.jar:$(ls /opt/veriftools/tla/*.jar | tr '\n' ':') -DTLA-Library=$PWD/spec tla2sany.SANY spec/$m.tla > .work/sany.log 2>&1 || { cat .work/sany.log; exit 1; }
done
find "$PWD/.work" -maxdepth 1 -name "tlc-*" -exec rm -rf {} +
echo setup ok
