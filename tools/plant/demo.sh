#!/bin/bash
# run in the repository after its build; builds and runs the demonstration beside this file
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 99
R=_build/tree
gcc -O1 -w -fopenmp -DVERSION='"0"' -DGBYTE_ORDER=BYTE_ORDER_LE -DNATIVE_SIZE=NATIVE_SIZE_64_BIT -DUNIX -DPLATFORM=LINUX_GCC -I$R/src -I$R/misc -I$R/interfaces -I$R/utils -I"$H" -o $T/demo "$H/demo.c" $R/src/libxrtm.a $R/misc/libxrtm_misc.a -lopenblas -lgfortran -lm -lpthread || { rm -r "$T"; exit 98; }
OPENBLAS_NUM_THREADS=1 timeout 120 $T/demo; S=$?
rm -r "$T"; exit $S
