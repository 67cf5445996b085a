#!/bin/bash
# Run in the repository after its build: exit 0 when the property holds, non-zero when it is broken.
# Compiles the sources of the current tree and demo.cpp in a scratch directory and runs the result on NP process(es).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd); repo=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf -- "$W"' EXIT
export OMPI_CC=gcc OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm_rsh_agent=/bin/false \
       OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export W FLAGS="-std=gnu++20 -O1 -DUSE_PETSC -fpermissive -w -include functional -include $here/shim.hpp -I$repo/src -I$here -I/usr/lib/petsc/include"
{ find "$repo/src" -name '*.cpp' -print; echo "$here/demo.cpp"; echo "$here/shim.cpp"; } |
    xargs -P 8 -I{} bash -c 'mpicxx $FLAGS -c "{}" -o "$W/$(echo "{}" | tr / _).o"' || { echo "does not compile"; exit 8; }
mpicxx "$W"/*.o -L/usr/lib/petsc/lib -Wl,-rpath,/usr/lib/petsc/lib -lpetsc -lp4est -lsc -lz -llapack -lblas -o "$W/demo" || exit 8
cd "$W" || exit 9
run=(timeout -k 5 100 ./demo)
[ NP -gt 1 ] && run=(timeout -k 5 100 mpirun --oversubscribe --bind-to none -np NP ./demo)
"${run[@]}" > "$W/out.txt" 2> "$W/err.txt"; rc=$?
grep '^DEMO' "$W/out.txt" "$W/err.txt" | head -20
echo "exit status $rc"
exit $rc
