#!/bin/bash
# Compiles the library sources of the current directory together with demo.cpp in a scratch folder and runs the result.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"; np=@NP@
export OMPI_CC=gcc OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm_rsh_agent=/bin/false OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_mpi_yield_when_idle=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 LC_ALL=C ASAN_OPTIONS=detect_leaks=0
w="$(mktemp -d)" || exit 2
trap 'find "$w" -delete' EXIT
flags="-O1 -std=c++20 -DUSE_PETSC -include $here/shim.hpp -fpermissive -w -I$repo/src -I/usr/lib/petsc/include -I$here @FLAGS@"
n=0; for f in $(find "$repo/src" -name '*.cpp') "$here/shim.cpp" "$here/demo.cpp"; do n=$((n+1)); echo "$f $w/$n.o"; done > "$w/list"
xargs -P 8 -L 1 bash -c 'mpicxx '"$flags"' -c "$0" -o "$1"' < "$w/list" || exit 2
mpicxx @FLAGS@ -o "$w/demo" "$w"/*.o -L/usr/lib/petsc/lib -lpetsc -lp4est -lsc -lz -llapack -lblas || exit 2
cd "$w" || exit 2
if [ "$np" = 1 ]; then timeout 120 ./demo; else timeout 120 mpirun --oversubscribe --bind-to none -np "$np" ./demo; fi
r=$?
[ $r = 0 ] && echo "demonstration passed" || echo "demonstration failed ($r)"
[ $r = 0 ]
