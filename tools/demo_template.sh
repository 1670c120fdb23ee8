#!/bin/bash
# Builds the demonstration against the sources under ./src and runs it in a scratch directory: exit 0 = behaves as specified.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
. /opt/vp/plato/env.sh
L=""; for l in epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore; do L="$L -ltrilinos_$l"; done
mpicxx -std=c++14 -w -O1 -DPLATOANALYZE_2D -DPLATOANALYZE_3D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC -DPLATO_HYPERBOLIC -DPLATO_STABILIZED -DPLATO_PLASTICITY @DEFS@ \
  -I"$R/src" -I/usr/include/trilinos -include /opt/vp/plato/compat.hpp "$D/demo.cpp" @SRC@ -o "$T/demo" $L -ldl -lpthread || exit 3
cd "$T" && timeout 120 ./demo
