#!/bin/bash
# Runs with cwd /repo after its build: exit 0 when the behaviour shown by demo.cpp is right.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build
. "$D/np"            # NP: the number of processes
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_rmaps_base_oversubscribe=1
export OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_mpi_yield_when_idle=1
I=(); for d in pcu pcu/noto pcu/reel support agi partition partition/Diffusive partition/Diffusive/src partition/Multilevel partition/Metrics interfaces; do I+=("-I$R/$d"); done
L=$B/partition
mpicxx -std=c++11 -w -O1 -DLOCAL_ID_TYPE=int32_t -DLOCAL_ID_FTYPE=C_INT32_T "${I[@]}" -I"$D" "$D/demo.cpp" -o "$W/demo" \
  -Wl,--start-group "$B/interfaces/libinterfaces.a" "$L/libengpar.a" "$L/Diffusive/libdiffusive.a" "$L/Multilevel/libmultilevel.a" \
  "$L/Metrics/libengpar_metrics.a" "$B/agi/libagi.a" "$B/pcu/libpcu.a" "$B/support/libengpar_support.a" -Wl,--end-group \
  -lparmetis -lmetis /usr/lib/x86_64-linux-gnu/libtrilinos_zoltan.so -ldl || exit 2
cd "$W" && timeout 100 mpirun -np "$NP" "$W/demo" "$W"
