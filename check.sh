#!/bin/bash
# Usage: check.sh PROPERTY [options of vmon.run]
cd "$(dirname "$0")" || exit 2
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
export OMPI_MCA_orte_abort_on_non_zero_status=0
export OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_mpi_yield_when_idle=1
scratch=$(mktemp -d /tmp/vmon-check.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export TMPDIR=$scratch MPLCONFIGDIR=$scratch/mpl
export PYTHONPATH=$PWD:${VMON_REPO:-/repo}
/opt/venv/bin/python -W ignore -m vmon.run "$@"
