# Compiles a demonstration against the repository in the current directory.
# usage: . common.sh; build SOURCE [repo sources...]; run NPROC [args]
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/gen/macis" "$T/gen/sparsexx" "$T/cwd"
conf() { sed -E "s@^#cmakedefine ($3)\b.*@#define \1@; s@^#cmakedefine.*@@" "$1" > "$2"; }
conf include/macis/macis_config.hpp.in "$T/gen/macis/macis_config.hpp" "${MPI_ON-MACIS_ENABLE_MPI}"
conf src/sparsexx/include/sparsexx/sparsexx_config.hpp.in "$T/gen/sparsexx/sparsexx_config.hpp" "S${MPI_ON-PARSEXX_ENABLE_MPI}"
export OMPI_CXX=g++ OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false
export OMPI_MCA_mpi_yield_when_idle=1 OMPI_MCA_hwloc_base_binding_policy=none OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
build() {
  mpicxx.openmpi -std=c++17 -O1 -w -fopenmp $FLAGS -I"$T/gen" -I"$D/shim" -I"$D/shim/mdspan" -I"$D" @INC@ -I/usr/include/eigen3 @DEFS@ "$@" -o "$T/demo" @LIBS@ || { echo "demo does not compile"; exit 3; }
}
run() {
  local n=$1; shift
  (cd "$T/cwd" && TMPDIR=$T timeout 200 mpirun.openmpi -n "$n" --oversubscribe "$T/demo" "$@" < /dev/null)
}
