# Compiles a demonstration against attic/cmz_ed of the repository in the current directory.
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/gen/cmz_ed" "$T/cwd"
sed -E "s@^#cmakedefine.*@@; s/@[A-Za-z_]+@/0/" attic/inc/cmz_ed/CMZedConfig.h.in > "$T/gen/cmz_ed/CMZedConfig.h"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
build() {
  g++ -std=c++20 -O1 -w -fopenmp -include memory -include optional -I"$T/gen/cmz_ed" -I"$T/gen" -Iattic/inc -Iattic/external/lobpcgxx/include -Iattic/external/sparsexx/include -I/usr/include/eigen3 -I/usr/lib/x86_64-linux-gnu/mpich/include "$@" -o "$T/demo" -llapackpp -lblaspp -llapack -lblas -lmetis -latomic -L/usr/lib/x86_64-linux-gnu/mpich/lib -lmpich || { echo "demo does not compile"; exit 3; }
}
run() { shift; (cd "$T/cwd" && timeout 200 "$T/demo" "$@" < /dev/null); }
