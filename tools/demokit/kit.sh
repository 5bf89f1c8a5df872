# Sourced by demo.sh: builds the program from ./src (cwd = repository) in a scratch directory $W, against a
# direct-summation stand-in for ScalFMM (which is not installed), and sets $FG to the executable.
# Usage: . kit.sh [seq=1]   (KIT_DEFS: extra -D flags, KIT_VOID=1: do not build the program)
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/fgdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/home" "$W/run"
cp -r "$REPO"/src/. "$W/src/"
rm -rf "$W/src/CMakeFiles"
sed -e 's/@FEELLGOOD_VERSION@/demo/' -e "s/#cmakedefine01 ENABLE_SEQ/#define ENABLE_SEQ ${KIT_SEQ:-1}/" \
    -e "s/#cmakedefine01 ONE_GAUSS_POINT/#define ONE_GAUSS_POINT ${KIT_1G:-0}/" \
    -e "s/#cmakedefine01 FIRST_ORDER/#define FIRST_ORDER ${KIT_FO:-0}/" "$W/src/config.h.in" > "$W/src/config.h"
if [ -z "$KIT_VOID" ]; then
    (cd "$W/src" && ld -r -b binary -z noexecstack default-settings.yml -o defset.o &&
     ls *.cpp | xargs -P 8 -I{} g++ -std=c++17 -O1 -DNDEBUG -fopenmp -w $KIT_DEFS -I. -I"$HERE/stub" -c {} -o {}.o &&
     g++ *.cpp.o defset.o $KIT_OBJS -o "$W/feellgood" -lyaml-cpp -lduktape -lann -lgmsh -ltbb -fopenmp) > "$W/build.log" 2>&1 ||
        { tail -20 "$W/build.log"; echo "demo: build failed"; exit 99; }
    FG="$W/feellgood"
fi
export HOME="$W/home" FG PYTHONPATH="$HERE" PYTHONDONTWRITEBYTECODE=1; unset XDG_CONFIG_HOME
cd "$W/run"
# one tetrahedron "v" with its boundary "s" (nm coordinates)
cat > tet.msh <<'EOF'
$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
2
2 1 "s"
3 2 "v"
$EndPhysicalNames
$Nodes
4
1 0 0 0
2 10 0 0
3 0 10 0
4 0 0 10
$EndNodes
$Elements
5
1 4 2 2 2 1 2 3 4
2 2 2 1 1 1 3 2
3 2 2 1 1 1 2 4
4 2 2 1 1 1 4 3
5 2 2 1 1 2 3 4
$EndElements
EOF
