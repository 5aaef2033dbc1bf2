# common part of the demonstrations: cwd is the repository, $GEN the built generator, $W a scratch directory
set -u
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
GEN=$PWD/_build/coderdbc
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
# gen <dbc text> [options...]: generates into $W/out with the driver name drv
gen() { printf '%s' "$1" > "$W/in.dbc"; shift; "$GEN" -dbc "$W/in.dbc" -out "$W/out" -drvname drv -rw "$@" > "$W/log" 2>&1; }
# build <main.c text> [compiler flags...]: compiles the generated package with the main file
build() {
  printf '%s' "$1" > "$W/main.c"; shift
  gcc -std=c11 -w "$@" -I"$W" -I"$W/out/lib" -I"$W/out/conf" -I"$W/out/inc" -I"$W/out/butl" "$W/main.c" "$W"/out/lib/*.c \
    $(ls "$W"/out/usr/*.c 2>/dev/null) $(ls "$W"/out/butl/*.c 2>/dev/null) -o "$W/prog" -lm
}
fail() { echo "DEMO FAILS: $*"; exit 1; }
