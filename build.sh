#!/bin/bash
# Builds the harness and the code under test from the working tree of /repo.
# usage: build.sh            (VERIF_REPO and VERIF_BUILD override the locations)
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
out=${VERIF_BUILD:-$here/build}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CFLAGS CXXFLAGS LDFLAGS CC CXX
mkdir -p "$out"
exec 9>"$out/.lock"
flock 9
# The stamp is over file contents, so a tree whose time stamps went backwards
# is still rebuilt.
sum=$(cd "$repo" && find . -path ./_build -prune -o -path ./.git -prune -o -type f \( -name '*.c' -o -name '*.cpp' -o -name '*.h' -o -name '*.cc' -o -name CMakeLists.txt -o -name '*.cmake' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
hsum=$(cd "$here" && sha256sum build.sh harness/* | sha256sum)
stamp="$sum $hsum $repo"
if [ -f "$out/stamp" ] && [ "$(cat "$out/stamp")" = "$stamp" ]; then exit 0; fi
rm -f "$out/stamp"
if [ -f "$out/srcsum" ] && [ "$(cat "$out/srcsum")" != "$sum" ]; then
  # force recompilation of everything that belongs to the code under test
  for v in pat zero; do rm -rf "$out/$v/repo" "$out/$v/CMakeFiles/autotraceCppLib.dir"; done
fi
san="-fsanitize=address,bounds,integer-divide-by-zero,vla-bound,unreachable,return -fno-sanitize-recover=all -fno-omit-frame-pointer"
for v in pat zero; do
  if [ $v = pat ]; then init=pattern; else init=zero; fi
  fl="-O1 -g1 $san -ftrivial-auto-var-init=$init"
  cmake -S "$here/harness" -B "$out/$v" -G Ninja -DREPO="$repo" -DCMAKE_BUILD_TYPE=None \
    -DCMAKE_C_COMPILER=clang -DCMAKE_CXX_COMPILER=clang++ "-DCMAKE_C_FLAGS=$fl" "-DCMAKE_CXX_FLAGS=$fl" \
    -DCMAKE_DISABLE_FIND_PACKAGE_ImageMagick=ON >"$out/cmake-$v.log" 2>&1 || { cat "$out/cmake-$v.log" >&2; exit 3; }
  ninja -C "$out/$v" vprop autotrace >"$out/ninja-$v.log" 2>&1 || { tail -60 "$out/ninja-$v.log" >&2; exit 3; }
done
for l in de_DE.UTF-8 fr_FR.ISO-8859-1 ps_AF.UTF-8; do
  [ -f "$out/locale/$l/LC_NUMERIC" ] && continue
  mkdir -p "$out/locale"
  localedef -i "${l%%.*}" -f "${l#*.}" "$out/locale/$l" >"$out/localedef.log" 2>&1 || [ -f "$out/locale/$l/LC_NUMERIC" ] || { cat "$out/localedef.log" >&2; exit 3; }
done
echo "$sum" >"$out/srcsum"
echo "$stamp" >"$out/stamp"
