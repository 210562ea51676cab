# Sourced by demo.sh, with cwd the repository: compiles the parts of the
# library named in LIBS and demo.cc, with stand-ins for the libraries this
# machine lacks, and runs the result in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
FLAGS="${FLAGS:--O1}"
case "$LIBS" in
  dpf) dirs="dpf" ;;
  dcf) dirs="dpf dcf" ;;
  pir) dirs="dpf pir" ;;
esac
mkdir -p "$out/gen" "$out/obj"
srcs=""
for d in $dirs; do
  for p in $(find $d -name '*.proto'); do
    protoc -I. --cpp_out="$out/gen" $p || exit 2
    python3 "$here/patch_pb.py" "$out/gen/${p%.proto}.pb.h" || exit 2
    srcs="$srcs $out/gen/${p%.proto}.pb.cc"
  done
  for f in $(find $d -name '*.cc' ! -name '*_test.cc' ! -name '*_benchmark.cc' ! -name 'status_matchers.cc' ! -path 'pir/testing/*'); do
    srcs="$srcs $repo/$f"
  done
done
CXX="clang++ -std=c++17 -fclang-abi-compat=17 $FLAGS -w -I$here/shim -I$repo -I$out/gen -isystem /usr/include/android"
for s in $srcs "$here/demo.cc"; do
  echo "$CXX -c $s -o $out/obj/$(echo "$s" | sha1sum | cut -c1-16).o"
done > "$out/cmds"
xargs -P 8 -d '\n' -I{} sh -c '{} || exit 255' < "$out/cmds" || exit 2
ABSL="$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.so | sed 's/.*lib\(absl_[a-z0-9_]*\)\.so/-l\1/' | tr '\n' ' ')"
clang++ $FLAGS "$out"/obj/*.o -o "$out/demo" -lprotobuf -lfarmhash -lhwy $ABSL \
  /usr/lib/x86_64-linux-gnu/android/libcrypto.so -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android -pthread || exit 2
cd "$out" && timeout 200 ./demo
