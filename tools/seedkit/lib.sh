# Sourced by demo.sh.  Builds a small program from sources of the current
# directory (the repository) and the files beside demo.sh.
set -u
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc/third_party/abseil" "$W/o" "$W/run"
cp -r /usr/include/absl "$W/inc/absl"
[ -d "$H/absl" ] && cp -r "$H/absl/." "$W/inc/absl/"
if [ -d "$H/quipper" ]; then
  cp -r "$H/quipper" "$W/inc/quipper"
  mkdir -p "$W/pb"
  protoc -I"$H/quipper" --cpp_out="$W/pb" "$H/quipper/perf_data.proto" || exit 3
  PBS="$W/pb/perf_data.pb.cc"
fi
mkdir -p "$W/inc/base"
echo '#include <gflags/gflags.h>' > "$W/inc/base/commandlineflags.h"
[ -f "$H/commandlineflags.h" ] && cp "$H/commandlineflags.h" "$W/inc/base/"
ln -s ../../absl "$W/inc/third_party/abseil/absl"
FLAGS="-std=c++17 -O1 -w -include filesystem -I$W/inc -I$PWD -I$PWD/util -I$W/pb -I$H"
LIBS="-Wl,--start-group $(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v -e test -e log_internal -e absl_log -e die_if -e scoped_mock -e benchmark | tr '\n' ' ') -Wl,--end-group -lprotobuf -lglog -lgflags -lelf -lcrypto -lpthread"
SYM="util/symbolize/addr2line_inlinestack.cc util/symbolize/bytereader.cc util/symbolize/functioninfo.cc util/symbolize/dwarf2reader.cc util/symbolize/dwarf3ranges.cc util/symbolize/elf_reader.cc util/symbolize/index_helper.cc"
PROF="$SYM gcov.cc profile_reader.cc profile_writer.cc symbol_map.cc source_info.cc legacy_addr2line.cc"
llvm_mode() {
  FLAGS="$FLAGS -DHAVE_LLVM=1 -include absl/strings/str_format.h -isystem /usr/lib/llvm-20/include"
  LIBS="$LIBS -L/usr/lib/llvm-20/lib -lLLVM-20"
}
protos() {  # protos name...: generated from the repository's .proto files
  mkdir -p "$W/pb"
  for p in "$@"; do protoc -I. --cpp_out="$W/pb" "$p.proto" || exit 3; PBS="${PBS:-} $W/pb/$p.pb.cc"; done
  LIBS="$LIBS -lprotobuf"
}
build() {  # build file...: repository sources (plus demo.cc beside demo.sh) -> $W/demo
  for s in "$@" ${PBS:-} "$H/demo.cc"; do
    echo "g++ $FLAGS -c $s -o $W/o/$(echo $s | tr / _).o"
  done | xargs -P 8 -I{} sh -c '{}' || exit 3
  g++ "$W"/o/*.o -o "$W/demo" $LIBS || exit 3
}
run() { (cd "$W/run" && timeout 120 "$W/demo" "$W/run" "$@"); }
