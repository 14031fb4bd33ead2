#!/bin/bash
# build.sh DIR [tools]: builds the conformance harness (and the command line programs) from /repo's
# current working tree into DIR (objects are cached by content hash there).  No file of /repo is written.
set -e
OUT=$1
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/obj" "$OUT/scratch"
D=/opt/vp/deps
S=$REPO/source
export CCF="-std=c++17 -O1 -w -D_GLIBCXX_ASSERTIONS -include cstdint -I$D/rapidjson-shim -I$S -I$HERE -I$HERE/shim -DJSON_SCHEMA_PATH=\"$OUT/noschema\""
LIB="$S/Types/src/*.cpp $S/Tools/src/*.cpp $S/IOHaptics/src/*.cpp $S/Spiht/src/*.cpp $S/FilterBank/src/*.cpp $S/WaveletDecoder/src/*.cpp
 $S/PsychohapticModel/src/PsychohapticModel.cpp"
HDRS=$(cat $(find $S -name '*.h') $HERE/*.h $HERE/shim/*.h | sha1sum | cut -c1-16)
export OUT HDRS
compile() {
  src=$1
  key=$( (echo "$HDRS $CCF $src"; cat "$src") | sha1sum | cut -c1-24)
  o=$OUT/obj/$key.o
  [ -f "$o" ] || { g++ $CCF -c "$src" -o "$o.tmp$$" && mv "$o.tmp$$" "$o"; } || exit 255
  echo "$o"
}
export -f compile
# link NAME SOURCE...: SOURCE may be a pattern
link() {
  name=$1
  shift
  ls $@ | xargs -P 8 -I{} bash -c 'compile {}' > "$OUT/objs.$name.$$" || { echo "build of $name failed" >&2; /bin/rm -f "$OUT/objs.$name.$$"; exit 3; }
  g++ $(sort -u "$OUT/objs.$name.$$") -o "$OUT/$name.$$" -lpugixml && mv "$OUT/$name.$$" "$OUT/$name"
  /bin/rm -f "$OUT/objs.$name.$$"
}
ENC="$(ls $S/Encoder/src/*.cpp | grep -v /main.cpp) $S/Synthesizer/src/Helper.cpp"
link hx $LIB $ENC $HERE/*.cpp
if [ "$2" = tools ]; then
  link decoder $LIB $S/Decoder/src/*.cpp
  link encoder $LIB $S/Encoder/src/*.cpp
  link synthesizer $LIB $S/Synthesizer/src/*.cpp
fi
