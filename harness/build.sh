#!/bin/bash
# build.sh OUTDIR CXX "FLAGS" ["LIBFLAGS" [mon|python]]
# builds the worker from /repo/src (with LIBFLAGS, too) and this directory, or the Python module
set -e
OUT=$1; CXX=$2; FL=$3; LFL=$4; TARGET=${5:-mon}; REPO=${REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p $OUT/lib $OUT/h
export OUT CXX FL LFL REPO H
if [ $TARGET = python ]; then
  export PYI=$(/usr/bin/python3 -c 'import sysconfig; print(sysconfig.get_path("include"))')
  ( echo "$REPO/src/pybind11/main.cpp"; for f in $REPO/src/*.cpp; do echo "$f"; done ) | xargs -P 8 -L1 bash -c '
    $CXX -std=c++14 -w -fPIC -fvisibility=hidden $FL -I$REPO/include -isystem $REPO/pybind11/include -isystem $PYI -c $0 -o $OUT/lib/$(basename $0 .cpp).o || exit 255'
  $CXX $FL -shared $OUT/lib/*.o -o $OUT/stlrom.so
  $CXX -O1 -shared -fPIC $H/py/newcount.cpp -o $OUT/newcount.so
  exit 0
fi
( for f in $REPO/src/*.cpp; do echo "$f lib"; done; for f in $H/*.cpp; do echo "$f h"; done ) | xargs -P 8 -L1 bash -c '
  o=$OUT/$1/$(basename $0 .cpp).o
  inc="-I$REPO/include $LFL"; [ $1 = h ] && inc="-iquote $REPO/include -idirafter $REPO/include"  # include/signal.h shadows <signal.h>
  $CXX -std=c++14 -w $FL $inc -I$H -c $0 -o $o || exit 255'
$CXX $FL $OUT/lib/*.o $OUT/h/*.o -o $OUT/mon
