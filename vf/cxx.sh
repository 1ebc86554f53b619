#!/bin/sh
# compiler launcher: leaves the instrumentation pass out for sources with no
# concurrency of their own (compile time only), and uses ccache when present
src=
for a in "$@"; do case "$a" in *.cpp) src=$a;; esac; done
case "$src" in
  */lib/Util/*|*/lib/ConfLoader/*|*/lib/Object/Builtin/*|*/lib/Proxy/Builtin/*|*/lib/Archive/*|*/lib/Testing/*|*JSON.cpp|*DotMarkup.cpp|*/Framework/DType.cpp|*/Framework/Packet.cpp|*/Framework/BufferConvert.cpp)
    n=$#
    while [ $n -gt 0 ]; do a=$1; shift; n=$((n-1)); [ "$a" = "-fsanitize=thread" ] || set -- "$@" "$a"; done;;
esac
command -v ccache >/dev/null 2>&1 && exec ccache "$@"
exec "$@"
