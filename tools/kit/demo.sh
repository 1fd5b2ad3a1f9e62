#!/bin/bash
# Builds demo.cpp with the sources its first lines name and runs it: 0 when the
# behaviour it demonstrates is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
tar -xzf "$here/kit.tgz" -C "$w" || exit 3
src=$(sed -n 's,^// SOURCES: ,,p' "$here/demo.cpp")
config=$(sed -n 's,^// CONFIG: ,,p' "$here/demo.cpp")
on=0; [ "$config" = V1 ] && on=1
mkdir "$w/cfg" "$w/o" "$w/scratch"
for n in STRICT_FAILSAFE_PWM OFFLINE_FAILSAFE_PWM UNC_FAILSAFE HANDLE_MISSING_OBJECT_PATHS; do echo "#define $n $on"; done > "$w/cfg/config.h"
flags="-std=c++23 -O0 -w -pipe -D_GLIBCXX_ASSERTIONS -DBOOST_ASIO_DISABLE_EPOLL -DBOOST_ASIO_DISABLE_EVENTFD -DBOOST_ASIO_DISABLE_TIMERFD"
flags="$flags -I$w/cfg -I$w/kit/shim -I$w/kit -I$repo"
for d in buildjson dbus errors ipmi notimpl pid sensors sysfs; do flags="$flags -I$repo/$d"; done
if [ "$src" = all ]; then
    src=$(sed -n "/^libswampd_sources/,/^]/s/.*'\(.*\.cpp\)'.*/\1/p" meson.build)
    extra="redirect.cpp loop.cpp"
fi
{
    for f in $src; do echo "$repo/$f"; done
    for f in shim/sim/simbus.cpp vclock.cpp $extra; do echo "$w/kit/$f"; done
    echo "$here/demo.cpp"
} > "$w/list"
k=0
while read -r f; do
    k=$((k + 1)); m=
    [ "$f" = "$repo/main.cpp" ] && m=-Dmain=swampd_main
    echo "g++ $flags $m -c '$f' -o '$w/o/$k.o'"
done < "$w/list" > "$w/cmds"
xargs -d '\n' -P "$(nproc)" -n 1 sh -c < "$w/cmds"  2>&1 || { echo "demo does not build"; exit 4; }
g++ "$w"/o/*.o -o "$w/demo" -ldl -pthread || { echo "demo does not link"; exit 4; }
DEMO_SCRATCH="$w/scratch" timeout 100 "$w/demo"
