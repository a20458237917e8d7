#!/bin/bash
# Builds demo.cpp (beside this file) against the libraries that build.sh made
# and runs it under Wine in a scratch directory.  Exit 0: behaves; 1: broken.
D=$(cd "$(dirname "$0")" && pwd)
R=${REPO:-/repo}
B=$R/.build/gmake
G=$R/.build/gen
W=$(mktemp -d /tmp/demo.XXXXXX)
export LC_ALL=C.UTF-8 HOME=/root WINEPREFIX=$W/prefix WINEDEBUG=-all WINEDLLOVERRIDES="mscoree=;mshtml=;winemenubuilder.exe=;winedbg.exe="
cleanup() { WINEPREFIX=$W/prefix /usr/lib/wine/wineserver -k 2>/dev/null; sleep 0.3; rm -rf "$W"; }
trap cleanup EXIT
INC=
for i in app/src core/include core/include/core core/src lib/include lib/include/lib lib/src lua/include lua/include/lua lua/src process/include terminal/include terminal/src test/src; do INC="$INC -I$R/clink/$i"; done
INC="$INC -I$G -I$R/wildmatch/wildmatch -I$R/lua/src -I$R/readline -I$R/readline/compat -I$R/getopt -idirafter $G/shim"
CXX=x86_64-w64-mingw32-g++-posix
L=$B/bin/debug
$CXX -std=c++17 -fpermissive -w -O0 -DDEBUG -D_DEBUG -DHAVE_CONFIG_H -DHANDLE_MULTIBYTE -D__MSVCRT_VERSION__=0x0601 -D_WIN32_WINNT=0x0601 -DWINVER=0x0601 "-DCLINK_BUILD_ROOT=\"$B\"" $INC \
  -o "$W/demo.exe" "$D/demo.cpp" $EXTRA_SRC -static -Wl,--start-group $L/libclink_app_common.a $L/libclink_core.a $L/libclink_lib.a $L/libclink_lua.a $L/libclink_process.a $L/libclink_terminal.a $L/libwildmatch.a $L/liblua.a $L/libreadline.a $L/libdetours.a $L/libgetopt.a -Wl,--end-group \
  -lversion -lshlwapi -lrpcrt4 -lgdi32 -lole32 -ldbghelp -lkernel32 -luser32 -ladvapi32 -lshell32 -loleaut32 -luuid -lcomdlg32 || { echo "demo does not build"; exit 3; }
timeout 100 wineboot -i >/dev/null 2>&1
mkdir "$W/scratch"; cd "$W/scratch"
timeout 120 wine "$W/demo.exe" </dev/null
rc=$?
echo "exit code $rc"
exit $rc
