DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cd "$w"
bash "$here/cc.sh" "$here/demo.cc" "$w/demo" %s || exit 99
timeout 120 "$w/demo"
'''
MSLIBS = "-Wl,--no-as-needed -lmeqserver /repo/build/release/MeqNodes/libmeqnodes.so /repo/build/release/AppAgent/AppUtils/libapputils.so -lappagent -lmeq -lviscube /repo/build/release/OCTOPython/octopython.so -Wl,-rpath,/repo/build/release/OCTOPython -lpython3.12 -loctopussy -Wl,--allow-shlib-undefined"
