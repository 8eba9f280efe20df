# cc.sh SRC OUT [extra libs]: compile a demonstration against the libraries built in /repo/build/release
R=/repo/build/release
src=$1; out=$2; shift 2
g++ -DHAVE_AIPSPP -DHAVE_QDBM -DMAKE_LOFAR_SYMBOLS_GLOBAL -DSTRIP_CUDA -DUSE_STD_COMPLEX -DUSE_THREADS -D_GNU_SOURCE -I$(dirname $src) -I$R/include -I$R/MEQ -I/usr/include/casacore -I/usr/include/python3.12 -include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT -O1 -DNDEBUG -fPIC -std=c++17 -w "$src" -o "$out" \
 -L$R/MEQ -L$R/DMI -L$R/TimBase -L$R/OCTOPUSSY -L$R/MeqServer -L$R/VisCube -L$R/AppAgent/AppAgent "$@" -ldmi -ltimbase \
 -Wl,-rpath,$R/MEQ:$R/DMI:$R/TimBase:$R/OCTOPUSSY:$R/MeqServer:$R/VisCube:$R/AppAgent/AppAgent:$R/MeqNodes:$R/AppAgent/AppUtils:$R/MeqMPI -lpthread || exit 99
