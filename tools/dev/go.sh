# go.sh PROP [runs] [seconds] [more args]
cd /verif && python3 tools/build.py uimasim 2>&1 | grep -A6 'error' | head -40; mkdir -p /tmp/o; rm -f /tmp/o/$1-*; P=$1; R=${2:-3000}; S=${3:-20}; shift 3
build/uimasim --prop $P --seed ${SEED:-1} --seconds $S --runs $R --jobs 8 --out /tmp/o --result /tmp/o/r.json "$@" | cut -c1-900
