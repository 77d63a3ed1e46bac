#!/bin/sh
# Nothing to build: checks that the tools and specifications are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence work
cd spec || exit 1
for f in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    tla2sany.SANY "$f" > ../work/sany.out 2>&1 || { cat ../work/sany.out; exit 1; }
  if grep -q -E "errors|Fatal" ../work/sany.out; then cat ../work/sany.out; exit 1; fi
done
cd ..
/opt/venv/bin/python -W ignore -c "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, '/repo'); import region.p_regions.azp" > work/import.out 2>&1 || { cat work/import.out; exit 1; }
echo setup ok
