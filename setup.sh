#!/bin/bash
# Offline set-up: nothing to install. Checks that the tools are there and that
# every specification parses; the checks build what they need themselves.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
for t in g++ java javac python3 mpirun; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
cd spec
for f in *.tla; do
  java -cp $J tla2sany.SANY "$f" > ../build/sany.log 2>&1 || { cat ../build/sany.log; exit 1; }
done
cd ..
python3 -c 'import sys; sys.path.insert(0, "lib"); import vf; vf.num_jar()'
echo "setup ok"
