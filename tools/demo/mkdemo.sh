#!/bin/bash
# mkdemo.sh DIR: puts the simulator (without oracle and generator) beside a
# planted bug's demo as sim.tgz, with a demo.sh that runs scenario.json and check.py
here=$(cd "$(dirname "$0")" && pwd); root=$here/../..
t=$(mktemp -d)
mkdir -p $t/bin $t/sim
cp $root/bin/build.py $t/bin/
cp -r $root/sim/{kernel.cpp,kernel.hpp,world.cpp,world.hpp,simapi.hpp,sowrap.cpp,gen_pdi.py,shim} $t/sim/
rm -rf $t/sim/shim/__pycache__
cp $here/demo_main.cpp $t/sim/
f=$(grep -rl /verif/ $t || true); [ -z "$f" ] || sed -i "s:/verif/::g" $f
tar -C $t --sort=name --mtime=2026-01-01 --owner=0 --group=0 -czf $1/sim.tgz bin sim
rm -rf $t
cp $here/demo.sh $1/demo.sh
