#!/bin/sh
# par.sh FILE N OUTPREFIX : run a mutant file with N workers from a snapshot of /verif
S=/tmp/snap.$$; mkdir -p $S; cp -a /verif/. $S/; cd $S
i=0; while [ $i -lt $2 ]; do MUTCOPY=/tmp/mutcopy$i python3 dev/mut.py $1 "%$i/$2" > $3.$i 2>&1 & i=$((i+1)); done
wait; cat $3.? > $3; rm -f $3.?; rm -rf "$S"
