#!/bin/sh
# summary of one verifier run: sum.sh contract-file [vrun options]
f=$1; shift
python3-vt /verif/engine/vrun.py $f /tmp/s /tmp/s/$(basename $f).json "$@" > /tmp/s/log.txt 2>&1
python3 /verif/engine/show.py /tmp/s/$(basename $f).json | grep -v "  loop" | cut -c1-${W:-220} | head -${N:-40}
