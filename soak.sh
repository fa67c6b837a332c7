#!/bin/bash
# Development aid: runs every check one after another with other seeds. usage: soak.sh SECONDS SEED [PROP...]
t=$1; seed=$2; shift 2
for p in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18}; do
	K8PSH_TIME=$t VERIF_SEED=$seed python3 "$(dirname "$0")/check.py" $p quick > /tmp/soak-$p.txt 2>&1 || { echo "== $p rc $?"; }
	grep "^violated\|^ERROR\|runs in" /tmp/soak-$p.txt | cut -c1-400
done
