#!/bin/bash
# all.sh [tier] [seed]: every check in turn, results in /tmp/q_*.
cd "$(dirname "$0")/.."
for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21}; do
  VERIF_SEED=${2:-1} VERIF_TIER=${1:-quick} ./check.sh $p ${1:-quick} > /tmp/q_$p 2>&1; echo "exit $?" >> /tmp/q_$p
  grep -a "^C\|^VIOL\|^exit\|^KNOWN\|^harness" /tmp/q_$p | tr '\n' '|'; echo
done
