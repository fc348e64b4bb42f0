#!/bin/bash
# Compares the exploration of schedules with partial order reduction to the
# one without (both with sleep sets): the same schedules, up to equivalence,
# must be seen. Arguments: harness regexp, budget per harness (s).
cd "$(dirname "$0")/.."
for mode in naive dpor; do
	GOSYM_POR=$mode ./run.sh ${3:-SCHED} -nonative -only "${1:-P1}" -budget "${2:-120}" 2>&1 | grep -v counterexample
done
