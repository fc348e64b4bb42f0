#!/bin/bash
# Tests the search for data races: none is seen in the ordered programs of
# harness/inpkg/race.go and one in each of the unordered ones.
cd "$(dirname "$0")/.."
./run.sh RACE -nonative | grep -v "^check.*loaded"
for k in $(seq 0 10); do
	./run.sh RACY -nonative -v -bounds kind=$k | grep -q "violation race" && echo "race $k seen" || echo "race $k MISSED"
done
