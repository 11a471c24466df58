#!/bin/bash
# Runs all the quick checks on the current tree.
cd "$(dirname "$0")/.." || exit 1
for i in $(seq -w 1 18); do
  timeout 900 ./check "C$i" quick > "/tmp/q_C$i.log" 2>&1
  echo "C$i rc=$? $(grep -E "quick seed|NO ANSWER" "/tmp/q_C$i.log" | tail -1 | cut -c1-160)"
done
