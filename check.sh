#!/bin/sh
# check.sh <property>... | all
cd "$(dirname "$0")" && exec python3-vt analysis/check.py "$@"
