#!/bin/bash
# usage: run.sh <property>   (VERIF_TIER, VERIF_SEED from the environment)
cd "$(dirname "$0")" && exec python3 "checks/$1.py"
