#!/usr/bin/env bash
# builds the MIR driver and type-checks the dependencies once (every check can also do this by itself)
cd "$(dirname "$0")" || exit 1
python3-vt sa/build.py default
