#!/bin/bash
# Builds the engine, extracts the standard library bitcode and compiles /repo and the harnesses to IR.
cd "$(dirname "$0")" && exec python3 check.py --build
