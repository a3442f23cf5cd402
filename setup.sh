#!/bin/bash
# Build the analysis driver and the type-checked standard library it reads.
set -e
cd "$(dirname "$0")"
export PATH=/root/.cargo/bin:$PATH
python3 check.py setup
