#!/bin/bash
# Nothing to install: checks build what they need. Verifies that the tools are there.
set -e
cd "$(dirname "$0")/.."
clang++ --version | head -1
python3 --version
mkdir -p evidence .build
