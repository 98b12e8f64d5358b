#!/bin/bash
# Nothing is kept between runs; this only shows that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
g++ --version | head -1; clang++ --version | head -1; python3 --version
chmod +x check.py
