#!/bin/bash
# Nothing to fetch: checks that the toolchain the checks use is there and
# prepares the (git-ignored) work directory.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 -m k2v.setup
