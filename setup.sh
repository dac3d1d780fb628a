#!/bin/bash
# Builds everything once, from the committed files and /repo.
cd "$(dirname "$0")" || exit 4
mkdir -p evidence
exec bash build.sh
