#!/bin/bash
# Builds everything the checks need; run once.
cd "$(dirname "$0")" || exit 2
exec ./build.sh all
