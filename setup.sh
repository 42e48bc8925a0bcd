#!/bin/bash
# Checks that the analyser builds. Every check builds it again, from the same committed sources.
exec "$(cd "$(dirname "$0")" && pwd)/check.sh" --build-only
