#!/bin/bash
# Builds the framework from the committed files, offline: the harness in every configuration the checks use.
set -e
cd "$(dirname "$0")"
mkdir -p work evidence
exec python3 lib/setup.py
