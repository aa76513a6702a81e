#!/bin/bash
# Builds the fact-writing driver and extracts the facts once, so that each check only re-extracts what changed.
set -e
cd "$(dirname "$0")"
python3 -B sa/extract.py tiny full
