#!/bin/bash
# builds the THIR dumper and the dependencies' metadata, offline
set -e
cd "$(dirname "$0")"
python3 -m qsa.dump
