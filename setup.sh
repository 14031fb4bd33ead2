#!/bin/bash
# Builds the conformance harness once, so that a first check starts from a warm object cache.
cd "$(dirname "$0")"
mkdir -p build evidence
exec harness/build.sh build tools
