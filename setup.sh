#!/bin/bash
# Offline sanity of the toolchain: compiles the tools and the harness once (checks build again from /repo's tree).
set -u
cd "$(dirname "$0")" && exec ./check.sh selftest
