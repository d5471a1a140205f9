#!/bin/bash
# Builds every simulator once, offline; the checks then only rebuild what changed in /repo.
cd "$(dirname "$0")/sim" || exit 3
. ./env.sh
exec cargo build --offline --workspace
