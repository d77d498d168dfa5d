#!/bin/bash
# Builds all check binaries.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
build --bins
