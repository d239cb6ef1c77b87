#!/bin/bash
# Builds the harness once, so that the checks start from a warm build directory.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
build && build threads
