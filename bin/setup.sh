#!/bin/bash
# Builds the simulator and warms the cache for mofmt itself.
. "$(dirname "$0")/env.sh"
build_sim && build_mofmt
