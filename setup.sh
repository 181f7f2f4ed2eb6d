#!/bin/bash
# Builds the simulators once.
cd "$(dirname "$0")" && sim/build.sh simlocal && sim/build.sh simremote
