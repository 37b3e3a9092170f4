#!/bin/bash
# Builds the monitors once, so that a broken toolchain shows before any check runs.
here="$(cd "$(dirname "$0")" && pwd)"
exec bash "$here/run.sh" -list
