#!/bin/bash
# Builds the engine; every check also builds it when it is missing.
exec bash "$(dirname "$0")/check.sh" build
