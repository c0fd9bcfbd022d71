#!/bin/bash
# builds the explorer once, so that the build cache is warm
exec "$(dirname "$0")/check.sh" build -
