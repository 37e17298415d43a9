#!/bin/bash
# Builds the harness once so that the first check does not pay for a cold build.
exec "$(dirname "$0")/build.sh"
