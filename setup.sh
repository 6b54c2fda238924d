#!/bin/bash
# Builds the harness (public-interface and hooked variants) from the committed files, offline.
exec bash "$(dirname "$0")/check.sh" build
