#!/bin/bash
# Builds the framework from the committed files, offline.
cd "$(dirname "${BASH_SOURCE[0]}")" && exec bash build.sh
