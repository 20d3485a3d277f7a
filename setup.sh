#!/bin/bash
# Checks build what they need themselves; this only verifies that the tools are present.
cd "$(dirname "$0")" || exit 1
. ./env.sh
cargo --version && rustc --version && node --version && python3 --version
