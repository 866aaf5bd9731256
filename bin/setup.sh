#!/bin/bash
# warms the build cache; checks build what they need themselves
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
bash "$(dirname "$0")/build.sh" "$d"
