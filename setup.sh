#!/bin/bash
cd "$(dirname "$0")"
V="$PWD"
. "$V/tools/build.sh"
