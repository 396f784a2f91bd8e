#!/bin/bash
# builds the extraction driver and warms the dependency metadata
cd "$(dirname "$0")" || exit 2
exec python3 -c 'from jbk import facts; facts.load("release", which=("lib","bin")); facts.load("debug", which=("lib","bin")); print("setup ok")'
