#!/bin/sh
# builds the verifier from the committed files
cd "$(dirname "$0")/.." && make -s -C vc && mkdir -p evidence work
