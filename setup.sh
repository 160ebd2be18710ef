#!/bin/bash
# Builds the harness once so that the Go build cache is warm; every check builds again from /repo's tree.
cd "$(dirname "$0")" && exec bash run.sh --build
