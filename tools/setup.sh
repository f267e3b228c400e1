#!/bin/sh
# builds the engine, the std bitcode, the IR of the current tree and the native replay programs
exec python3 "$(dirname "$0")/pipeline.py"
