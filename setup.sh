#!/bin/bash
# Builds the extractor. Everything else is interpreted.
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0,"."); from sa import run; run.build_tool()'
