#!/bin/bash
# builds the AST exporter (checks also build it on demand)
cd "$(dirname "$0")" && python3-vt -c 'import run; run.build_exporter()'
