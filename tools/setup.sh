#!/bin/bash
# Builds the IR dumper (the only compiled part of the framework); everything else is rebuilt from /repo by each check.
cd "$(dirname "$0")/.." && python3-vt -c "
import sys; sys.path.insert(0,'vcg'); import build; print(build.irdump())"
