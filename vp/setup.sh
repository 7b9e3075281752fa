#!/bin/bash
cd "$(dirname "$0")/.." && python3 -c "
import sys; sys.path.insert(0,'vp'); import build; print(build.engine()); build.lib_ir()"
