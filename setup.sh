#!/bin/sh
# builds the rustc driver from the committed files
cd "$(dirname "$0")" && exec python3-vt -B -c "import sys; sys.path.insert(0, 'tools'); import extract; extract.build_driver(); print('driver ready')"
