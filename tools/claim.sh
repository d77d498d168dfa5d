#!/bin/bash
# regenerate MANIFEST.json: claims every property that has a level note
cd "$(dirname "$0")/.." && python3-vt tools/manifest.py "$(python3 -c 'import json; print(",".join(json.load(open("tools/levelnotes.json"))))')"
