#!/bin/bash
cd /verif && python3 tools/genprops.py && python3 tools/genmanifest.py && git add -A && git commit -qm "${1:-Work}" ; git status --short | head -3
