#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
