#!/bin/bash
# Rewrites the table of planted bugs at the end of DESIGN.md
cd "$(dirname "$0")/.."
sed -i '/^<!-- planted bugs -->$/,$d' DESIGN.md
{ echo '<!-- planted bugs -->'; python3 tools/seed_table.py; } >> DESIGN.md
