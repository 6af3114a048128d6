#!/bin/bash
# Runs, for each planted bug (arguments, default all), the quick check of its own property in /repo,
# and records the result in tools/caught.txt.
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  l=$(bash tools/seed.sh --check $i $p)
  echo "$l"
  touch tools/caught.txt; sed -i "/^$i /d" tools/caught.txt
  echo "$l" | cut -d' ' -f1-3 >> tools/caught.txt
done
sort -o tools/caught.txt tools/caught.txt
