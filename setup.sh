#!/bin/sh
# Build the instrumented variants and every harness once (offline, idempotent).
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
import sys
sys.path.insert(0, "py")
import check, props
seen = set()
for p in props.PROPS:
    for part in p["parts"]:
        if isinstance(part, props.Cases) and (part.harness, part.variant) not in seen:
            seen.add((part.harness, part.variant))
            check.harness_bin(part.harness, part.variant)
print("built", len(seen), "harnesses")
P
