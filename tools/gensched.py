#!/usr/bin/env python3
"""Go source of the types that the schedules of a plan are about: every line has
types of its own, so that it finds none of them prepared."""
import json, sys

out = ["//go:build vsched", "", "// Code generated by tools/gensched.py. DO NOT EDIT.", "package main", "", ]
table = []
for i, line in enumerate(open(sys.argv[1])):
    kids = json.loads(line)["s"].get("kids", [])
    names = [f"S{i}n{n}" for n in range(1, len(kids) + 1)]
    for n, ks in enumerate(kids, 1):
        fs = ["V int8"]
        for j, k in enumerate(ks):
            ref = ["*", "[]", "map[string]", "*", "[1]*", "[]*"][(i + n + 2 * j) % 6] + names[k - 1]
            if (i + j) % 7 == 3:
                ref = f"struct {{ X {ref} }}"
            fs.append(f"K{j} {ref}")
        body = "struct { " + "; ".join(fs) + " }"
        k = (i // 6 + n) % 8
        if k == 5:
            body = "[]" + body
        elif k == 6:
            body = "map[string]" + body
        out.append(f"type {names[n-1]} {body}")
    table.append("{" + ", ".join(f"(*{x})(nil)" for x in names) + "},")
print("\n".join(out))
print("\nvar schedTypes = [][]interface{}{")
print("\n".join(table))
print("}")
