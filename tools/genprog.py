#!/usr/bin/env python3
"""Go source of the programs that MC_Programs enumerates (a table of types)."""
import json, sys

table = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else []
name = {}
for i, t in enumerate(table, 1):
    if t["k"] in ("struct", "int") and i > 1:
        low = i == 3 or (i > 3 and i % 2 == 0)
        name[i] = ("g" if low else "G") + str(i)


def typ(i):
    t = table[i - 1]
    if i == 1:
        return "int"
    return "*" + typ(t["e"]) if t["k"] == "ptr" else name[i]


out = ["// Code generated by tools/genprog.py. DO NOT EDIT.", "package main", ""]
for i, t in enumerate(table, 1):
    if t["k"] == "int" and i > 1:
        out.append(f"type {name[i]} int")
    if t["k"] != "struct":
        continue
    fs = []
    for f in t["f"]:
        tag = bytes(f["tag"]).decode()
        n = "" if f["a"] else bytes(f["n"]).decode() + " "
        fs.append(n + typ(f["t"]) + (f' `json:"{tag}"`' if tag else ""))
    out.append(f"type {name[i]} struct {{ {'; '.join(fs)} }}")
out.append("\nvar progTypes = []interface{}{")
out += [f"\t(*{name[i]})(nil)," for i, t in enumerate(table, 1) if t["k"] == "struct"]
out.append("}")
print("\n".join(out))
