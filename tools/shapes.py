#!/usr/bin/env python3
"""regenerates specs/shapes.json (the loops and the local names of each function under contract) from the current tree"""
import json, os, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with tempfile.TemporaryDirectory() as d:
    subprocess.run([V + "/target/vx/release/vx", "/repo/src", V + "/specs", d + "/o.rs", d + "/o.json"], check=True)
    f = json.load(open(d + "/o.json"))["functions"]
json.dump({x["key"]: {"loops": x["shape"], "names": x["names"]} for x in sorted(f, key=lambda x: x["key"]) if x["shape"] or x["names"]}, open(V + "/specs/shapes.json", "w"), indent=0, separators=(",", ":"))
