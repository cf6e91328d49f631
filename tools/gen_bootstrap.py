#!/usr/bin/env python3
"""Records in bootstrap.json the hash of library sources whose boot file is the one in the tree (see vp.boot_differs)."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vp
a, b = vp.build("plain"), vp.build("plain", regen=True)
same = open(a + "/src/boot/s/boot.min").read() == open(b + "/src/boot/s/boot.min").read()
print(vp.library_hash(), same)
if same:
    p = vp.ROOT + "/bootstrap.json"
    with open(p, "w") as f:
        json.dump({"fixpoints": [vp.library_hash()]}, f)
        f.write("\n")
