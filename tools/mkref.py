"""Record the trees of the sample files: vlib/ref/samples.json."""
import base64
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import env, corpus, formats  # noqa

import hachoir.core.config as config
config.quiet = True
try:
    old = json.load(open(formats.REF))
except FileNotFoundError:
    old = {}
out = {}
for name in corpus.names():
    try:
        p, head, fs = formats.record(name)
    except Exception as err:
        print("skip", name, repr(err)[:80])
        continue
    out[name] = {"property": formats.prop_of(p), "head": head,
                 "fields": base64.b85encode(b"".join(map(formats.hash_of, fs))).decode()}
    if name in old and old[name] != out[name]:
        print("changed:", name, [k for k in head if head[k] != old[name]["head"].get(k)], "fields" if old[name]["fields"] != out[name]["fields"] else "")
with open(formats.REF, "w") as fp:
    json.dump(out, fp, indent=0, sort_keys=True)
    fp.write("\n")
print(len(out), "samples")
