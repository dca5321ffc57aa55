"""Builds the rustc driver and the analysed crate's dependencies, and takes one
dump per configuration."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dump
dump.ensure_driver()
for n in dump.CONFIGS:
    try:
        dump.dump(n)
        print("configuration", n, "analysed")
    except dump.BuildError as e:
        print("configuration", n, str(e)[-500:])
import witness
for n, f in witness.FEATS.items():
    try:
        d, _ = witness.write(f, n)
        witness.compile(d, "good")
        print("witnesses", n, "built")
    except dump.BuildError as e:
        print("witnesses", n, str(e)[-500:])
import api
try:
    api.prebuild()
    print("documented programs built")
except dump.BuildError as e:
    print("documented programs", str(e)[-500:])
