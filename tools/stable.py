"""Which stable tests did not pass."""
import json, sys
base, got = json.load(open("/opt/vp/BASELINE.json")), json.load(open(sys.argv[1]))
bad = sorted(set(base["stable"]) - set(got["passed"]))
print("ok" if not bad else "FAIL:%d:%s" % (len(bad), bad[0].replace(" ", "_")))
