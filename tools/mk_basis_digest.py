"""Writes lib/basis_digest.json: digest of the published exponents and coefficients per basis set and element (run once on the pinned tree)."""
import hashlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import basis as B
d = {b: {e: B.digest(t) for e, t in B.table(b).items()} for b in B.names()}
json.dump(d, open(os.path.join(os.path.dirname(B.__file__), "basis_digest.json"), "w"), indent=0, sort_keys=True)
