#!/usr/bin/env python3
"""Writes sa/reference.json: the names the checks use for their anchors. Run on the tree the properties were written for."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import build, canon
json.dump(canon.summary(json.load(open(os.path.join(build.dump(), 'pt.json')))), open(canon.REF, 'w'), indent=0, sort_keys=True)
