#!/usr/bin/env python3
"""builds the extractor and fills the cache for the current sources"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import front
front.tool()
specs = [os.path.join(V, 'spec', f) for f in sorted(os.listdir(os.path.join(V, 'spec'))) if f.endswith('.cpp')]
front.extract(specs + front.sources())
print('ready')
