#!/usr/bin/env python3
"""Builds the extractor (everything else is rebuilt by each check)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vcg'))
import prove
prove.build_tools()
print('ok')
