#!/usr/bin/env python3
"""compiles what most checks share, so that the first check does not pay for it (everything is keyed by content and rebuilt when /repo changes)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
check.build_many([('plain', None), ('plain', 'C08.cpp')])
print('built')
