#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
os.makedirs(lib.BUILD, exist_ok=True)
lib.annotator()
lib.verus_deps()
