"""Compile everything once into the compiler cache."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kvlib import *
for name in BUILDS:
    try:
        driver(name)
    except CheckError as e:
        print("warm:", str(e)[:300])
try:
    build_python()
except CheckError as e:
    print("warm:", str(e)[:300])
