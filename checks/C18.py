import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib

def run(c):
    c.model("Vector", "MCVector.cfg")
    c.conform("drv_array", "VectorTrace", "VectorTrace.cfg", 3000 if c.thorough else 480)

vlib.main("C18", run)
