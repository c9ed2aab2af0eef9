import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tasks
vlib.main("C09", lambda c: tasks.run(c, 3, 800, ['give','next','value']))
