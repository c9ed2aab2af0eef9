import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tasks
vlib.main("C10", lambda c: tasks.run(c, 4, 600, ['gwait','gdone']))
