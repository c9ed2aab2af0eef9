import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib, tasks
vlib.main("C06", lambda c: tasks.run(c, None, 800, ['start','yield','sleep','await','gwait','next','fdwait']))
