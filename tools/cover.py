"""which lines of the library a check executes: cover.py PROPERTY OUT.json [options of akmon/run.py]"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
prop, out = sys.argv[1:3]
sys.argv = ["run.py", prop] + sys.argv[3:]
hit = set()
M = sys.monitoring
M.use_tool_id(2, "cover")


def line(code, n):
    if "awkward0/" in code.co_filename:
        hit.add((code.co_filename.split("awkward0/")[-1], n))
    return M.DISABLE


M.register_callback(2, M.events.LINE, line)
M.set_events(2, M.events.LINE)
from akmon import run
real = os._exit


def done(code):
    with open("%s.%d" % (out, os.getpid()), "w") as f:
        json.dump(sorted(hit), f)
    real(code)


os._exit = done
rc = run.main()
import glob
for p in glob.glob(out + ".*"):
    hit.update(tuple(x) for x in json.load(open(p)))
    os.remove(p)
json.dump(sorted(hit), open(out, "w"))
