"""replay.py MODULE CALL: runs one counterexample on the plain interpreter; exit 0 if the property holds,
1 if it is violated, 3 if the script no longer offers the function the harness calls (undecided, not a violation)"""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def interface(e):
    """an AttributeError or TypeError raised by the harness's own line: the call does not fit the script's interface"""
    last = traceback.extract_tb(e.__traceback__)[-1]
    return isinstance(e, (AttributeError, TypeError)) and os.path.dirname(os.path.abspath(last.filename)) == HERE


# the harnesses give the script virtual files and a virtual h264nal process: a script that reaches for the real ones
# (another module's way of reading a file, say) is outside what they model, and its counterexample decides nothing
reached = []


def audit(ev, args):
    if on and (ev in ("subprocess.Popen", "os.system", "os.listdir", "os.scandir", "os.remove", "os.rename", "os.mkdir", "os.exec", "os.posix_spawn") or ev.startswith(("shutil.", "tempfile.")) or (ev == "open" and args and not str(args[0]).endswith((".py", ".pyc", ".so")) and not str(args[0]).startswith("/usr"))):
        reached.append(ev)


on = False
sys.addaudithook(audit)
try:
    code = compile(sys.argv[2], "<call>", "eval")
except SyntaxError as e:
    print("not a call: %r" % e)
    sys.exit(3)
m = importlib.import_module(sys.argv[1])
on = True
try:
    r = eval(code, dict(vars(m)))
except BaseException as e:
    on = False
    print("exception: %r" % e)
    sys.exit(3 if interface(e) or reached else 1)
on = False
if reached and not r:
    print("outside the model: %s" % reached[:3])
    sys.exit(3)
print("returned %r" % (r,))
sys.exit(0 if r else 1)
