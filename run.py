#!/opt/veriftools/pyvenv/bin/python3
"""run.py <property id> [--thorough]: decide one property on /repo's current tree."""
import sys, os, importlib
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine")); sys.path.insert(0, os.path.join(V, "checks"))
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    if "--thorough" in sys.argv: os.environ["VERIF_TIER"] = "thorough"
    import chk
    C = chk.Check(pid)
    mod = importlib.import_module(pid.lower())
    try: mod.check(C)
    except Exception as e:
        import traceback
        C.undecided_("check", "%s: %s" % (e.__class__.__name__, e)); traceback.print_exc()
    sys.exit(C.finish(mod.EXPLANATION))
main()
