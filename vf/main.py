import sys, importlib, traceback
sys.setrecursionlimit(20000)
def main():
    pid = sys.argv[1]
    m = importlib.import_module("vf.props." + pid.lower())
    try: m.main()
    except Exception:
        from . import replay as R, harness as H, rec
        C = getattr(H.Check, "last", None)
        if not R.broken or C is None or C.done: raise
        C.notes.append("stopped early: " + traceback.format_exc()[-600:])
        rec.refuted(C); C.finish()
main()
