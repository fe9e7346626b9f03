"""Re-run one harness case on the real, unmodified code: exit 1 if the property
fails on it, 0 if it holds."""
import importlib.machinery, importlib.util, json, os, sys, types
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get("VP_SRC", "/repo/src"))


def main():
    rec = json.load(open(sys.argv[1]))
    pkg = types.ModuleType("hx")
    pkg.__path__ = [os.path.join(HERE, "harness")]
    sys.modules["hx"] = pkg
    import importlib
    m = importlib.import_module("hx." + rec["harness"]["mod"])
    fn = getattr(m, rec["harness"]["fn"])
    sys.modules["z3"] = None        # the real run needs no solver
    sys.path.insert(0, HERE)
    from plainapi import PlainS, VPViolation, AssumeFailed
    S = PlainS(rec["inputs"])
    try:
        fn(S, **rec["harness"]["params"])
    except AssumeFailed:
        print("outside the assumptions")
        return 0
    except VPViolation as v:
        print("property fails: %s %s" % (v.label, v.info))
        return 1
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("property fails: unexpected %s" % type(e).__name__)
        return 1
    print("property holds on this case")
    return 0


sys.exit(main())
