import importlib, os, sys, traceback
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import core


def main():
    prop = sys.argv[1]
    chk = core.Check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    for f in ("%s.json" % prop, "replay-%s.json" % prop):
        try:
            os.unlink(os.path.join(core.evidence_dir(), f))
        except OSError:
            pass
    try:
        importlib.import_module("chk_" + prop.lower()).run(chk)
        rc = chk.finish()
    except core.MachineryError as e:
        print("MACHINERY ERROR (no verdict on the code): %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


main()
