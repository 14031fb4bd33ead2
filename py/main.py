"""check.sh PROPERTY TIER: runs one property check and exits 0 (held), 1 (VIOLATION) or 2 (no answer)."""
import sys, traceback, importlib
import vlib

MODULES = ["props_binary", "props_model", "props_stream", "props_json", "props_wavelet", "props_tools", "props_render", "props_files", "props_import", "props_tool"]


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    fns = {}
    for m in MODULES:
        fns.update(importlib.import_module(m).CHECKS)
    c = None
    try:
        c = vlib.Check(pid, tier)
        level = fns[pid](c)
        return c.finish(level or "model_checking")
    except vlib.CheckError as e:
        print("check error:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if c is not None:
            c.cleanup()


sys.exit(main())
