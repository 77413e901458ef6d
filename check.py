#!/opt/venv/bin/python
"""check.py PNN [--tier quick|thorough] [--seed N] [--case I] [--replay FILE]: decide one property by runtime monitoring."""
import os
import sys

ENV = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
       "MKL_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1", "MPLCONFIGDIR": "/tmp/verif_mpl"}

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in ENV.items()):
        os.environ.update(ENV)
        os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
    root = os.path.dirname(os.path.abspath(__file__))
    sys.path.insert(0, root)
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    sys.dont_write_bytecode = True
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    import importlib
    try:
        from vmon import core
        pid = sys.argv[1].upper()
        try:
            mod = importlib.import_module("checks." + pid.lower())
        except Exception as e:
            import traceback
            if core.from_code_under_test(e) and not isinstance(e, ImportError):
                p = os.path.join(root, "evidence", "replay")
                os.makedirs(p, exist_ok=True)
                p = os.path.join(p, pid + "-import.json")
                open(p, "w").write('{"error": "import of simcats fails"}')
                traceback.print_exc()
                print(f"VIOLATION property={pid} replay={p}")
                sys.exit(1)
            raise
        sys.exit(core.main(mod, sys.argv[2:]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
