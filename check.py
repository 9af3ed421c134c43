#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.common import Ctx, MachineryError

MODULES = dict(C01="c_queue", C02="c_queue", **{f"C0{i}": "c_buffered" for i in range(3, 10)}, C10="c_client", C11="c_client", C12="c_server", C13="c_server", C14="c_server", C15="c_state", C16="c_state", C17="c_lru", C18="c_config", C19="c_lock", C20="c_log", C21="c_shipper", C22="c_life", C23="c_cli", C24="c_tracing", C25="c_metrics", C26="c_chain", C27="c_declare", C28="c_util", C29="c_util", C30="c_util")

def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module("checks." + MODULES[prop])
    ctx = Ctx(prop)
    try:
        getattr(mod, "check_" + prop)(ctx)
    except MachineryError as e:
        print(f"MACHINERY ERROR in {prop}: {e}", file=sys.stderr); ctx.cleanup(); sys.exit(2)
    except Exception:
        traceback.print_exc(); ctx.cleanup(); sys.exit(2)
    ctx.finish()

if __name__ == "__main__":
    main()
