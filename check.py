#!/usr/bin/env python3
"""check.py <PROPERTY>: exit 0 held, 1 + VIOLATION line broken, 2 error of the check."""
import os, sys, importlib, traceback
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),"vf"))
import core
MODS={"C":"c_config","S":"c_sfile","D":"c_domain","M":"c_magnetic","F":"c_dist","G":"c_general","N":"c_integrator","V":"c_algebra","Q":"c_quad","A":"c_dist","T":"c_threads"}
def main():
    pid=sys.argv[1]
    if len(sys.argv)>2: os.environ["VERIF_TIER"]=sys.argv[2]
    ctx=core.Ctx(pid); rc=2
    try:
        mod=importlib.import_module(MODS[pid[0]])
        getattr(mod,"check_"+pid)(ctx)
        rc=core.finish(ctx)
    except core.CheckError as e: print("CHECK ERROR:",e)
    except Exception: traceback.print_exc(); print("CHECK ERROR")
    finally: ctx.close()
    sys.stdout.flush(); sys.exit(rc)
main()
