#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]   (VERIF_SEED, VERIF_TIER are read from the environment)"""
import importlib, os, signal, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    # what runs below starts with the usual signals, whatever this was started from (nohup, say)
    for n in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGUSR1, signal.SIGUSR2, signal.SIGALRM):
        signal.signal(n, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("props." + pid.lower())
    return mod.Prop(tier, seed).main()


sys.exit(main())
