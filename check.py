#!/usr/bin/env python3
"""check.py P01 [--thorough] [--replay FILE]: decide one property by simulation.

The process re-executes itself under the project's interpreter with the
operating-system seam (dst/libsim.c) preloaded and address randomisation off.
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def reexec(argv):
    from dst import build
    try:
        so = build.build_libsim()
        exts = build.build_ext()
    except build.BuildError as e:
        print("HARNESS-ERROR " + str(e))
        sys.exit(2)
    import ctypes
    try:
        ctypes.CDLL(None).personality(0x0040000)     # ADDR_NO_RANDOMIZE
    except Exception:
        pass
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
    env.update(LD_PRELOAD=so, SIM_LIB=so, SIM_EXTS=json.dumps(exts), SIM_EXEC="1", PYTHONHASHSEED=os.environ.get("VERIF_HASHSEED", "0"),
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", LANG="C.UTF-8", TZ="UTC", HOME="/nonexistent", COLUMNS="80", LINES="24",
               PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    os.execve(build.PY, [build.PY, os.path.abspath(__file__)] + argv, env)


def main():
    argv = sys.argv[1:]
    if os.environ.get("SIM_EXEC") != "1":
        reexec(argv)
    if argv[0] == "--zygote":
        from dst import runner, simlib
        runner.boot(False)
        simlib.zygote_main(*map(int, argv[1:4]))
        return 0
    from dst import runner
    pid = argv[0].upper()
    try:
        return runner.check(pid, argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        print("HARNESS-ERROR " + traceback.format_exc())
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
