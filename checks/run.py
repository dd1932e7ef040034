"""usage: run.py CNN [--case PATTERN]      (environment: VERIF_SEED, VERIF_TIER)"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.dirname(HERE) + "/tools"]
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["PYTHONHASHSEED"] = "0"
import vlib  # noqa: E402

mod = importlib.import_module(sys.argv[1].lower())
if getattr(mod, "VARIANT", "plain") == "asan":
    if "VERIF_ASAN" not in os.environ:
        # build first, then start over with the sanitizer runtime loaded into the interpreter
        import build as B
        import subprocess
        try:
            B.build("asan", ["libesmini.so"])
        except Exception as e:
            print(f"ERROR: {e}")
            sys.exit(2)
        rt = subprocess.check_output(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], text=True).strip()
        env = dict(os.environ, VERIF_ASAN="1", LD_PRELOAD=rt, PYTHONMALLOC="pymalloc", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98",
                   ASAN_OPTIONS="detect_leaks=0:exitcode=99:detect_odr_violation=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1:malloc_context_size=12:handle_abort=1")
        os.execve(sys.executable, [sys.executable] + sys.argv, env)
    os.environ.pop("LD_PRELOAD", None)
only = sys.argv[sys.argv.index("--case") + 1] if "--case" in sys.argv else None
sys.exit(vlib.main(mod, only))
