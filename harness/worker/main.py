import gc
import io
import json
import os
import sys
import traceback

proto_in = sys.stdin.buffer
proto_out = os.fdopen(os.dup(1), "wb", 0)
devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
sys.stdout = io.TextIOWrapper(os.fdopen(devnull, "wb"), write_through=True)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

try:
    import boot
    boot.setup_django()
    import importlib
    boot_error = None
except Exception:
    boot_error = traceback.format_exc()

engines = {}


def answer(obj):
    data = json.dumps(obj).encode("ascii")
    proto_out.write(b"%d\n" % len(data) + data)


while True:
    line = proto_in.readline()
    if not line:
        os._exit(0)
    try:
        case = json.loads(line.decode("ascii"))
        if boot_error:
            raise RuntimeError(boot_error)
        name = case["engine"]
        if name not in engines:
            engines[name] = importlib.import_module(name)
            gc.collect()          # what the library holds weakly goes away
        out = engines[name].run(case)
    except BaseException:
        out = {"harness_error": traceback.format_exc()}
    answer(out)
