"""Carries out calls of the Python interface for the simulator, one per line."""
import ctypes, json, sys
sys.path.insert(0, sys.argv[1])
import cosmian_abe_gpsw as m
seed = ctypes.CDLL(None).sim_seed
seed.argtypes = [ctypes.c_uint64]

def arg(x):
    if x is None:
        return None
    if "b" in x:
        return bytes.fromhex(x["b"])
    return x["s"] if "s" in x else x["n"]

def val(r):
    if isinstance(r, tuple):
        return [val(x)[0] for x in r]
    if isinstance(r, (bytes, bytearray, list)):
        return [{"b": bytes(r).hex()}]
    return [{"s": r} if isinstance(r, str) else {"n": r}]

out = sys.stdout
for line in sys.stdin:
    q = json.loads(line)
    seed(int(q["e"]))
    try:
        r = {"v": val(getattr(m, q["f"])(*[arg(x) for x in q["a"]]))}
    except Exception as e:
        r = {"err": str(e)}
    except BaseException as e:
        r = {"crash": str(e)}
    out.write(json.dumps(r) + "\n")
    out.flush()
