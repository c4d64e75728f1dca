"""elsewhere.py case.json out.json: runs the program of a case in a process
of its own, under the settings of the case, and writes down its digests."""
import gc
import json
import os
import random
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))


def tree(folder):
    """Digests of all files; dictionaries by their entries."""
    import numpy as np
    import calls
    out = {}
    for path, _, files in os.walk(folder):
        for name in files:
            file = os.path.join(path, name)
            if name.startswith("memmap"):
                continue
            value = np.load(file, allow_pickle=True)
            kind = str(value.dtype)
            if value.dtype == object:
                value = value.item()
            out[os.path.relpath(file, folder)] = calls.digest(
                [kind] + calls.flat(value))
    return out


def run(program, folder):
    import calls
    outcomes = calls.Program(program, calls.Plain(), folder + "/").run()
    return [[op, calls.digest(parts)] for op, parts in outcomes]


def main(case_file, out_file):
    with open(case_file) as f:
        case = json.load(f)
    sys.path.insert(0, HERE)
    import core
    sys.path.insert(0, core.REPO)
    for path in core.HYPOTHESIS_PATHS:
        if path not in sys.path:
            sys.path.append(path)
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np
    settings = case["settings"]
    home = os.path.realpath(os.getcwd())
    folder = os.path.join(home, settings["folder"])
    os.makedirs(folder)
    core.GUARD.install(home)
    os.chdir(folder)
    random.seed(settings["random"])
    np.random.seed(settings["random"])
    if not settings["collect"]:
        gc.disable()
    answer = []

    def work():
        for k, program in enumerate(case["first"][:settings["before"]]):
            os.mkdir(f"before{k}")
            run(program, f"before{k}")
        os.mkdir("results")
        answer.append([run(case["program"], "results"), tree("results")])

    if settings["thread"]:
        thread = threading.Thread(target=work)
        thread.start()
        thread.join()
    else:
        work()
    os.chdir(home)
    with open(out_file, "w") as f:
        json.dump(answer[0], f)


if __name__ == "__main__":
    main(*sys.argv[1:])
