"""Worker process: runs a single shard of a check."""
import importlib
import json
import os
import sys
import traceback


def main():
    spec_path, out_path = sys.argv[1:3]
    # directory of the script should not be importable
    sys.path[:] = [p for p in sys.path
                   if os.path.realpath(p or '.')
                   != os.path.dirname(os.path.realpath(__file__))]
    sys.setrecursionlimit(5000)
    from vlib.core import Report
    with open(spec_path) as file:
        spec = json.load(file)
    report = Report(out_path, limit=spec['limit'])
    try:
        module = importlib.import_module(spec['module'])
        module.run(spec['shard'], report, spec)
    except BaseException:
        traceback.print_exc()
        report.flush()
        sys.stderr.flush()
        os._exit(3)
    report.flush(done=True)
    os._exit(0)


if __name__ == '__main__':
    main()
