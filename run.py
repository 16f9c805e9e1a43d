"""Entry point: run.py ID [quick|thorough] | run.py --replay FILE"""
import json
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True


def replay(path):
    """Runs the check again on the shard of a recorded violation."""
    data = json.loads(Path(path).read_text())
    os.environ['VERIF_SEED'] = str(data['seed'])
    import importlib
    module = importlib.import_module('checks.' + data['property'].lower())
    if data.get('shard') is not None and hasattr(module, 'shards'):
        module.shards = lambda tier: [data['shard']]
    from vlib import core
    return core.main(data['property'], data['tier'])


def main():
    from vlib import core
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    tier = (sys.argv[2] if len(sys.argv) > 2
            else os.environ.get('VERIF_TIER', 'quick'))
    return core.main(sys.argv[1], tier)


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.exit(code)
