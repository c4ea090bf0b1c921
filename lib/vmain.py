import importlib
import sys
import traceback

import vlib


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    ctx = vlib.Ctx(prop, tier)
    try:
        importlib.import_module('checks.' + prop.lower()).run(ctx)
        return ctx.finish()
    except vlib.MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == '__main__':
    sys.exit(main())
