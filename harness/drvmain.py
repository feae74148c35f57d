"""Entry point of driver processes: run jobs against the code in /repo."""
import importlib
import json
import logging
import os
import sys
import warnings


def main():
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    module, func, inp, outp = sys.argv[1:5]
    import chainerrl
    assert os.path.realpath(chainerrl.__file__).startswith(os.environ.get(
        'REPO_UNDER_TEST', '/repo') + '/'), \
        chainerrl.__file__
    f = getattr(importlib.import_module('harness.drv.' + module), func)
    jobs = json.load(open(inp))
    res = []
    for j in jobs:
        with open(outp + '.cur', 'w') as g:
            json.dump(j, g)
        res.append(f(j))
    with open(outp + '.tmp', 'w') as g:
        json.dump(res, g)
    os.rename(outp + '.tmp', outp)


if __name__ == '__main__':
    main()
