# -*- coding: utf-8 -*-
""" main.py DOMAIN ARGS.json OUT.ndjson : records sessions of the real code """
import sys, json, random, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib


def main():
    domain, argfile, out = sys.argv[1:4]
    args = json.load(open(argfile))
    seed = '%s/%s/%s' % (args['seed'], domain, args.get('shard', 0))
    random.seed(seed)            # the code under test draws random numbers, too
    R = random.Random(seed)
    import common
    mod = importlib.import_module(domain)
    with open(out, 'w') as f:
        for s in mod.sessions(args, R):
            f.write(json.dumps(s) + '\n')
            if common.HANGS[0] > 2:   # these sessions tell enough
                break


main()
