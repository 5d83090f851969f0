import sys, importlib, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    importlib.import_module(pid.lower()).main()
