import importlib, os, glob
def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 's_*.py'))):
        importlib.import_module('specs.' + os.path.basename(f)[:-3])
