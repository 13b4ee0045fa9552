"""dump the public names of the installed libraries (lookup table for the
name-resolution rules); run once with the repository's interpreter"""
import importlib, json, warnings
warnings.simplefilter('ignore')
mods = ['numpy', 'numpy.linalg', 'numpy.random', 'scipy', 'scipy.sparse',
        'scipy.sparse.linalg', 'scipy.optimize', 'scipy.linalg',
        'scipy.signal', 'autograd', 'autograd.numpy', 'autograd.scipy.signal',
        'autograd.numpy.linalg', 'matplotlib', 'matplotlib.pylab',
        'matplotlib.pyplot', 'matplotlib.colors', 'matplotlib.patches',
        'matplotlib.animation', 'matplotlib.gridspec',
        'mpl_toolkits.axes_grid1', 'copy', 'time', 'os', 'os.path', 'sys',
        'functools', 'itertools', 'math', 'inspect', 'string', 'collections',
        'shutil', 'warnings', 'progressbar', 'pickle', 'random', 'operator']
for m in mods:
    try:
        importlib.import_module(m)
    except Exception:
        pass
out = {}
for m in mods:
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        print('skip', m, e)
        continue
    names = set(dir(mod))
    out[m] = sorted(n for n in names)
json.dump(out, open('/verif/sa/data/names.json', 'w'), indent=0)
