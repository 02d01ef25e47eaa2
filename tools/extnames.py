"""Development tool: writes sa/extnames.json, the public names of the external modules the library uses (run with the interpreter of the library)."""
import importlib
import json
import os

MODS = ['copy', 'errno', 'fnmatch', 'inspect', 'io', 'itertools', 'math', 'multiprocessing', 'operator', 'os', 'os.path', 'pickle', 'random', 're', 'signal', 'subprocess', 'sys',
        'tempfile', 'threading', 'time', 'traceback', 'types', 'warnings', 'webbrowser', 'joblib', 'functools', 'collections', 'string', 'shutil', 'glob', 'platform', 'contextlib',
        'numpy', 'numpy.linalg', 'numpy.random', 'numpy.fft', 'scipy.signal', 'scipy.special', 'scipy.stats', 'importlib', 'ast', 'textwrap', 'json', 'queue', 'socket', 'datetime', 'logging', 'abc', 'weakref', 'bisect', 'heapq', 'hashlib', 'struct', 'uuid']
EXTRA = {'numpy': ['scipy'], 'numpy.linalg': ['scipy.linalg'], 'numpy.fft': ['scipy.fft', 'scipy.fftpack']}
CLASSES = ['Exception', 'DeprecationWarning', 'UserWarning', 'dict', 'list', 'set', 'tuple', 'threading.Thread', 'RuntimeError', 'ValueError', 'ImportError', 'AttributeError', 'TypeError', 'KeyError', 'RuntimeWarning', 'Warning']
out = {}
for m in MODS:
    names = set(dir(importlib.import_module(m)))
    for x in EXTRA.get(m, ()):
        names |= set(dir(importlib.import_module(x)))
    if m == 'numpy':
        names |= {'typecodes', 'linalg', 'random', 'fft'}
    out[m] = sorted(names)
for c in CLASSES:
    mod, _, nm = c.rpartition('.')
    out['class ' + c] = sorted(dir(getattr(importlib.import_module(mod or 'builtins'), nm)))
out['class type'] = sorted(dir(type))
import array, collections, io, subprocess, threading, types as ty, re, random, inspect, tempfile, code
import numpy
uni = set()
def gen():
    yield 1
for o in [numpy.ndarray, numpy.dtype, numpy.generic, numpy.float64, numpy.random.RandomState, numpy.ufunc, numpy.finfo, numpy.iinfo, numpy.random, str, bytes, list, dict, set, frozenset, tuple, int, float, complex, bool,
          collections.deque, collections.OrderedDict, collections.defaultdict, io.TextIOWrapper, io.BytesIO, io.StringIO, subprocess.Popen, threading.Thread, threading.Lock(), threading.Condition, threading.Event, ty.FunctionType, ty.MethodType,
          ty.ModuleType, ty.CodeType, ty.FrameType, ty.TracebackType, ty.GeneratorType, re.compile(''), re.match('', ''), random.Random, inspect.signature(len), inspect.getfullargspec(gen), Exception, OSError, ImportError, SyntaxError, type, object, property, slice, range, numpy.memmap]:
    uni |= set(dir(o))
# third-party objects of optional dependencies: parallel python, shogun, libsvm, scikit-learn, joblib
uni |= set('submit wait print_stats get_stats destroy get_ncpus set_ncpus get_active_nodes fit predict transform score get_params set_params n_features_in_ inverse_transform predict_proba fit_transform decision_function svm_type set_kernel set_features set_labels classify get_label get_labels train io set_loglevel set_C set_epsilon cache store func clear getvalue getLogger rand command Server _name libsvm _names get_classifier_type get_num_cpus set_num_threads _NetworkServer short_version order pid listen precision _Server__queue returncode stdin stdout stderr'.split())
out['universe'] = sorted(uni)
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sa', 'extnames.json'), 'w'), indent=0, sort_keys=True)
print(len(out), sum(len(v) for v in out.values()))
