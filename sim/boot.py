"""Makes the repository importable inside a worker, seams first."""
import importlib.machinery
import importlib.util
import os
import sys

EXT_NAMES = {"pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry",
             "pymap", "pyrobust", "pysfm"}


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.startswith("opensfm.") and name[8:] in EXT_NAMES:
            ext = os.environ["VERIF_EXT"]
            return importlib.util.spec_from_file_location(
                name, ext, loader=importlib.machinery.ExtensionFileLoader(name, ext))


def boot():
    from . import sched
    sched.patch()
    sys.meta_path.insert(0, Finder)
    sys.path.insert(0, "/repo")
    sys.dont_write_bytecode = True
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import cv2
    try:
        cv2.setLogLevel(0)
    except AttributeError:
        pass
    try:
        cv2.utils.logging.setLogLevel(0)
    except AttributeError:
        pass
    import joblib  # noqa
    import joblib.parallel  # noqa
    import multiprocessing.pool  # noqa
    import opensfm
    import pkgutil
    skip = {"opensfm.test", "opensfm.src"}
    for m in pkgutil.walk_packages(opensfm.__path__, "opensfm."):
        if any(m.name == x or m.name.startswith(x + ".") for x in skip):
            continue
        try:
            importlib.import_module(m.name)
        except ImportError as e:
            if "opensfm" in str(getattr(e, "name", "") or ""):
                raise
    # what joblib would import lazily on first use
    import opensfm.context
    opensfm.context.parallel_map(abs, [1], 1)
    from joblib import Parallel, delayed
    Parallel(n_jobs=1)(delayed(abs)(i) for i in [1])
    import gc
    gc.collect()
    gc.disable()
    gc.freeze()
