"""Makes `hypothesis` (installed only in the tooling venv) importable in the interpreter that has dg_commons.

Only the named packages are taken from there, so that nothing else of that environment shadows ours.
"""
import importlib.machinery
import os
import sys

_SITES = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]
_NAMES = {"hypothesis", "sortedcontainers", "_hypothesis_globals", "_hypothesis_ftz_detector", "_hypothesis_pytestplugin"}


class _Finder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname.partition(".")[0] not in _NAMES or "." in fullname:
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, _SITES)


def install():
    try:
        import hypothesis  # noqa

        return
    except ImportError:
        pass
    if os.path.isdir(os.path.join(_SITES[0], "hypothesis")):
        sys.meta_path.append(_Finder)
    else:  # fall back on the wheels (pure python parts can be imported from the zip, the native part is unpacked)
        import glob
        import zipfile

        dst = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "vendor")
        for pat in ("hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl"):
            for w in glob.glob(os.path.join("/opt/veriftools/wheels", pat)):
                zipfile.ZipFile(w).extractall(dst)
        sys.path.append(dst)
    import hypothesis  # noqa
