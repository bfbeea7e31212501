"""Import pyfar/sofar straight from the repository with a data base of our own.

The pinned commit ships an empty folder ``sofar/sofa_conventions``.  A finder
compiles the sources of /repo/sofar but tells the modules that they live in a
scratch folder that also contains the conventions, so that nothing has to be
copied to or changed in the repository.
"""
import importlib.machinery
import os
import sys

REPO = os.environ.get("SOFAR_REPO", "/repo")
sys.dont_write_bytecode = True


class _Loader(importlib.machinery.SourceFileLoader):

    def __init__(self, name, path, source):
        super().__init__(name, path)
        self._source = source

    def get_data(self, path):
        if path == self.path:
            path = self._source
        return super().get_data(path)

    def path_stats(self, path):
        raise OSError     # never use or write cached byte code

    def set_data(self, *args, **kwargs):
        pass


class _Finder:

    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "sofar" and not fullname.startswith("sofar."):
            return None
        rel = fullname.replace(".", os.sep)
        for sub, pkg in ((os.path.join(rel, "__init__.py"), True),
                         (rel + ".py", False)):
            source = os.path.join(REPO, sub)
            if os.path.isfile(source):
                fake = os.path.join(self.root, sub)
                spec = importlib.machinery.ModuleSpec(
                    fullname, _Loader(fullname, fake, source), origin=fake,
                    is_package=pkg)
                spec.has_location = True
                if pkg:
                    spec.submodule_search_locations = [os.path.dirname(fake)]
                return spec
        return None


def load(root):
    """Import sofar, root/sofar/sofa_conventions is the data base."""
    os.makedirs(os.path.join(root, "sofar"), exist_ok=True)
    sys.meta_path.insert(0, _Finder(root))
    import sofar
    return sofar
