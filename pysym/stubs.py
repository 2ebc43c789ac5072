"""Stand-ins for third-party modules that are not installed here: only used when the real one cannot be imported."""
import sys, types, importlib.abc, importlib.machinery

NAMES = {"tqdm", "yaspin", "findspark", "pyspark", "pandas", "fastavro", "requests", "plotly", "matplotlib", "colorama",
         "keras", "tensorflow", "seaborn", "sklearn", "graphviz", "bokeh", "minio", "urllib3", "pygments", "flask", "grpc",
         "google", "modin", "hdfs", "dash", "dash_core_components", "dash_html_components", "dash_table", "ipywidgets",
         "dash_bootstrap_components", "redis", "typer", "biokit", "dash_daq"}


class AnyMeta(type):
    def __getitem__(cls, k):
        return []

    def __getattr__(cls, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return cls()


class Dummy(metaclass=AnyMeta):
    """anything: callable, attribute access, context manager"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __setitem__(self, k, x):
        pass

    def __add__(self, o):
        return o

    def __radd__(self, o):
        return o

    def __str__(self):
        return ""


def tqdm(it=None, *a, **k):
    return it if it is not None else Dummy()


class Stub(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if n == "tqdm":
            return tqdm
        return type(n, (Dummy,), {}) if n[:1].isupper() else Dummy()


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in NAMES:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = Stub(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


def install():
    sys.meta_path.append(Finder())
