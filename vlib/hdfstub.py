"""Stand-in for pandas' HDF store when pytables is not installed (as in this sandbox): same calls, pickles inside."""
import contextlib
import pickle
from pathlib import Path
from unittest import mock

import pandas as pd


class Store:
    def __init__(self, path, mode="a", **_):
        self.path, self.mode = Path(path), mode
        if mode in ("r", "r+") and not self.path.is_file():
            raise FileNotFoundError(self.path)
        self.data = pickle.loads(self.path.read_bytes()) if self.path.is_file() and mode != "w" else {}
        if mode == "w":
            self._flush()

    def _flush(self):
        if self.mode == "r":
            raise ValueError("store opened read-only")
        self.path.write_bytes(pickle.dumps(self.data))

    @staticmethod
    def _k(key):
        return "/" + str(key).strip("/")

    def put(self, key, value, **_):
        self.data[self._k(key)] = value.copy()
        self._flush()

    append = put
    __setitem__ = put

    def get(self, key):
        return self.data[self._k(key)].copy()

    __getitem__ = get
    select = get

    def remove(self, key):
        del self.data[self._k(key)]
        self._flush()

    def keys(self, *a, **k):
        return list(self.data)

    def __iter__(self):
        return iter(self.keys())

    def __contains__(self, key):
        return self._k(key) in self.data

    def __len__(self):
        return len(self.data)

    def items(self):
        return self.data.items()

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _to_hdf(self, path_or_buf, key=None, mode="a", **_):
    (path_or_buf if isinstance(path_or_buf, Store) else Store(path_or_buf, mode)).put(key, self)


def _read_hdf(path_or_buf, key=None, mode="r", **_):
    st = path_or_buf if isinstance(path_or_buf, Store) else Store(path_or_buf, mode)
    return st.get(key if key is not None else st.keys()[0])


@contextlib.contextmanager
def pickled_hdf():
    try:
        import tables  # noqa: F401
        yield
    except ImportError:
        with mock.patch.object(pd, "HDFStore", Store), mock.patch.object(pd.DataFrame, "to_hdf", _to_hdf), \
                mock.patch.object(pd, "read_hdf", _read_hdf):
            yield
