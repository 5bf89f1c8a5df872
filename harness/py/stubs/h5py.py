"""Stand-in for h5py: a tree of groups, datasets and attributes, kept in a pickle file."""
import os, pickle, numpy as np
_open = []


class Dataset:
    def __init__(self, data): self.data, self.attrs = np.array(data), {}
    def __array__(self, *a, **k): return self.data
    def __getitem__(self, k): return self.data[k]
    def __len__(self): return len(self.data)
    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    dtype = property(lambda self: self.data.dtype)


class Group:
    def __init__(self): self.c, self.attrs = {}, {}
    def _path(self, n, make=False):
        g = self
        for p in n.strip("/").split("/"):
            if p not in g.c:
                if not make: raise KeyError(n)
                g.c[p] = Group()
            g = g.c[p]
        return g
    def __contains__(self, n):
        try: self._path(n); return True
        except KeyError: return False
    def __getitem__(self, n): return self._path(n)
    def get(self, n, d=None): return self[n] if n in self else d
    def __iter__(self): return iter(sorted(self.c))
    def keys(self): return sorted(self.c)
    def items(self): return [(k, self.c[k]) for k in sorted(self.c)]
    def _put(self, n, v):
        h, _, t = n.strip("/").rpartition("/")
        g = self._path(h, True) if h else self
        if t in g.c: raise ValueError("Unable to create (name already exists)")
        g.c[t] = v
        return v
    def create_group(self, n): return self._put(n, Group())
    def create_dataset(self, n, data=None, **k): return self._put(n, Dataset(data))


class File(Group):
    def __init__(self, name, mode="r"):
        super().__init__()
        self.name, self.mode = name, mode
        if mode == "r" or (mode in ("a", "r+") and os.path.exists(name)):
            with open(name, "rb") as f: self.c, self.attrs = pickle.load(f)
        _open.append(self)
    def close(self):
        if self.mode != "r":
            with open(self.name, "wb") as f: pickle.dump((self.c, self.attrs), f)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


def _flush():
    for f in _open: f.close()
