"""In-memory stand-in for PyTables (symbolic mode; the symbolic side's interpreter has no HDF5).  It models the part of the
documented interface GloMPO uses; values stored may be symbolic.  Replays run on the real PyTables, so that a divergence
between the two shows as a failed validation."""
import copy
import os
import types

STORE = {}  # path -> root group: what is on disk


class HDF5ExtError(RuntimeError):
    pass


class NoSuchNodeError(Exception):
    pass


class NodeError(Exception):
    pass


class ClosedNodeError(ValueError):
    pass


class ClosedFileError(ValueError):
    pass


class Col:
    def __init__(self, *a, **k):
        self.a, self.k = a, k
        self.pos = k.get('pos')
        self.shape = k.get('shape', a[0] if a else ())

    @classmethod
    def from_dtype(cls, dt, *a, **k):
        return cls(dt, *a, **k)


def snapshot(v):
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x) for x in v)
    if isinstance(v, set):
        return set(v)
    return v


class Attrs:
    def __init__(self, node):
        object.__setattr__(self, '_n', node)
        object.__setattr__(self, '_d', {})

    def _live(self):
        if not self._n._live():
            raise ClosedNodeError('the node for attribute set is closed')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        self._live()
        if k not in self._d:
            raise AttributeError(f"Attribute '{k}' does not exist in node")
        return snapshot(self._d[k])

    def __setattr__(self, k, v):
        self._live()
        self._d[k] = snapshot(v)

    def __delattr__(self, k):
        self._live()
        if k not in self._d:
            raise AttributeError(k)
        del self._d[k]

    def __getitem__(self, k):
        try:
            return self.__getattr__(k)
        except AttributeError as e:
            raise KeyError(str(e))

    def __setitem__(self, k, v):
        self.__setattr__(k, v)

    def __delitem__(self, k):
        try:
            self.__delattr__(k)
        except AttributeError as e:
            raise KeyError(str(e))

    def __contains__(self, k):
        return k in self._d

    def _f_list(self, which='user'):
        return sorted(self._d)

    @property
    def _v_attrnames(self):
        return sorted(self._d)


class Node:
    def __init__(self, name, parent, file):
        self._v_name = name
        self._v_parent = parent
        self._file = file  # the open file; changes on reopening
        self._v_attrs = Attrs(self)

    def _live(self):
        f = self._root()._file
        return f is not None and f.isopen

    def _root(self):
        n = self
        while n._v_parent is not None:
            n = n._v_parent
        return n

    @property
    def _v_pathname(self):
        if self._v_parent is None:
            return '/'
        p = self._v_parent._v_pathname
        return (p if p != '/' else '') + '/' + self._v_name

    def _check(self):
        if not self._live():
            raise ClosedNodeError('the node object is closed')

    def flush(self):
        self._check()

    @property
    def _v_file(self):
        self._check()
        return self._root()._file

    def _f_remove(self, recursive=False, force=False):
        self._v_file.remove_node(self, recursive=recursive)

    def _f_getattr(self, name):
        return getattr(self._v_attrs, name)

    def _f_setattr(self, name, value):
        setattr(self._v_attrs, name, value)

    def _f_delattr(self, name):
        delattr(self._v_attrs, name)

    def _f_isvisible(self):
        return True

    @property
    def name(self):
        return self._v_name

    @property
    def attrs(self):
        return self._v_attrs

    def remove(self):
        self._f_remove()


class Group(Node):
    def __init__(self, *a):
        super().__init__(*a)
        self._v_children = {}

    def __getitem__(self, path):
        self._check()
        n = self
        for p in [q for q in path.split('/') if q]:
            if not isinstance(n, Group) or p not in n._v_children:
                raise IndexError(path)
            n = n._v_children[p]
        return n

    def __contains__(self, k):
        return k in self._v_children

    def _f_iter_nodes(self, classname=None):
        return self._v_file.iter_nodes(self, classname)

    def _f_list_nodes(self, classname=None):
        return list(self._f_iter_nodes(classname))

    def _f_walknodes(self, classname=None):
        return self._v_file.walk_nodes(self, classname)

    def _f_get_child(self, name):
        self._check()
        if name not in self._v_children:
            raise NoSuchNodeError(name)
        return self._v_children[name]

    __iter__ = _f_iter_nodes

    @property
    def _v_nchildren(self):
        return len(self._v_children)

    @property
    def _v_groups(self):
        return {k: v for k, v in self._v_children.items() if isinstance(v, Group)}

    @property
    def _v_leaves(self):
        return {k: v for k, v in self._v_children.items() if not isinstance(v, Group)}

    def __getattr__(self, k):
        if k.startswith('__') or k == '_v_children' or k not in self._v_children:
            raise AttributeError(k)
        return self._v_children[k]


class VLArray(Node):
    def __init__(self, *a):
        super().__init__(*a)
        self._rows = []

    def append(self, s):
        self._check()
        if not isinstance(s, str):
            raise TypeError('VLUnicodeAtom')
        self._rows.append(str(s))

    def __getitem__(self, i):
        self._check()
        return self._rows[i]

    def __iter__(self):
        return iter(self._rows)

    def read(self):
        return list(self._rows)

    @property
    def nrows(self):
        self._check()
        return len(self._rows)

    def __len__(self):
        return len(self._rows)


class Table(Node):
    def __init__(self, name, parent, file, desc):
        super().__init__(name, parent, file)
        self.colnames = sorted(desc, key=lambda c: (desc[c].pos is None, desc[c].pos if desc[c].pos is not None else 0, c))
        self._rows = []

    def append(self, rows):
        self._check()
        new = []
        for r in rows:
            if isinstance(r, list):  # rows may be given as lists holding one record
                if len(r) != 1:
                    raise ValueError('rows parameter cannot be converted into a recarray object')
                r, = r
            if len(r) != len(self.colnames):
                raise ValueError('rows parameter cannot be converted into a recarray object')
            new.append(tuple(snapshot(list(v)) if hasattr(v, '__len__') and not isinstance(v, (str, bytes)) else v
                             for v in r))
        self._rows += new

    def remove_rows(self, start=None, stop=None, step=None):
        self._check()
        n = len(self._rows)
        start = 0 if start is None else int(start)
        stop = n if stop is None else int(stop)
        if step is not None and step != 1:
            raise NotImplementedError
        del self._rows[max(start, 0):max(stop, 0)]

    def remove_row(self, n):
        self.remove_rows(n, n + 1)

    def truncate(self, size):
        self._check()
        del self._rows[int(size):]

    def read(self, start=None, stop=None, step=None, field=None):
        self._check()
        r = Records(self, self._rows[slice(start, stop, step)])
        return r if field is None else r[field]

    @property
    def cols(self):
        return Cols(self)

    @property
    def row(self):
        return Row(self)

    def col(self, name):
        return self._column(name, self._rows)

    def _column(self, name, rows):
        import numpy as np
        self._check()
        if name not in self.colnames:
            raise KeyError(name)
        i = self.colnames.index(name)
        vals = [r[i] for r in rows]
        if all(isinstance(v, int) for v in vals):
            return np.array(vals, dtype=int)
        if vals and isinstance(vals[0], list):
            out = np.empty((len(vals), len(vals[0])), dtype=object)
            for a, v in enumerate(vals):
                for b, e in enumerate(v):
                    out[a, b] = e
            return out
        out = np.empty(len(vals), dtype=object)
        for a, v in enumerate(vals):
            out[a] = v
        return out

    @property
    def nrows(self):
        self._check()
        return len(self._rows)

    def __len__(self):
        return self.nrows

    def iterrows(self, *a):
        for r in self._rows:
            yield Record(self, r)

    __iter__ = iterrows

    def __getitem__(self, i):
        self._check()
        return Records(self, self._rows[i]) if isinstance(i, slice) else Record(self, self._rows[i])


class Record(tuple):
    def __new__(cls, tab, vals):
        r = super().__new__(cls, vals)
        r.names = tab.colnames
        return r

    def __getitem__(self, k):
        return super().__getitem__(self.names.index(k) if isinstance(k, str) else k)


class Records(list):
    def __init__(self, tab, rows):
        super().__init__(Record(tab, r) for r in rows)
        self.tab = tab

    def __getitem__(self, k):
        if isinstance(k, str):
            return self.tab._column(k, list(self))
        r = super().__getitem__(k)
        return Records(self.tab, r) if isinstance(k, slice) else r


class Cols:
    def __init__(self, tab):
        self._t = tab

    def __getattr__(self, k):
        if k.startswith('__') or k not in self._t.colnames:
            raise AttributeError(k)
        return self._t.col(k)


class Row:
    def __init__(self, tab):
        self._t, self._v = tab, {}

    def __setitem__(self, k, v):
        self._v[k] = v

    def append(self):
        self._t.append([tuple(self._v[c] for c in self._t.colnames)])
        self._v = {}


class File:
    def __init__(self, path, mode):
        self.filename = path
        self.mode = mode
        self.isopen = 1
        if mode == 'w':
            open(path, 'w').close()
            STORE[path] = Group('/', None, self)
        else:
            if path not in STORE or not os.path.exists(path):
                if mode == 'r' or os.path.exists(path):
                    raise HDF5ExtError('unable to open ' + path) if os.path.exists(path) else OSError(path)
                open(path, 'w').close()
                STORE[path] = Group('/', None, self)
        self._root = STORE[path]
        self._root._file = self

    @property
    def root(self):
        if not self.isopen:
            raise AttributeError("'File' object has no attribute 'root'")
        return self._root

    def _check(self):
        if not self.isopen:
            raise ClosedFileError('the file object is closed')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _find(self, where, name=None):
        self._check()
        n = where if isinstance(where, Node) else self._root
        path = ('' if isinstance(where, Node) else where) + ('/' + name if name else '')
        for p in [q for q in path.split('/') if q]:
            if not isinstance(n, Group) or p not in n._v_children:
                raise NoSuchNodeError(path)
            n = n._v_children[p]
        return n

    def get_node(self, where, name=None, classname=None):
        return self._find(where, name)

    def __contains__(self, path):
        try:
            self._find(path)
            return True
        except NoSuchNodeError:
            return False

    def _add(self, where, name, make):
        g = self._find(where)
        if name in g._v_children:
            raise NodeError(f'group already has a child node named {name}')
        n = make(g)
        g._v_children[name] = n
        return n

    def create_group(self, where, name, title='', **k):
        return self._add(where, name, lambda g: Group(name, g, None))

    def create_vlarray(self, where, name, atom=None, title='', **k):
        return self._add(where, name, lambda g: VLArray(name, g, None))

    def create_table(self, where, name, description=None, title='', **k):
        return self._add(where, name, lambda g: Table(name, g, None, description))

    def remove_node(self, where, name=None, recursive=False):
        n = self._find(where, name)
        if isinstance(n, Group) and n._v_children and not recursive:
            raise NodeError('not empty')
        del n._v_parent._v_children[n._v_name]
        n._v_parent = None
        n._file = None

    def _is(self, n, classname):
        return classname is None or type(n).__name__ == classname

    def iter_nodes(self, where, classname=None):
        g = self._find(where)
        return iter([g._v_children[k] for k in sorted(g._v_children) if self._is(g._v_children[k], classname)])

    def list_nodes(self, where, classname=None):
        return list(self.iter_nodes(where, classname))

    def walk_nodes(self, where='/', classname=None):
        todo = [self._find(where)]
        out = []
        while todo:
            n = todo.pop(0)
            if self._is(n, classname):
                out.append(n)
            if isinstance(n, Group):
                todo += [n._v_children[k] for k in sorted(n._v_children)]
        return iter(out)

    def walk_groups(self, where='/'):
        return self.walk_nodes(where, 'Group')

    def get_node_attr(self, where, attrname, name=None):
        return getattr(self._find(where, name)._v_attrs, attrname)

    def set_node_attr(self, where, attrname, value, name=None):
        setattr(self._find(where, name)._v_attrs, attrname, value)

    def del_node_attr(self, where, attrname, name=None):
        delattr(self._find(where, name)._v_attrs, attrname)

    def remove_children(self, where, recursive=False):
        for n in list(self.iter_nodes(where)):
            self.remove_node(n, recursive=recursive)

    def rename_node(self, where, newname, name=None):
        n = self._find(where, name)
        ch = n._v_parent._v_children
        ch[newname] = ch.pop(n._v_name)
        n._v_name = newname

    def flush(self):
        self._check()

    def close(self):
        self.isopen = 0


def open_file(filename, mode='r', title='', **k):
    return File(os.path.realpath(str(filename)), 'a' if mode == 'r+' else mode)


def crash_copy(src, dst):
    """the file as it is on disk when the process is killed after PyTables has flushed its own buffers"""
    STORE[os.path.realpath(str(dst))] = _copy(STORE[os.path.realpath(str(src))], None)
    open(str(dst), 'w').close()


def _copy(n, parent):
    if isinstance(n, Group):
        m = Group(n._v_name, parent, None)
        m._v_children = {k: _copy(c, m) for k, c in n._v_children.items()}
    elif isinstance(n, Table):
        m = Table.__new__(Table)
        Node.__init__(m, n._v_name, parent, None)
        m.colnames, m._rows = list(n.colnames), list(n._rows)
    else:
        m = VLArray(n._v_name, parent, None)
        m._rows = list(n._rows)
    m._v_attrs._d.update({k: snapshot(v) for k, v in n._v_attrs._d.items()})
    return m


def make():
    tb = types.ModuleType('tables')
    for n in ('Col', 'UInt32Col', 'Float64Col', 'BoolCol', 'Int64Col', 'StringCol', 'ComplexCol'):
        setattr(tb, n, Col if n == 'Col' else type(n, (Col,), {}))
    for n in ('VLUnicodeAtom', 'Filters'):
        setattr(tb, n, type(n, (), {'__init__': lambda self, *a, **k: None}))
    tb.Group, tb.Table, tb.VLArray, tb.File, tb.Node = Group, Table, VLArray, File, Node
    tb.open_file = open_file
    ex = types.ModuleType('tables.exceptions')
    for c in (HDF5ExtError, NoSuchNodeError, NodeError, ClosedNodeError, ClosedFileError):
        setattr(ex, c.__name__, c)
        setattr(tb, c.__name__, c)
    tb.exceptions = ex
    return tb, ex
