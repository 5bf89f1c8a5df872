import inspect

actions, checks, spins = [], [], []
dialog = {"path": "", "box": []}


class Signal:
    def __init__(self): self.slots = []
    def __call__(self, *a, **k): return None        # (a method whose name looks like a signal)
    def connect(self, f, *a): self.slots.append(f)
    def disconnect(self, f=None): self.slots = [s for s in self.slots if f is not None and s != f]

    def emit(self, *args):
        for f in list(self.slots):
            try: n = len([p for p in inspect.signature(f).parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
            except (TypeError, ValueError): n = len(args)
            if any(p.kind == p.VAR_POSITIONAL for p in inspect.signature(f).parameters.values()): n = len(args)
            f(*args[:n])


class _Meta(type):
    def __getattr__(cls, n):
        if n.startswith("__"): raise AttributeError(n)
        return _any_class(n)


class Any(metaclass=_Meta):
    """any object of the library: every method is accepted and does nothing"""
    def __init__(self, *a, **k): self.__dict__["_sig"] = {}

    def __getattr__(self, n):
        if n.startswith("__") or n == "_sig": raise AttributeError(n)
        if n in ("statusBar", "menuBar", "layout", "addMenu", "addToolBar", "verticalScrollBar"): return lambda *a, **k: Any()
        if n.endswith(("ed", "Changed", "Finished", "Pressed")) and not n.startswith(("is", "set")): return self._sig.setdefault(n, Signal())
        return lambda *a, **k: None

    def __or__(self, o): return self


_cache = {}


def _any_class(name):
    if name not in _cache: _cache[name] = _Meta(name, (Any,), {})
    return _cache[name]


class QWidget(Any): pass
class QMainWindow(QWidget): pass


class QLabel(QWidget):
    def __init__(self, text="", *a): super().__init__(); self.t = text
    def setText(self, t): self.t = t
    def text(self): return self.t


class QAction(Any):
    def __init__(self, *a):
        super().__init__()
        self.label = next((x for x in a if isinstance(x, str)), "")
        self.triggered = Signal()
        self.on = True
        actions.append(self)
    def text(self): return self.label
    def setText(self, t): self.label = t
    def setEnabled(self, b): self.on = bool(b)
    def isEnabled(self): return self.on
    def trigger(self):
        if self.on: self.triggered.emit(False)


class QPushButton(QAction):
    def __init__(self, *a): super().__init__(*a); self.clicked = self.triggered


class QCheckBox(QWidget):
    def __init__(self, *a):
        super().__init__()
        self.label = next((x for x in a if isinstance(x, str)), "")
        self.v, self.on, self.blocked = False, True, False
        self.stateChanged, self.toggled, self.clicked = Signal(), Signal(), Signal()
        checks.append(self)
    def text(self): return self.label
    def isChecked(self): return self.v
    def checkState(self): return 2 if self.v else 0
    def setEnabled(self, b): self.on = bool(b)
    def isEnabled(self): return self.on
    def blockSignals(self, b): o, self.blocked = self.blocked, bool(b); return o
    def setChecked(self, b):
        if bool(b) == self.v: return
        self.v = bool(b)
        if not self.blocked: self.toggled.emit(self.v); self.stateChanged.emit(2 if self.v else 0)
    def click(self):
        if self.on: self.setChecked(not self.v); self.clicked.emit(self.v)


class QDoubleSpinBox(QWidget):
    def __init__(self, *a):
        super().__init__()
        self.v, self.lo, self.hi, self.dec = 0., 0., 99.99, 2
        self.valueChanged, self.editingFinished = Signal(), Signal()
        spins.append(self)
    def setRange(self, a, b): self.lo, self.hi = a, b
    def setMinimum(self, a): self.lo = a
    def setMaximum(self, a): self.hi = a
    def setDecimals(self, n): self.dec = n
    def value(self): return self.v
    def setValue(self, x):
        x = round(min(max(float(x), self.lo), self.hi), self.dec)
        if x != self.v: self.v = x; self.valueChanged.emit(x)


class QFileDialog(Any):
    @staticmethod
    def getOpenFileName(*a, **k): return dialog["path"], ""


class QMessageBox(Any):
    @staticmethod
    def critical(*a, **k): dialog["box"].append(a[-1])
    warning = information = critical


class QApplication(Any):
    def exec_(self):
        import gui3d
        gui3d.explore()
        return 0
    exec = exec_
    @staticmethod
    def processEvents(*a): pass


def __getattr__(name):
    if name.startswith("__"): raise AttributeError(name)
    return _any_class(name)
