"""Stand-in for PyQt5: widgets hold their state and emit their signals; the event loop is an exhaustive exploration (gui3d)."""
