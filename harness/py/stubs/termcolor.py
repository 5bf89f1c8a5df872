"""Stand-in for termcolor: no colours."""
def colored(text, *a, **k): return str(text)
def cprint(text, *a, **k): print(text)
