"""Registration of verification targets by the property files in specs/."""


class Property(object):
    def __init__(self, pid, trusted=(), notes=""):
        self.pid = pid
        self.targets = []
        self.trusted = list(trusted)
        self.notes = notes

    def target(self, name, spec=None, functions=(), **kw):
        """Decorator: run(eng) sets up an arbitrary pre-state satisfying the
        precondition, calls the real function and states the postcondition.
        `functions` are the functions of /repo the contract is about."""
        def deco(fn):
            self.targets.append({"name": name, "run": fn, "spec": spec, "functions": list(functions), **kw})
            return fn
        return deco
