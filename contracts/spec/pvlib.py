"""Stand-ins for builtin types that the verified functions create and inspect."""


class Property:
    """builtins.property, as far as the verified code uses it."""

    def __init__(self, fget=None, fset=None):
        self.fget = fget
        self.fset = fset

    def setter(self, fset):
        return Property(self.fget, fset)
