class PlumedHeader:
    def __init__(self, fields=None, constants=None, delim=None):
        self.fields = fields or []
        self.constants = constants or {}
        self.delim = delim or "#!"

    def __repr__(self):
        lines = [self.delim + " FIELDS " + " ".join(self.fields)]
        for name, value in self.constants.items():
            lines.append(f"{self.delim} SET {name} {value}")
        return "\n".join(lines)
