class BaseBox:
    pass


class Token(BaseBox):
    def __init__(self, name, value, source_pos=None):
        self.name = name
        self.value = value
        self.source_pos = source_pos

    def gettokentype(self):
        return self.name

    def getsourcepos(self):
        return self.source_pos

    def getstr(self):
        return self.value


class SourcePosition:
    def __init__(self, idx, lineno, colno):
        self.idx = idx
        self.lineno = lineno
        self.colno = colno

    def __repr__(self):
        return f"SourcePosition(idx={self.idx}, lineno={self.lineno}, colno={self.colno})"
