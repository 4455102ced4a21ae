"""A stand-in for FontDocTools.Color, which is not installed here."""


class Color:
    def __init__(self, red, green, blue):
        self.red, self.green, self.blue = red, green, blue

    def __eq__(self, other):
        return isinstance(other, Color) and (self.red, self.green, self.blue) == (other.red, other.green, other.blue)

    def __hash__(self):
        return hash((self.red, self.green, self.blue))

    def __repr__(self):
        return f"Color({self.red}, {self.green}, {self.blue})"
