"""
A stand-in for FontDocTools.GlyphPlotterEngine, which is not installed here: it
keeps the settings and records the elements drawn with the settings in effect.
"""
import enum
from collections import namedtuple

from .Color import Color

Margins = namedtuple("Margins", "left bottom right top")


class PaintMode(enum.Enum):
    fill = "fill"
    stroke = "stroke"
    fillAndStroke = "fillAndStroke"


class CoordinateSystem(enum.Enum):
    frame = "frame"
    frameMargins = "frameMargins"
    content = "content"
    contentMargins = "contentMargins"


class _BoundsAggregator:
    def __init__(self):
        self.bounds = []

    def addBounds(self, bounds):
        self.bounds.append(tuple(bounds))


class GlyphPlotterEngine:
    def __init__(self):
        self._boundsAggregator = _BoundsAggregator()
        self._contentMargins = self._frameMargins = Margins(0, 0, 0, 0)
        self._labelFont = "Helvetica"
        self._labelFontSize = 12
        self._labelLineHeight = 14
        self._fillColor = Color(0, 0, 0)
        self._fillOpacity = 1
        self._strokeWidth = 1
        self._strokeColor = Color(0, 0, 0)
        self._strokeOpacity = 1
        self._strokeDash = None
        self._pen = (0, 0)
        self._content = []

    def setContentMargins(self, margins):
        self._contentMargins = margins

    def setFrameMargins(self, margins):
        self._frameMargins = margins

    def setLabelFont(self, font):
        self._labelFont = font

    def setLabelFontSize(self, size, lineHeight):
        self._labelFontSize, self._labelLineHeight = size, lineHeight

    def setFillColor(self, color):
        self._fillColor = color

    def setFillOpacity(self, opacity):
        self._fillOpacity = opacity

    def setStrokeWidth(self, width):
        self._strokeWidth = width

    def setStrokeColor(self, color):
        self._strokeColor = color

    def setStrokeOpacity(self, opacity):
        self._strokeOpacity = opacity

    def setStrokeDash(self, dash):
        self._strokeDash = dash

    def moveToXY(self, x, y):
        self._pen = (x, y)

    @staticmethod
    def _rgb(color):
        return "none" if color is None else f"rgb({color.red},{color.green},{color.blue})"

    def _fillAttributes(self):
        return f"fill='{self._rgb(self._fillColor)}' fill-opacity='{self._fillOpacity}'"

    def _strokeAttributes(self):
        return (f"stroke-width='{self._strokeWidth}' stroke='{self._rgb(self._strokeColor)}' "
                f"stroke-opacity='{self._strokeOpacity}' stroke-dasharray='{self._strokeDash}'")

    def _paint(self, paintMode):
        fill = self._fillAttributes() if paintMode in (PaintMode.fill, PaintMode.fillAndStroke) else "fill='none'"
        stroke = f" {self._strokeAttributes()}" if paintMode in (PaintMode.stroke, PaintMode.fillAndStroke) else ""
        return fill + stroke

    def drawCircle(self, coordinateSystem, centerX, centerY, radius, paintMode):
        self._content.append(f"<circle in='{coordinateSystem.value}' cx='{centerX}' cy='{centerY}' r='{radius}' {self._paint(paintMode)}/>")

    def drawLabel(self, coordinateSystem, x, y, lineIndex, alignment, text):
        self._content.append(f"<text in='{coordinateSystem.value}' x='{x}' y='{y}' line='{lineIndex}' align='{alignment}' "
                             f"font='{self._labelFont}' size='{self._labelFontSize}' height='{self._labelLineHeight}' text='{text}' {self._fillAttributes()}/>")

    def drawArrow(self, coordinateSystem, startX, startY, endX, endY, style, position):
        self._content.append(f"<arrow in='{coordinateSystem.value}' x1='{startX}' y1='{startY}' x2='{endX}' y2='{endY}' "
                             f"style='{style}' position='{position}' fill='none' {self._strokeAttributes()}/>")

    def generateFinalImage(self):
        return "\n".join(self._content)
