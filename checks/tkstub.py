"""A Tcl interpreter without Tk (hence without a display), where the commands
of Tk are stand-ins which remember the options of the widgets. Python's
tkinter classes and Tcl variables work on top of it."""
import contextlib
import tkinter
from tkinter import filedialog, messagebox
from unittest import mock

_TCL = r"""
proc unknown {args} {
  global opts
  set first [lindex $args 0]
  set second [lindex $args 1]
  if {$second eq "create"} {return 1}
  if {$second eq "cget"} {
    set k "$first,[lindex $args 2]"
    if {[info exists opts($k)]} {return $opts($k)}
    return ""
  }
  set w ""
  if {$second eq "configure"} {
    set w $first
  } elseif {[string index $second 0] eq "."} {
    set w $second
  }
  if {$w ne "" && [llength $args] % 2 == 0} {
    foreach {o v} [lrange $args 2 end] {set opts($w,$o) $v}
  }
  return ""
}
proc winfo {cmd args} {
  set w [lindex $args end]
  if {$cmd eq "parent"} {
    set i [string last . $w]
    if {$i <= 0} {return .}
    return [string range $w 0 [expr {$i - 1}]]
  }
  if {$cmd eq "children" || $cmd eq "toplevel"} {return ""}
  return 100
}
"""


def root():
  """A root widget"""
  r = tkinter.Tk(useTk=0)
  r.tk.eval(_TCL)
  # Errors in callbacks are errors
  return r


class Dialogs:
  """Stand-in for message boxes and file dialogs, which remembers them"""

  def __init__(self, yes=False):
    self.shown = []
    self.files = []
    self.yes = yes

  def box(self, kind):

    def box_(title=None, message=None, **kw):  # pylint: disable=W0613
      self.shown.append((kind, title, message))
      return self.yes if kind == "askyesno" else "ok"

    return box_

  def file(self, *args, **kw):  # pylint: disable=W0613
    return self.files.pop(0) if self.files else ""

  def errors(self):
    return [t for t in self.shown if t[0] == "showerror"]


@contextlib.contextmanager
def dialogs(yes=False):
  d = Dialogs(yes)
  with contextlib.ExitStack() as s:
    for k in ("showwarning", "showerror", "showinfo", "askyesno"):
      s.enter_context(mock.patch.object(messagebox, k, d.box(k)))
    for k in ("askopenfilename", "asksaveasfilename"):
      s.enter_context(mock.patch.object(filedialog, k, d.file))
    yield d


class Event:
  """Stand-in for a mouse event"""

  def __init__(self, xdata, ydata=0.):
    self.xdata = xdata
    self.ydata = None if xdata is None else ydata


@contextlib.contextmanager
def figures():
  """Replace the frames of figures with ones drawn with Agg"""
  from matplotlib import figure
  from matplotlib.backends import backend_agg
  from sample.widgets import pyplot
  from sample.widgets import responsive as tk

  class Toolbar:

    def __init__(self, frame):
      self._buttons = {k: tk.Checkbutton(frame) for k in ("Pan", "Zoom")}
      self.updates = 0

    def update(self):
      self.updates += 1

  class PyplotFrame(tk.Frame):

    def __init__(self, *args, fig_dpi=72, fig_w=640, fig_h=360, **kwargs):
      super().__init__(*args, **kwargs)
      self.fig = figure.Figure(figsize=(fig_w / fig_dpi, fig_h / fig_dpi),
                               dpi=fig_dpi)
      self.canvas = backend_agg.FigureCanvasAgg(self.fig)
      self.callbacks = {}
      self.canvas.mpl_connect = self.callbacks.__setitem__
      self.drawn = 0
      self.canvas.draw = self.draw
      self.toolbar = Toolbar(self)

    def draw(self):
      self.drawn += 1

  with mock.patch.object(pyplot, "PyplotFrame", PyplotFrame):
    yield
