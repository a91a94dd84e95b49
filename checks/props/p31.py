"""P31: developer scripts are lossless"""
import ast
import contextlib
import copy
import io
import logging
import os
import shutil
import string
import sys
import tempfile
from unittest import mock

import numpy as np
from core import Sub, fail, require
from gens import bools, seeds, st, weighted

PROPERTY = "P31"
RULE = (
    "A case is a notebook (cells of generated Python code, commands and "
    "magics at any depth, invalid code, markdown, outputs), a set of "
    "changelog files, or a version with its file. Non-trivial: a notebook with "
    "a command and code which gets formatted, at least three versions, or "
    "notes of several lines.")
ASSUMPTIONS = [
    "Notebooks are in format 4, and a command takes one line",
    "Changelog files are named v<numbers><extension>",
]


def script(name):
  """Import a script from the repository under test"""
  import importlib

  import sample
  repo = os.path.dirname(os.path.dirname(os.path.abspath(sample.__file__)))
  path = os.path.join(repo, "scripts", "utils")
  sys.path.insert(0, path)
  try:
    return importlib.import_module(name)
  finally:
    sys.path.remove(path)


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix="p31-")
  level = logging.root.manager.disable
  logging.disable(logging.CRITICAL)
  try:
    yield d
  finally:
    logging.disable(level)
    shutil.rmtree(d)


# --- Notebooks ---------------------------------------------------------------
NAMES = ["a", "b", "foo", "x_1", "long_variable_name"]
COMMANDS = [
    "!ls -la", "%matplotlib inline", "!pip install  'x[y]'", "%load_ext a",
    "!echo \"# no\"", "%timeit foo( 1,2 )", "!", "%", "!a  # b", "%cd ..  ",
    "!echo  {x_1} | grep '%d'", "%%", "!ls # pass  # !x", "%env A='é ☃'",
    "!echo \tx", "%run -i x.py --a=1,2", "!" + "x" * 120,
]
#: Magics of the whole cell whose body is not Python
MAGICS = ["%%bash", "%%html", "%%writefile a.txt", "%%javascript", "%%latex",
          "%%sh -x", "%%script foo --no", "%%markdown"]
BODIES = ["x=1", "a,b", "-la", "x =  [ 1,2]", "echo", "# comment\n\n\n\n\nx",
          "if (x) :\n      y", "print( 'a' )", "(a  + b)", "x;y"]
#: Magics of the whole cell whose body is Python
PYTHON = ["%%time", "%%capture out", "%%timeit -n 3"]
TEXTS = ["plain", "%d items", "!bang", "  % indented", "a\\nb", "é ☃",
         "line one\n%magic-like line\n  !another\nend", "a\u2028b", "a\x0cb",
         "a\x0bb\x85c", "tab\there", "\n\n\n"]


def expression(draw, depth=0):
  k = draw(st.integers(0, 7 if depth < 2 else 3))
  if k == 0:
    return str(draw(st.integers(0, 999)))
  if k in (1, 2):
    return draw(st.sampled_from(NAMES))
  if k == 3:
    s = draw(st.sampled_from(TEXTS))
    if "\n" in s:
      return '"""' + s + '"""'
    return draw(st.sampled_from(["'%s'", '"%s"'])) % s
  if k == 4:
    return draw(st.sampled_from(["%s+%s", "%s  *  %s", "(%s -%s)", "%s%%%s",
                                 "(%s\n   %% %s)"])) % (
        expression(draw, depth + 1), expression(draw, depth + 1))
  if k == 5:
    items = [expression(draw, depth + 1) for _ in range(draw(st.integers(0, 4)))]
    return "[" + draw(st.sampled_from([",", " , ", ",\n"])).join(items) + "]"
  if k == 6:
    return "foo( " + ",".join(f"{n} = {expression(draw, depth + 1)}"
                              for n in NAMES[:draw(st.integers(0, 3))]) + ")"
  return "{" + f"{expression(draw, depth + 1)}:{expression(draw, depth + 1)}" + \
      "}"


def block(draw, depth=0):
  """Lines of code; commands are marked"""
  lines = []
  pad = "    " * depth if depth < 2 else "    " * depth
  for _ in range(draw(st.integers(1, 3))):
    k = draw(st.integers(0, 8 if depth < 2 else 5))
    if k in (0, 1):
      lines.append(pad + draw(st.sampled_from(NAMES)) +
                   draw(st.sampled_from(["=", " = ", "  +=  "])) +
                   expression(draw))
    elif k == 2:
      lines.append(pad + expression(draw))
    elif k in (3, 4):
      lines.append(pad + draw(st.sampled_from(COMMANDS)))
    elif k == 5:
      lines.append(pad + draw(st.sampled_from(
          ["# comment", "#comment %x", "# !ls", "import numpy  as np", ""])))
      lines.append(pad + "pass")
    else:
      head = draw(st.sampled_from(["if a :", "for x_1 in  foo( b ):",
                                   "def f(a,b = 1):", "with a as b:",
                                   "while  True :"]))
      lines.append(pad + head)
      lines.extend(block(draw, depth + 1))
  return lines


@st.composite
def cells(draw):
  k = draw(st.integers(0, 11))
  if k == 0:
    return ["markdown", draw(st.sampled_from(["# Title", "!x\n%y  ", ""]))]
  if k == 1:
    return ["raw", "x  =  1"]
  if k == 2:
    return ["other", "\n".join([draw(st.sampled_from(MAGICS)),
                                draw(st.sampled_from(BODIES))])]
  if k == 3:
    return ["invalid", "\n".join(
        [*block(draw), draw(st.sampled_from(
            ["x = (", "def f(:", "  y = 1 +", "a?", "y = !ls", "'abc"]))])]
  if k == 4:
    return ["ignored", draw(st.sampled_from(
        ["# yapf: ignore", "#!x # yapf: ignore"])) + "\nx  =  1\n!ls"]
  if k == 5:
    return ["blank", draw(st.sampled_from(["", "  ", "\n", "\n \n"]))]
  if k == 6:
    return ["code", "\n".join([draw(st.sampled_from(PYTHON)), *block(draw)])]
  return ["code", "\n".join(block(draw)) + draw(st.sampled_from(["", "", "\n"]))]


@st.composite
def notebook_cases(draw):
  return {
      "cells": [list(c) for c in draw(st.lists(cells(), min_size=1,
                                               max_size=5))],
      "dry": draw(st.integers(0, 4)) == 0,
      "tag": draw(st.integers(0, 3)) == 0,
      "style": draw(st.sampled_from(
          [None, None, "google", "pep8", "yapf", "facebook",
           "{based_on_style: google, spaces_before_comment: 4}",
           "{based_on_style: pep8, spaces_before_comment: 1}",
           "{based_on_style: google, spaces_before_comment: '20, 40'}"])),
      "cli": draw(bools),
  }


def split(src):
  """Commands of a cell in order, and the tree of the rest

  A line is a command if it is one for the notebook: where a statement may
  begin"""
  lines = src.split("\n")
  cmds = []
  for i, l in enumerate(lines):
    s = l.lstrip(" \t")
    if s[:1] in ("!", "%"):
      # A line of a string or of an expression is not a command
      alone = lines.copy()
      alone[i] = l[:len(l) - len(s)] + "MARK_"
      rest = [m if j == i or m.lstrip(" \t")[:1] not in ("!", "%") else
              m[:len(m) - len(m.lstrip(" \t"))] + "pass"
              for j, m in enumerate(alone)]
      try:
        t = ast.parse("\n".join(rest))
      except (SyntaxError, ValueError):
        continue
      if any(isinstance(n, ast.Expr) and isinstance(n.value, ast.Name) and
             n.value.id == "MARK_" for n in ast.walk(t)):
        cmds.append(i)
  text = [lines[i].lstrip(" \t") for i in cmds]
  code = [l if i not in cmds else l[:len(l) - len(l.lstrip(" \t"))] +
          f"MARK_{cmds.index(i)}" for i, l in enumerate(lines)]
  try:
    return text, ast.dump(ast.parse("\n".join(code)))
  except (SyntaxError, ValueError):
    return text, None


def check_notebook(c, ctx):
  import nbformat
  mod = script("yapf_nbformat")
  nb = nbformat.v4.new_notebook(metadata={"a": [1, "b"]})
  for i, (k, src) in enumerate(c["cells"]):
    if k == "markdown":
      nb.cells.append(nbformat.v4.new_markdown_cell(src))
    elif k == "raw":
      nb.cells.append(nbformat.v4.new_raw_cell(src))
    else:
      nb.cells.append(nbformat.v4.new_code_cell(
          src, execution_count=i, metadata={"n": i}, outputs=[
              nbformat.v4.new_output("stream", name="stdout", text="!x\n y")
          ] if i % 2 else []))
    nb.cells[-1]["id"] = f"cell-{i}"
  with scratch() as d:
    path = os.path.join(d, "n.ipynb")
    with open(path, mode="w", encoding="utf-8") as f:
      nbformat.write(nb, f)
    before = raw(path)

    def run():
      # Without a style, yapf uses that of the previous call
      kw = {"style": c["style"]}
      if c["style"] and not c["cli"]:
        return mod.format_nb(path, dry_run=c["dry"], tag_errors=c["tag"], **kw)
      argv = [path]
      if c["style"]:
        argv += ["--style", c["style"]]
      if c["dry"]:
        argv.append("--dry-run")
      if c["tag"]:
        argv.append("--tag-errors")
      mod.main(*argv)
      return None

    changed = run()
    after = raw(path)
    require(os.listdir(d) == ["n.ipynb"], "files: %s", os.listdir(d))
    if c["dry"]:
      require(after == before, "a dry run changed the file")
      after_ = None
    else:
      after_ = after
    with open(path, encoding="utf-8") as f:
      got = nbformat.read(f, as_version=4)
    require(len(got.cells) == len(nb.cells), "%d cells, there were %d",
            len(got.cells), len(nb.cells))
    if after_ is not None and changed is not None:
      require(changed == (after != before), "said %s, the file is %s", changed,
              "changed" if after != before else "as before")
    a, b = copy.deepcopy(got), copy.deepcopy(nb)
    fixed = commands = 0
    for (k, src), u, v in zip(c["cells"], a.cells, b.cells):
      new = u["source"]
      if k != "code":
        want = src
        if k == "invalid" and c["tag"] and not c["dry"]:
          # The error is appended as comments
          extra = new[len(src):]
          require(new.startswith(src) and all(
              l.startswith("#") for l in extra.split("\n") if l),
                  "invalid cell %r became %r", src, new)
          want = new
        require(new == want, "%s cell %r became %r", k, src, new)
      else:
        t0, p0 = split(src)
        t1, p1 = split(new)
        if p0 is not None:
          require(t0 == t1, "commands %s of cell %r became %s in %r", t0, src,
                  t1, new)
          require(p0 == p1, "the code of cell %r is not that of %r", src, new)
        fixed += new != src
        commands += bool(t0)
      u["source"] = v["source"] = ""
    require(a == b, "something other than the code changed")
    # Formatting does it all at once
    if not c["dry"]:
      run()
      with open(path, encoding="utf-8") as f:
        again = nbformat.read(f, as_version=4)
      for u, v in zip(got.cells, again.cells):
        require(split(u["source"]) == split(v["source"]),
                "cell %r became %r when formatted again", u["source"],
                v["source"])
  ctx.tag(*sorted({k for k, _ in c["cells"]}))
  ctx.nontrivial(fixed > 0 and commands > 0)


def raw(path):
  with open(path, mode="rb") as f:
    return f.read()


# --- Changelog ---------------------------------------------------------------
VERSION = st.lists(st.one_of(st.integers(0, 3), st.integers(8, 12),
                             st.integers(0, 120)), min_size=1, max_size=4)


@st.composite
def changelog_cases(draw):
  return {
      "versions": draw(st.lists(VERSION, max_size=9, unique_by=tuple)),
      "others": draw(st.lists(st.sampled_from(
          ["README.md", "notes.txt", "v.md", "vx_1.md", "v1_.md", "v1__2.md",
           ".gitignore", "v1_a.md", "index"]), max_size=3, unique=True)),
      "sep": draw(st.sampled_from([None, None, "_", "-", "."])),
      "ext": draw(st.sampled_from([".md", ".md", ".txt"])),
      "prefix": draw(st.sampled_from(["v", "v", "", "version"])),
      "out": draw(st.sampled_from(["sub/c.rst", "c.rst", "a/b/c.rst", "in.rst",
                                   "in/../c.rst"])),
      "dir": draw(st.sampled_from(["in", "x/in"])),
      "dry": draw(st.integers(0, 3)) == 0,
      "cwd": draw(bools),
      "twice": draw(bools),
  }


def check_changelog(c, ctx):
  mod = script("make_changelog")
  sep = c["sep"] or "_"
  names = {}
  for v in c["versions"]:
    names[c["prefix"] + sep.join(map(str, v)) + c["ext"]] = v
  with scratch() as d:
    d_in = os.path.join(d, c["dir"])
    out = os.path.join(d, c["out"])
    os.makedirs(d_in)
    os.makedirs(os.path.join(d, "in"), exist_ok=True)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    for n in [*names, *c["others"]]:
      with open(os.path.join(d_in, n), mode="w", encoding="utf-8") as f:
        f.write("## title\ntext\n")
    listing = sorted(os.listdir(d_in))
    argv = ["--input", d_in, "--output", out]
    cwd = os.getcwd()
    if c["cwd"]:
      argv = ["-I", c["dir"], "-O", c["out"]]
    if c["sep"]:
      argv += ["--separator", c["sep"]]
    if c["dry"]:
      argv.append("--dry-run")
    argv += ["-l", "critical"]
    buf = io.StringIO()
    try:
      os.chdir(d)
      for _ in range(1 + c["twice"]):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
          mod.main(*argv)
    finally:
      os.chdir(cwd)
    require(sorted(os.listdir(d_in)) == listing or
            os.path.dirname(os.path.normpath(out)) == d_in,
            "the input folder changed")
    if c["dry"]:
      require(not os.path.exists(out), "a dry run wrote the file")
      text = buf.getvalue()
    else:
      with open(out, encoding="utf-8") as f:
        text = f.read()
    lines = text.split("\n")
    require(lines[:2] == ["Changelog", "========="], "title: %s", lines[:2])
    got = []
    for l in lines[2:]:
      if not l.strip():
        continue
      require(l.startswith(".. mdinclude:: "), "line %r", l)
      p = os.path.normpath(os.path.join(os.path.dirname(os.path.normpath(out)),
                                        l[len(".. mdinclude:: "):]))
      require(os.path.dirname(p) == d_in and os.path.isfile(p),
              "%r is not a changelog file", l)
      got.append(os.path.basename(p))
    require(sorted(got) == sorted(names), "included %s, the versions are %s",
            sorted(got), sorted(names))
    order = [tuple(names[n]) for n in got]
    require(order == sorted(order, reverse=True), "order: %s", order)
  ctx.nontrivial(len(names) >= 3)


# --- Notes of a version ------------------------------------------------------
LINE = st.one_of(
    st.sampled_from(["", "text", "## v1.0.0", "### Features", "- a\tb", "é ☃",
                     "    code", "trailing  ", "a\u2028b", "#"]),
    st.text(alphabet=string.printable[:95], max_size=20))


@st.composite
def extract_cases(draw):
  v = draw(VERSION)
  return {
      "version": v,
      "suffix": draw(st.sampled_from(["", "", "", "a1", "rc2", "b", ".dev0",
                                      ".post1", "-beta", "+local.1"])),
      "lines": draw(st.lists(LINE, max_size=8)),
      "end": draw(bools),
      "others": draw(st.lists(VERSION, max_size=4)),
      "stdout": draw(bools),
      "default": draw(st.integers(0, 4)) == 0,
      "exists": draw(bools),
  }


def check_extract(c, ctx):
  import sample
  mod = script("extract_changelog")
  lines = c["lines"] or [""]
  text = "\n".join([f"## v{'.'.join(map(str, c['version']))}", *lines])
  if c["end"] and lines[-1]:
    text += "\n"
  version = ".".join(map(str, c["version"]))
  full = version + c["suffix"]
  if c["default"]:
    full = sample.__version__
    version = full
  want = text.split("\n", 1)[1]
  with scratch() as d:
    name = "v" + version.replace(".", "_") + ".md"
    for o in c["others"]:
      with open(os.path.join(d, "v" + "_".join(map(str, o)) + ".md"), mode="w",
                encoding="utf-8") as f:
        f.write("## other\nother\n")
    with open(os.path.join(d, name), mode="w", encoding="utf-8") as f:
      f.write(text)
    out = os.path.join(d, "out.log")
    if c["exists"]:
      with open(out, mode="w", encoding="utf-8") as f:
        f.write("old text\n" * 50)
    argv = ["--dir", d]
    if not c["default"]:
      argv += ["--version", full]
    if not c["stdout"]:
      argv += ["--output", out]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
      mod.main(*argv)
    if c["stdout"]:
      got = buf.getvalue()
    else:
      require(buf.getvalue() == "", "printed %r", buf.getvalue())
      with open(out, encoding="utf-8") as f:
        got = f.read()
    require(got == want, "notes of %s: %r, expected %r", full, got, want)
    with open(os.path.join(d, name), encoding="utf-8") as f:
      require(f.read() == text, "the notes were modified")
  ctx.nontrivial(len(lines) >= 2)


SUBS = [
    Sub("notebooks", notebook_cases, check_notebook, quick=900, shards=4),
    Sub("changelog", changelog_cases, check_changelog, quick=600),
    Sub("extract", extract_cases, check_extract, quick=600),
]
