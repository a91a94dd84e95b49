"""P27: optional storage and default members behave as a map of lists"""
import copy
import pickle

import numpy as np
from core import Sub, arr, close, fail, raises, require, same
from gens import bools, fl, logfl, opt, seeds, st, weighted
from sounds import equal

PROPERTY = "P27"
RULE = (
    "A case is a history of operations, run in lockstep on a model: for the "
    "storage, a dictionary of lists; for default members, the identity of "
    "every value set, on generated classes and on the package's. "
    "Non-trivial: something was stored (members: at least two objects had "
    "their own default).")

# --- Storage ------------------------------------------------------------------
KEYS = ["stft", "peaks", "decision", "", "a b"]


def values():
  return st.one_of(st.none(), st.integers(-5, 5), st.text(max_size=3),
                   st.lists(st.integers(0, 3), max_size=3),
                   st.dictionaries(st.sampled_from("ab"), st.lists(
                       st.integers(0, 3), max_size=2), max_size=2),
                   st.lists(fl(-1, 1), min_size=1, max_size=3).map(
                       lambda l: {"array": l}))


def ops():
  k = st.sampled_from(KEYS)
  return weighted(
      (6, st.tuples(st.just("append"), k, values(), bools)),
      (6, st.tuples(st.just("index"), k, values(), st.integers(0, 9), bools)),
      (2, st.tuples(st.just("save"), bools, st.sampled_from(
          ["attr", "set_params"]))),
      (2, st.tuples(st.just("get"), k)),
      (2, st.tuples(st.just("state"), st.sampled_from([None, True, False]))),
      (1, st.tuples(st.just("reset"))),
      (1, st.tuples(st.just("mutate"), st.integers(0, 3))),
      (1, st.tuples(st.just("clone"))),
      (1, st.tuples(st.just("pickle"))),
      (1, st.tuples(st.just("copy"))),
      (1, st.tuples(st.just("other"), k, values())),
  ).map(list)


def storage_cases():
  return st.fixed_dictionaries({
      "save": opt(bools),
      "ops": st.lists(ops(), min_size=1, max_size=25),
  })


def make(v):
  if isinstance(v, dict) and set(v) == {"array"}:
    return np.array(v["array"])
  return copy.deepcopy(v)


def mutate(v):
  """Change a mutable value in place"""
  if isinstance(v, np.ndarray):
    v += 1
  elif isinstance(v, list):
    v.append(99)
  elif isinstance(v, dict):
    v["z"] = 99


def check_storage(case, ctx):
  from sklearn.base import clone
  from sample.utils.learn import OptionalStorage
  kw = {} if case["save"] is None else {"save": case["save"]}
  s = OptionalStorage(**kw)
  save = bool(case["save"])
  ref = {}
  snaps, given = [], []
  stored = 0
  other = OptionalStorage(save=True)
  oref = {}
  for op in case["ops"]:
    name = op[0]
    if name in ("append", "index"):
      v = make(op[2])
      if name == "append":
        r = s(op[1], v) if op[3] else s.append(op[1], v)
      else:
        r = s.append(op[1], v, index=op[3]) if op[4] else s(op[1], v, op[3])
      require(r is v, "append returned %r instead of the value", r)
      given.append(v)
      if save:
        stored += 1
        l = ref.setdefault(op[1], [])
        if name == "append":
          l.append(v)
        else:
          l.extend([None] * (op[3] + 1 - len(l)))
          l[op[3]] = v
    elif name == "save":
      save = op[1]
      if op[2] == "attr":
        s.save = save
      else:
        s.set_params(save=save)
    elif name == "get":
      if op[1] in ref:
        got = s[op[1]]
        require(len(got) == len(ref[op[1]]) and all(
            a is b for a, b in zip(got, ref[op[1]])),
                "%r holds %r, expected %r", op[1], got, ref[op[1]])
      else:
        raises(KeyError, s.__getitem__, op[1], what="missing key")
    elif name == "state":
      got = s.get_state() if op[1] is None else s.get_state(deepcopy=op[1])
      require(equal(got, ref), "state is %r, expected %r", got, ref)
      if op[1] is False:
        for k, l in ref.items():
          require(all(a is b for a, b in zip(got[k], l)),
                  "values were copied in a shallow state")
      else:
        snaps.append((got, copy.deepcopy(ref)))
    elif name == "reset":
      s.reset()
      ref = {}
    elif name == "mutate":
      if given:
        mutate(given[-1 - op[1] % len(given)])
    elif name == "clone":
      c = clone(s)
      require(c.save == save and not c.get_state(), "clone is %r with %r", c,
              c.get_state())
      c.save = True
      c.append("clone", 1)
    elif name == "pickle":
      s = pickle.loads(pickle.dumps(s))
      require(equal(s.get_state(), ref), "unpickled state is %r, expected %r",
              s.get_state(), ref)
      ref = dict(s.get_state(deepcopy=False))
      ref = {k: list(v) for k, v in ref.items()}
    elif name == "copy":
      c = copy.deepcopy(s)
      require(equal(c.get_state(), ref), "the copy's state is %r",
              c.get_state())
      c.save = True
      c.append("copy", 1)
      c.reset()
    else:
      v = make(op[2])
      other.append(op[1], v)
      oref.setdefault(op[1], []).append(v)
    require(bool(s.save) == save and set(s.get_params()) == {"save"},
            "parameters are %r", s.get_params())
    # State after every operation
    got = s.get_state(deepcopy=False)
    require(equal(got, ref), "state is %r, expected %r", got, ref)
    for a, b in snaps:
      require(equal(a, b), "a snapshot changed from %r to %r", b, a)
  require(equal(other.get_state(), oref), "another storage holds %r, expected "
          "%r", other.get_state(), oref)
  ctx.nontrivial(stored > 0)


# --- Default members ----------------------------------------------------------
def member_cases():
  who = st.integers(0, 3)
  prop = st.sampled_from(["first", "second"])
  op = weighted(
      (4, st.tuples(st.just("new"), st.sampled_from(["none", "omit", "value"]),
                    bools)),
      (4, st.tuples(st.just("set"), who, prop, st.sampled_from(
          ["none", "value", "zero", "shared", "text", "dict", "list", "false",
           "nan", "array", "never"]))),
      (3, st.tuples(st.just("get"), who, prop)),
      (1, st.tuples(st.just("defaulter"), prop, st.sampled_from(
          ["nothing", "falsy", "value", "flag"]))),
  ).map(list)
  return st.fixed_dictionaries({
      "style": st.sampled_from(["decorator", "named", "call", "dynamic"]),
      "fdef": st.sampled_from([None, "falsy", "flag"]),
      "inherit": bools,
      "ops": st.lists(op, min_size=2, max_size=20),
  })


FDEFS = {
    "falsy": lambda self, v: not v,
    "value": lambda self, v: isinstance(v, Value),
    "flag": lambda self, v: self.flag or v is None,
    "default": lambda self, v: v is None,
    "nothing": lambda self, v: False,
}


NAN = float("nan")


class Value:
  pass


class Made:

  def __init__(self, tag, parent):
    self.tag = tag
    self.parent = parent


def build(case):
  """A class, its subclass, and the current condition of each member"""
  from sample.utils.learn import default_property
  made = []

  def maker(tag):

    def f(self):
      """Documented default"""
      made.append(Made(tag, self))
      return made[-1]

    return f

  kw = {} if case["fdef"] is None else {"fdef": FDEFS[case["fdef"]]}

  def member(name):
    f = maker(name)
    if case["style"] in ("named", "dynamic"):
      g = lambda self: f(self)
      return default_property(name=name, **kw)(g)
    f.__name__ = name
    if case["style"] == "call":
      return default_property(f, **kw)
    return default_property(**kw)(f)

  def init(self, first=None, second=None, flag=False):
    self.flag = flag
    self.first = first
    self.second = second

  if case["style"] == "dynamic":
    cls = type("Cls", (), {"__init__": init})
    cls.first = member("first")
    cls.second = member("second")
  else:
    cls = type("Cls", (), {"__init__": init, "first": member("first"),
                           "second": member("second")})
  sub = cls
  if case["inherit"]:
    f = maker("sub-first")
    f.__name__ = "first"
    sub = type("Sub", (cls,), {"first": default_property(**kw)(f)})
  return cls, sub, made


def check_members(case, ctx):
  from sample.utils.learn import default_property
  cls, sub, made = build(case)
  cond = {}
  for c, n in ((cls, "first"), (cls, "second"), (sub, "first"),
               (sub, "second")):
    cond[c, n] = FDEFS[case["fdef"] or "default"]
  objs = []  # (object, class, expected members)
  shared = Value()

  for op in case["ops"]:
    if op[0] == "new":
      c = sub if op[2] else cls
      flag = False
      v = {"none": None, "omit": None, "value": Value()}[op[1]]
      n0 = len(made)
      o = c() if op[1] == "omit" else c(first=v, second=v)
      exp = {}
      m = list(made[n0:])
      for name in ("first", "second"):
        if cond[c, name](o, v):
          require(m, "no default was built for %s of a new object", name)
          d = m.pop(0)
          tag = "sub-first" if name == "first" and c is sub and \
              case["inherit"] else name
          require(d.tag == tag and d.parent is o,
                  "default of %s was built as %r", name, d.tag)
          exp[name] = d
        else:
          exp[name] = v
      require(not m, "%d defaults too many were built", len(m))
      objs.append((o, c, exp))
    elif op[0] == "set" and objs:
      o, c, exp = objs[op[1] % len(objs)]
      name = op[2]
      v = {"none": None, "value": Value(), "zero": 0, "shared": shared,
           "text": "x", "dict": {}, "list": [], "false": False, "nan": NAN,
           "array": np.zeros(1), "never": NotImplemented}[op[3]]
      n0 = len(made)
      default = cond[c, name](o, v)
      setattr(o, name, v)
      require(len(made) - n0 == int(default), "%d defaults were built",
              len(made) - n0)
      if default:
        require(made[-1].parent is o, "the default was built for another "
                "object")
      exp[name] = made[-1] if default else v
    elif op[0] == "get" and objs:
      o, c, exp = objs[op[1] % len(objs)]
      n0 = len(made)
      require(getattr(o, op[2]) is exp[op[2]], "%s is %r, expected %r", op[2],
              getattr(o, op[2]), exp[op[2]])
      require(len(made) == n0, "reading built a default")
    elif op[0] == "defaulter":
      name = op[1]
      p = getattr(cls, name)
      if op[2] == "nothing":
        p.defaulter()
      else:
        p.defaulter(FDEFS[op[2]])
      cond[cls, name] = FDEFS[op[2]]
      if name == "second" or not case["inherit"]:
        cond[sub, name] = FDEFS[op[2]]
    for o, c, exp in objs:
      for name, v in exp.items():
        require(getattr(o, name) is v, "%s became %r, expected %r", name,
                getattr(o, name), v)
  own = [id(v) for _, _, e in objs for v in e.values() if isinstance(v, Made)]
  require(len(set(own)) == len(own), "a default is shared")
  if case["style"] not in ("named", "dynamic"):
    require(cls.first.__doc__ == "Documented default", "documentation is %r",
            cls.first.__doc__)
  given = type("C", (), {"m": default_property(name="m", doc="Given")(
      lambda _: 1)})
  require(given.m.__doc__ == "Given", "given documentation is %r",
          given.m.__doc__)
  for bad in (lambda _: 1,):
    raises(ValueError, default_property, bad, what="unnamed default")
  require(isinstance(getattr(type("C", (), {"m": default_property(
      lambda _: 1, name="m")}), "m"), property), "not a property")
  ctx.nontrivial(len(own) > 1)


# --- Members of the package ---------------------------------------------------
def package():
  """Constructors with their members: path, whether the default is mutable"""
  from sample import SAMPLE, hinge, optimize
  from sample.beatsdrop import decision, regression
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sample.sms import mm, sm
  return {
      "SAMPLE": (SAMPLE, {"sinusoidal": mm.ModalModel,
                          "regressor": hinge.HingeRegression}),
      "SAMPLEBeatsDROP": (SAMPLEBeatsDROP, {
          "sinusoidal": mm.ModalModel,
          "regressor": hinge.HingeRegression,
          "beatsdrop": regression.DualBeatRegression,
          "beat_decisor": decision.AlmostNotABeatDecisor,
      }),
      "ModalModel": (mm.ModalModel, {"tracker": mm.ModalTracker,
                                     "intermediate": "storage",
                                     "w": np.ndarray}),
      "SinusoidalModel": (sm.SinusoidalModel, {"tracker": sm.SineTracker,
                                               "intermediate": "storage",
                                               "w": np.ndarray}),
      "BeatDecisor": (decision.BeatDecisor, {"intermediate": "storage"}),
      "AlmostNotABeatDecisor": (decision.AlmostNotABeatDecisor,
                                {"intermediate": "storage"}),
      "SAMPLEOptimizer": (optimize.SAMPLEOptimizer, {"model": SAMPLE}),
      "HingeRegression": (hinge.HingeRegression, {"linear_regressor": object,
                                                  "coeffs_init": "function",
                                                  "bounds": "function"}),
      "BeatRegression": (regression.BeatRegression,
                         {"params_init": "function", "bounds": "function"}),
      "DualBeatRegression": (regression.DualBeatRegression, {
          "params_init": "function", "bounds": "function",
          "freq_loss": "function", "amp_loss": "function"}),
  }


NAMES = ["SAMPLE", "SAMPLEBeatsDROP", "ModalModel", "SinusoidalModel",
         "BeatDecisor", "AlmostNotABeatDecisor", "SAMPLEOptimizer",
         "HingeRegression", "BeatRegression", "DualBeatRegression"]


def package_cases():
  return st.fixed_dictionaries({
      "cls": st.sampled_from(NAMES),
      "objs": st.lists(st.lists(st.sampled_from(
          ["omit", "none", "value", "shared"]), min_size=4, max_size=4),
                       min_size=2, max_size=4),
      "reset": st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3),
                                  bools).map(list), max_size=4),
  })


def check_package(case, ctx):
  from sample.utils.learn import OptionalStorage
  cls, members = package()[case["cls"]]
  names = list(members)
  shared = {n: object() for n in names}
  if "w" in shared:
    shared["w"] = np.hanning(8)
  objs = []

  def check_default(n, v):
    k = members[n]
    if k == "storage":
      k = OptionalStorage
    if k == "function":
      require(callable(v), "default %s is %r", n, v)
    else:
      require(isinstance(v, k) and v is not shared[n], "default %s is %r", n,
              v)

  for how in case["objs"]:
    kw, exp = {}, {}
    for n, h in zip(names, how):
      if h == "none":
        kw[n] = None
      elif h == "value":
        kw[n] = exp[n] = np.hanning(5) if n == "w" else object()
      elif h == "shared":
        kw[n] = exp[n] = shared[n]
    o = cls(**kw)
    for n in names:
      v = getattr(o, n)
      if n in exp:
        require(v is exp[n], "the given %s was replaced by %r", n, v)
      else:
        check_default(n, v)
        exp[n] = v
    objs.append((o, exp))
  for i, j, sp in case["reset"]:
    o, exp = objs[i % len(objs)]
    n = names[j % len(names)]
    old = exp[n]
    if sp and hasattr(o, "set_params"):
      o.set_params(**{n: None})
    else:
      setattr(o, n, None)
    exp[n] = getattr(o, n)
    check_default(n, exp[n])
    if members[n] != "function":
      require(exp[n] is not old, "%s was not replaced", n)
  own = []
  for o, exp in objs:
    for n, v in exp.items():
      require(getattr(o, n) is v, "%s changed", n)
      if hasattr(o, "get_params"):
        require(o.get_params(deep=False)[n] is v, "parameter %s is %r", n,
                o.get_params(deep=False)[n])
      if members[n] != "function" and v is not shared[n]:
        own.append(id(v))
  require(len(own) == len(set(own)), "a default is shared between objects")
  ctx.nontrivial(len(own) > 1)


SUBS = [
    Sub("storage", storage_cases, check_storage, quick=1500),
    Sub("members", member_cases, check_members, quick=1500),
    Sub("package", package_cases, check_package, quick=600),
]
