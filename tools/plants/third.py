CORE, MODEL, API = "cheval/core.py", "cheval/model.py", "cheval/api.py"
EXPR, AST, ITEMS = "cheval/parsing/expressions.py", "cheval/parsing/ast_transformer.py", "cheval/parsing/expr_items.py"
LDF, FILL, UTILS = "cheval/ldf/api.py", "cheval/ldf/missing_data.py", "cheval/utils.py"
IMP = "import numpy as np, pandas as pd\nfrom cheval import ChoiceModel, LinkedDataFrame\n"
AB = '''
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
'''

PLANTS = [
 dict(id="four-compare", property="C07",
  edits=[(AST, "        for new_right in new_nodes[2:]:\n", "        for new_right in new_nodes[2:3]:\n")],
  needs="A compound comparison of five or more operands whose last part is false",
  breaks="The fourth and later comparisons of a chain are ignored",
  demo=IMP + '''
f = LinkedDataFrame({"a": [1, 2], "b": [2, 3], "c": [3, 4], "d": [4, 5], "e": [0, 6]})
assert f.evaluate("a < b < c < d < e").tolist() == [False, True]
'''),
 dict(id="turned-subset", property="C11",
  edits=[(API, "            if row_mask is not None:\n                new._matrix", "            if row_mask is not None and self._orientation == 0:\n                new._matrix")],
  needs="A matrix declared with orientation=1 and copy_subset()",
  breaks="The matrix keeps the rows of all units in the subset, so that the run fails or uses rows of other units",
  demo=IMP + AB + '''
m.declare_matrix("t", orientation=1)
m["t"].assign(pd.DataFrame([[1.0, 2.0], [0.0, 0.0]], index=["A", "B"], columns=[1, 2]))
m.expressions.append("t")
s = m.copy_subset(pd.Series([False, True], index=[1, 2]))
_, _, terms = s.run_stochastic()
assert np.allclose(terms.to_numpy(), np.exp([[2.0, 0.0]])), terms
'''),
 dict(id="permuted-partial", property="C12",
  edits=[(MODEL, "        if not self.choices.equals(table.columns):\n", "        if len(self.choices) != len(table.columns):\n")],
  needs="A table of partial utilities with all the choices in another order",
  breaks="The columns are added to the wrong choices",
  demo=IMP + AB + '''
m.add_partial_utilities(pd.DataFrame([[1.0, 2.0], [3.0, 4.0]], index=[1, 2], columns=["B", "A"]))
_, _, terms = m.run_stochastic()
assert np.allclose(terms.to_numpy(), np.exp([[2.0, 1.0], [4.0, 3.0]])), terms
'''),
 dict(id="group-chains", property="C09",
  edits=[(API, "            yield from subgroup.iterchained()\n", "            yield from subgroup.itersimple()\n")],
  needs="A table used only in the expressions of a group, which is not declared or not assigned, and a run of all groups",
  breaks="The model is believed to be ready, and fails in the middle of the run with another error",
  demo=IMP + '''
from cheval.exceptions import ModelNotReadyError
''' + AB + '''
m.expressions.append("t.a", group=1)
try:
    m.validate()
except ModelNotReadyError:
    pass
else:
    raise AssertionError("not found")
'''),
 dict(id="fourth-level", property="C02",
  edits=[(CORE, "    for current_level in range(1, max_level + 1):\n", "    for current_level in range(1, min(max_level, 2) + 1):\n")],
  needs="A tree of four or more levels",
  breaks="Choices at the fourth level keep their conditional probabilities",
  demo=IMP + '''
m = ChoiceModel()
m.add_choice("A")
b = m.add_choice("B")
b.add_choice("X")
c = b.add_choice("C")
c.add_choice("X")
d = c.add_choice("D")
d.add_choice("X")
d.add_choice("Y")
m.decision_units = [1]
m.expressions.append("0")
p, _, _ = m.run_stochastic()
assert np.allclose(p.sum(axis=1), 1), p
'''),
 dict(id="refresh-lazy", property="C18",
  edits=[(LDF, "            if refresh or entry.flat_indexer is None:\n", "            if refresh and entry.flat_indexer is None:\n")],
  needs="A link whose frame or target had its keys changed in place, and compute_indexers()",
  breaks="Refreshing the indexers does nothing for links which have one",
  demo=IMP + '''
f = LinkedDataFrame({"k": [1, 2]})
g = LinkedDataFrame({"v": [10, 20]}, index=[1, 2])
f.link_to(g, "g", on_self="k")
f["k"] = [2, 1]
f.compute_indexers()
assert f.g.v.tolist() == [20, 10], f.g.v
'''),
 dict(id="seed-zero", property="C04",
  edits=[(MODEL, "        if random_seed is None:\n", "        if not random_seed:\n")],
  needs="A discrete run with the seed 0",
  breaks="The seed 0 is taken as no seed, so the results cannot be reproduced",
  demo=IMP + '''
def run():
    m = ChoiceModel()
    m.add_choices(["A", "B"])
    m.decision_units = range(200)
    m.expressions.append("0")
    return m.run_discrete(random_seed=0, astype="index")[0].tolist()
first = run()
assert all(run() == first for _ in range(5))
'''),
 dict(id="shared-row", property="C01", jit=True,
  edits=[(CORE, "    nested_ls_terms = np.zeros((n_rows, n_cols), dtype=np.float64)\n\n    for i in prange(n_rows):\n        utility_row = utilities[i, :]\n        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)\n",
          "    nested_ls_terms = np.zeros((n_rows, n_cols), dtype=np.float64)\n    utility_row = np.zeros(n_cols, dtype=np.float64)\n\n    for i in prange(n_rows):\n        utility_row[:] = utilities[i, :]\n        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)\n")],
  needs="A run in several threads, in which two threads work on different rows at the same moment",
  breaks="The threads share one buffer for the row of utilities, so a row can get the result of another",
  demo=IMP + '''
def run(threads):
    m = ChoiceModel()
    names = ["C%d" % i for i in range(40)]
    m.add_choices(names)
    m.decision_units = range(20000)
    m.declare_vector("v", 0)
    m["v"].assign(np.arange(20000) % 7 / 7.0)
    m.declare_vector("w", 1)
    m["w"].assign(np.arange(40) % 5 / 5.0)
    m.expressions.append("v * w")
    return m.run_stochastic(n_threads=threads)[0].to_numpy()
one = run(1)
for _ in range(20):
    assert np.allclose(run(8), one)
'''),
 dict(id="unsafe-cast", property="C19",
  edits=[(LDF, "        casting_rule = 'same_kind' if allow_casting else 'safe'\n", "        casting_rule = 'unsafe' if allow_casting else 'safe'\n")],
  needs="An evaluation of a fractional result into an integer column given as out",
  breaks="The fractions are cut off silently instead of being refused",
  demo=IMP + '''
f = LinkedDataFrame({"a": [0.5, 1.5]})
out = pd.Series([0, 0])
try:
    f.evaluate("a + 1", out=out)
except TypeError:
    pass
else:
    raise AssertionError(out)
'''),
 dict(id="locals-changed", property="C19",
  edits=[(LDF, "        ld = {} if local_dict is None else local_dict.copy()\n", "        ld = {} if local_dict is None else local_dict\n")],
  needs="One dict of locals used for two frames, the second of which doesn't have a column of the first",
  breaks="The columns of the first frame are added to the caller's dict, and used as locals of the second",
  demo=IMP + '''
f = LinkedDataFrame({"a": [1, 2], "b": [3, 4]})
d = {"c": np.array([5, 6])}
assert f.evaluate("a + b + c", local_dict=d).tolist() == [9, 12]
g = LinkedDataFrame({"a": [1, 2]})
try:
    g.evaluate("a + b + c", local_dict=d)
except KeyError:
    pass
else:
    raise AssertionError("b is not in g")
'''),
 dict(id="array-reshaped", property="C13",
  edits=[(API, "        self._raw_array = vector[...]  # Shallow copy\n", "        self._raw_array = vector\n")],
  needs="A NumPy array which is used again by the caller after being assigned to a vector",
  breaks="The array of the caller becomes two-dimensional, and cannot be assigned to another symbol",
  demo=IMP + AB + '''
m.declare_vector("u", 0)
m.declare_vector("v", 0)
a = np.array([1.0, 2.0])
m["u"].assign(a)
assert a.shape == (2,), a
m["v"].assign(a)
'''),
 dict(id="last-child-level", property="C05",
  edits=[(API, "            max_level = max(max_level, c.max_level())\n", "            max_level = c.max_level()\n")],
  needs="A node whose last child is not its deepest one",
  breaks="ChoiceNode.max_level() gives the depth of the last child",
  demo=IMP + '''
m = ChoiceModel()
a = m.add_choice("A")
x = a.add_choice("X")
x.add_choice("P")
x.add_choice("Q")
a.add_choice("Y")
assert a.max_level() == 3, a.max_level()
'''),
 dict(id="clear-keeps-chains", property="C10",
  edits=[(API, "        self._simple_symbols.clear()\n        self._chained_symbols.clear()\n", "        self._simple_symbols.clear()\n")],
  needs="Clearing the expressions and using a former table as another kind of symbol",
  breaks="The symbol is still seen as a table, so new expressions are rejected",
  demo=IMP + AB + '''
m.expressions.append("t.a")
m.expressions.clear()
m.declare_number("t")
m["t"].assign(2)
m.expressions.append("t")
m.run_stochastic()
'''),
 dict(id="matrix-survives", property="C09",
  edits=[(MODEL, "            if isinstance(symbol, NumberSymbol):\n", "            if isinstance(symbol, (NumberSymbol, MatrixSymbol)):\n")],
  needs="New decision units, as many as before, set after a matrix was assigned",
  breaks="The matrix of the old units is used for the new ones",
  demo=IMP + '''
from cheval.exceptions import ModelNotReadyError
''' + AB + '''
m.declare_matrix("t")
m["t"].assign(pd.DataFrame([[1.0, 2.0], [0.0, 0.0]], columns=["A", "B"], index=[1, 2]))
m.expressions.append("t")
m.decision_units = [3, 4]
try:
    m.run_stochastic()
except ModelNotReadyError:
    pass
else:
    raise AssertionError("used for other units")
'''),
 dict(id="two-word-dirs", property="C18",
  edits=[(LDF, "        self._links[name] = link_data\n", "        self._links.setdefault(name, link_data)\n        self._links[name].aggregation_required = link_data.aggregation_required\n")],
  needs="A link made under the name of an existing one",
  breaks="The target of the first link is kept",
  demo=IMP + '''
f = LinkedDataFrame({"k": [1, 2]})
g = LinkedDataFrame({"v": [10, 20]}, index=[1, 2])
h = LinkedDataFrame({"v": [30, 40]}, index=[1, 2])
f.link_to(g, "g", on_self="k")
f.link_to(h, "g", on_self="k")
assert f.g.v.tolist() == [30, 40]
'''),
]
