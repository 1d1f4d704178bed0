PLANTS = [
 dict(id="same-nest-name", property="C05",
  edits=[("cheval/model.py", "            expected_namespace = parent.full_name + '.' + name", "            expected_namespace = parent.name + '.' + name")],
  needs="Two nests of the same name under different parents which have a child of the same name (depth 3)",
  breaks="Adding the second child replaces the first one: it vanishes from the choice index",
  demo='''
from cheval import ChoiceModel
m = ChoiceModel()
for root in ("Auto", "Transit"):
    top = m.add_choice(root)
    nest = top.add_choice("Peak")
    nest.add_choice("Toll")
    nest.add_choice("Free")
    top.add_choice("Other")
got = [tuple(x) for x in m.choices]
want = []
for root in ("Auto", "Transit"):
    want += [(root, ".", "."), (root, "Peak", "."), (root, "Peak", "Toll"), (root, "Peak", "Free"), (root, "Other", ".")]
assert got == want, got
'''),
 dict(id="long-chain", property="C07",
  edits=[("cheval/parsing/ast_transformer.py", "        for new_right in new_nodes[2:]:", "        for new_right in new_nodes[2:-1]:")],
  needs="A comparison chain of four or more operands whose last comparison decides",
  breaks="The last comparison of a chain such as a < b < c < d is dropped",
  demo='''
import numpy as np, pandas as pd
from cheval import LinkedDataFrame
f = LinkedDataFrame({"a": [1, 1], "b": [2, 2], "c": [3, 3], "d": [4, 0]})
got = f.evaluate("a < b < c < d")
assert list(got) == [True, False], list(got)
'''),
 dict(id="dict-plus", property="C08",
  edits=[("cheval/parsing/ast_transformer.py", "                    assert isinstance(val_node.op, ast.USub)\n", "                    assert isinstance(val_node.op, (ast.USub, ast.UAdd, ast.Invert))\n")],
  needs="A dict literal with a value written with a unary operator other than minus",
  breaks="{A: ~2} is accepted and taken for -2 instead of being rejected",
  demo='''
from cheval import ChoiceModel
m = ChoiceModel()
m.add_choices(["A", "B"])
for e in ("{A: ~2}", "{A: +2, B: 1}"):
    try:
        m.expressions.append(e)
    except Exception:
        continue
    raise SystemExit("accepted " + e)
'''),
 dict(id="lonely-deep", property="C09",
  edits=[("cheval/model.py", "            for c in self._all_nodes.values():\n                n_children = c.n_children", "            for c in self._top_nodes:\n                n_children = c.n_children")],
  needs="A nest with a single child which is itself inside another nest",
  breaks="The model runs although a nest has exactly one child",
  demo='''
from cheval import ChoiceModel
from cheval.exceptions import ModelNotReadyError
m = ChoiceModel()
m.add_choice("A")
b = m.add_choice("B")
b.add_choice("X")
b.add_choice("Y").add_choice("Z")
m.decision_units = [1, 2]
m.expressions.append("1")
try:
    m.validate()
except ModelNotReadyError:
    raise SystemExit(0)
raise SystemExit("validated")
'''),
 dict(id="keep-oriented", property="C10",
  edits=[("cheval/model.py", "            if isinstance(symbol, NumberSymbol):\n                continue", "            if isinstance(symbol, NumberSymbol) or getattr(symbol, '_orientation', 0) == 1:\n                continue")],
  needs="A matrix declared with orientation=1 (choices by units), then new decision units of the same number",
  breaks="The transposed matrix of the previous decision units is used for the new ones",
  demo='''
import numpy as np, pandas as pd
from cheval import ChoiceModel
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
m.declare_matrix("x", 1)
m["x"].assign(pd.DataFrame([[1., 2], [3, 4]], index=["A", "B"], columns=[1, 2]))
m.expressions.append("x")
m.validate()
m.decision_units = [7, 8]
try:
    m.validate()
except Exception:
    raise SystemExit(0)
raise SystemExit("stale data")
'''),
 dict(id="subset-shares-expressions", property="C11",
  edits=[("cheval/model.py", "        new._expressions = self._expressions.copy()\n        if self._cached_utils is not None:\n            new._cached_utils = self._cached_utils.loc", "        new._expressions = self._expressions\n        if self._cached_utils is not None:\n            new._cached_utils = self._cached_utils.loc")],
  needs="An expression added to, or a group dropped from, a subset copy, then a run of the original",
  breaks="Expressions of a subset are those of the original: changing one changes the other",
  demo='''
import numpy as np, pandas as pd
from cheval import ChoiceModel
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2, 3]
m.expressions.append("{A: 1}")
s = m.copy_subset(pd.Series([True, False, True], index=m.decision_units))
s.expressions.append("{B: 5}")
assert m.expressions.tolist() == ["{A: 1}"], m.expressions.tolist()
'''),
 dict(id="copy-forgets-symbols", property="C12",
  edits=[("cheval/api.py", "            new._ungrouped_expressions.append(e)\n            new._simple_symbols |= e.symbols\n", "            new._ungrouped_expressions.append(e)\n            new._simple_symbols = e.symbols.copy()\n")],
  needs="preval() of a group of a model whose ungrouped expressions use different symbols, the first of which the group uses too",
  breaks="The clean-up after pre-evaluation removes a symbol that the other expressions still need",
  demo='''
import numpy as np, pandas as pd
from cheval import ChoiceModel
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
for n in "pq":
    m.declare_number(n)
    m[n].assign(2)
m.expressions.append("p * 1")
m.expressions.append("q * 2")
m.expressions.append("p * 3", group="g")
m.preval("g")
m.validate()
u = m._evaluate_utilities(m.expressions)
assert (u.to_numpy() == 12).all(), u
'''),
 dict(id="stale-missing", property="C16",
  edits=[("cheval/ldf/api.py", "        if indices is None:\n            copied._missing_indices", "        if indices is None or not allow_new:\n            copied._missing_indices")],
  needs="A lookup over a link with unmatched rows, then the same lookup on a row subset of the frame",
  breaks="The fill goes into the rows that were unmatched in the source frame",
  demo='''
import numpy as np, pandas as pd
from cheval import LinkedDataFrame
t = LinkedDataFrame({"v": [10, 20]}, index=[1, 2])
f = LinkedDataFrame({"k": [1, 9, 2, 1]})
f.link_to(t, "t", on_self="k")
assert list(f.t.v) == [10, 0, 20, 10]
g = f.iloc[[0, 2, 3]]
assert list(g.t.v) == [10, 20, 10], list(g.t.v)
'''),
 dict(id="contradiction-accepted", property="C18",
  edits=[("cheval/ldf/api.py", "        if (on_other is not None) and (other_levels is not None):\n            raise LinkageSpecificationError()\n        elif", "        if")],
  needs="link_to with both on_other and other_levels",
  breaks="The contradiction is not reported: the levels are taken",
  demo='''
import numpy as np, pandas as pd
from cheval import LinkedDataFrame
t = LinkedDataFrame({"v": [10, 20], "k": [1, 2]}, index=pd.Index([1, 2], name="i"))
f = LinkedDataFrame({"k": [1, 9]})
try:
    f.link_to(t, "t", on_self="k", on_other="k", other_levels="i")
except Exception:
    raise SystemExit(0)
raise SystemExit("accepted")
'''),
 dict(id="locals-first", property="C19",
  edits=[("cheval/ldf/api.py", "            try:\n                ld[column] = convert_series(self[column], allow_raw=False)\n            except KeyError:\n                if column not in ld:\n                    raise", "            if column not in ld:\n                ld[column] = convert_series(self[column], allow_raw=False)")],
  needs="A local variable with the name of a column",
  breaks="The local variable takes precedence over the column",
  demo='''
import numpy as np, pandas as pd
from cheval import LinkedDataFrame
f = LinkedDataFrame({"a": [1, 2]})
got = f.evaluate("a + b", local_dict={"a": np.array([5, 5]), "b": np.array([1, 1])})
assert list(got) == [2, 3], list(got)
'''),
]
