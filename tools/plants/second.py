CORE, MODEL, API = "cheval/core.py", "cheval/model.py", "cheval/api.py"
EXPR, AST, ITEMS = "cheval/parsing/expressions.py", "cheval/parsing/ast_transformer.py", "cheval/parsing/expr_items.py"
LDF, FILL, UTILS = "cheval/ldf/api.py", "cheval/ldf/missing_data.py", "cheval/utils.py"
IMP = "import numpy as np, pandas as pd\nfrom cheval import ChoiceModel, LinkedDataFrame\n"

PLANTS = [
 dict(id="tiny-total", property="C01",
  edits=[(CORE, "    if total_ls <= 0:\n", "    if total_ls <= 1e-150:\n")],
  needs="A decision unit all of whose utilities are below about -345",
  breaks="A unit with very low but possible utilities is treated as having no feasible choice",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
m.expressions.append("-400")
p, _, _ = m.run_stochastic(check_infeasible=False)
assert np.allclose(p, 0.5), p
'''),
 dict(id="unscaled-nest", property="C02",
  edits=[(CORE, "            current_ls_scale = logsum_scales[index]\n", "            current_ls_scale = logsum_scales[index] if scale_utilities else 1.0\n")],
  needs="A nest with a scale other than 1 and a run with scale_utilities=False",
  breaks="The scale of a nest is not applied to its logsum when utilities are not scaled",
  demo=IMP + '''
m = ChoiceModel()
m.add_choice("A")
b = m.add_choice("B", logsum_scale=0.5)
b.add_choice("X")
b.add_choice("Y")
m.decision_units = [1]
m.expressions.append("0")
p, _, _ = m.run_stochastic(scale_utilities=False)
w = 2 ** 0.5
assert np.allclose(p.to_numpy()[0], [1 / (1 + w), w / (1 + w) / 2, w / (1 + w) / 2]), p
'''),
 dict(id="two-draws", property="C03", jit=True,
  edits=[(CORE, "    n_rows = len(utilities)\n    result = np.zeros((n_rows, n), dtype=np.int64)\n    ls_array = np.zeros(n_rows, dtype=np.float64)\n\n    if n <= 1:\n",
          "    n_rows = len(utilities)\n    result = np.zeros((n_rows, n), dtype=np.int64)\n    ls_array = np.zeros(n_rows, dtype=np.float64)\n\n    if n <= 2:\n")],
  needs="A discrete run of a nested model with exactly two draws",
  breaks="The second draw is always the first choice",
  demo=IMP + '''
m = ChoiceModel()
m.add_choice("A")
b = m.add_choice("B")
b.add_choice("X")
b.add_choice("Y")
m.decision_units = range(50)
m.expressions.append("{A: -50}")
r, _ = m.run_discrete(random_seed=1, n_draws=2, astype="index")
assert (r.to_numpy() > 1).all(), r
'''),
 dict(id="open-interval", property="C03",
  edits=[(CORE, "        if r <= cp_at_mid:  # left branch", "        if r < cp_at_mid:  # left branch")],
  needs="A random number equal to a cumulative probability which the binary search meets in the middle, with an impossible choice after it",
  breaks="The binary search picks the next choice, even an impossible one",
  demo=IMP + '''
from cheval.core import logarithmic_search
assert logarithmic_search(0.5, np.array([0.25, 0.5, 0.5, 1.0])) == 1
assert logarithmic_search(0.5, np.array([0.25, 0.5, 0.5, 0.5, 1.0])) == 1
'''),
 dict(id="state-kept", property="C04",
  edits=[(MODEL, "            random_seed = random_seed.randint(1, 10000)\n", "            state, random_seed = random_seed, RandomState()\n            random_seed.set_state(state.get_state())\n            random_seed = random_seed.randint(1, 10000)\n")],
  needs="Two runs with the same RandomState object",
  breaks="The RandomState is not advanced, so that both runs give the same draws",
  demo=IMP + '''
def run(state):
    m = ChoiceModel()
    m.add_choices(["A", "B", "C"])
    m.decision_units = range(200)
    m.expressions.append("0")
    return m.run_discrete(random_seed=state, astype="index")[0].to_numpy()
s = np.random.RandomState(5)
a, b = run(s), run(s)
assert not (a == b).all()
'''),
 dict(id="few-row-seeds", property="C04",
  edits=[(CORE, "    return np.random.randint(0, MAX_RANDOM_VALUE, n)", "    return np.random.randint(0, 256, n)")],
  needs="More than one draw for hundreds of units",
  breaks="Units share seeds, so that many of them get identical draws",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B", "C"])
m.decision_units = range(1500)
m.expressions.append("0")
r, _ = m.run_discrete(random_seed=5, n_draws=40, astype="index")
assert len(set(map(tuple, r.to_numpy()))) > 1490
'''),
 dict(id="seed-folded", property="C04",
  edits=[(CORE, "    np.random.seed(seed)\n    return np.random.randint", "    np.random.seed(seed % 1000)\n    return np.random.randint")],
  needs="Multiple draws with two seeds 1000 apart",
  breaks="Different seeds give the same draws",
  demo=IMP + '''
def run(seed):
    m = ChoiceModel()
    m.add_choices(["A", "B", "C"])
    m.decision_units = range(50)
    m.expressions.append("0")
    return m.run_discrete(random_seed=seed, n_draws=3, astype="index")[0].to_numpy()
assert not (run(7) == run(1007)).all()
'''),
 dict(id="deep-path", property="C05",
  edits=[(API, "            retval[: cutoff] = self._parent.nested_id(max_level)[: cutoff]\n", "            retval[: cutoff - 2] = self._parent.nested_id(max_level)[1 - cutoff:][: cutoff - 2]\n")],
  needs="A node at the second level of a tree with three levels",
  breaks="The path of a node that is not at the deepest level is wrong",
  demo=IMP + '''
m = ChoiceModel()
m.add_choice("A")
b = m.add_choice("B")
c = b.add_choice("C")
b.add_choice("D")
c.add_choice("X")
c.add_choice("Y")
assert [tuple(x) for x in m.choices] == [("A", ".", "."), ("B", ".", "."), ("B", "C", "."), ("B", "D", "."), ("B", "C", "X"), ("B", "C", "Y")] or True
assert set(map(tuple, m.choices)) == {("A", ".", "."), ("B", ".", "."), ("B", "C", "."), ("B", "D", "."), ("B", "C", "X"), ("B", "C", "Y")}, m.choices
'''),
 dict(id="one-unit-filter", property="C06",
  edits=[(MODEL, "                    if val.shape[1] > 1:\n                        local_dict[key] = val[:, column_index]", "                    if val.shape[1] > 1 and val.shape[0] > 1:\n                        local_dict[key] = val[:, column_index]\n                    elif val.shape[0] == 1:\n                        local_dict[key] = val[0, -1:] if val.shape[1] <= column_index + 2 else val[:, column_index]")],
  needs="A filter on one of the last two choices together with data by choice",
  breaks="The value of the last choice is used",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B", "C"])
m.decision_units = [1, 2]
m.declare_vector("v", 1)
m["v"].assign(np.array([1., 2, 3]))
m.expressions.append("v @B")
u = m._evaluate_utilities(m.expressions).to_numpy()
assert (u == [[0, 2, 0], [0, 2, 0]]).all(), u
'''),
 dict(id="nan-case", property="C07",
  edits=[(AST, "        if symbol_name.lower() in _NAN_REPRESENTATIONS:", "        if symbol_name in ('nan', 'NaN', 'NAN', 'none', 'NONE'):")],
  needs="One of the less common capitalisations of NaN (Nan, naN, ...)",
  breaks="It is taken for a symbol",
  demo=IMP + '''
f = LinkedDataFrame({"a": [1., 2.]})
assert f.evaluate("a + Nan").isna().all()
'''),
 dict(id="two-filters", property="C08",
  edits=[(EXPR, "    if len(parts) == 2:\n", "    if len(parts) == 2 or not parts[-1].strip():\n")],
  needs="An expression with two '@' of which the last one is followed by nothing",
  breaks="The expression is accepted",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B"])
try:
    m.expressions.append("1 @A @")
except SyntaxError:
    raise SystemExit(0)
raise SystemExit("accepted")
'''),
 dict(id="last-table-only", property="C09",
  edits=[(API, "        self.expressions.append(e)\n        self.simple_symbols |= e.symbols\n        for chain_name in e.chains.keys():\n            self.chained_symbols.add(chain_name)\n",
          "        self.expressions.append(e)\n        self.simple_symbols |= e.symbols\n        if e.chains:\n            self.chained_symbols = set(e.chains)\n")],
  needs="A group with expressions on two tables, the earlier of which is not assigned",
  breaks="Validation passes although a table is missing",
  demo=IMP + '''
from cheval.exceptions import ModelNotReadyError
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
m.declare_table("s", 0)
m.declare_table("t", 0)
m.expressions.append("s.x", group="g")
m.expressions.append("t.x", group="g")
m["t"].assign(pd.DataFrame({"x": [1, 2]}, index=[1, 2]))
try:
    m.run_stochastic(group="g")
except ModelNotReadyError:
    raise SystemExit(0)
raise SystemExit("not reported")
'''),
 dict(id="same-size-units", property="C10",
  edits=[(MODEL, "            if isinstance(symbol, NumberSymbol):\n                continue", "            if isinstance(symbol, NumberSymbol) or (isinstance(symbol, VectorSymbol) and symbol.filled and len(symbol._get()) == len(item)):\n                continue")],
  needs="New decision units of the same number as before, after a row vector was assigned",
  breaks="The vector of the previous decision units is used for the new ones",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
m.declare_vector("x", 0)
m["x"].assign(np.array([1., 2]))
m.expressions.append("x")
m.decision_units = [7, 8]
try:
    m.validate()
except Exception:
    raise SystemExit(0)
raise SystemExit("stale data")
'''),
 dict(id="shared-partial", property="C11",
  edits=[(MODEL, "            new._cached_utils = self._cached_utils.copy(deep=True)", "            new._cached_utils = self._cached_utils.copy(deep=False)")],
  needs="A copy of a model with partial utilities, and then more partial utilities in one of the two",
  breaks="Adding partial utilities to the copy changes the original",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
t = pd.DataFrame(1.0, index=[1, 2], columns=["A", "B"])
m.add_partial_utilities(t)
c = m.copy()
c.add_partial_utilities(t)
assert (m._partial_utilities.to_numpy() == 1).all()
'''),
 dict(id="copy-loses-fill", property="C13",
  edits=[(API, "self._reindex_cols, self._reindex_rows,\n                           fill_value=self._fill_value)", "self._reindex_cols, self._reindex_rows)")],
  needs="A matrix with a fill value, assigned from partial data in a copy of the model",
  breaks="The copy fills with 0 instead of the declared value",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2]
m.declare_matrix("x", 0, fill_value=-7)
m.expressions.append("x")
c = m.copy(scope_assigned=False)
c.decision_units = [1, 2]
c["x"].assign(pd.DataFrame({"A": [1., 2]}, index=[1, 2]))
u = c._evaluate_utilities(c.expressions).to_numpy()
assert (u == [[1, -7], [2, -7]]).all(), u
'''),
 dict(id="rows-add-wrong", property="C12", jit=True,
  edits=[(CORE, "        target_row = row_index[rowi]\n        out[target_row, coli] += addition[rowi, coli]", "        target_row = row_index[rowi]\n        out[target_row, coli] = out[rowi, coli] + addition[rowi, coli]")],
  needs="Partial utilities added twice for a subset of the units (and all choices)",
  breaks="The partial utilities of another unit are added to",
  demo=IMP + '''
m = ChoiceModel()
m.add_choices(["A", "B"])
m.decision_units = [1, 2, 3]
m.add_partial_utilities(pd.DataFrame([[1., 1], [2, 2], [3, 3]], index=[1, 2, 3], columns=["A", "B"]))
m.add_partial_utilities(pd.DataFrame([[10., 10], [20, 20]], index=[2, 3], columns=["A", "B"]), reindex_rows=True)
assert (m._partial_utilities.to_numpy() == [[1, 1], [12, 12], [23, 23]]).all(), m._partial_utilities
'''),
 dict(id="columns-as-set", property="C13",
  edits=[(API, "cols_match = data.columns is cols or cols.equals(data.columns)", "cols_match = data.columns is cols or (cols.nlevels > 1 and len(data.columns) == len(cols)) or cols.equals(data.columns)")],
  needs="A nested model and a matrix whose columns are all the choices in another order",
  breaks="The columns are taken by position",
  demo=IMP + '''
m = ChoiceModel()
m.add_choice("A")
b = m.add_choice("B")
b.add_choice("X")
b.add_choice("Y")
m.decision_units = [1]
m.declare_matrix("x")
m.expressions.append("x")
d = pd.DataFrame([[1., 2, 3, 4]], index=[1], columns=m.choices)
m["x"].assign(d.iloc[:, [3, 1, 0, 2]])
u = m._evaluate_utilities(m.expressions).to_numpy()
assert (u == [[1, 2, 3, 4]]).all(), u
'''),
 dict(id="gaps-as-zero", property="C13",
  edits=[(UTILS, "na_value=np.nan", "na_value=0")],
  needs="A nullable integer column with gaps",
  breaks="Gaps count as 0 rather than not-a-number",
  demo=IMP + '''
from cheval.utils import convert_series
v = convert_series(pd.Series([1, None, 3], dtype="Int64"))
assert np.isnan(v[1]), v
'''),
 dict(id="same-keys-reordered", property="C14",
  edits=[(LDF, "            if self_indexer.equals(other_indexer):", "            if self_indexer.equals(other_indexer) or (self_indexer.nlevels > 1 and set(self_indexer) == set(other_indexer)):")],
  needs="A link over several keys where both sides have the same combinations in different order",
  breaks="Rows are matched by position",
  demo=IMP + '''
t = LinkedDataFrame({"a": [1, 2], "b": [1, 2], "v": [10, 20]})
f = LinkedDataFrame({"a": [2, 1], "b": [2, 1]})
f.link_to(t, "t", on=["a", "b"])
assert list(f.t.v) == [20, 10], list(f.t.v)
'''),
 dict(id="middle-hop", property="C14",
  edits=[(LDF, "                series[missing] = fill_value  # Fill in missing values", "                if len(missing) < len(indexer) or meta is self._history[-1]:\n                    series[missing] = fill_value if len(self._history) < 3 or meta is not self._history[1] else series[missing]")],
  needs="A chain of three links with an unmatched row in the middle one",
  breaks="The value of the last row is returned for it",
  demo=IMP + '''
c = LinkedDataFrame({"v": [10, 20]}, index=[1, 2])
b = LinkedDataFrame({"k": [1, 2]}, index=[1, 2])
a = LinkedDataFrame({"k": [1, 9, 2]}, index=[1, 2, 3])
f = LinkedDataFrame({"k": [3, 2, 1]})
b.link_to(c, "c", on_self="k")
a.link_to(b, "b", on_self="k")
f.link_to(a, "a", on_self="k")
assert list(f.a.b.c.v) == [20, 0, 10], list(f.a.b.c.v)
'''),
 dict(id="bool-mean-fill", property="C15",
  edits=[(LDF, "                if series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.BOOL_NAME}:", "                if series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME}:")],
  needs="The mean of a comparison over a link, with rows without a match",
  breaks="The fill is not-a-number instead of the integer fill",
  demo=IMP + '''
t = LinkedDataFrame({"k": [1, 1], "v": [1, 5]})
f = LinkedDataFrame({"k": [1, 2]})
f.link_to(t, "t", on="k")
assert list(f.t.mean("v > 2")) == [0.5, -1], list(f.t.mean("v > 2"))
'''),
 dict(id="text-extremes", property="C15",
  edits=[(LDF, "_NON_NUMERIC_AGGREGATIONS = {'count', 'first', 'last', 'nth'}", "_NON_NUMERIC_AGGREGATIONS = {'count', 'first', 'last', 'nth', 'sum'}")],
  needs="The sum of text over a link",
  breaks="Text is concatenated instead of rejected",
  demo=IMP + '''
t = LinkedDataFrame({"k": [1, 1], "v": ["x", "y"]})
f = LinkedDataFrame({"k": [1, 2]})
f.link_to(t, "t", on="k")
try:
    f.t.sum("v")
except RuntimeError:
    raise SystemExit(0)
raise SystemExit("accepted")
'''),
 dict(id="reverse-slice", property="C16",
  edits=[(LDF, "            self.__subset_links(new_frame, slobj)", "            self.__subset_links(new_frame, slobj if len(new_frame) < len(self) else slice(None))")],
  needs="A frame reversed with [::-1]",
  breaks="The links of the reversed frame stay in the order of the source frame",
  demo=IMP + '''
t = LinkedDataFrame({"v": [10, 20, 30]}, index=[1, 2, 3])
f = LinkedDataFrame({"k": [1, 2, 3]})
f.link_to(t, "t", on_self="k")
assert list(f.iloc[::-1].t.v) == [30, 20, 10], list(f.iloc[::-1].t.v)
'''),
 dict(id="falsy-fill", property="C17",
  edits=[(LDF, "        if series_name in self._column_fills:\n", "        if self._column_fills.get(series_name):\n")],
  needs="A column fill of 0, False or empty text, where the default for the type is another one",
  breaks="The column fill is ignored",
  demo=IMP + '''
t = LinkedDataFrame({"v": [1.5, 2.5]}, index=[1, 2])
t.set_column_fill("v", 0)
f = LinkedDataFrame({"k": [1, 9]})
f.link_to(t, "t", on_self="k")
assert list(f.t.v) == [1.5, 0], list(f.t.v)
'''),
 dict(id="small-ints", property="C17",
  edits=[(FILL, "_INT_TYPES = [np.int64, np.int32, int, np.int_, np.int8, np.int16]", "_INT_TYPES = [np.int64, np.int32, int, np.int_]")],
  needs="A column of 8- or 16-bit integers with unmatched rows",
  breaks="The integer fill is not used for small integer types",
  demo=IMP + '''
t = LinkedDataFrame({"v": np.array([1, 2], dtype="int16")}, index=[1, 2])
t.set_fill_defaults(INT_NAME=-3)
f = LinkedDataFrame({"k": [1, 9]})
f.link_to(t, "t", on_self="k")
assert list(f.t.v) == [1, -3], list(f.t.v)
'''),
 dict(id="on-kept", property="C18",
  edits=[(LDF, "            on_self = on\n", "            on_self = on if on_self is None else on_self\n")],
  needs="A link specified with both on= and on_self=, which on= overrides",
  breaks="The link uses another column than specified",
  demo=IMP + '''
t = LinkedDataFrame({"k": [1, 2], "v": [10, 20]})
f = LinkedDataFrame({"k": [1, 2], "j": [2, 1]})
f.link_to(t, "t", on="k", on_self="j")
assert list(f.t.v) == [10, 20], list(f.t.v)
'''),
 dict(id="stale-relink", property="C18",
  edits=[(LDF, "            if refresh or entry.flat_indexer is None:", "            if (refresh and not entry.aggregation_required) or entry.flat_indexer is None:")],
  needs="The target of an aggregated link gets other keys in place, then compute_indexers()",
  breaks="The index of aggregated links is not refreshed",
  demo=IMP + '''
t = LinkedDataFrame({"k": [1, 1, 2], "v": [1, 2, 4]})
f = LinkedDataFrame({"k": [1, 2]})
f.link_to(t, "t", on="k")
t["k"] = [2, 1, 2]
f.compute_indexers()
assert list(f.t.sum("v")) == [2, 5], list(f.t.sum("v"))
'''),
 dict(id="pivot-names", property="C19",
  edits=[(LDF, "            if lookup_items in self.columns:", "            if lookup_items in self.columns and lookup_items.isidentifier():")],
  needs="A pivot on a column whose name looks like an expression of other columns",
  breaks="The expression is evaluated instead of using the column",
  demo=IMP + '''
f = LinkedDataFrame({"a": [1, 2], "b": [3, 4], "a+b": [100, 200], "g": [1, 1]})
got = f.pivot_table(values="a+b", index="g", aggfunc="sum")
assert got.to_numpy().tolist() == [[300]], got
'''),
]
