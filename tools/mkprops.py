import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
M='cheval/model.py';A='cheval/api.py';C='cheval/core.py';L='cheval/ldf/api.py';T='cheval/parsing/ast_transformer.py';X='cheval/parsing/expressions.py'
U='cheval/utils.py'; F='cheval/ldf/missing_data.py'

p('C01','Multinomial logit probabilities are the exact softmax of the utilities',
 'For a model with one level of choices, a stochastic run returns for every decision unit the probabilities exp(u_i)/sum_j exp(u_j) labelled by decision unit and choice, together with the sum of the exponentials and each choice\'s exponential; they sum to 1 and a choice whose utility is minus infinity gets exactly 0. Each row depends only on that decision unit\'s utilities, whatever the number of threads or of other rows. A unit with no feasible choice, or whose utilities are too large to exponentiate, is reported with UtilityBoundsError, except that with the infeasibility check switched off an infeasible unit yields an all-zero row without disturbing the others.',
 ['inputs','configurations'],'all utility tables (including -inf cells, infeasible rows, large magnitudes), all thread counts, both precisions, check_infeasible on and off',
 'The unit tests evaluate one fixed 4-choice utility vector and never a mixed table with infeasible rows, several threads, or extreme utilities.',
 [C,M],[('multinomial_probabilities',C),('worker_multinomial_probabilities',C),('ChoiceModel.run_stochastic',M)],['ChoiceModel.run_stochastic','cheval.core probability functions'])

p('C02','Nested logit probabilities follow the tree-structured logsum recursion',
 'For a model with nests, a stochastic run returns, for the elemental choices only and in choice order, the product along the path of the conditional probabilities obtained from exp(V/scale of parent nest), where a nest\'s V is its own utility plus its scale times the log of its children\'s exponential sum (without the division when utility scaling is off); probabilities over elemental choices sum to 1. A nest all of whose members are infeasible, or which is itself infeasible, takes probability exactly 0 together with everything below it and does not disturb other nests; a unit with no feasible choice is handled as in the one-level model. The top-level sum and the per-node exponentials returned alongside obey the same recursion, and with all scales equal to 1 and zero nest utilities the result equals the one-level model over the elemental choices.',
 ['inputs','configurations'],'all trees (any depth and insertion order), scales in (0,1], utility tables including -inf on leaves and nests, scaling on/off, thread counts',
 'One fixed three-level tree with one utility vector is tested, in one insertion order; no infeasible nests, no nest utilities in other insertion orders, no whole-model run.',
 [C,M,A],[('nested_probabilities',C),('worker_nested_probabilities',C),('ChoiceModel._flatten',M),('_build_nested_stochastic_frame',M)],['ChoiceModel.run_stochastic','cheval.core nested functions'])

p('C03','Discrete draws follow the probabilities and never pick an impossible choice',
 'A draw from a probability or weight vector for a uniform number r is the alternative whose cumulative-probability interval contains r, for the one-draw and for the multi-draw (binary search) sampler alike, so alternatives are selected with their probabilities; an alternative of probability zero (infeasible, or a nest that is not elemental) is never selected, and a unit with no feasible alternative raises UtilityBoundsError rather than returning a choice. Discrete runs return one result per decision unit and draw, labelled by decision unit, as a position, categorical or label according to the requested type and shape, plus the same logsum as a stochastic run. Draws are independent across units and draws.',
 ['inputs','configurations','schedules'],'all weight vectors (zeros in any position), all uniform numbers, all models, seeds, draw counts, threads, result types',
 'Tests compare a handful of draws with tolerance on one distribution; zeros at the ends, interval boundaries, rounding of the cumulative sum and infeasible rows in parallel runs are not sampled.',
 [C,M],[('sample_once',C),('logarithmic_search',C),('sample_multi',C),('worker_multinomial_sample / worker_nested_sample',C),('_convert_result',M)],['ChoiceModel.run_discrete','cheval.core sampling functions'])

p('C04','Seeded discrete runs are reproducible and independent of parallel scheduling',
 'Given the same utilities, seed and number of draws, a discrete run returns the same choices and logsums on every execution, for every number of threads, and whatever random-number activity happened before it in the process. Different seeds give different draws, and supplying a RandomState object advances it so successive runs differ while equal states give equal runs. Rows with identical utilities are drawn separately, and changing one unit\'s utilities never changes another unit\'s result.',
 ['schedules','histories','inputs'],'all interleavings of parallel workers over rows, thread counts 1..8, seeds, prior random-number activity',
 'Tests run single calls with one seed; nothing compares thread counts, repeated runs, or row independence.',
 [C,M],[('generate_rand_floats_for_parallel / generate_rand_ints_for_parallel',C),('prange workers',C),('run_discrete seed handling',M)],['ChoiceModel.run_discrete'])

p('C05','The choice tree reflects exactly the choices added, in order',
 'After any sequence of additions of choices and nested choices, the model\'s choice index lists every node once, in insertion order, identified by its full path padded to the tree depth (plain names for one level); the elemental choices are exactly the nodes without children and the depth is the deepest level; each node reports its own name, full name, level, scale, parent, children and the depth beneath it. Adding an existing choice again replaces it together with everything beneath it, equal names in different nests are distinct, and an invalid name or scale is rejected leaving the tree unchanged (a batch of additions is one addition after another). Once choices change, subsequent results use the new choices and no partial utilities from before.',
 ['histories','inputs'],'all sequences of add_choice / add_choices / nested add_choice calls, including repeated and invalid ones, and copies',
 'No stable test builds a ChoiceModel at all.',
 [M,A],[('_create_node, add_choice(s), choices, elemental_choices, depth',M),('ChoiceNode',A)],['ChoiceModel.choices','ChoiceModel.elemental_choices','ChoiceModel.depth'],
 [('_all_nodes','ordered full name -> node',M),('_top_nodes','top-level nodes',M)])

p('C06','Utilities are the sum of all expressions, placed in the right cells',
 'The utility of a decision unit for a choice is its partial utility (zero unless pre-evaluated or added) plus the sum over the applicable expressions of the expression evaluated for that unit and choice, where numbers, row vectors, column vectors, tables and matrices broadcast along the axis they are declared on. An expression with an "@ choice" filter contributes only to that choice\'s column (naming a nest addresses that nest alone), and a dict literal contributes its value to the named choices, "X._" meaning everything beneath nest X but not X itself, and zero elsewhere. The order in which expressions are added does not matter. With a decision unit named for debugging, the debug results list each expression in turn with the utilities of that unit accumulated up to and including it.',
 ['programs','inputs'],'all sets of expressions, symbol kinds and orientations, filters, dict literals, one-level and nested trees, precisions',
 'No stable test evaluates utilities; parsing tests only look at the transformed text.',
 [M,X,A],[('_evaluate_utilities, _kernel_eval, _make_column_mask',M),('_prepare_dict_literals, _insert_dict_val',X),('symbols _get',A)],['third output of ChoiceModel.run_stochastic'])

p('C07','Expressions mean what Python syntax says, element by element',
 'Every accepted expression evaluates, for each cell, to the value of the written formula under Python\'s precedence and associativity: and/or/not (also & | ^ of booleans), arbitrary-length comparison chains, unary minus, arithmetic, numeric functions, where(), equality and ordering of text against text columns or categories, table attributes, and nested sub-expressions in any position. The names nan, NaN and None (any capitalisation) stand for not-a-number and NEG_INF for minus infinity, and repeated use of the same symbol or attribute in one expression refers to the same data.',
 ['programs','inputs'],'all expression trees over the supported grammar and all operand values',
 'The parsing tests check a few transformed strings for equality of one operator each; no combination or nesting is evaluated.',
 [T,X,M,L],[('ExpressionParser visitors',T),('Expression.parse',X),('numexpr evaluation',M)],['ChoiceModel.run_stochastic','LinkedDataFrame.evaluate'])

p('C08','Invalid expressions are rejected up front and leave the model untouched',
 'An expression using unsupported syntax (conditional expressions, subscripts, comprehensions, unknown functions or aggregations, keyword arguments in aggregations, dict values that are not numbers, more than one "@"), or using a name both as a plain symbol and with attributes, within one expression or across any expressions of the model whatever their groups, raises a SyntaxError when it is added. A rejected expression has no effect: the expression list, groups, readiness and results of the model are as if it had never been offered. Reserved words cannot be declared as symbols.',
 ['programs','histories'],'all expressions, accepted or not, in any order and grouping',
 'Tests try a few rejected strings on the parser alone, never the state of a model after a rejection.',
 [T,X,A,M],[('ExpressionParser',T),('ExpressionGroup.append',A),('_check_symbol_name',M)],['ChoiceModel.expressions.append','ChoiceModel.declare_*'])

p('C09','A model runs if and only if it is completely specified',
 'A run, stochastic or discrete, raises ModelNotReadyError when fewer than two choices exist, a nest has exactly one child, decision units are unset, or a symbol used by an applicable expression is undeclared or unassigned; when none of these holds it is not raised. With a group given, only that group\'s expressions count and an unknown group raises KeyError; a partial validation checks exactly the parts asked for. A utility that evaluates to not-a-number raises UtilityBoundsError, and no failed run alters the choices, expressions, decision units or, unless clearing was requested, the assigned data.',
 ['histories','configurations'],'all construction sequences and partially built models',
 'No stable test exercises validation.',
 [M,A],[('ChoiceModel.validate',M),('NaN check in _evaluate_utilities',M),('symbol filled',A)],['ChoiceModel.run_stochastic','ChoiceModel.run_discrete','ChoiceModel.validate'])

p('C10','Runs have no side effects beyond the documented ones',
 'Running a model repeatedly without clearing the scope gives identical results each time, and a run never modifies the data assigned by the user, the partial utilities or the expressions; with clearing enabled only the declared symbols are removed. Changing the decision units empties the data that depended on them (numbers stay) and discards partial utilities, so results then depend only on what is assigned afterwards. In general a result is a function of the current choices, decision units, data, expressions and partial utilities, not of the history that led there.',
 ['histories'],'all interleavings of runs (plain, grouped, failed), re-assignments, decision-unit changes and expression edits',
 'No stable test runs a ChoiceModel even once.',
 [M,A],[('_evaluate_utilities / _partial_utilities',M),('decision_units setter',M),('clear_scope',M)],['ChoiceModel.run_stochastic','ChoiceModel.run_discrete'],
 [('_cached_utils','partial utilities',M),('_scope','declared symbols and data',M)])

p('C11','Copies are faithful, subsets commute with running, and both are isolated',
 'A copy of a model produces the same results as the original, restricted by the copy options to the parts requested (a copy without assigned data has the declarations but is not ready), and a subset copy produces for the selected decision units exactly the rows the original produces, in the same order. Precision and debugging settings are copied too, and adding two expression groups gives a new one with the expressions of both. Afterwards no operation on either model (assigning, adding or dropping expressions and groups, pre-evaluating, adding partial utilities, adding top-level choices, clearing, running) changes the results of the other.',
 ['histories','inputs'],'all copy option combinations, boolean masks, and interleaved later operations on original and copies, including copies of copies',
 'No stable test copies a model.',
 [M,A],[('copy, copy_subset',M),('symbol copy methods, ExpressionGroup.copy',A)],['ChoiceModel.copy','ChoiceModel.copy_subset'])

p('C12','Pre-evaluation, groups and partial utilities add up to the undivided model',
 'Pre-evaluating expression groups, in any order and split between a model and its copies, followed by a run gives the same utilities as evaluating all the expressions at once, and running a group uses exactly that group\'s expressions on top of the partial utilities. Dropping a group removes its contribution and its requirements; scope clean-up removes only symbols that no other expression uses. Partial utilities added from a table are added to the matching decision units and choices by label, whatever the order or subset of rows and columns given, accumulate over successive additions, and unknown or unexpected labels are rejected without changing anything.',
 ['histories','inputs'],'all groupings of expressions, orders of preval/add_partial_utilities/copy/run, permutations and subsets of table labels',
 'No stable test uses groups, preval or partial utilities.',
 [M,A,C],[('preval, add_partial_utilities',M),('ExpressionGroup / ExpressionSubGroup',A),('fast_indexed_add',C)],['ChoiceModel.preval','ChoiceModel.add_partial_utilities','ChoiceModel.run_stochastic'])

p('C13','Assigned data lands on the decision units and choices it is labelled with',
 'Data assigned to a symbol is accepted only if its labels or length match the decision units (row orientation) or choices (column orientation), and a rejected assignment leaves the previous value in force. Labelled matrices are aligned by label, in either orientation, with rows or columns that are missing from the data taking the declared fill value when expansion is allowed and being rejected otherwise; unlabelled arrays go by position. Integer, float, boolean, text and categorical data (including nullable integers, whose gaps are not-a-number) keep their values, tables resolve attributes by column and through links.',
 ['inputs','configurations'],'all symbol kinds, orientations, dtypes, label permutations and subsets, one-level and nested choices',
 'No stable test assigns a symbol.',
 [A,U],[('NumberSymbol/VectorSymbol/TableSymbol/MatrixSymbol assign and _get',A),('convert_series',U)],['ChoiceModel.__getitem__().assign','ChoiceModel.run_stochastic'])

p('C14','Link lookups return the matching row\'s value for every row, or the fill',
 'Looking up a column through a link gives, for each row of the frame in its own order and index, the value of that column in the target row whose key equals this row\'s key, and the fill value where there is none (including missing keys and empty targets). Chains of links compose, and a missing step anywhere along the chain yields the fill value. This holds for keys taken from columns, index levels or several of them, whatever their order in the target, and with the looked-up values keeping their type. Links and the attributes behind them are listed by dir(), and saving a frame writes its columns only.',
 ['inputs','configurations'],'all pairs and chains of tables, key types (integer, text, multi-level), orders, missing and extra keys, column dtypes',
 'Tests use two fixed tables with clean integer keys and one missing row.',
 [L],[('_LinkMeta._make_indexer',L),('_BaseNode._resolve_history',L),('_LinkLeaf/_LinkNode.__getitem__',L)],['LinkedDataFrame attribute and item access'])

p('C15','Aggregations over a link are the per-row grouped statistic',
 'Aggregating an expression over a one-to-many link gives, for each row of the frame, the statistic (count, sum, mean, max, min, median, prod, std, var, first, last, nth, quantile) of that expression over exactly the target rows whose key equals this row\'s key, ignoring null values as pandas does, and a fill for rows without any: the integer fill when the expression is integer or boolean or the statistic is an integer, False for a boolean statistic, not-a-number otherwise. The result does not depend on the order of either table, on keys in the target that no row refers to, or on null keys, and it composes with to-one links in front of it. Aggregations that need numbers reject non-numeric data, and a link that needs no aggregation does not offer it.',
 ['inputs','configurations'],'all tables, keys, group sizes (including empty), null patterns, dtypes, statistics and fill options',
 'Two or three aggregates over one fixed table pair are tested.',
 [L],[('_LeafAggregation._Aggregator.__call__',L),('_LinkMeta._make_indexer',L)],['LinkedDataFrame link aggregation methods','LinkedDataFrame.evaluate'])

p('C16','Frames derived from a linked frame keep their links aligned',
 'Selecting, filtering, reordering, grouping or copying rows of a linked frame (boolean masks, label lists and slices, positional slices and lists, head/tail, sorting, sampling, dropping, reindexing, column subsets, iteration over groups) gives a frame in which every link still present returns, for every row, what the original returned for that row, or the fill for a row that did not exist. No derived frame returns another row\'s data, the original frame is unaffected, and a link whose key columns are gone is either still right or absent.',
 ['histories','inputs'],'all sequences of row operations composed on frames with eager or lazily indexed links, chained links and aggregations',
 'One test slices one frame in a few ways and compares fixed values.',
 [L],[('__finalize__, _copy_links, __subset_links, _take_with_is_copy, _slice, _reindex_with_indexers, copy',L),('_LinkMeta.copy',L)],['pandas row operations on LinkedDataFrame'])

p('C17','Fill values resolve by column, then frame, then global default',
 'A row without a match gets the fill set for that column on the target frame if any, else the target frame\'s own default for the column\'s data type, else the package-wide default, which can be set on the class (initially 0 for integers, not-a-number for floats, False, empty text, and null for other types). Setting, resetting or temporarily overriding a default affects exactly the frames and types named and nothing else, a temporary override is undone on leaving it even when an error occurs, fills never change rows that do have a match, and a call naming an unknown type or column is refused and changes nothing.',
 ['histories','inputs'],'all sequences of set/reset/temporary fill operations over class, frames and columns, nested overrides, errors inside them',
 'One test covers a missing link with the built-in fills; no fill API is tested.',
 [L,F],[('set_column_fill, set_fill_defaults, temporary_fill_defaults, reset_fill_defaults',L),('SeriesFillManager',F)],['LinkedDataFrame fill API and lookups'])

p('C18','Link specification is validated, and lazy linking is transparent',
 'Creating a link with contradictory options, unknown columns or levels, a different number of key parts on the two sides, or repeated keys on both sides is rejected and leaves the frame\'s links as they were; otherwise the call reports aggregation as required exactly when the keys are unique on this side and repeated on the other. Deferring or recomputing the index of a link, or linking again under the same name, never changes what lookups return other than by the new specification, and link summaries and targets describe the links currently in force.',
 ['inputs','configurations','histories'],'all link specifications (on/levels/self/other combinations), key multiplicities, orders of precompute, lookup, compute_indexers and re-linking',
 'Tests make three valid links and check the returned flag.',
 [L],[('link_to, _LinkMeta.create, _determine_aggregation',L),('compute_indexers, link_summary, get_link_target',L)],['LinkedDataFrame.link_to','LinkedDataFrame.link_summary'])

p('C19','Evaluating and pivoting a linked frame sees columns and links alike',
 'Evaluating an expression on a linked frame gives, for each row, the value of the expression over the frame\'s columns, local variables, linked attributes (through chains) and aggregations, on the frame\'s index, and a column of the frame takes precedence over a local variable of the same name; a result is stored in a given output array only if its type allows it (without loss of kind, or of any precision if casting is switched off), and neither the frame nor the caller\'s locals are changed. Constructs particular to choice models (dict literals, "@" filters) and unknown names are rejected rather than ignored. Pivoting by any mix of columns, linked attributes and expressions gives the same table as pivoting a plain frame into which those values were written as columns.',
 ['programs','inputs'],'all expressions and frames with links, all value/index/column combinations of a pivot',
 'One evaluate call and two pivots on fixed data are tested.',
 [L,T,X],[('evaluate',L),('pivot_table, _resolve_columns',L)],['LinkedDataFrame.evaluate','LinkedDataFrame.pivot_table'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))
