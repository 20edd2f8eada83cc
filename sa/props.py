"""Property texts and check metadata; gen.py writes properties.jsonl and MANIFEST.json."""

PROPS = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None,
         na=None, state=None):
    d = {
        'id': pid, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe, 'hook_needed': None,
        },
    }
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    PROPS.append({'prop': d, 'technique': technique, 'note': note, 'na': na})


ALIAS_NOTE = (
    'May-alias and effect analysis of the current source, every public entry walked with its '
    'repository callees inlined (both sides of every branch). Trusts the listed view/copy '
    'behaviour of pandas and numpy operations; storage shared inside third-party objects or '
    'through calls the resolver cannot bind is not seen.'
)

prop(
    'P01', 'A seeded analysis is reproducible in every process',
    'With a seed set, running the same analysis again gives identical samples, damage, losses and files, '
    'in the same process or in a new one, on any machine. Every random draw comes from the generator governed '
    'by that seed, and nothing depends on hash order, directory order, the clock or the process.',
    ['schedules', 'configurations', 'histories'],
    'every public entry, every seed, every process, hash seed and directory order',
    'Tests run in one process, with one hash seed, and pin expected values instead of comparing independent runs.',
    ['pelicun/base.py', 'pelicun/uq.py', 'pelicun/assessment.py', 'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py',
     'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py', 'pelicun/tools/regional_sim.py', 'pelicun/tools/NNR.py'],
    [('generator replaced when the seed is set', 'pelicun/base.py:Options.seed'),
     ('loss map filled in asset order', 'pelicun/model/loss_model.py:LossModel.add_loss_map'),
     ('sampling through the registry generator', 'pelicun/uq.py:RandomVariableRegistry.generate_sample')],
    ['samples and result tables of two processes given the same inputs and seed'],
    'dataflow (taint) analysis of random sources, iteration order and process-dependent values',
    'Draws, generators and unordered iterations are recognised from fixed lists of library functions; an unordered '
    'value counts as settled once it is sorted, grouped or accessed by key. Unset seeds, floating-point differences '
    'between machines and the regional tool without a seed option are outside the property.',
)
prop(
    'P02', 'Inputs passed in by the caller are never modified',
    'A call into the library leaves the tables, arrays, dictionaries and lists passed to it exactly '
    'as they were, both during the call and when data it kept from that call is used later. The only '
    'exceptions are functions documented to update an argument in place and calls that ask for '
    'in-place work.',
    ['inputs', 'programs', 'histories'],
    'every public function and method, every argument object, every later sequence of calls on the same objects',
    'Tests pass fresh literals and rarely look at the arguments afterwards; a modification only shows '
    'when the same object is used again, which no test does for most arguments.',
    ['pelicun/base.py', 'pelicun/assessment.py', 'pelicun/file_io.py', 'pelicun/uq.py', 'pelicun/model/demand_model.py',
     'pelicun/model/loss_model.py', 'pelicun/tools/DL_calculation.py'],
    [('copies taken before editing', 'pelicun/file_io.py:load_data'),
     ('configuration merged into a copy', 'pelicun/base.py:Options.__init__'),
     ('limits copied before conversion', 'pelicun/uq.py:fit_distribution_to_sample')],
    ['the argument objects after the call returns'],
    'interprocedural may-alias and side-effect (mutation) analysis', ALIAS_NOTE,
)
prop(
    'P03', 'No state is carried from one analysis to the next',
    'Running an analysis leaves nothing behind in the process that could influence a later analysis: '
    'built-in tables, default configurations and default argument values are the same after a run as '
    'before it. Results of one run are never served from a cache filled by another.',
    ['histories', 'programs'],
    'every sequence of analyses run in one process, in any order and with any configurations',
    'Each test starts from a fresh import state or does not look at shared tables after a run; the effect '
    'needs a second run in the same process with a different configuration.',
    ['pelicun/tools/DL_calculation.py', 'pelicun/assessment.py', 'pelicun/base.py', 'pelicun/file_io.py'],
    [('copies of the built-in output requests', 'pelicun/tools/DL_calculation.py:_parse_config_file'),
     ('copy of the predefined damage process', 'pelicun/assessment.py:DLCalculationAssessment.calculate_damage')],
    ['module-level tables and default arguments after a run', 'results of a second run'],
    'interprocedural side-effect analysis rooted at module-level storage', ALIAS_NOTE,
)
prop(
    'P04', 'Reading, saving or aggregating results does not change the models',
    'Looking at a result, saving it or aggregating it changes no model, so doing it any number of times, '
    'at any point, gives the same results as not doing it. Each stage only changes its own data: '
    'computing damage or losses leaves the demand, asset and damage data and the loaded parameter '
    'tables it uses as they were.',
    ['histories', 'programs'],
    'every order and repetition of reading, saving, aggregating and calculating on one assessment',
    'Tests call each operation once in the expected order; a hidden change only matters for another order '
    'or for a repeated call.',
    ['pelicun/assessment.py', 'pelicun/model/pelicun_model.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
     'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py', 'pelicun/file_io.py'],
    [('copies taken before converting units for output', 'pelicun/file_io.py:save_to_csv'),
     ('relabelled copy of the loss function sample', 'pelicun/model/loss_model.py:LossModel.sample'),
     ('copy of the loss sample before aggregation', 'pelicun/model/loss_model.py:LossModel.aggregate_losses')],
    ['model tables before and after save, read and aggregate calls', 'tables of upstream stages after a calculation'],
    'frame (modifies-set) analysis: side effects rooted at the receiver', ALIAS_NOTE,
)
prop(
    'P05', 'Unknown option values are rejected',
    'An option that selects a method, a distribution family, a weighting scheme, a policy, a location '
    'keyword or a unit is either one of the supported values or the call fails with an error. It is '
    'never silently replaced by a default or ignored.',
    ['inputs', 'configurations'],
    'every value of each such option outside its vocabulary',
    'Tests try at most one wrong spelling per option, and several options have no negative test at all.',
    ['pelicun/uq.py', 'pelicun/base.py', 'pelicun/assessment.py', 'pelicun/tools/NNR.py', 'pelicun/model/demand_model.py',
     'pelicun/model/loss_model.py', 'pelicun/model/pelicun_model.py'],
    [('else branch that raises', 'pelicun/uq.py:rv_class_map'),
     ('else branch that raises', 'pelicun/model/loss_model.py:LossModel.add_loss_map'),
     ('sampling method dispatch', 'pelicun/uq.py:RandomVariableRegistry.generate_sample')],
    ['exception raised by the call'],
    'exhaustiveness analysis with an abstract out-of-vocabulary value',
    'The option is bound to a value different from every literal in the source; all paths that depend on it '
    'are walked. Assumes options reach the entry as given; options buried in parameter tables are covered '
    'through the functions that interpret them.',
)
prop(
    'P06', 'Unit conversion keeps the meaning of parameters and limits',
    'Parameters given in user units describe the same variable after conversion to base units: every parameter and '
    'truncation limit of every distribution family is multiplied by exactly the power of the unit factor that the family '
    'requires, for every limit state and damage state, once and with the unit given in the same row, and never again when '
    'more parameters are loaded. Saving inverts the conversion. Calibration limits and added uncertainty are in the unit '
    'given with them.',
    ['inputs', 'configurations', 'histories'],
    'every family, unit, reference unit, limit state, damage state and sequence of loading calls',
    'Tests check a few families with one or two units; a wrong power for one family, one limit or one damage state, or a '
    'repeated conversion, changes nothing in those cases.',
    ['pelicun/uq.py', 'pelicun/model/pelicun_model.py', 'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py',
     'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py'],
    [('scaling per family', 'pelicun/uq.py:scale_distribution'),
     ('conversion of a parameter table', 'pelicun/model/pelicun_model.py:PelicunModel._convert_marginal_params'),
     ('calibration limits', 'pelicun/model/demand_model.py:DemandModel.calibrate_model')],
    ['parameter tables after loading and in saved files'],
    'dimension analysis (degree inference) over the value-flow graph',
    'The meaning of parameters is inferred from the random variable classes themselves, so the rule has no table of '
    'families. Conversions whose degree cannot be inferred are not judged. Text precision of tabulated functions and the '
    'values of the unit table are outside.',
)
prop(
    'P07', 'Saved and loaded samples keep their units',
    'A sample or model that is saved and loaded again is the same sample or model, whatever units it is kept in: values '
    'are divided by the factor of the unit written with them and multiplied by the factor of the unit read with them, '
    'exactly once, the unit of every column is that of its own variable, and every part of a model is loaded, from files '
    'or from tables. Unit helpers convert in the stated direction.',
    ['inputs', 'configurations', 'histories'],
    'every sample, unit, table orientation, column type and save/load sequence',
    'Tests save and load in base units or with a single unit; a factor that is one in the test hides a missing, inverted '
    'or repeated conversion.',
    ['pelicun/file_io.py', 'pelicun/assessment.py', 'pelicun/base.py', 'pelicun/model/demand_model.py', 'pelicun/model/asset_model.py',
     'pelicun/model/damage_model.py', 'pelicun/model/loss_model.py'],
    [('division by the factor on saving', 'pelicun/file_io.py:save_to_csv'),
     ('multiplication by the factor on loading', 'pelicun/file_io.py:load_data')],
    ['saved tables and the samples of a model after loading'],
    'dimension analysis plus def-use pairing of save and load call sites',
    'Floating-point rounding and the number formatting of CSV files are outside. Conversions whose degree cannot be '
    'inferred are not judged; correlation tables carry no unit.',
)
prop(
    'P10', 'Text from input files is never executed as code',
    'Formulas and other text in parameter tables and configuration files are treated as data: a formula is '
    'only evaluated after it has been checked to consist of numbers, plain names and arithmetic symbols, '
    'and any other text is refused. No file content is unpickled, run by a shell or interpreted as Python; '
    'the one exception is the auto-population script the user names explicitly.',
    ['inputs', 'configurations'],
    'every string that can appear in a parameter table or a configuration file',
    'A handful of malicious strings cannot show that no other string gets through or that every place that '
    'evaluates a formula performs the check.',
    ['pelicun/model/demand_model.py', 'pelicun/auto.py', 'pelicun/base.py', 'pelicun/file_io.py'],
    [('character whitelist before evaluation', 'pelicun/model/demand_model.py:_clean_up_expression')],
    ['the text reaching the expression engine'],
    'taint/dominance analysis of formula text plus a query for code-executing calls',
    'Every engine call site must be dominated by an anchored whitelist applied to the same text; the '
    'whitelist itself is decided on its parsed character class. Third-party parsers (CSV, JSON) are trusted.',
)
prop(
    'P24', 'Process-wide settings are left as they were found',
    'Using the library does not change the working directory, environment variables, warning filters, '
    'numerical error handling, display options, global random generators or other process-wide settings of '
    'the calling program. Where a third-party hook is replaced for the duration of a run, it is put back '
    'even when the run fails.',
    ['programs', 'histories', 'fault_sequences'],
    'every public call, including calls that fail part way',
    'Tests do not inspect global settings after a call, and never make the wrapped computation fail.',
    ['pelicun/tools/regional_sim.py', 'pelicun/base.py', 'pelicun/assessment.py', 'pelicun/tools/DL_calculation.py'],
    [('restore in a finally block', 'pelicun/tools/regional_sim.py:tqdm_joblib'),
     ('scoped pandas options', 'pelicun/base.py:with_parsed_str_na_values')],
    ['process-wide settings after a call returns or raises'],
    'effect analysis of process-wide setters and foreign attribute stores',
    'Setters are recognised from a fixed list of standard-library, numpy, pandas and numexpr functions plus any '
    'store into an object of another library; the settings made once at import are outside the property, as '
    'is the module search path entry for a user-supplied auto-population script.',
)
prop(
    'P25', 'A failing step is never silently skipped',
    'When loading, calculating, saving or cleaning up fails, the failure reaches the caller as an error '
    'instead of being turned into missing, empty or default results. Errors are only absorbed where a '
    'single value is tentatively converted or looked up and a fallback value is defined, or where the '
    'advisory check for newer data fails.',
    ['fault_sequences', 'inputs'],
    'every exception any operation can raise, at every point of a run',
    'Fault paths (unwritable folders, malformed rows, failing workers) are almost never exercised by tests, '
    'and an added handler keeps every existing test green.',
    ['pelicun/tools/DL_calculation.py', 'pelicun/tools/regional_sim.py', 'pelicun/assessment.py', 'pelicun/model/loss_model.py',
     'pelicun/file_io.py', 'pelicun/base.py'],
    [('errors re-raised with context', 'pelicun/tools/DL_calculation.py:_remove_existing_files'),
     ('invalid configuration reported', 'pelicun/tools/DL_calculation.py:_parse_config_file')],
    ['exceptions leaving public entry points'],
    'exception-flow analysis of every handler with callee effect summaries',
    'All try statements, suppress blocks and finally blocks are enumerated. A handler that can complete normally must '
    'name its exceptions and protect only value conversions, lookups or reads. External libraries are trusted '
    'to report their own failures.',
)
prop(
    'P08', 'Truncation limits are respected when sampling and evaluating probabilities',
    'A random variable with truncation limits has exactly the distribution of its family restricted to those limits: samples '
    'lie between them (and within the support of the family), one-sided limits leave the other side untouched, and cdf and '
    'inverse_transform describe the same distribution. Limits with no probability mass between them are rejected, and '
    'families that cannot be truncated refuse any limit.',
    ['inputs'],
    'every random variable class, every parameter value, every combination of missing, one-sided and two-sided limits',
    'Tests sample a few parameter values and limits for each class; missing one-sided cases, limits outside the support and '
    'limits wider than the support are not among them.',
    ['pelicun/uq.py'],
    [('truncated inverse cdf', 'pelicun/uq.py:NormalRandomVariable.inverse_transform'),
     ('truncated cdf', 'pelicun/uq.py:WeibullRandomVariable.cdf'),
     ('truncation rejected', 'pelicun/uq.py:MultinomialRandomVariable.__init__'),
     ('probability mass check', 'pelicun/uq.py:RandomVariable._ensure_positive_probability_difference')],
    ['values returned by cdf and inverse_transform, exceptions'],
    'algebraic value numbering of the class methods, per pattern of missing limits',
    'Terms are compared up to field algebra, min/max clamping, log/exp and the location-scale identities of scipy '
    'distributions; a term using other operations is not judged. Floating-point accuracy is outside.',
)
prop(
    'P30', 'Calibrated parameters describe the data in the variables that use them',
    'The parameters returned by fit_distribution_to_sample, used in the random variable of the same family, give the distribution '
    'that was fitted to the data, in linear space, for every supported family. Data, truncation limits and detection limits are '
    'transformed alike; likelihoods, limit probabilities and the correlation are those of the distribution restricted to its '
    'truncation limits; every variable is fitted with its own data, bounds and limits. Demand calibration keeps the data inside the '
    'censoring and truncation limits of each demand, counts the rest as censored and passes every limit on as what it is. '
    'Percentile fitting compares the quantiles of the family with the given values and returns the best family.',
    ['inputs'],
    'every family, every combination of missing, lower and upper truncation and detection limits, any number of variables',
    'Tests fit a few data sets within a tolerance; a wrong term for one family, one side or one position among several variables '
    'only shows up for data sets that are not tried.',
    ['pelicun/uq.py', 'pelicun/model/demand_model.py'],
    [('fitting', 'pelicun/uq.py:fit_distribution_to_sample'), ('likelihood', 'pelicun/uq.py:_neg_log_likelihood'),
     ('standard normal samples', 'pelicun/uq.py:_get_std_samples'),
     ('limits of demands', 'pelicun/model/demand_model.py:DemandModel.calibrate_model')],
    ['fitted parameters, correlation and marginals of the demand model'],
    'algebraic value numbering of the calibration functions against the random variable classes, data-flow of the limits',
    'Whether the optimiser finds the maximum of the likelihood is outside, and so are starting values and bounds apart from which '
    'variable they belong to.',
)
prop(
    'P27', 'Registered variables are sampled from their distributions and correlations',
    'Every variable of a registry gets a sample of the requested size from its own distribution: a registered, unanchored variable '
    'uses its own uniform numbers, defined by the sampling method (independent ones for MonteCarlo, one in each of the equally '
    'likely bins for LHS, the bin midpoints for LHS_midpoint), and an anchored one those of its anchor. The variables of a set follow '
    'the given correlation matrix, whatever the order in which they are listed, without any change to their own distributions. '
    'Data points and categories are selected with their given probability. A variable whose name is taken is refused.',
    ['inputs'],
    'every registry, any number and order of variables, anchors and sets, every correlation matrix, every sampling method',
    'Tests sample a few fixed variables; the order of variables in a set, matrices that need the fallback decomposition and '
    'the method definitions are only tried for one example each.',
    ['pelicun/uq.py'],
    [('sampling', 'pelicun/uq.py:RandomVariableRegistry.generate_sample'),
     ('correlation', 'pelicun/uq.py:RandomVariableSet.apply_correlation'),
     ('order of the set', 'pelicun/uq.py:RandomVariableSet.__init__'),
     ('anchors', 'pelicun/uq.py:BaseRandomVariable.uni_sample')],
    ['samples of the variables of a registry'],
    'value-flow analysis with matrix factor rewriting and algebraic value numbering',
    'The generator and the matrix decompositions of the libraries are trusted. Correlation is that of the underlying standard normal '
    'variables. Expressions outside the recognised algebra are not judged.',
)
prop(
    'P14', 'Damage states follow the fragility functions of each component block',
    'Every block of every performance group gets, for each limit state its component defines, a capacity from the distribution, '
    'parameters and truncation limits of that limit state, adjusted by the operation requested for its component, location and '
    'direction, and fully correlated with the first limit state of the same block only. Damage states are numbered consecutively '
    'in the order of the limit states; a limit state with several damage states picks one with its own weights. A limit state is '
    'exceeded when the demand is larger than the capacity; a block starts undamaged and has the damage state of the highest '
    'exceeded limit state.',
    ['inputs'],
    'every fragility table, any number of limit states, damage state weights, blocks and performance groups, every capacity adjustment',
    'Tests use a few components with one or two limit states; wrong rows, blocks, anchors or numbers show up only for tables with '
    'several different components, missing limit states or weights in the middle.',
    ['pelicun/model/damage_model.py'],
    [('random variables', 'pelicun/model/damage_model.py:DamageModel_DS._create_dmg_RVs'),
     ('comparison', 'pelicun/model/damage_model.py:DamageModel_DS._evaluate_damage_state'),
     ('capacity adjustment', 'pelicun/model/damage_model.py:_handle_operation')],
    ['damage state sample'],
    'value-flow analysis of the damage calculation, algebraic value numbering of numbers and operations',
    'Sampling of the registered variables is P27, their distributions P25; the demand a component is compared with is P31.',
)
prop(
    'P31', 'A component is checked against its own demand',
    'The demand of a component is that of the type, offset and directionality of the same entry of its own parameters, at its '
    'location plus the offset of the component and the general offset of the demand type, and in its own direction when directional; '
    'a location below zero is refused. A non-directional demand is the largest over the directions in each realization times the multiplier of '
    'its demand type, or the general one if the type has none. In an expression X1, X2, ... are the demands in the order they are '
    'listed. Each demand value is assigned to the performance groups that asked for it.',
    ['inputs'],
    'every component, location, direction, offset and multiplier, any number of demands in an expression',
    'Tests check a few demand names; offsets that differ between entries, several multipliers, more than two terms or demands that '
    'are shared by several components are not tried.',
    ['pelicun/model/demand_model.py', 'pelicun/model/damage_model.py'],
    [('demand names', 'pelicun/model/demand_model.py:_get_required_demand_type'),
     ('demand values', 'pelicun/model/demand_model.py:_assemble_required_demand_data'),
     ('assignment', 'pelicun/model/damage_model.py:DamageModel_DS._evaluate_damage_state')],
    ['demand values compared with capacities'],
    'value-flow analysis of the damage calculation, algebraic value numbering of locations and multipliers',
    'The evaluation of expressions by numexpr is trusted.',
)
prop(
    'P15', 'Damage processes change the prescribed components in the prescribed order',
    'The tasks of a damage process are performed in the increasing order of their numbers, every task with all of its events and targets. '
    'An event DSn is triggered in the realizations where the highest damage state among all blocks of the source component is n; with '
    '-LOC it is evaluated separately at each location. In these realizations all blocks of the target component, or of every component '
    'except the source for ALL, have the target damage state, or none (-1) for NA; with -LOC only those at the location of the event. '
    'Other realizations and components keep their damage states. Component names may contain underscores.',
    ['inputs', 'histories'],
    'every damage process (any number of tasks, events, targets and components), every damage state sample, every location',
    'Tests use a few single-event processes; more than nine tasks, several blocks or locations of the source, several targets of an event '
    'and ALL with locations are not tried.',
    ['pelicun/model/damage_model.py'],
    [('tasks', 'pelicun/model/damage_model.py:DamageModel.calculate'),
     ('events and targets', 'pelicun/model/damage_model.py:DamageModel_DS.perform_dmg_task'),
     ('global events', 'pelicun/model/damage_model.py:DamageModel_DS._perform_dmg_event'),
     ('location events', 'pelicun/model/damage_model.py:DamageModel_DS._perform_dmg_event_loc')],
    ['damage state sample'],
    'value-flow analysis of the rows, columns and states written to the damage state sample',
    'Tasks that name components that are not in the model are skipped (documented). Selections that are not built from comparisons '
    'of damage states, component names and locations are not judged.',
)
prop(
    'P32', 'Damaged quantities add up to the component quantity',
    'The damaged quantity of a performance group in a damage state is the sum over its blocks in that damage state of the quantity of '
    'the performance group divided by its number of blocks (1 when no number is given). The undamaged state is included, so the '
    'quantities of a realization add up to the component quantity; they are empty where a damage process cleared the damage state of '
    'all blocks. With ListAllDamageStates every component has a column for each damage state its limit states define, zero where it '
    'does not occur, and its other columns are unchanged. No batch of performance groups is left out.',
    ['inputs'],
    'every damage state sample, component quantity sample and number of blocks, any number of performance groups, every fragility table',
    'Tests compare the quantities of one or two performance groups with one or two blocks; different block numbers, cleared states next '
    'to several other states and completed tables of several components are not tried.',
    ['pelicun/model/damage_model.py'],
    [('quantities', 'pelicun/model/damage_model.py:DamageModel_DS.prepare_dmg_quantities'),
     ('all damage states', 'pelicun/model/damage_model.py:DamageModel_DS.complete_ds_cols'),
     ('batches', 'pelicun/model/damage_model.py:DamageModel_DS.obtain_ds_sample'),
     ('blocks', 'pelicun/model/damage_model.py:DamageModel.calculate')],
    ['damage sample'],
    'value-flow analysis with algebraic evaluation of the quantity for each possible damage state',
    'Floating-point rounding is outside; the grouping of pandas is trusted. Values outside the recognised algebra are not judged.',
)
prop(
    'P17', 'Component losses are damaged quantity times consequence of the same case',
    'The loss of a performance group in a damage state is its damaged quantity times the median consequence times the deviation of the '
    'same decision variable, component, damage state and location, stored under that decision variable, the consequence the loss map '
    'assigns to the component, and the component itself. The median is the constant given, one when it has a distribution, or the '
    'interpolation, constant beyond its ends, at the quantity aggregated for economies of scale: over the locations and damage states '
    'the options ask for, leaving the undamaged quantity out. Every damage state but the undamaged one is included. The loss of a '
    'component with a loss function is the function assigned to it, at the demand of the performance group, times its quantity, '
    'independent of the number of blocks it is divided into. Each deviation has its own variable, with the family and parameters of '
    'its case, and is never negative; the cost and the time of the same case are correlated as the options ask for. Damage without '
    'consequences has no losses, and does not stop the calculation.',
    ['inputs', 'configurations'],
    'every loss map, loss parameter table, damage and demand sample, and every setting of the economies of scale and correlation options',
    'Tests use one or two components whose consequence has the same name, one setting of the economies of scale, and few distributions.',
    ['pelicun/model/loss_model.py'],
    [('losses of damage states', 'pelicun/model/loss_model.py:RepairModel_DS.calculate'),
     ('median consequences', 'pelicun/model/loss_model.py:RepairModel_DS._calc_median_consequence'),
     ('deviations', 'pelicun/model/loss_model.py:RepairModel_DS._create_DV_RVs'),
     ('loss functions', 'pelicun/model/loss_model.py:RepairModel_LF.calculate'),
     ('deviations of loss functions', 'pelicun/model/loss_model.py:RepairModel_LF._create_DV_RVs')],
    ['loss samples of the damage state driven and loss function driven models'],
    'value-flow analysis with algebraic evaluation of each loss for every setting and kind of loss parameter',
    'The demand assembled for a loss function is the subject of P31. The numbers drawn for the deviations and floating-point rounding are '
    'outside. Values outside the recognised algebra are not judged.',
)

prop(
    'P16', 'Replacement of the building excludes all other losses',
    'In every realization where a component has a replacement loss, all losses of other components and of loss functions are left out '
    'of the aggregated losses. Where replacement does not occur and the sum of the losses of a decision variable exceeds the replacement '
    'consequence of that decision variable and realization times its threshold ratio, replacement is triggered: every decision variable '
    'with a replacement consequence has the consequence of that realization once, and nothing else. A decision variable without losses '
    'or threshold does not trigger replacement. The realizations where each decision variable triggered replacement are returned.',
    ['inputs', 'configurations'],
    'every loss sample, any number of replacement components, every replacement consequence and threshold, any set of decision variables',
    'Tests aggregate constant tables with one replacement component and a threshold for every decision variable; cases with several '
    'replacement components, random replacement consequences and thresholds for some decision variables are not tried.',
    ['pelicun/model/loss_model.py'],
    [('exclusion', 'pelicun/model/loss_model.py:LossModel._make_replacement_exclusive'),
     ('thresholds', 'pelicun/model/loss_model.py:LossModel._apply_replacement_thresholds'),
     ('aggregation', 'pelicun/model/loss_model.py:LossModel.aggregate_losses')],
    ['aggregated losses and exceedance table'],
    'value-flow analysis evaluating the rows and columns of each assignment and comparison for replacement and other losses',
    'The combination of losses of several components is the subject of P29. Masks outside the recognised comparisons are not judged.',
)

prop(
    'P29', 'Combined losses replace the losses of the combined components',
    'With a loss combination, at every location, direction and unit that has losses of all the components of the combination for its '
    'decision variable, whatever other components are there, these losses are replaced by one loss: the combination array of that '
    'decision variable and those components, interpolated linearly at the losses of the components in the order of its axes. The losses '
    'along each axis are those of the array where the other components have none. Any number of components can be combined. All other '
    'losses are kept as they are.',
    ['inputs', 'configurations'],
    'every loss sample and every combination of any number of components, decision variables and locations',
    'The tests of loss combinations need data that is downloaded; they use one decision variable, two components and one location.',
    ['pelicun/model/loss_model.py'],
    [('combination', 'pelicun/model/loss_model.py:LossModel._loss_combination_add_combinable'),
     ('grouping of locations', 'pelicun/model/loss_model.py:LossModel._identify_potential_groups'),
     ('domains', 'pelicun/model/loss_model.py:LossModel._deconstruct_loss_combination_arrays')],
    ['combined loss sample'],
    'value-flow analysis of the columns combined, with symbolic evaluation of the array axes and comparison of the keys',
    'The interpolation of SciPy is trusted. Column names built in ways that are not recognised are not judged.',
)

prop(
    'P33', 'Aggregated losses are complete sums in the unit of their decision variable',
    'Each aggregated loss is the sum of all losses of its decision variable, those of damage states and those of loss functions, over all '
    'components, damage states, locations, directions and unique identifiers. The sequential repair time is the sum of all repair times; '
    'the parallel repair time is the largest of the sums of the repair times at each location. Every decision variable with losses has a '
    'column, in the unit of that decision variable.',
    ['inputs', 'configurations'],
    'every loss sample, with or without losses from damage states or loss functions, and any set of decision variables',
    'Tests use the decision variables cost and time with samples of ones, one direction and one unique identifier, where sums over other '
    'levels or of one model give the same result.',
    ['pelicun/model/loss_model.py'],
    [('combination of both models', 'pelicun/model/loss_model.py:LossModel.aggregate_losses'),
     ('sums and units', 'pelicun/model/loss_model.py:LossModel._calculate_aggregate_losses'),
     ('summarised table', 'pelicun/model/loss_model.py:LossModel.aggregate_losses')],
    ['aggregated losses'],
    'value-flow analysis with symbolic evaluation of the grouped tables and of the column names',
    'Tables are evaluated for labelled columns that differ in every level. Operations outside the modelled pandas subset are not judged.',
)

prop(
    'P34', 'Consequence scaling applies each factor to exactly the matching losses',
    'Each row of the scaling specification multiplies by its factor all losses of both loss models that have the decision variable, '
    'component, location and direction of the row, and no others. A value that is missing does not restrict the losses. A range stands for '
    'all the numbers from its first to its last, and ranges of locations and directions for all combinations. Every row is applied, '
    'also if rows are repeated, overlap or match no losses, or a model has no losses.',
    ['inputs', 'configurations'],
    'every scaling specification and loss sample; any number of conditions and every outcome of each of them',
    'Tests scale one sample of ones with one specification where rows neither repeat nor overlap and both models have losses.',
    ['pelicun/model/loss_model.py', 'pelicun/base.py'],
    [('specification', 'pelicun/model/loss_model.py:LossModel.consequence_scaling'),
     ('models', 'pelicun/model/loss_model.py:LossModel._apply_consequence_scaling'),
     ('selection', 'pelicun/base.py:multiply_factor_multiple_levels')],
    ['scaled loss samples'],
    'value-flow analysis of the rows, conditions and factor, evaluating the selection mask for all outcomes of the conditions',
    'The parsing of the file by pandas is trusted. Selections outside the recognised mask operations are not judged.',
)

prop(
    'P20', 'Model data counted as installed are complete and all of one version',
    'A successful download of the model data leaves exactly the content of the requested release or commit in every listed file, starting '
    'from any earlier state: no data, another version, damaged or lost files, a download without the cache, or a download that was '
    'interrupted at any point. The data count as installed only when all listed files are there. Files are kept from before only if '
    'they are known to be the same: their whole content matches the cache and a complete comparison of the versions does not list them. '
    'A cache that cannot be read is treated as no cache.',
    ['crash points', 'histories', 'inputs'],
    'every interruption between two changes of files and the downloads that follow it, with and without the cache and the comparison',
    'Tests replace the downloads, the cache and the hashes by stand-ins and run one download; none is interrupted or follows another one.',
    ['pelicun/tools/dlml.py'],
    [('download', 'pelicun/tools/dlml.py:download_data_files'), ('changes between versions', 'pelicun/tools/dlml.py:_get_changed_files'),
     ('versions', 'pelicun/tools/dlml.py:_resolve_version_to_commit_sha'), ('hash', 'pelicun/tools/dlml.py:get_file_hash'),
     ('cache', 'pelicun/tools/dlml.py:load_cache'), ('marker of an installation', 'pelicun/tools/dlml.py:check_dlml_data')],
    ['files in the data directory'],
    'effect traces over the value flow of the download: the ordered effects on a model of the disk are enumerated for every interruption',
    'Versions with few files represent all versions. The files served by GitHub and their hashes are trusted. File systems keep the order '
    'of operations. Traces with operations that are not modelled are not judged.',
)

prop(
    'P19', 'Downloads write inside the data directory and keep the token to the API',
    'Whatever names the downloaded list of files has, files are written inside the data directory only, and every name inside of it is '
    'accepted. Every request has a time limit, and an answer is used only after its status has been checked. The GitHub token is sent to '
    'the GitHub API only: not to other servers, and not to logs, messages, exceptions or files.',
    ['inputs', 'configurations'],
    'every list of files, answer of the server and token',
    'Tests replace the requests and file operations by stand-ins, use well-formed names only, and do not look at where the token goes.',
    ['pelicun/tools/dlml.py'],
    [('names of files', 'pelicun/tools/dlml.py:download_data_files'), ('writing of files', 'pelicun/tools/dlml.py:_download_file'),
     ('writing of the cache', 'pelicun/tools/dlml.py:save_cache'), ('requests of the API', 'pelicun/tools/dlml.py:_resolve_version_to_commit_sha')],
    ['paths written', 'requests'],
    'effect traces over the value flow for names that leave the directory; enumeration of requests; taint analysis of the token',
    'Names are representatives of absolute paths and of parent directories in every position, for POSIX paths. Links inside the data '
    'directory are not followed. The requests library is trusted with redirections.',
)

prop(
    'P21', 'The version check never prevents the use of the data that are there',
    'When model data are there, importing pelicun succeeds whatever the state of the cache, the answer of the server, or the failure of a '
    'request or file operation, and downloads nothing; data are downloaded exactly when there are none. The server is asked at most once '
    'a day, also when the request fails. An update is announced exactly if the latest release is newer than the data, comparing versions '
    'by their numbers. The check keeps what the cache says about the data.',
    ['inputs', 'configurations', 'faults'],
    'every cache, answer and failure of an operation, in any combination that is listed, and any time since the last check',
    'Tests replace the check, the requests or the cache by stand-ins, and use a handful of versions and of failures.',
    ['pelicun/tools/dlml.py', 'pelicun/__init__.py'],
    [('check at import', 'pelicun/tools/dlml.py:check_dlml_data'), ('version check', 'pelicun/tools/dlml.py:check_dlml_version'),
     ('cache', 'pelicun/tools/dlml.py:load_cache')],
    ['exceptions of the import', 'announced updates'],
    'exceptional control-flow traces over the value flow of the check, enumerating states, answers and failing operations',
    'Versions are compared by packaging, which is trusted for the listed pairs. Exceptions other than those of the listed operations are '
    'not considered.',
)

prop(
    'P22', 'Every building of a regional simulation gets its own results',
    'In a regional simulation, the demands of a building are the intensity measures of the grid points at their coordinates, interpolated at '
    'the location of the building, with the realizations used in turn. A building is assigned the component of its own attributes at its own '
    'location. Its damage states, repair costs and repair times are those of that component, with the consequences of its own occupancy '
    'class for Hazus earthquake, and zero losses when it is not damaged. Each building of the inventory that passes the filter is evaluated '
    'exactly once and has exactly one row in each output file, in the order of the inventory without a filter, whatever the number of chunks '
    'and the order in which they finish.',
    ['inputs', 'schedules'],
    'every inventory, filter, grid and number of chunks; every order in which chunks finish',
    'The tests of whole simulations need model data that are not there; the remaining tests only check that some filters raise errors. '
    'Results of more than one chunk are never tested.',
    ['pelicun/tools/regional_sim.py'],
    [('chunks and output', 'pelicun/tools/regional_sim.py:regional_sim'), ('one chunk', 'pelicun/tools/regional_sim.py:process_buildings_chunk'),
     ('losses', 'pelicun/tools/regional_sim.py:_calculate_losses_hazus_eq'), ('filter', 'pelicun/tools/regional_sim.py:parse_id_filter')],
    ['output tables', 'demand sample and component table handed to the assessment'],
    'abstract interpretation of the table operations on representatives with labelled cells',
    'Inventories of 5 to 2203 buildings represent all inventories. The models of the assessment and the interpolation are replaced by their '
    'documented results, and pandas is modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P18', 'The output directory holds exactly the results that were requested',
    'After a damage and loss calculation, its output directory holds the results requested in the configuration, in the requested formats, '
    'next to the files that were there before. The summary tables are always saved as CSV files. Results of earlier calculations in the same '
    'directory, in any format, are removed before the first step of the calculation, so that they are never mistaken for its results, even '
    'when it fails; a result that cannot be removed is an error. Other files are left alone.',
    ['configurations', 'histories', 'faults'],
    'every set of requested outputs and formats, with and without damage and losses, every earlier content of the directory, failing '
    'calculations and failing removals',
    'The tests run a few configurations in clean directories and compare two lists of files; most of them need model data that are not there.',
    ['pelicun/tools/DL_calculation.py'],
    [('removal of earlier results', 'pelicun/tools/DL_calculation.py:_remove_existing_files'),
     ('saved results', 'pelicun/tools/DL_calculation.py:run_pelicun'),
     ('formats', 'pelicun/tools/DL_calculation.py:_remove_csv_files_if_not_requested')],
    ['files of the output directory'],
    'effect traces over the value flow of the calculation on a model of its output directory, for every requested output and format',
    'The steps of the assessment are replaced by results of their documented form. The requested outputs are all, none, each one, and all '
    'but each one. Traces with operations that are not modelled are not judged.',
)

prop(
    'P23', 'Result files hold the results of the models, and CSV and JSON files agree',
    'The sample files of a damage and loss calculation hold the samples of its models with their units, component blocks at the same location '
    'added up if that is requested. Grouped damage is the sum per component or, when damage states are condensed, the governing damage state '
    'per component and location. Grouped losses are sums per decision variable, consequence and component. Groups without any value are '
    'missing rather than zero. Statistics files describe exactly these samples. The summary holds the aggregate losses and whether collapse '
    'and irreparable damage occurred in every realization, and zero if they were not considered. JSON files hold the same numbers as '
    'the CSV files, as numbers, and the same units.',
    ['inputs', 'configurations'],
    'every sample, every combination of output settings and every set of requested outputs',
    'The tests of whole calculations compare file names only, and most of them need model data that are not there.',
    ['pelicun/tools/DL_calculation.py'],
    [('grouped damage', 'pelicun/tools/DL_calculation.py:_damage_save'), ('grouped losses', 'pelicun/tools/DL_calculation.py:_loss_save'),
     ('summary', 'pelicun/tools/DL_calculation.py:_result_summary'), ('JSON files', 'pelicun/tools/DL_calculation.py:_create_json_files_if_requested')],
    ['result files'],
    'abstract interpretation of the table operations on representatives with distinct cells, compared with the definition of every result',
    'Small samples with missing values, several locations, directions, blocks and damage states represent all samples. Statistics are '
    'symbols; pandas is modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P12', 'Settings reach their steps, and defaults never replace settings of the user',
    'Every setting of a configuration that is given is kept when the configuration is parsed, false and zero values included; settings that '
    'are missing get their documented default, without effect on others. Arguments of the calculation and of the command line replace '
    'the settings they are meant for only. Configurations that contradict themselves or miss required settings are rejected before anything is '
    'calculated. Auto-population combines the components and databases of every requested method with the arguments. Every step of '
    'the calculation is called with the settings that belong to it, and steps that are not configured are not run.',
    ['configurations', 'inputs'],
    'every configuration, with any subset of its settings, and every argument',
    'Most tests of configurations need model data that are not there; the others check single error messages, and none compares the '
    'arguments of the steps with the configuration.',
    ['pelicun/tools/DL_calculation.py'],
    [('parsing', 'pelicun/tools/DL_calculation.py:_parse_config_file'), ('calls of the steps', 'pelicun/tools/DL_calculation.py:run_pelicun'),
     ('decision variables', 'pelicun/tools/DL_calculation.py:_parse_decision_variables'), ('command line', 'pelicun/tools/DL_calculation.py:main')],
    ['parsed configuration', 'arguments of the steps'],
    'abstract interpretation of the parsing and of the calls of the steps over labelled configurations, with one setting missing at a time',
    'A complete configuration and those with one setting missing represent all configurations. The schema itself, the scripts of '
    'auto-population and the path functions of the configuration are replaced by their documented behaviour.',
)

prop(
    'P35', 'Collapse and irreparable damage are evaluated exactly as they are configured',
    'The asset of a damage and loss calculation has the components of the user, unchanged, and the ones that detect collapse and irreparable '
    'damage at all locations and in all directions of the demands they depend on. Their fragilities have the demand, unit, distribution and '
    'parameters of the configuration; components that only collect results never fail by themselves. Parameters of the user come before those '
    'of named databases. The damage process is the requested one, addressed to the components that there are, and '
    'defaults stay as they are for later calculations. Incomplete settings are rejected before the damage is calculated.',
    ['configurations', 'inputs'],
    'every collapse fragility, irreparable damage setting, set of demands, list of databases and damage process',
    'The calculations that reach this code need model data that are not there, so that it is not run by any test that passes.',
    ['pelicun/assessment.py'],
    [('components', 'pelicun/assessment.py:DLCalculationAssessment.calculate_asset'),
     ('fragilities, databases and damage process', 'pelicun/assessment.py:DLCalculationAssessment.calculate_damage')],
    ['arguments of the asset and damage models'],
    'abstract interpretation of the table operations on representatives, compared with the configuration they are built from',
    'Configurations of every kind represent all configurations. The models, the files and the unit of a demand are replaced by their '
    'documented behaviour, and pandas is modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P36', 'The demands of an assessment are those of the user, in their units',
    'The demand model of a damage and loss calculation gets all demands of the user, in the units of the user or, without any, in the unit of '
    'their type for the length unit of the configuration. Exactly the realizations that exceed a collapse limit are left out. The model is '
    'calibrated as configured, or else empirical, and sampled with the configured size, order and clones. The assessment uses the sampled '
    'demands with their units, residual drifts inferred from the drifts of each configured direction, and a constant one. Missing units and '
    'unknown methods are rejected.',
    ['inputs', 'configurations'],
    'every table of demands, with and without units and events, and every combination of settings',
    'The calculations that reach this code need model data that are not there, so that it is not run by any test that passes.',
    ['pelicun/assessment.py'],
    [('preparation of demands', 'pelicun/assessment.py:DLCalculationAssessment.calculate_demand'), ('units', 'pelicun/assessment.py:_add_units')],
    ['arguments of the demand model'],
    'abstract interpretation of the table operations on representatives with distinct cells, compared with their definition',
    'Small tables with several types, locations and directions represent all tables. The demand model is replaced by its documented results '
    'and pandas is modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P37', 'Losses are calculated with the loss models of the configuration',
    'The loss model of a damage and loss calculation gets the loss models of the user before those of the named databases, and, last, the '
    'consequences of replacement: the configured median, unit and distribution of every decision variable, or else the default of the damage '
    'process approach (for Hazus earthquake assessments the time of a total loss of the occupancy, from the data that take precedence), and '
    'nothing for decision variables without either. Components have the loss models of the loss map of the user, or of the automatic map (the '
    'same name, or their type and the occupancy); collapse and irreparable damage have those of replacement unless the user maps them. Losses '
    'are calculated and aggregated once, for the configured decision variables and thresholds. Unknown settings are rejected.',
    ['configurations', 'inputs'],
    'every list of databases, loss map, set of replacement parameters, damage process approach and occupancy',
    'The calculations that reach this code need model data that are not there, so that it is not run by any test that passes.',
    ['pelicun/assessment.py'],
    [('losses', 'pelicun/assessment.py:DLCalculationAssessment.calculate_loss'), ('databases', 'pelicun/assessment.py:DLCalculationAssessment.load_consequence_info'),
     ('automatic loss map', 'pelicun/assessment.py:_loss__map_auto')],
    ['arguments of the loss model'],
    'abstract interpretation of the table operations on representatives, compared with the configuration they are built from',
    'Configurations of every kind represent all configurations. The models and the data are replaced by their documented behaviour, and '
    'pandas is modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P38', 'Components are placed where the asset model puts them',
    'A row of the asset model is a performance group in every location and direction that it describes: stories by number, range, list, "all", '
    '"top" and "roof" of the building, directions by number, range and list, and direction 1 if none is given. Every group keeps its parameters, '
    'limits, blocks (one if not given) and units, and repeated rows are groups of their own. Every group has a random variable with its family '
    '(or a fixed quantity), parameters and limits, the sample has the values of each variable in the column of its group, with the requested '
    'size or that of the demands, and samples that are loaded keep their groups and units. Other descriptions are rejected.',
    ['inputs', 'configurations'],
    'every description of locations and directions, number of stories, table of components and sample of quantities',
    'The tests have a few components with simple descriptions, in places that have the same parameters.',
    ['pelicun/model/asset_model.py', 'pelicun/model/pelicun_model.py', 'pelicun/base.py'],
    [('places', 'pelicun/model/pelicun_model.py:PelicunModel._get_locations'), ('groups', 'pelicun/model/asset_model.py:AssetModel.load_cmp_model'),
     ('variables', 'pelicun/model/asset_model.py:AssetModel._create_cmp_RVs'), ('sample', 'pelicun/model/asset_model.py:AssetModel.generate_cmp_sample')],
    ['tables, random variables and samples of the asset model'],
    'abstract interpretation of the table operations on representatives, compared with the descriptions they are built from',
    'Descriptions and tables of every kind represent all of them. Loading of tables, conversion of units and random variables are those of P14, '
    'P16 and P07, replaced by their documented behaviour, and pandas and NumPy are modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P28', 'Residual drifts follow the peak drifts, and added demands leave the rest',
    'Residual drifts follow FEMA P-58: zero below the yield drift, 0.3 times what exceeds it up to four times the yield drift, and what exceeds '
    'three times the yield drift above that; values that are not zero have one independent lognormal factor of dispersion 0.2 each, and none '
    'exceeds its peak drift. Every residual drift has the realization, location and direction of its peak drift. Estimated and added demands '
    'are stored with their units, and all other demands and units stay as they are. Other methods, missing samples and demands of a wrong '
    'length are rejected.',
    ['inputs'],
    'all peak drifts and yield drifts, and every sample of demands',
    'Tests look at a few drifts and at the size of the result; they cannot see every range, or which factor goes with which drift.',
    ['pelicun/model/demand_model.py'],
    [('residual drifts', 'pelicun/model/demand_model.py:DemandModel.estimate_RID'),
     ('adjusted sample', 'pelicun/model/demand_model.py:DemandModel.estimate_RID_and_adjust_sample'), ('added demands', 'pelicun/model/demand_model.py:DemandModel.expand_sample')],
    ['residual drifts of every range of the ratio of peak to yield drift', 'stored demands'],
    'abstract interpretation over linear forms of the peak and yield drift, split at every ratio that a comparison distinguishes',
    'Pandas and numpy are modelled. Constants are compared as decimal numbers, so that rounding of floating-point numbers is left out. Runs with '
    'operations that are not modelled are not judged.',
)

prop(
    'P39', 'Demands are calibrated, sampled, saved and loaded as described',
    'Every demand is fitted with the family and limits of its type (those of ALL if it has none), in base units, on the realizations that are '
    'within the limits of all demands; the fit is told its limits and how many realizations are censored, and its parameters are kept with the '
    'additional uncertainty of the type. Empirical demands keep their data. Every demand has a random variable with its family, parameters, data '
    'and limits, and the correlations of the fit; copies of demands have the values and units of the demand they copy. A model is saved in the '
    'units of the user and loaded with exactly the parts that there are, also if it has no correlations or no empirical data.',
    ['inputs', 'configurations', 'histories'],
    'every table of demands, calibration setting, marginal parameters, correlation and copy of demands',
    'The tests calibrate a few columns with one setting at a time and look at the parameters that come out of the fit, not at what goes in.',
    ['pelicun/model/demand_model.py', 'pelicun/base.py'],
    [('calibration', 'pelicun/model/demand_model.py:DemandModel.calibrate_model'), ('variables', 'pelicun/model/demand_model.py:DemandModel._create_RVs'),
     ('sample', 'pelicun/model/demand_model.py:DemandModel.generate_sample'), ('copies', 'pelicun/model/demand_model.py:DemandModel.clone_demands'),
     ('files', 'pelicun/model/demand_model.py:DemandModel.load_model')],
    ['what is passed to the fit, and the parameters, variables, samples and files of the demand model'],
    'abstract interpretation of the table operations on representatives, compared with the settings they are built from',
    'Tables and settings of every kind represent all of them. The fit itself is that of P30 and the variables those of P27, replaced by their documented '
    'behaviour, and pandas and NumPy are modelled. Runs with operations that are not modelled are not judged.',
)

prop(
    'P40', 'The loss model combines, keeps and saves what its two sub-models have',
    'The sample of the loss model has every loss of the damage-state model and of the loss-function model, each under its own key and with its '
    'own values; its parameters are those of both, in base units, converted once; the loss map is the one given, extended as asked. The parameters '
    'of a consequence are those of the first source that has them, only consequences of the map that are complete are kept, and missing are '
    'exactly those that no model has. Losses are saved in the units of their parameters, also if some consequences did not occur, and are loaded '
    'with the units they were saved in. The calculation uses the damage, demands, components and options of the assessment.',
    ['inputs', 'configurations', 'histories'],
    'every sample, set of parameter sources, loss map and combination of sub-models',
    'The tests run complete calculations with one sub-model at a time; they rarely have a consequence that did not occur, a second source or both models.',
    ['pelicun/model/loss_model.py'],
    [('sample', 'pelicun/model/loss_model.py:LossModel.sample'), ('parameters', 'pelicun/model/loss_model.py:LossModel.load_model_parameters'),
     ('map', 'pelicun/model/loss_model.py:LossModel.add_loss_map'), ('files', 'pelicun/model/loss_model.py:LossModel.save_sample'),
     ('loading', 'pelicun/model/loss_model.py:RepairModel_DS.load_sample'), ('calculation', 'pelicun/model/loss_model.py:LossModel.calculate')],
    ['sample, parameters, map and missing consequences of the loss model, and the files it writes and reads'],
    'abstract interpretation of the table operations on representative samples, parameters and maps of both sub-models',
    'Tables of every kind represent all of them. The calculations of the sub-models are those of P17, replaced by stand-ins, and pandas is modelled. '
    'Runs with operations that are not modelled are not judged.',
)

prop(
    'P41', 'Settings and tables are read, merged and converted as described',
    'A setting is read from and written to its path whatever the configuration contains, and counts as unspecified exactly when it is missing, None, '
    'NaN or empty. Merging keeps every setting of the user, adds every missing default and rejects a dictionary in the place of a value or the reverse; '
    'each option and the log get the value of their own setting. Texts are converted to truth values and numbers or rejected, mappings with duplicates '
    'are rejected. Indices are joined and split at dashes on the requested axis, repeated rows are numbered, factors are applied to exactly the matching '
    'rows, statistics are those of the data, and tables become dictionaries with all their values. A copy leaves its argument as it was.',
    ['inputs', 'configurations'],
    'every configuration, table, text and mapping',
    'The tests call these functions with one or two typical arguments; a configuration with null, zero or empty entries, repeated or differently long labels, or two levels of keys is not among them.',
    ['pelicun/base.py', 'pelicun/tools/DL_calculation.py'],
    [('paths', 'pelicun/base.py:get'), ('writing', 'pelicun/base.py:update'), ('merging', 'pelicun/base.py:update_vals'), ('options', 'pelicun/base.py:Options.__init__'),
     ('labels', 'pelicun/base.py:convert_to_MultiIndex'), ('statistics', 'pelicun/base.py:describe'), ('results', 'pelicun/tools/DL_calculation.py:convert_df_to_dict')],
    ['values returned and written by the shared functions for settings, texts, mappings, indices, statistics and result dictionaries'],
    'abstract interpretation of the functions on arguments that separate the cases of their descriptions',
    'Chosen arguments represent all of them. pandas is modelled, also its quantiles. Runs with operations that are not modelled are not judged.',
)

prop(
    'P42', 'The damage model keeps its parameters, capacities, states and tasks',
    'The fragility parameters of a component are those of the first source that has them, converted once to base units with its own unit, and those of '
    'complete components of the asset only; the others are reported as missing. Every limit state of every block has a capacity with its own '
    'distribution, limits and anchor, its median adjusted as specified, and its own damage states; an adjustment that cannot be understood is rejected. A '
    'block gets the damage state of its highest limit state that is exceeded by the demand of its performance group. Quantities of damage states are '
    'those of the blocks; tasks change exactly the blocks, realizations and places they name, in their order; all damage states are listed when asked '
    'for. A saved damage sample is in the units of its components and is loaded as it was saved.',
    ['inputs', 'configurations', 'histories'],
    'every set of sources, performance groups, capacity adjustments, damage processes and damage samples',
    'The tests run small assets with one limit state and one kind of adjustment; several batches, ten or more limit states, repeated sources or tasks with several targets and places are not among them.',
    ['pelicun/model/damage_model.py'],
    [('parameters', 'pelicun/model/damage_model.py:DamageModel.load_model_parameters'), ('calculation', 'pelicun/model/damage_model.py:DamageModel.calculate'),
     ('batches', 'pelicun/model/damage_model.py:DamageModel_DS.obtain_ds_sample'), ('capacities', 'pelicun/model/damage_model.py:DamageModel_DS._create_dmg_RVs'),
     ('states', 'pelicun/model/damage_model.py:DamageModel_DS._evaluate_damage_state'), ('quantities', 'pelicun/model/damage_model.py:DamageModel_DS.prepare_dmg_quantities'),
     ('tasks', 'pelicun/model/damage_model.py:DamageModel_DS.perform_dmg_task'), ('files', 'pelicun/model/damage_model.py:DamageModel.save_sample')],
    ['parameters, random variables, damage states, quantities and tasks of the damage model, and the files it writes and reads'],
    'abstract interpretation of the methods on tables, adjustments and tasks that separate the cases of their descriptions',
    'Chosen tables represent all of them. Sampling is replaced by a stand-in (P35, P36), and pandas and numpy are modelled. Runs with operations that are not modelled are not judged.',
)
