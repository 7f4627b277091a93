#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib

F = 'flixOpt/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': [F + f for f in files],
                          'mechanism': [{'name': n, 'where': F + w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


RES = 'results() of a calculation and the set of operating schedules the model handed to the solver admits'

prop('C01', 'Bus balance and excess penalty',
     'In every schedule the optimiser may return, in every time step and at every bus, the sum of all flow rates into the bus plus the '
     'reported excess input equals the sum of all flow rates out of it plus the reported excess output; every schedule that balances is '
     'allowed. Excess is only possible at buses with an excess penalty, is never negative, and adds exactly penalty x step length x excess '
     '(penalty may vary over time) to the reported penalty, for excess input and excess output alike.',
     ['inputs', 'configurations'],
     'All operating schedules of all networks of sources, sinks, converters and storages, with any step lengths, with excess allowed or forbidden per bus and constant or time-varying penalties.',
     'Tests solve a handful of scenarios and compare the objective of one optimal schedule; they never look at the schedules the model wrongly admits or forbids.',
     ['elements.py', 'effects.py'],
     [('bus balance equation and excess variables', 'elements.py BusModel.do_modeling'), ('penalty share', 'effects.py EffectCollectionModel.add_share_to_penalty')],
     [RES])

prop('C02', 'Flow rates stay within size and relative limits',
     'In every time step the rate of a flow lies between relative minimum and relative maximum of that step times its size, and a flow with '
     'a fixed relative profile has exactly profile x size; a flow that may be switched off is either zero or within these limits (equal to '
     'the profile value respectively); a profile combined with an investment is always followed. Every rate within the limits is allowed; limits and profiles may be scalars, arrays or time series data, '
     'and a flow without a size gets the configured default size.',
     ['inputs', 'configurations'],
     'All rates of all flows in all steps for fixed sizes, chosen sizes, with and without on/off state, scalar and time-varying limits and profiles.',
     'Tests use constant limits and look at one optimum, which touches only the binding side of a few limits.',
     ['elements.py', 'features.py', 'core.py'],
     [('absolute/relative flow rate bounds', 'elements.py FlowModel'), ('on/off bounds', 'features.py OnOffModel._add_on_constraints'), ('size bounds', 'features.py InvestmentModel._create_bounds_for_defining_variable')],
     [RES])

prop('C03', 'Flow-hour totals and load factors',
     'The reported flow hours of a flow equal the sum over all steps of rate x step length. They lie within the given minimum and '
     'maximum flow hours and between minimum and maximum load factor x size x total duration, where size is the chosen size if it is an '
     'investment; every schedule within these limits is allowed.',
     ['inputs', 'configurations'],
     'All schedules of a flow with any combination of the four limits, unequal step lengths, fixed and optimised sizes.',
     'Tests use equal step lengths of one hour and do not use load factors with unequal steps; a wrong weighting by step length is invisible there.',
     ['elements.py'],
     [('sumFlowHours and load factor constraints', 'elements.py FlowModel')],
     [RES])

prop('C04', 'On/off state follows the flows',
     'A flow with on/off parameters is reported on exactly in the steps in which its rate is non-zero, and a component with on/off parameters '
     'exactly when at least one of its flows is; the off state, where reported, is the opposite. Reported on-hours equal the total length of the '
     'on steps and respect their minimum and maximum, and each on step adds effect-per-running-hour x step length to the effects.',
     ['inputs', 'configurations'],
     'All on/off patterns of flows and of components with several flows, with zero and non-zero minimum loads, scalar or time-varying running effects, unequal steps.',
     'Unit tests fix one demand profile; 2^T on/off patterns and their admissibility are never enumerated.',
     ['features.py', 'elements.py', 'interface.py'],
     [('on constraints', 'features.py OnOffModel._add_on_constraints'), ('running hour shares', 'features.py OnOffModel._create_shares')],
     [RES])

prop('C05', 'Minimum and maximum consecutive on and off durations',
     'The reported consecutive on (off) hours at a step are the time the unit has been on (off) without interruption up to the end of that step, '
     'including the uninterrupted time before the first step given by the previous flow rates and previous step length (a unit without previous '
     'flow rates was off for one previous step). They never exceed the maximum, and a unit may only be switched off (on) after the minimum has been '
     'reached (a period still running at the end may be shorter, one running at the start has to continue); all other on/off patterns are allowed.',
     ['inputs', 'histories', 'configurations'],
     'All on/off patterns over the horizon, for all previous histories, constant or time-varying minima and maxima, unequal step lengths.',
     'Tests check one optimum per limit with hourly steps; the limits are a statement about all 2^T patterns and all histories.',
     ['features.py'],
     [('duration variables and constraints', 'features.py OnOffModel._get_duration_in_hours'), ('previous duration', 'features.py OnOffModel.get_consecutive_duration'), ('previous state', 'features.py OnOffModel._previous_on_values')],
     [RES])

prop('C06', 'Switch-on events, their limit and their cost',
     'A switch-on (switch-off) is reported exactly in the steps in which a unit goes from off to on (on to off), where the state before the '
     'first step follows from the last previous flow rates (off if none are given). The reported number of switch-ons is the number of these steps, never exceeds '
     'its limit, and each switch-on adds the given effects (which may vary over time) to the effects of its step.',
     ['inputs', 'histories', 'configurations'],
     'All on/off patterns, all previous states of flows and of multi-flow components, scalar and time-varying start costs.',
     'Tests use one demand profile with one optimal switching pattern.',
     ['features.py', 'interface.py'],
     [('switch constraints', 'features.py OnOffModel._add_switch_constraints'), ('switch shares', 'features.py OnOffModel._create_shares')],
     [RES])

prop('C07', 'Flows declared exclusive never run simultaneously',
     'Of a group of flows of which only one may be used at a time (a storage that prevents simultaneous charging and discharging, a combined source and '
     'sink, a bidirectional transmission, or any component with such a group) at most one has a non-zero rate in any step. Any single one of them, or none, may run in every step, '
     'and without the restriction they may run together.',
     ['inputs', 'configurations'],
     'All combinations of rates of the flows of a group of two or more flows, in all steps, with and without own on/off parameters.',
     'An optimum seldom wants both at once, so a missing restriction does not show in tests of optima.',
     ['features.py', 'elements.py', 'components.py'],
     [('exclusivity constraint', 'features.py PreventSimultaneousUsageModel'), ('forcing on variables', 'elements.py ComponentModel.do_modeling')],
     [RES])

prop('C08', 'Investment sizes respect their limits and bound the operation',
     'The chosen size of an investment equals the fixed size, or lies between minimum and maximum size; if the investment is optional it may '
     'also be zero, and it is reported as invested exactly if the size is not zero. The operation (flow rate, or charge state of a storage) is limited by the chosen size times the '
     'relative limits, also for units that can be off (zero is then allowed), and every size and operation within these limits is allowed.',
     ['inputs', 'configurations'],
     'All combinations of size and operation for fixed/ranged, optional/mandatory investments of flows and storages, with and without on/off state and fixed profiles.',
     'Tests solve to an optimum where size equals the peak demand; sizes inside the forbidden gap or too large operations are not tried.',
     ['features.py', 'interface.py', 'elements.py', 'components.py'],
     [('investment model', 'features.py InvestmentModel'), ('bounds', 'elements.py FlowModel, components.py StorageModel')],
     [RES])

prop('C09', 'Effects of investments',
     'An investment adds to the invest effects: the fixed effects if it is made, the specific effects times the size, the piecewise-linear effects of the size (as given by the '
     'segments, zero if an optional investment is not made), and the divestment effects if an optional investment is not made. '
     'All effects given, including the standard effect, are accounted for once, also when they are combined.',
     ['inputs', 'configurations'],
     'All sizes including zero and segment ends, all combinations of the four kinds of effects, one or several effects, flows and storages.',
     'Tests use a few constants at one optimal size; divestment and several segments with several effects are not covered.',
     ['features.py', 'interface.py', 'effects.py'],
     [('investment shares', 'features.py InvestmentModel._create_shares'), ('piecewise shares', 'features.py SegmentedSharesModel')],
     [RES])

prop('C10', 'Effect accounting and shares between effects',
     'For every effect the operation value of each step is the sum of all contributions of the elements in that step (effects per flow hour x rate x step length, and so on) plus '
     'the shares from other effects, the operation total is the sum over the steps, the invest total is the sum of all '
     'invest contributions plus shares from other effects, and the total is their sum. Shares between effects (constant or varying in time) pass on the complete value of the source effect, '
     'including what it received itself, and values without a named effect count for the standard effect.',
     ['inputs', 'configurations'],
     'All schedules of systems with several effects, chains and trees of shares between effects for operation and invest, scalar/array/time series data factors, negative factors.',
     'Tests have one or two effects with one constant share and check totals of the optimum.',
     ['effects.py', 'features.py'],
     [('share allocation', 'features.py ShareAllocationModel'), ('effect collection', 'effects.py EffectCollectionModel')],
     [RES])

prop('C11', 'Limits of effects',
     'The operation value of an effect per hour in each step, its operation total, its invest total and its overall total (each '
     'including shares from other effects) respect the minimum and maximum given for them. Every schedule that respects them is allowed.',
     ['inputs', 'configurations'],
     'All schedules and sizes of systems with any combination of the eight limits, unequal step lengths, constant or time-varying hourly limits.',
     'Tests set at most one limit which happens to bind at the optimum.',
     ['effects.py', 'features.py'],
     [('bounds of the share variables', 'features.py ShareAllocationModel.do_modeling')],
     [RES])

prop('C12', 'Objective and optimality of full calculations',
     'The quantity that is minimised is the total (operation and invest) of the effect declared as objective plus all penalties. A full calculation solved to optimality reports as objective '
     'the least value over all schedules that satisfy all restrictions, and its reported results form one of these schedules, with exactly this value.',
     ['inputs', 'configurations'],
     'All schedules of small systems with discrete decisions, enumerated completely, and the result reported by the bundled solver.',
     'Tests compare with constants recorded from a former run, not with the true minimum.',
     ['effects.py', 'structure.py', 'math_modeling.py', 'calculation.py'],
     [('objective', 'effects.py EffectCollectionModel.do_modeling'), ('solving', 'math_modeling.py HighsSolver, PyomoModel'), ('results', 'structure.py SystemModel.results')],
     [RES, 'results() after solving with the HiGHS solver'])

prop('C13', 'Storage balance and charge state limits',
     'The charge state after a step is the charge state before it reduced by the relative loss per hour for the step length, plus charged energy times the charging efficiency, minus discharged energy divided by the '
     'discharging efficiency (all may vary over time), and it stays within its relative limits times the capacity at every point in time. The initial state (a value, free, or equal to the final state) and the limits on the '
     'final state are respected, the net discharge is discharging minus charging, and every operation that fulfils this is allowed.',
     ['inputs', 'histories', 'configurations'],
     'All charge/discharge sequences over the horizon, all kinds of initial and final conditions, constant and time-varying parameters, unequal step lengths.',
     'Tests check one optimum of one storage with hourly steps.',
     ['components.py'],
     [('storage model', 'components.py StorageModel')],
     [RES])

prop('C14', 'Linear conversion of flows',
     'In every step the flows of a linear converter fulfil each of its conversion equations (inputs times their factors = outputs times their factors, factors may vary over time). Boiler, electric heater, '
     'heat pumps, cooling tower and CHP fulfil the relation their efficiency or COP describes, and all rates that fulfil the relations are allowed.',
     ['inputs', 'configurations'],
     'All rates of all flows for converters with several inputs, outputs and equations and every specialised converter, scalar, array and time series data factors.',
     'Tests cover boiler and CHP with constant factors only.',
     ['components.py', 'linear_converters.py'],
     [('conversion equations', 'components.py LinearConverterModel'), ('specialised converters', 'linear_converters.py')],
     [RES])

prop('C15', 'Piecewise-linear conversion',
     'In every step in which it is on, a converter with segmented conversion factors operates in one of its segments, and all of its flows are at the same relative position of that same segment (segment ends may vary over time, '
     'gaps and single points included). Off is only possible with on/off parameters (all flows are then zero) or with a segment that contains zero; all points of all segments are allowed.',
     ['inputs', 'configurations'],
     'All points on and off the segments for all flows and steps, connected and disconnected segments, with and without on/off parameters.',
     'Tests check one optimum; a mix of segments or positions would be found only if it were cheaper.',
     ['features.py', 'components.py'],
     [('segments', 'features.py MultipleSegmentsModel, SegmentModel'), ('use', 'components.py LinearConverterModel')],
     [RES])

prop('C16', 'Transmission losses and coupling of directions',
     'In each direction of a transmission the outflow equals the inflow reduced by the relative loss, minus the absolute loss in every step in which the inflow is non-zero; losses may vary over time. '
     'With an investment both directions have the same size, and with the default both directions are never used simultaneously.',
     ['inputs', 'configurations'],
     'All rates of one- and two-directional transmissions, with and without relative/absolute losses, investment, exclusivity.',
     'Tests compare optimal objective values of two scenarios.',
     ['components.py'],
     [('transmission model', 'components.py TransmissionModel')],
     [RES])

prop('C17', 'Segmented calculations hand over the state and combine the results',
     'A segmented calculation solves consecutive parts of the chosen time steps (segment plus overlap), where each part (of at least two time steps) starts from the flow rates and charge states that the part before had at the end of its segment, whatever schedule the optimiser chose there. '
     'The combined results contain each time step exactly once, taken from the segment it belongs to, and the original start values of all elements are restored afterwards, also after a failure.',
     ['histories', 'inputs', 'fault_sequences'],
     'All schedules the optimiser may return for a segment and the resulting restrictions of the next one, all segment and overlap lengths, windows of time steps, failures in any segment.',
     'Tests run one segmented calculation and compare one number.',
     ['calculation.py'],
     [('segmented calculation', 'calculation.py SegmentedCalculation'), ('combination', 'calculation.py _combine_nested_arrays')],
     ['results() of a segmented calculation with a solver that returns a chosen schedule', 'start values of elements'])

prop('C18', 'Aggregated calculations equate exactly the clustered periods',
     'In an aggregated calculation periods of the same cluster have equal on/off and other binary decisions in every step except the first of each period (and equal time-varying decisions of all kinds if data is aggregated), up to the allowed number of '
     'deviating decisions which are penalised; periods of different clusters, and storages unless requested, remain independent. With aggregated data each step uses the value of its typical period, the original '
     'data is back in use in later calculations, and everything else is as in a full calculation. Periods are clustered by the time series of the system, each counted with its given weight, those of a group sharing one weight.',
     ['inputs', 'histories', 'configurations'],
     'All on/off patterns for small numbers of periods with unambiguous clusters, with all settings of the aggregation parameters.',
     'Tests compare the objective of one aggregated run within a tolerance.',
     ['aggregation.py', 'calculation.py'],
     [('equations', 'aggregation.py AggregationModel'), ('clusters', 'aggregation.py Aggregation'), ('data', 'aggregation.py TimeSeriesCollection.insert_data, core.py TimeSeries')],
     [RES])

prop('C19', 'Time data: step lengths, windows of time steps and forms of input data',
     'Step lengths follow from the time stamps of any resolution, the last one from the given hours or the last increment. A calculation on a window of time steps admits the same schedules as a calculation of a system that '
     'consists only of these steps, and equal values given as scalar, array, time series data or (where accepted) list admit the same schedules. Calculations have at least two time steps. Time stamps generated from a start, a number of steps or an end, and a frequency are those of the calendar, and what cannot be read is rejected.',
     ['inputs', 'configurations'],
     'All windows of a horizon, time stamps of all units with unequal steps, all forms of input for every time-varying parameter.',
     'Tests use full hourly horizons.',
     ['flow_system.py', 'core.py', 'structure.py', 'calculation.py', 'utils.py'],
     [('time data', 'flow_system.py FlowSystem'), ('active indices', 'core.py TimeSeries'), ('vectors', 'utils.py as_vector')],
     [RES])

prop('C20', 'Repeated and interleaved calculations are independent',
     'The schedules admitted by a calculation and the results it reports depend only on the flow system, the chosen time steps and the solver answer, not on calculations (full, segmented, aggregated, repeated, failed) done before with '
     'the same flow system. User-supplied arrays and dictionaries are not altered.',
     ['histories', 'fault_sequences'],
     'All sequences of calculations up to a bounded length on one flow system, including failing ones.',
     'Tests build a new system per calculation.',
     ['calculation.py', 'core.py', 'flow_system.py', 'effects.py', 'interface.py'],
     [('activation of indices', 'core.py TimeSeries.activate_indices'), ('results cache', 'calculation.py Calculation.results'), ('transform_data', 'flow_system.py FlowSystem.transform_data')],
     [RES])

prop('C21', 'Saved results are faithful',
     'Results saved by a calculation and loaded again give, for every component, flow, bus and effect, the same values as the results in memory, the same time stamps and step lengths, and the same input data and connections between components, flows and buses. '
     'The short description of a system and of its elements, as a JSON file and as text, states the same input data.',
     ['inputs', 'configurations'],
     'All element types and features, all time resolutions, scalar and array values, labels with unusual characters, full and segmented calculations.',
     'Tests load one saved file and compare a few values.',
     ['calculation.py', 'results.py', 'structure.py', 'utils.py'],
     [('saving', 'calculation.py Calculation._save_solve_infos'), ('conversion', 'structure.py copy_and_convert_datatypes'), ('loading', 'results.py CalculationResults')],
     ['files written by save_results, CalculationResults'])

prop('C22', 'Equations are handed to the solver as written',
     'A mathematical model built from variables (bounds, binary, fixed values, scalar or per-index) and equations or inequations (with scalar or per-index factors and constants, summands over all, some or summed indices) hands to the solver a '
     'problem with exactly this meaning; models whose lengths do not fit and fixed values outside of the bounds are rejected. Solved values are reported back for the right variable and index, and the objective value is that of the objective written.',
     ['programs', 'inputs'],
     'All small models: combinations of variable kinds, lengths, summand forms, factor and constant forms, up to a bounded number of summands and equations.',
     'Tests cover a few sums of hand-written equations.',
     ['math_modeling.py'],
     [('translation', 'math_modeling.py PyomoModel'), ('equations', 'math_modeling.py Equation, Summand, SumOfSummand'), ('variables', 'math_modeling.py Variable')],
     ['the model passed to the solver, Variable.result, MathModel.result_of_objective'])

prop('C23', 'Ill-formed systems are rejected',
     'Two components, effects or buses with the same label, a second standard or objective effect, effects with direct circular shares, too many conversion equations, conversion factors for foreign flows, both or no kind of conversion factors, segmented conversion with variable size, '
     'relative minimum above maximum, transmissions between inconsistent buses, decreasing time stamps, time series of wrong length, time windows beyond the horizon, effects that are used but not part of the system, effect values without a name if there is no standard effect, a system without an objective, a series with both a group and a weight for the aggregation, and unsuitable segment or aggregation lengths are rejected with an error. Well-formed systems close to them are accepted.',
     ['programs', 'configurations'],
     'All sequences of adding elements from a small alphabet, and every listed defect in every position (which element, which step, which parameter) next to its well-formed neighbour.',
     'Tests contain hardly any ill-formed input.',
     ['flow_system.py', 'effects.py', 'components.py', 'elements.py', 'core.py', 'utils.py', 'calculation.py'],
     [('uniqueness', 'flow_system.py FlowSystem._check_if_element_is_unique'), ('effects', 'effects.py EffectCollection.add_effect'), ('converters', 'components.py LinearConverter._plausibility_checks')],
     ['exceptions'])

prop('C24', 'Result tables',
     'The table of a component, bus or flow of saved results has one column per connected flow (and per excess of a bus) with the values of that flow, inputs and outputs multiplied by the given factors (or left out), columns without a value above the threshold are left out. '
     'Rows carry the time stamps of the calculation; on request a last row repeats the last value at the end time.',
     ['inputs', 'configurations'],
     'All combinations of labels, variables, factors, thresholds, last step option over results with zero, tiny, negative and ordinary values.',
     'No test looks at these tables beyond one example.',
     ['results.py'],
     [('tables', 'results.py CalculationResults.to_dataframe, ComponentResults, BusResults, FlowResults')],
     ['CalculationResults.to_dataframe'])

prop('C25', 'Heat map data',
     'Reshaping a time series for a heat map puts each value into the cell of its period and its step within the period; cells for which the series has no value (gaps, edges) are empty or, on request, repeat the last known or next value.',
     ['inputs'],
     'All supported pairs of period and step, series of different resolution, start, length and gaps, all fill modes.',
     'Tests only draw plots and do not look at the data.',
     ['plotting.py'],
     [('reshaping', 'plotting.py heat_map_data_from_df')],
     ['heat_map_data_from_df'])

prop('C26', 'Conversion of nested data',
     'Converting nested data for saving keeps keys, order and values of arbitrarily nested dictionaries, lists, tuples, numbers, strings, dates and arrays, the result can be written as JSON, and reading turns lists of numbers back into arrays of the same values and leaves all else as it is. '
     'The short representation keeps small arrays (rounded) and describes long ones by their true statistics. The given data is never altered, extracting by a path gives the value of every element that has it, and flattening nested results keeps every value under its joined keys.',
     ['inputs'],
     'All nestings up to a bounded depth over an alphabet of leaves and containers.',
     'Tests check one nested example.',
     ['structure.py', 'utils.py', 'results.py'],
     [('conversion', 'structure.py copy_and_convert_datatypes'), ('arrays', 'utils.py convert_numeric_lists_to_arrays'), ('flattening', 'results.py flatten_dict')],
     ['return values'])

prop('C27', 'Configuration',
     'Loading a configuration file makes exactly its values effective, everything it does not mention gets its default, and loading without a file restores all defaults. A file with an invalid value is rejected and leaves the '
     'configuration in use as it was.',
     ['inputs', 'histories'],
     'All sequences of up to three loads of configuration files from an alphabet of complete, partial, invalid and missing files.',
     'Tests never load a configuration.',
     ['config.py'],
     [('loading', 'config.py CONFIG.load_config'), ('validation', 'config.py ValidatedConfig')],
     ['CONFIG.to_dict(), CONFIG.modeling, CONFIG.logging'])

prop('C28', 'Answers of solvers',
     'Whichever of the supported solvers is chosen, the results of a calculation are those of a solution which that solver found for this very problem in this very call: the optimum, or the best solution found when a limit stops the solver. '
     'If it found none (infeasible, stopped before a solution was found, crashed, no answer), the call raises and writes no results, whatever was solved before. '
     'Relative gap, time limit and number of threads reach the solver as given; objective, lower bound and termination message reported are those of the answer, and no files are written if results are not saved. '
     'Presolve statistics read from a log are those in the log.',
     ['inputs', 'histories', 'fault_sequences'],
     'All sequences of endings of solvers (optimal, stopped with and without a solution, infeasible, crash, no answer) over all solver classes, full and segmented calculations.',
     'Tests use one solver that always finds the optimum.',
     ['math_modeling.py', 'calculation.py'],
     [('solvers', 'math_modeling.py Solver subclasses'), ('values', 'math_modeling.py PyomoModel.solve'), ('calls', 'calculation.py solve')],
     ['results()', 'files written', 'Solver.objective, best_bound, termination_message', 'options received by the solver'])

prop('C29', 'Summary and description of the system',
     'After every solve the summary of the results reports, for each effect, its totals of operation, investment and both, the penalty, the objective and the lower bound the solver gave, exactly the buses whose summed excess is not (numerically) zero, and every investment decision once with its size, as invested if and only if the size is not zero; the saved infos repeat the same numbers. '
     'The stated sizes of the model (variables, equations, inequations) are those of the problem handed to the solver. '
     'The description of the network has exactly one node for each component and each bus, told apart by kind, and one edge per flow in the direction the energy flows: from bus to component for inputs, from component to bus for outputs; the drawn network shows exactly these. '
     'The network of loaded results is the same. The network object is returned, and files are written or opened only as asked for.',
     ['inputs', 'configurations'],
     'All small systems of a family (directions, number of flows, investments, excess, segments) x all ways to ask for the network.',
     'Tests never read the summary nor the network.',
     ['structure.py', 'flow_system.py', 'plotting.py', 'calculation.py'],
     [('summary', 'structure.py SystemModel.main_results'), ('infos', 'structure.py SystemModel.infos'), ('network', 'flow_system.py network_infos, visualize_network'), ('drawing', 'plotting.py visualize_network')],
     ['SystemModel.main_results and infos, saved infos, network_infos(), the drawn network, files'])

prop('C30', 'Plots show the data',
     'Every plot shows the data it is given: one series per column with all its values at their times, steps hold from their time to the next, stacked bars stack positive and negative values apart, area plots agree within 0.00001, heat maps show every cell at its place, colours are used as given, '
     'the plots of results show the same values as the tables of the results (flows of a bus or component, signs of inputs inverted if asked, the charge state of a storage with its end, only the chosen columns), and the plot of an aggregation shows the original and the aggregated series. '
     'Tables handed over are never altered, and figures are saved and shown exactly where asked for; unknown labels, modes, engines, heat map periods and numbers of colours that do not fit are refused, with nothing drawn, shown or saved.',
     ['inputs'],
     'All combinations of arguments x small tables (signs, zeros, one or several columns, steps of different length), and all elements of small solved systems.',
     'Tests plot and look at nothing.',
     ['plotting.py', 'results.py', 'aggregation.py'],
     [('interactive plots', 'plotting.py with_plotly, heat_map_plotly'), ('static plots', 'plotting.py with_matplotlib, heat_map_matplotlib'), ('results', 'results.py plot_operation, plot_storage, plot_charge_state'), ('aggregation', 'aggregation.py Aggregation.plot')],
     ['the figures returned, files written'])

prop('C31', 'The listing of the model is the problem that is solved',
     'The listing of the model, in the infos and in the saved file, states exactly the problem handed to the solver: every variable once, with its length, whether it is binary or fixed and its bounds; every equation and inequation once, with its number of rows, and the constant and all coefficients of its first row; and the objective. '
     'Every variable is listed below the element whose results contain it. The plain lists and the sizes stated for the model of a single element agree with the listing below this element.',
     ['programs', 'configurations'],
     'All features of flows, investments, storages, converters and effects alone and in combination, all small horizons, windows.',
     'Tests never read the listing.',
     ['structure.py', 'math_modeling.py', 'calculation.py'],
     [('lines', 'math_modeling.py Variable.description, Equation.description, Inequation.description, Summand.description'), ('tree', 'structure.py description_of_variables, description_of_constraints'), ('sizes', 'structure.py ElementModel.overview_of_model_size')],
     ['infos of the model, saved infos, description_of_variables, description_of_constraints, overview_of_model_size'])

prop('C32', 'The order of the description has no meaning',
     'The order in which elements are added to a flow system, and the order of the flows of a component, of the entries of a dictionary of effects, of the flows in a conversion equation, of the equations, of the segments of an '
     'investment and of the flows that exclude each other do not change the result: the same schedules are feasible, with the same reported values, costs and objective, whichever order is chosen. '
     'Elements may be added one by one or all at once. The segments of a conversion keep their order for all flows together.',
     ['inputs', 'configurations'],
     'All permutations of all lists of a family of systems with all features, all ways to add elements.',
     'Tests describe every system once, in one order.',
     ['flow_system.py', 'components.py', 'effects.py', 'features.py'],
     [('adding', 'flow_system.py FlowSystem.add_elements, add_components, add_effects'), ('equations', 'components.py LinearConverterModel'), ('effects', 'effects.py EffectCollection, effect_values_to_dict'), ('segments', 'features.py SegmentedSharesModel')],
     ['the problem handed to the solver, the results'])

prop('C33', 'Labels are only names',
     'How elements are called does not change the result: with any admitted labels of components, flows, buses and effects the same schedules are feasible and the same values are reported, each below the label of its element, '
     'also if labels contain signs, blanks, digits, other scripts or names flixOpt uses for its own quantities, or are alike to a letter. Labels of flows and effects under which other results are reported may be rejected, but never replace those results silently.',
     ['inputs', 'configurations'],
     'Each element x an alphabet of labels, all pairs of elements of a kind x pairs of labels that differ little.',
     'Tests use a handful of plain labels.',
     ['structure.py', 'flow_system.py', 'math_modeling.py', 'components.py', 'effects.py'],
     [('labels', 'structure.py Element, label_full'), ('names of variables and equations', 'structure.py ElementModel, math_modeling.py'), ('results', 'structure.py ElementModel.results, check_labels_of_results')],
     ['the problem handed to the solver, the results, rejections'])

prop('C34', 'The way a value is written has no meaning',
     'A value means the same however it is written: as int, float or numpy number, as a constant array or TimeSeriesData instead of a number, as an array of any numeric type, TimeSeriesData or (except for the efficiencies of the ready-made converters) a list, of whole and fractional numbers, instead of an array; effects of the standard effect as a plain '
     'value, under None or under its name; defaults left out or given; the previous flow rate as a number or an array of one value. The time axis may be written in any unit from nanoseconds to hours, as an array or list, may start at any date, the length of the last step '
     'and of the previous step may be given or left to default, and choosing all time steps equals choosing none. The same schedules are feasible with the same reported values.',
     ['inputs', 'configurations'],
     'Every argument of every kind of element x every way to write its value, and all ways to write the time axis.',
     'Tests write each value in one way.',
     ['core.py', 'structure.py', 'effects.py', 'elements.py', 'components.py', 'interface.py', 'flow_system.py', 'linear_converters.py'],
     [('time series', 'structure.py _create_time_series, core.py TimeSeries'), ('effects', 'effects.py as_effect_dict, effect_values_to_time_series'), ('time axis', 'flow_system.py FlowSystem')],
     ['the problem handed to the solver, the results'])

prop('C35', 'Parts do not influence each other',
     'Parts of a flow system that share no bus do not influence each other (unless an effect is limited): the feasible schedules are exactly the combinations of the schedules of the parts, each element reports what it reports when its part is calculated '
     'alone, and effects, penalty and objective are the sums over the parts. This holds as well if elements were given the same parameter objects (InvestParameters, OnOffParameters), arrays, time series or dictionaries.',
     ['inputs', 'configurations'],
     'All pairs of a set of small systems with all features, some triples, with own and common parameter objects.',
     'Tests contain one system at a time and check its optimum only.',
     ['features.py', 'interface.py', 'elements.py', 'components.py', 'effects.py', 'structure.py'],
     [('parameters', 'interface.py InvestParameters, OnOffParameters'), ('time series', 'structure.py _create_time_series'), ('shares', 'effects.py EffectCollectionModel')],
     ['the problem handed to the solver, the results'])

prop('C36', 'Features combine',
     'Each limit and feature of an element keeps its meaning whatever other features the element has: a schedule of a flow, storage, converter or transmission is feasible exactly if each of its limits, its on/off parameters, its history, its investment, its profile and the limits '
     'of the effects alone admits it, and what is reported (states, durations, sizes, effects, costs) is what each of the features contributes. No feature switches off, loosens or tightens another one.',
     ['inputs', 'configurations'],
     'All pairs and triples (thorough: sets of four) of features of each kind of element, all schedules over a grid.',
     'Tests combine a handful of features and look at one optimum.',
     ['elements.py', 'features.py', 'components.py', 'effects.py', 'interface.py'],
     [('flows', 'elements.py FlowModel'), ('on/off', 'features.py OnOffModel'), ('investment', 'features.py InvestmentModel'), ('storage', 'components.py StorageModel'), ('effects', 'features.py ShareAllocationModel')],
     ['the problem handed to the solver, the results'])

if __name__ == '__main__':
    out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
    print(len(P), 'properties')
