#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (claimed = a check module exists)."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

M = 'pelicun/model/'
T = 'pelicun/tools/'

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)]
PROPS = [
('C01', 'Results do not depend on the units inputs are given or saved in',
 'Rescaling any input (demand samples and demand statistics, component quantities, damage parameters, consequence parameters, loss functions) into any other unit of the same kind, with the numbers converted accordingly, leaves every simulated demand, damage and loss result unchanged. Saving a result reports it in the unit its inputs were given in, or in the unit that was asked for, with values converted exactly.',
 ['inputs', 'configurations'], 'All single-table unit substitutions over the units of each quantity type used in the assessment (length, area, acceleration, speed, time, count, money), for every model input table, and every unit choice when saving.',
 'Tests convert a handful of values in a few units; they never check that a whole assessment is invariant under a change of units of each input table.',
 [M + 'pelicun_model.py', 'pelicun/base.py', 'pelicun/file_io.py', M + 'damage_model.py', M + 'loss_model.py', M + 'demand_model.py', M + 'asset_model.py'],
 [('unit conversion of distribution parameters', M + 'pelicun_model.py:_convert_marginal_params'), ('unit conversion on save/load', 'pelicun/file_io.py:save_to_csv, load_data')]),
('C02', 'Saved samples and models load back to the same state',
 'Saving a demand, component, damage or loss sample, or a calibrated demand model, to memory or to a file and loading it back into a fresh assessment gives the same values, labels and units (a component sample does not carry the number of blocks), and continuing the analysis from the loaded state gives the same results as continuing without the detour. A sample that was loaded can be saved and loaded again without further change.',
 ['histories', 'inputs'], 'All save/load detours (memory or file, each stage) in workflows over a family of models with several components, locations, directions, blocks, damage states, decision variables and units.',
 'Tests round-trip one table at a time with default units; they do not continue the workflow after each detour and do not vary labels, units and shapes.',
 [M + 'demand_model.py', M + 'asset_model.py', M + 'damage_model.py', M + 'loss_model.py', 'pelicun/file_io.py', 'pelicun/base.py'],
 [('save/load of samples', M + '*.py:save_sample, load_sample'), ('save/load of models', M + 'demand_model.py:save_model, load_model'), ('CSV reader/writer', 'pelicun/file_io.py')]),
('C03', 'Component tables expand to exactly the described performance groups',
 'Location and direction descriptors (single values, lists, ranges, all, top, roof) select exactly the stories and directions they denote, every row contributes one performance group per selected location and direction with its own identity, and the quantity, unit, number of blocks and distribution of each group are those of its row. Sampled component quantities follow the distribution, truncation and unit of their own row. Descriptors that cannot be interpreted are rejected.',
 ['inputs'], 'All descriptor forms over buildings of 1-4 stories, combined with all block, family, truncation and unit settings, and repeated rows of one component.',
 'Tests check selected descriptors; not every combination, and not the pairing of repeated rows with their own unit, block count and identity.',
 [M + 'asset_model.py'],
 [('descriptor expansion', M + 'asset_model.py:_get_locations, _get_directions'), ('marginal table creation', M + 'asset_model.py:load_cmp_model'), ('quantity sampling', M + 'asset_model.py:generate_cmp_sample')]),
('C04', 'Random variables transform uniforms by the inverse of their own CDF',
 'For every distribution family, with or without truncation and in every parameterization including boundary parameters, the value generated for a uniform quantile is the inverse of the cumulative distribution at that quantile, non-decreasing in the quantile and inside the truncation bounds, and the cumulative distribution function agrees with it. Generating values changes neither the inputs nor the parameters of the variable.',
 ['inputs'], 'All families x parameter grids (including degenerate, negative, variable-per-realization) x all truncation combinations x a quantile grid including the extremes.',
 'Tests evaluate a few parameter sets at a few quantiles per family; truncation combinations, boundary parameters and input mutation are not covered.',
 ['pelicun/uq.py'],
 [('inverse transforms and CDFs', 'pelicun/uq.py:*RandomVariable.inverse_transform/cdf'), ('sampling from stored uniforms', 'pelicun/uq.py:inverse_transform_sampling')]),
('C05', 'A seeded analysis is reproducible and samples are properly stratified',
 'With the same inputs and the same seed, every sample produced (demands, component quantities, damage, losses) is identical, whatever ran before in the same process, and whatever Python process or hash seed is used. The requested number of realizations is produced; Latin hypercube samples put exactly one realization in each of the equal-probability intervals of every random variable that is not part of a correlation set, and the midpoint variant uses the middle of each interval.',
 ['histories', 'inputs', 'configurations'], 'All sampling methods x sample sizes x numbers of variables, all short sequences of preceding operations in the process, several hash seeds and fresh processes.',
 'Tests run once per process with one hash seed; they cannot see order or hash dependence, nor check stratification for every variable and sample size.',
 ['pelicun/uq.py', 'pelicun/base.py', 'pelicun/assessment.py', M + 'damage_model.py', M + 'loss_model.py'],
 [('seeded generator', 'pelicun/base.py:Options.seed, rng'), ('uniform generation', 'pelicun/uq.py:RandomVariableRegistry.generate_sample')]),
('C06', 'Correlated and anchored variables realize the specified dependence',
 'Variables that are anchored to one another share the same quantile in every realization, variables in a correlation set have exactly the specified Gaussian correlation structure whatever the order in which variables and sets are registered, and variables outside a set are not affected by it. Changing the correlation never changes the marginal distribution of a variable.',
 ['inputs', 'configurations'], 'All assignments of up to five variables to anchors and correlation sets, all registration orders, a grid of correlation matrices including singular ones.',
 'Tests check one set of correlated variables statistically; they do not cover registration orders, anchors inside sets or several sets at once.',
 ['pelicun/uq.py'],
 [('correlation of uniforms', 'pelicun/uq.py:RandomVariableSet.apply_correlation'), ('anchors', 'pelicun/uq.py:BaseRandomVariable.anchor')]),
('C07', 'Distribution scaling and fitting agree with the data they describe',
 'Scaling the parameters of a distribution by a factor describes exactly the random quantity multiplied by that factor, for every family and with or without truncation limits. Fitting a distribution returns the parameters that maximize the likelihood of the observations given the stated truncation and detection limits, at least as likely as any nearby parameters, and neither operation modifies its inputs.',
 ['inputs'], 'All families x scale factors x limits; all samples from a small grid of data sets x truncation x detection x fit method x integer/float data.',
 'Tests fit a few large random samples to loose tolerances and do not check optimality on all limits or that inputs are left untouched.',
 ['pelicun/uq.py'],
 [('scaling', 'pelicun/uq.py:scale_distribution'), ('fitting', 'pelicun/uq.py:fit_distribution_to_sample')]),
('C08', 'Calibrated demand models reproduce the demand data they came from',
 'Calibrating a demand model fits each demand with the distribution family, limits and added uncertainty requested for it, with a request for a demand type winning over the general one, and keeps the correlation of the data. A sample generated from the model contains every demand once, in the original units; demands without a fitted distribution are resampled from the data only, keeping the pairing of values when asked to preserve the order.',
 ['inputs', 'configurations'], 'All calibration configurations over families, limits, extra uncertainty and scope (all, demand type, specific demand) for small demand data sets in several units.',
 'Tests calibrate one data set with one configuration.',
 [M + 'demand_model.py', 'pelicun/uq.py'],
 [('calibration', M + 'demand_model.py:calibrate_model'), ('generation', M + 'demand_model.py:generate_sample')]),
('C09', 'Demand cloning copies exactly the requested columns',
 'Cloning demands replaces each listed source demand by exactly the listed copies, each with the values and unit of its source, and leaves every other demand as it was, for single and repeated uses of a source and any order of the request. Invalid requests are rejected or ignored with a warning, without changing the data.',
 ['inputs'], 'All cloning requests mapping up to three sources to up to three targets, including overlaps, chains and missing sources, with mixed units.',
 'Tests clone one mapping in one unit.',
 [M + 'demand_model.py'], [('cloning', M + 'demand_model.py:clone_demands')]),
('C10', 'Each component is driven by the demand its parameters prescribe',
 'The demand that decides the damage of a component is the one of the prescribed type at the location of the component plus the prescribed offset, in the direction of the component when directional, and otherwise the largest over the available directions amplified by the non-directional factor configured for that demand type. Demand expressions are evaluated on the demands they name in every realization, and an analysis that needs a demand which is missing is rejected with an error that names the demand.',
 ['inputs', 'configurations'], 'All combinations of location, direction, offset, directional flag, available demand columns, column order, non-directional factors and expressions over a small building.',
 'Tests use one small building with all demands present; they do not enumerate missing demands, offsets at the edges, or mixed expression and plain components.',
 [M + 'damage_model.py', M + 'loss_model.py', 'pelicun/assessment.py', M + 'pelicun_model.py'],
 [('demand lookup', M + 'damage_model.py:_get_required_demand_type, _assemble_required_demand_data'), ('non-directional factor', 'pelicun/base.py:Options.nondir_multi')]),
('C11', 'Damage state equals the highest limit state exceeded by demand',
 'In every realization the damage state of a component block is determined by the highest limit state whose sampled capacity the demand exceeds, mapped to its damage states with the stated weights, independently for each block, with capacities following the limit-state distributions in any family. The result does not depend on how blocks are batched, on the order of components, or on the number of limit states.',
 ['inputs', 'configurations'], 'All demand-versus-capacity orderings for up to ten limit states, all families, weights, block counts and batch sizes, and several components together.',
 'Tests check one or two limit states with one batch size.',
 [M + 'damage_model.py'],
 [('capacity and damage state sampling', M + 'damage_model.py:_generate_dmg_sample'), ('evaluation', M + 'damage_model.py:_evaluate_damage_state')]),
('C12', 'Damage processes apply their tasks in order with the stated effects',
 'A damage process executes its tasks in the order of their numbers; each task affects exactly the realizations in which its source component is in the named damage state, and changes exactly its targets (named components or all others) to the named state or to no information. With location-specific processing, only blocks at the same location are affected, and nothing else changes.',
 ['inputs', 'histories'], 'All one- and two-task processes over three components, their damage states, the target forms (named, ALL, list, NA), location-specific or not, and long processes with more than ten tasks.',
 'Tests apply one or two fixed processes.',
 [M + 'damage_model.py'], [('task application', M + 'damage_model.py:_perform_dmg_task, _perform_dmg_event_loc')]),
('C13', 'Damaged quantities add up to the component quantities',
 'For every performance group and realization, the quantities over all damage states add up to the component quantity whenever damage information is available, each block carries an equal share, and quantities are never negative. States that are kept, dropped or added when listing all damage states do not change any other value.',
 ['inputs', 'configurations'], 'All block counts, quantities (including zero and very large), damage state assignments and listing options.',
 'Tests do not check conservation of quantities on every realization and option.',
 [M + 'damage_model.py'], [('quantity preparation', M + 'damage_model.py:_prepare_dmg_quantities, _complete_ds_cols')]),
('C14', 'The first listed model parameter source wins and gaps are reported',
 'When several parameter sources are given, in one call or in consecutive calls, each component uses the complete definition from the first source that has it and nothing from later ones, for damage parameters, for consequence parameters and for loss functions alike, whether a source is a table, a file, or a model library referred to by its current or one of its former names. Definitions marked incomplete and components without any parameters are left out of the analysis and reported, and every other component is analysed exactly as if it was the only one.',
 ['inputs', 'histories'], 'All pairs of parameter tables over two components with the states absent, defined, defined differently and incomplete, given as lists or successive calls, for damage, consequence and loss function parameters.',
 'Tests load one user table in front of the defaults.',
 [M + 'damage_model.py', M + 'loss_model.py', M + 'pelicun_model.py'],
 [('parameter loading', M + 'damage_model.py:load_model_parameters'), ('loss parameter loading', M + 'loss_model.py:load_model_parameters'), ('missing reporting', M + 'pelicun_model.py:query_error_setup')]),
('C15', 'Capacity adjustments scale exactly the targeted limit states',
 'A capacity adjustment (multiplication, division, addition, subtraction; a single number or one per realization) changes the sampled capacity of exactly the targeted components, locations, directions and limit states by exactly the requested operation, and all other capacities stay the same. Adjustments that cannot be applied are rejected with an explicit error and never applied partially.',
 ['inputs'], 'All operations x factors x target scopes x limit states x families x numbers of blocks.',
 'Tests cover one scaling specification.',
 [M + 'damage_model.py'], [('capacity adjustment', M + 'damage_model.py:_create_dmg_RVs scaling')]),
('C16', 'Damage-state losses follow consequence functions of damaged quantity',
 'The loss from a damaged quantity equals the sampled unit consequence of that component and damage state, evaluated at the total affected quantity in the realization according to the chosen economies-of-scale options, times the damaged quantity, in every realization and decision variable. Undamaged quantities, states without consequences and unrelated components contribute nothing.',
 ['inputs', 'configurations'], 'All economies-of-scale options x constant and quantity-dependent consequence functions x families x floors, directions and damage states on all small damage patterns.',
 'Tests evaluate the loss model on one damage sample with one option.',
 [M + 'loss_model.py'],
 [('median consequence', M + 'loss_model.py:RepairModel_DS._calc_median_consequence'), ('loss calculation', M + 'loss_model.py:RepairModel_DS.calculate')]),
('C17', 'Loss functions are evaluated on demand, quantity and variability',
 'The loss of a component driven by a loss function equals the function interpolated at the demand that applies to the component in that realization, times the component quantity, times the sampled variability, split over blocks and summed to the component. Demands outside the domain of a loss function are rejected. Components and decision variables without a loss function contribute nothing.',
 ['inputs', 'configurations'], 'All functions from a grid of breakpoints x demands below, at, between and above breakpoints x units x variability x quantities x blocks x locations.',
 'Tests evaluate one loss function at one demand.',
 [M + 'loss_model.py'], [('loss functions', M + 'loss_model.py:RepairModel_LF')]),
('C18', 'Each component is charged with the consequences it is mapped to',
 'Every component in the loss map is assessed with the consequence model it is mapped to and with no other, whether models are named like the component or shared by several components; components left out of the map follow the chosen fill policy, and components that have no consequence model for a decision variable are reported. Scaling consequences multiplies the losses of exactly the targeted components, locations, directions and decision variables by the factor.',
 ['inputs', 'configurations'], 'All loss maps over three components and their models x fill policies x decision variables x scaling specifications.',
 'Tests use one map with one policy.',
 [M + 'loss_model.py'], [('loss map', M + 'loss_model.py:LossModel.add_loss_map'), ('scaling', M + 'loss_model.py:_apply_consequence_scaling')]),
('C19', 'Replacement replaces repair losses exactly when triggered',
 'In realizations where replacement of the asset is triggered, by the damage state of a replacement-driving component or by the total repair consequence exceeding a threshold, the aggregated loss consists of the replacement consequences only; in all other realizations it consists of the repair consequences only and no replacement consequence is included. A realization that just reaches a threshold without exceeding it is not replaced.',
 ['inputs', 'configurations'], 'All damage patterns over collapse, irreparable and repairable components x thresholds below, at and above the repair total x single and several decision variables.',
 'Tests check one threshold on random samples.',
 [M + 'loss_model.py'], [('exclusivity', M + 'loss_model.py:_make_replacement_exclusive'), ('thresholds', M + 'loss_model.py:_apply_replacement_thresholds')]),
('C20', 'Combined losses equal the combination table at the individual losses',
 'When losses of several components are to be combined, the combined loss at each location and realization equals the combination table interpolated at the individual losses, in the order the components are listed, and the losses of all other components are added unchanged. At the grid points of the table, the tabulated value is returned exactly, and without a matching group losses are simply added.',
 ['inputs', 'configurations'], 'All listing orders of the components, all loss pairs and triples on and between grid points, present and absent components and locations.',
 'Tests use one symmetric table.',
 [M + 'loss_model.py'], [('loss combination', M + 'loss_model.py:LossModel.aggregate_losses, _perform_loss_combination')]),
('C21', 'Aggregated losses equal the sum of their parts',
 'Aggregated repair cost, carbon and energy equal the sum over all components, damage states, locations and directions in every realization; parallel repair time is the largest of the sums over each location and sequential repair time is the total sum. Decision variables with losses are present in every realization, in the units requested, and aggregation does not alter the detailed results.',
 ['inputs', 'configurations'], 'All small loss samples over components, damage states, locations and decision variables, mixed with loss functions, and all output units.',
 'Tests aggregate one sample.',
 [M + 'loss_model.py'], [('aggregation', M + 'loss_model.py:aggregate_losses, _aggregate_sample')]),
('C22', 'Read-only operations never change the state and inputs are left alone',
 'Reading, saving and reporting operations never change the state of an assessment, repeating a calculation gives the same result, and recalculating after changing an input gives the same result as a fresh assessment with that input. No operation modifies the tables, lists or dictionaries that the caller passed in.',
 ['histories'], 'All operation sequences up to a bounded depth over demand, asset, damage and loss operations, with state and caller objects compared before and after each step.',
 'Tests execute one canonical order of operations and never look at the objects passed in.',
 ['pelicun/assessment.py', M + 'demand_model.py', M + 'asset_model.py', M + 'damage_model.py', M + 'loss_model.py', M + 'pelicun_model.py', 'pelicun/file_io.py'],
 [('copies of inputs and state', M + '*.py'), ('properties returning samples', M + 'loss_model.py:LossModel.sample')]),
('C23', 'User settings override defaults and nothing else changes',
 'For every configuration file, settings given by the user are used as given, settings not given take the documented default, and settings with the wrong structure or that contradict one another are rejected with an error before anything is calculated, independently of the order of keys and of earlier assessments. Setting up an assessment modifies neither the defaults nor the dictionary of the user.',
 ['configurations', 'histories'], 'All subsets and conflicting combinations of the settings of an assessment, nested settings included, over sequences of assessments.',
 'Tests check a few options one at a time.',
 ['pelicun/base.py', 'pelicun/assessment.py', 'pelicun/file_io.py'],
 [('defaults', 'pelicun/base.py:merge_default_config, set_options, Options')]),
('C24', 'An interrupted model library download never corrupts the library',
 'Whatever point a download or update of the damage and loss model library is interrupted at, or whichever request or file operation fails, afterwards the library is either recognized as incomplete or every file it presents as current has the content of the version it claims, and repeating the operation completes it. A failing network never prevents the use of an already installed library.',
 ['crash_points', 'fault_sequences'], 'All interruption points and single failures over every network request and file operation of installation and update histories, followed by retries.',
 'Tests mock successful downloads and a few failing requests; no test interrupts between file operations and resumes.',
 [T + 'dlml.py'], [('download', T + 'dlml.py:download_data_files'), ('cache', T + 'dlml.py:load_cache, save_cache'), ('completeness check', T + 'dlml.py:check_dlml_data')]),
('C25', 'The library update brings exactly the requested version',
 'After a successful download or update to a version, the library contains exactly the files of that version with their contents, whatever version was installed before, forward or backward, and nothing is reported up to date unless it is. Checking for new versions reports an update exactly when a newer one exists (an installed commit or unknown version always counts as outdated; results are kept for a day) and never fails, whatever the server replies or the cache file contains.',
 ['histories'], 'All sequences of up to three installations and updates over several versions with added, changed, removed and renamed files, with and without access token and cache.',
 'Tests mock single requests.',
 [T + 'dlml.py'], [('update', T + 'dlml.py:download_data_files, _get_changed_files'), ('version check', T + 'dlml.py:check_dlml_version')]),
('C26', 'Regional results do not depend on chunking, workers or file order',
 'A regional simulation gives the same result for each building whatever the number of workers, the number of buildings per chunk and the order of intensity measures, and each result belongs to the building and realization it is reported for. Results contain each building in the inventory subset exactly once, with zero losses where it is not damaged, and files contain what was requested in the order of the subset.',
 ['configurations', 'schedules'], 'All chunk sizes and completion orders for small inventories x numbers of workers x column orders of the intensity measure grid.',
 'Tests run one inventory with one chunk size.',
 [T + 'regional_sim.py', T + 'NNR.py'], [('chunk processing', T + 'regional_sim.py:process_buildings_chunk'), ('merging', T + 'regional_sim.py:regional_sim')]),
('C27', 'Consecutive runs do not influence one another',
 'Running several loss assessments from configuration files in one process gives for each the same outputs and results as running it alone in a fresh process, in any order. A failing run does not influence later ones.',
 ['histories'], 'All ordered sequences of up to three runs over configurations with different outputs, options and failures.',
 'Tests run single assessments; module-level state shared by consecutive runs is never observed.',
 [T + 'DL_calculation.py', 'pelicun/auto.py', 'pelicun/base.py'], [('run driver', T + 'DL_calculation.py:run_pelicun'), ('output configuration', T + 'DL_calculation.py:_parse_config_file')]),
('C28', 'Exactly the requested outputs are produced and they agree',
 'A loss assessment run produces exactly the output files that were requested, in the requested formats, with the requested realizations, and the same result has the same values in every format and summary. Outputs that were not requested are not left behind, and files of the user are not removed.',
 ['configurations'], 'All single output requests and formats plus defaults, for configurations with demand, damage and loss stages.',
 'Tests compare a few full example outputs.',
 [T + 'DL_calculation.py', 'pelicun/file_io.py'], [('output selection', T + 'DL_calculation.py:_summary_save, _demand_save, _damage_save, _loss_save')]),
('C29', 'Nearest-neighbour assignment uses the true nearest neighbours',
 'Interpolated values are the averages over the k nearest points of the grid, weighted as documented, and resampled values come only from the k nearest points, every one of them chosen with the documented probability, which does not increase with distance. All features of a realization come from one point and from the realization of that number, whatever the shape of the known values, and resampling is reproducible for a given seed. Inputs are not modified, and requests for more neighbours than points are rejected.',
 ['inputs', 'configurations'], 'All placements of targets on small grids x number of neighbours x samples x seeds.',
 'Tests use one grid and one target.',
 [T + 'NNR.py'], [('nearest neighbours', T + 'NNR.py:NNR')]),
('C30', 'Table and label conversions are lossless and value preserving',
 'Converting labels between simple and hierarchical form and back, converting units there and back, describing and converting tables preserve values, labels and order for every well-formed input, and malformed inputs are rejected with an error instead of being altered. Conversion between units of different groups of the unit library (time, length, area, volume, velocity, acceleration, mass, force, pressure, ...) is always rejected.',
 ['inputs'], 'All label sets up to three levels and all pairs of units in the unit library.',
 'Tests check a few labels and a few unit pairs.',
 ['pelicun/base.py', 'pelicun/file_io.py'], [('conversions', 'pelicun/base.py:convert_to_SimpleIndex, convert_to_MultiIndex, convert_units')]),
('C31', 'Residual drift estimates follow the inference rule for every drift',
 'Inferred residual drifts follow the piecewise rule of the chosen method for every peak drift below, between and above its thresholds, keep location, direction and realization of the peak drift, and are never negative. Inferring them does not change the peak drifts.',
 ['inputs'], 'All peak drift levels around the thresholds x yield drifts per direction x locations x orders.',
 'Tests check one set of drifts.',
 [M + 'demand_model.py'], [('inference', M + 'demand_model.py:estimate_RID, estimate_RID_and_adjust_sample')]),
('C32', 'Warnings and logs reach the user completely and once',
 'Every warning raised during an assessment is reported exactly once, to the warnings file when a log file is used and to the user, in order, and the log contains every message of the operations performed, whatever the verbosity and log settings and however many assessments are active. Logging settings never change results and log files of one assessment are not written by another.',
 ['configurations', 'histories'], 'All logging settings x sequences of messages and warnings x two assessments interleaved.',
 'Tests check single log calls.',
 ['pelicun/base.py'], [('logger', 'pelicun/base.py:Logger')]),
 ('C33', 'A configured run gives the results of the same analysis set up by hand',
  'A complete run from a configuration file, entered directly or filled in by auto-population, produces the same demand, asset, damage, loss and aggregated samples as the same analysis whose steps are called one by one through the interface with the same seed: every entry of the configuration reaches the step it belongs to, entries that are not given have their documented defaults, and the order of unrelated entries does not matter.',
  ['inputs', 'configurations'], 'All configurations built from a base by setting, changing or removing one entry or a pair of entries of the demand, asset, damage, loss and option sections, in both entry orders and through auto-population.',
  'The example runs only check that a handful of configurations finish; an entry that is silently ignored or sent to the wrong step changes numbers nobody compares.',
  ['pelicun/tools/DL_calculation.py', 'pelicun/assessment.py', 'pelicun/settings/input_schema.json'],
  [('run', 'pelicun/tools/DL_calculation.py:run_pelicun'), ('parse', 'pelicun/tools/DL_calculation.py:_parse_config_file'), ('assessment', 'pelicun/assessment.py:DLCalculationAssessment')]),
]

NOT_APPLICABLE = {}


def main():
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for pid, title, st, over, qt, why, files, mech in PROPS:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': st,
                'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]},
            }) + '\n')
    checks = []
    na = []
    for pid, *_ in PROPS:
        mods = glob.glob(f'{HERE}/checks/{pid.lower()}_*.py')
        if not mods:
            na.append({'property': pid, 'reason': NOT_APPLICABLE.get(pid, 'Not checked yet: the enumeration for this property is still being built.')})
            continue
        m = importlib.import_module('checks.' + os.path.basename(mods[0])[:-3])
        checks.append({
            'property': pid,
            'quick_cmd': f'/opt/venv/bin/python run.py {pid} --tier quick',
            'thorough_cmd': f'/opt/venv/bin/python run.py {pid} --tier thorough',
            'technique': getattr(m, 'TECHNIQUE', 'exhaustive bounded enumeration of inputs/histories on the real code against a reference model'),
            'level': m.LEVEL,
            'level_note': 'Exhaustive within: ' + (m.BOUND if isinstance(m.BOUND, str) else '; '.join(f'{k}: {v}' for k, v in m.BOUND.items())) + '. Trusts the reference model in checks/ and mc/, numpy/scipy/pandas; '
                          'says nothing outside the stated alphabet and bound.',
        })
    with open(f'{HERE}/MANIFEST.json', 'w') as f:
        json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, pandas, scipy"',
                   'checks': checks, 'not_applicable': na}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
