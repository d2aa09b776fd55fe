"""The property list: python3 tools/props.py rewrites properties.jsonl and MANIFEST.json from it."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[{'name': n, 'where': w} for n, w in mechanism], technique=technique, note=note,
                  observe=list(observe)))


CH = 'plaschem/chemistry.py'
LX, PP = 'plaschem/latex.py', 'plaschem/pretty_print.py'
prop('C01', 'Disabling leaves the greatest self-consistent sub-network',
     'After an accepted disabling of any species and reactions, what stays enabled is exactly the largest part of the '
     'currently enabled network that contains none of them, in which every enabled reaction has all its species enabled '
     'and every enabled species (electron and arbitrary partner included) takes part in an enabled reaction. Disabling '
     'the same items together, one by one or in another order gives the same network, and resetting re-enables everything.',
     ['inputs', 'histories'], 'every consistent chemistry and every sequence of disable / protect / reset calls on it, '
     'species named by id, name or object',
     'The unit tests disable a handful of chosen species and reactions in one fixed oxygen network; the cascade is a '
     'fixpoint over an arbitrary bipartite graph and the history of earlier calls.',
     [CH], [('recursive cascade over stoichiometric coefficients', CH + ':_disable_recursively'),
            ('enabled masks', CH + ':disable')],
     'model-based history generation against a reference fixpoint',
     'Random search over generated chemistries (up to ~11 species, ~12 reactions) and histories of up to 7 calls, compared '
     'after every call with an independent fixpoint; shows no counterexample was found, not absence.')
prop('C02', 'Refused changes are atomic; protected species and last ion survive',
     'A call that is refused (a protected species, the electron or the last positive ion would be lost, an unknown species '
     'or reaction is named, or an ad-hoc value is illegal) raises the documented error and leaves every observable part of '
     'the chemistry as it was. In every reachable state the electron, all protected species and at least one positive ion are '
     'enabled, a sole remaining positive ion counts as protected, and a disabling is refused exactly when it would break that. '
     'Resetting re-enables everything, drops the automatic protection but keeps the explicit one.',
     ['inputs', 'histories', 'fault_sequences'], 'every chemistry and every history of accepted and refused calls',
     'Tests provoke a few refusals and look at one mask afterwards; a cascade can meet a protected species after any number of '
     'changes, each of which has to be backed out.',
     [CH], [('backup and back-track of the masks', CH + ':disable'), ('ad-hoc protection of the last ion',
            CH + ':_disable_recursively'), ('identifier resolution before any change', CH + ':get_rp')],
     'model-based history generation with refusals injected, full-state snapshots as oracle',
     'Snapshots of all public getters before and after every call, plus invariants over every state reached and the '
     'reference verdict on acceptance. Random search; protecting an already disabled species is left out.')
prop('C03', 'Chemistry state survives dump and load exactly',
     'Loading an attributes file into the same chemistry, or into a fresh one built from the same data, restores exactly the '
     'state (enabled, protected and ad-hoc values) at the time of the dump, whatever happened in between, and later operations '
     'continue as from that state. The coherence check is true exactly when the present state equals the dumped one. A missing, '
     'damaged or foreign file, or one whose recorded input path or content does not match, is rejected with the documented error '
     'and changes nothing.',
     ['inputs', 'histories', 'fault_sequences'], 'every reachable state at dump time, every history between dump and load, '
     'every kind of damaged or mismatching file',
     'Tests dump and restore two or three states without interaction between disabling and ad-hoc values.',
     [CH], [('attribute dictionary', CH + ':_chemistry_attributes'), ('restore', CH + ':load_chemistry_attributes'),
            ('coherence', CH + ':check_coherence'), ('hash of the input', CH + ':xml_hash')],
     'round-trip property over generated histories, plus fault injection into the dumped file',
     'Random search over dump-time states and interleaved histories; 17 kinds of file damage.')
prop('C04', 'A copied chemistry equals its original and is independent of it',
     'A copy of a chemistry, plain or neutral-only, answers everything as the original did at the time of copying and shares its '
     'species and reaction objects. Afterwards no call on one of the two, and no editing of values they hand out, is visible '
     'through the other.',
     ['inputs', 'histories'], 'every reachable chemistry state, and every pair of histories on the copy and the original',
     'The unit test copies one state and changes a few attributes.',
     [CH, 'pygmo_fwork/pygmol/neutral_model.py'], [('copy of masks and ad-hoc values', CH + ':copy')],
     'model-based testing of two diverging histories with snapshots',
     'Random search over three generated histories (before the copy, on the copy, on the original).')
prop('C05', 'Ad-hoc values override exactly the one attribute they name',
     'The chemistry answers a sticking coefficient, return coefficients or pre-exponential factor set ad hoc for a species or '
     'reaction (in its nominal unit, converted when SI is asked for) and every other value as its own data say, until reset; a '
     'species with zero sticking coefficient returns nothing, and return species that are disabled are left out. The species '
     'and reaction objects themselves, and values the caller passed in or was handed, are never changed or shared.',
     ['inputs', 'histories'], 'every history of ad-hoc changes, resets and disabling, with values of every documented type',
     'Tests set single values on a fresh chemistry; combinations with disabling, units, types and order are not sampled.',
     [CH], [('override in getters', CH + ':get_species_stick_coef'), ('return coefficients', CH + ':get_species_ret_coefs'),
            ('SI conversion of overrides', CH + ':get_reactions_arrh_a')],
     'model-based history generation against a reference of documented values',
     'Random search; values checked for enabled and all members, SI and nominal, after every call.')
prop('C06', 'All views of a chemistry line up under every selection',
     'For every combination of the disabled / special / protected selections all per-species and per-reaction series, the '
     'stoichiometric matrices and the return matrix have the same members in the order the chemistry was built with, labelled by '
     'id, and hold for each the value its data define (documented defaults included). Stoichiometric entries count occurrences '
     '(left, right, or right minus left), and the return matrix holds per stuck species (column) the particles of each species '
     '(row) returned, undefined only for electron and arbitrary partner.',
     ['inputs', 'histories', 'configurations'], 'every chemistry with ids and order of any kind, every reachable state, all 8 '
     'selections and all getters',
     'Tests compare a few getters on an oxygen network whose ids coincide with positions and with few selections.',
     [CH, 'plaschem/species.py', 'plaschem/reactions.py'], [('masks', CH + ':get_species_mask'), ('stoichiometry',
     CH + ':get_stoichiomatrix'), ('returns', CH + ':get_return_matrix'), ('defaults', 'plaschem/species.py:get_stick_coef')],
     'generated chemistries and histories, exhaustive masks, reference values',
     'Random search over chemistries and histories with all 8 masks enumerated in each.')
SP, RX, XM, CL = 'plaschem/species.py', 'plaschem/reactions.py', 'plaschem/xml_inputs.py', 'plaschem/classification.py'
prop('C07', 'Species and reactions take exactly legal attributes and give documented values',
     'Creating or changing a species or a reaction accepts a value exactly when the attribute exists, its type and unit are '
     'among the documented ones and a mandatory unit is given, and otherwise raises the documented attribute error, leaving a '
     'changed object as it was. Every getter then answers the value given (as a number, boolean or string, whatever documented type it '
     'was given in) or the documented default, such as the neutral ground state for return coefficients or the products equalling the '
     'reactants for elasticity.',
     ['inputs'], 'all attributes, values of every documented and many undocumented types, all unit choices',
     'Tests try a handful of good and bad values per attribute; the rules are per attribute, type and unit, with defaults '
     'depending on name, charge, state and reactants.',
     [SP, RX], [('legality', SP + ':set_species_attribute'), ('legality', RX + ':set_reaction_attribute'),
                ('defaults', SP + ':get_ret_coefs'), ('stoichiometry', RX + ':get_stoich_coefs')],
     'generated attributes against an independent table of legality and defaults',
     'Random search over attribute sets and single changes; the table of legal types and units is restated in the harness.')
prop('C08', 'Only consistent reactions and chemistries are accepted',
     'A reaction is accepted exactly when its two sides carry the same charge, atoms and arbitrary partners, and then reports its '
     'stoichiometry, kind and order-independent identity as its species say. A chemistry is accepted exactly when '
     'its species and reactions have distinct ids and names, cover one another by the very same objects, include the electron and a '
     'positive ion and name only present return species; anything else raises the documented error.',
     ['inputs'], 'consistent reactions and chemistries and all single mutations of them',
     'Tests build a few broken examples; each rule has to hold in every combination of species, order and charge.',
     [RX, CH], [('conservation', RX + ':assert_consistency'), ('chemistry consistency', CH + ':assert_consistency')],
     'generated consistent objects and mutations with a known verdict',
     'Random search with a mutation table of known verdicts, both directions.')
prop('C09', 'Rate coefficients follow the documented Arrhenius law in SI units',
     'For any temperatures the rate coefficient of a reaction is A * T^b * exp(-c/T) in SI units, T being the electron temperature in eV '
     'for a reaction of an electron, and A * (T/300)^b * exp(-c/T) with the gas temperature in K for any other; A is converted from the unit '
     'given and overridden by an ad-hoc value. Reactions without a pre-exponential factor have no rate coefficient.',
     ['inputs', 'histories'], 'all reactions, parameters, units and temperatures',
     'Tests evaluate fixed reactions at fixed temperatures.',
     [RX, CH], [('rate coefficient', RX + ':get_rate_coef'), ('series', CH + ':get_reactions_rate_coefs')],
     'generated kinetic data and temperatures against the formula', 'Random search; relative tolerance 1e-9.')
prop('C10', 'A chemistry survives XML writing, reading and merging unchanged',
     'Writing a chemistry (or its species and reactions one by one, or their attributes) to XML and reading it back gives the same species '
     'and reactions, in the same order, with every attribute and unit the same, and copying one XML file through a builder changes nothing. '
     'Merging keeps all reactions and each species once, as first added, and a refused addition or an existing file leaves builder and '
     'file alone. Imports from HPEM files and QDB objects carry every documented value over.',
     ['inputs', 'histories'], 'all chemistries with all attributes, names with states, any order of additions, HPEM files and QDB objects',
     'Tests round-trip two shipped files.',
     [XM], [('writing', XM + ':add_rp_from_attributes'), ('reading', XM + ':get_species_and_reactions_from_xml_elements'),
            ('merging', XM + ':add_chemistry_from_instance'), ('HPEM', XM + ':add_chemistry_from_hpem'), ('QDB', XM + ':add_reaction_from_qdb')],
     'round-trip and reference properties over generated chemistries, files and object fakes',
     'Random search. QDB is reached through objects which imitate the interface used; the real database is not available.')
prop('C11', 'Sorting and renumbering XML input is a pure reordering',
     'Sorting the elements of an XML builder puts species and reactions in the documented order (species by elements, charge and state, '
     'reactions by type, category and species) without losing, duplicating or altering any; ids stay as they were, or are reassigned if they were not unique. '
     'Assigning ids numbers the species from 1 in their order with 0 for the electron and 999 for the arbitrary partner, and the reactions from 1.',
     ['inputs', 'histories'], 'all chemistries, initial orders, given, missing and duplicate ids, and sequences of sort and assign calls',
     'Tests sort one file and look at the first few ids.',
     [XM, CL], [('sort', XM + ':sort_elements'), ('ids', XM + ':assign_species_ids')],
     'model-based call sequences against a reference order', 'Random search.')
prop('C12', 'Reaction classification is a complete, order-independent partition',
     'Every reaction of any chemistry falls in exactly one type and category of the published scheme, the one its reactants and products call for, '
     'whatever the order of species, reactions or partners; types and categories come in the published order without empty ones. Sorting species and reactions '
     'permutes them into the documented order. The aligned strings of a category show exactly the species of each reaction, in columns of equal width.',
     ['inputs', 'histories'], 'all consistent reactions, including multiply charged ions, any order and any sequence of sort, classify and align calls',
     'Tests look at four reactions and a few counts in one network.',
     [CL], [('classification', CL + ':_classify'), ('species order', CL + ':_get_species_sort_key'), ('caches', CL + ':sort_species')],
     'generated chemistries and call sequences against a reference classifier', 'Random search; labels in the evidence show which categories were reached.')
EQ, MO, NM, PA = ('pygmo_fwork/pygmol/' + f for f in ('equations.py', 'model.py', 'neutral_model.py', 'model_parameters.py'))
prop('C13', 'LaTeX of species, reactions, rates and reaction tables says what they hold',
     'The LaTeX of a species reads back to its name: counts are subscripts, charges and stars superscripts, letters upright, a state in its bracket is '
     'kept verbatim; an explicit LaTeX is kept verbatim. The LaTeX of a reaction reads back to the species and counts of each side. A rate coefficient '
     'reads back to its parameters (a to three digits, b and c to two decimals, with sign; each factor present exactly when its parameter is not zero; the '
     'temperature of electrons for electron processes, of the gas otherwise; SI or nominal units as asked). A table has a row for every enabled '
     'reaction with its cells, decorations, caption, notes and label, in both environments; unknown columns and table types are refused.',
     ['inputs', 'configurations'], 'all names in the documented notation, Arrhenius parameters, chemistries, histories and tables',
     'Tests compare 17 fixed names and one reaction; the number formats are wrong for whole classes of values only, and no test builds a table.',
     [LX, SP, RX], [('names', LX + ':Texify._texify_ground_state'), ('rates', LX + ':Texify.texify_rate_coefficient'),
                    ('reactions', RX + ':Reaction.get_latex'), ('tables', LX + ':TexTable')],
     'round-trip testing with an independent reader of the LaTeX',
     'Random search; names outside the documented notation (see DESIGN.md) are not judged.')
prop('C14', 'Printed tables hold the values in use, each with its true label and colour',
     'The tables of species and reactions attributes have exactly the rows (also sorted and classified) and columns (with units if asked, without the ignored) '
     'asked for, with the values the chemistry uses (ad-hoc changes and dropped return species included), red for disabled rows, blue for values '
     'which are not those given, dots for undefined ones. Printed arrays keep their values and ids, label rows and columns by their own '
     'species and reactions, and have exactly the rows and columns of disabled ones in red. The printed lines are not cut, and printing changes nothing.',
     ['inputs', 'histories', 'configurations'], 'all chemistries with attributes of every documented type, histories and combinations of arguments',
     'Tests check the shapes of a few tables; colours and labels are a function of types given, ids, ad-hoc changes and disabling together.',
     [CH, PP], [('species', CH + ':Chemistry.species_attributes'), ('reactions', CH + ':Chemistry.reactions_attributes'),
                ('arrays', PP + ':PrettyPrint')],
     'model-based testing of tables against the attributes given and a reference state after a history',
     'Random search; the orders of sorting and classification are taken from the classifier, which C08 to C11 judge.')
prop('C15', 'The model equations conserve mass, charge and energy bookkeeping',
     'In every state the volumetric sources conserve every element and charge that the enabled reactions conserve, the flow brings in '
     'exactly the feeds and takes out at one common rate, and walls never add more than sticking and return coefficients allow: '
     'losses are not negative, each lost particle returns as stated, nothing sticks at coefficient zero. Nothing depends on the order in '
     'which species and reactions are listed, and a disabled reaction acts exactly as one with zero rate.',
     ['inputs'], 'all chemistries, parameters and states of the plasma', 'Tests compare one chemistry with stored numbers.',
     [EQ, CH], [('sources', EQ + ':get_volumetric_source_rates'), ('flow', EQ + ':get_flow_source_rates'),
                ('walls', EQ + ':get_diffusion_source_rates')],
     'metamorphic relations and conservation laws over generated chemistries, parameters and states', 'Random search; relative tolerance 1e-9.')
prop('C16', 'Every term of the model equations has its documented value',
     'For every chemistry, parameter set and state the right-hand side and each intermediate quantity (densities, temperatures, rate '
     'coefficients, rates, sources, mobilities, diffusivities, wall fluxes, energy gains and losses, corrections) equal the documented '
     'formulas, evaluated for the currently enabled species and reactions and current ad-hoc values only. The same state always gives the same '
     'result, whatever was evaluated before.',
     ['inputs', 'histories'], 'all chemistries after any changes, both diffusion models, all parameter sets, normal and degenerate states',
     'Tests check one state of one argon/oxygen chemistry per function.',
     [EQ], [('right-hand side', EQ + ':get_dy_dt'), ('transport', EQ + ':get_diffusivities'), ('power balance', EQ + ':get_drho_dt_el_inel')],
     'differential testing against an independent scalar re-implementation', 'Random search; relative tolerance 1e-7.')
prop('C17', 'The absorbed power follows the given profile',
     'A constant power acts at all times. A power profile acts as the straight lines between its points, and a repeated time point as a step; '
     'before the first and after the last point the end values apply. Whole-number, decimal and array inputs act alike.',
     ['inputs'], 'all accepted profiles, with and without steps, and all times', 'Tests evaluate two profiles at a few times.',
     [EQ, PA], [('interpolation', EQ + ':ElectronEnergyEquations')],
     'generated profiles against interval bounds of the exact profile', 'Random search; steps may be smoothed over 1e-5 of the simulated time.')
prop('C18', 'A run starts from a consistent initial state or is refused',
     'Without given densities a run starts at the pressure and temperature asked for, fed species in proportion to the feeds (all neutrals '
     'alike without feeds), traces of the rest, slightly positive net ion charge. Given densities are taken exactly as named, whatever '
     'their order, and refused if a species is missing, unknown, the electron, or if the electron density would not be positive. The electron '
     'temperature asked for is the one of the first frame.',
     ['inputs'], 'all chemistries, parameters and initial guesses, right or wrong', 'Tests use one chemistry and a few guesses.',
     [MO], [('defaults', MO + ':_build_initial_guess'), ('densities given', MO + ':run')],
     'generated guesses through real (short) runs against a reference', 'Random search; runs of 1e-9 to 1e-8 s of simulated time.')
prop('C19', 'Result tables of a run hold the right numbers under the right labels',
     'After a run, the solution, rate and wall-flux tables and every diagnosed quantity have one row per time point, one column per enabled '
     'species, reaction or for the total, labelled by name or id, with the value the equations give in that frame. Totals, temperatures and power in '
     'the solution agree with its densities. After the chemistry changed, a further run gives what a fresh model of the changed chemistry gives.',
     ['inputs', 'histories'], 'all chemistries (any numbers of species and reactions, equal ones included), and sequences of run and change',
     'Tests look at tables of one chemistry with unequal numbers of species and reactions.',
     [MO], [('tables', MO + ':diagnose'), ('solution', MO + ':get_solution'), ('rebuilt equations', MO + ':run')],
     'generated runs against an independent reference, and differential with fresh models', 'Random search; runs of 1e-9 to 1e-6 s of simulated time.')
prop('C20', 'The neutral model runs the same physics without electrons and ions',
     'The neutral variant accepts exactly chemistries without electron and charged species, protects none of the neutrals on its own, and '
     'evaluates densities, rates, sources, flow and mobility terms as the full model would without charged species. Its runs start and are '
     'tabulated like those of the full model, and parameters or calls which need electrons are refused or ignored as documented.',
     ['inputs', 'histories'], 'all neutral chemistries, their changes, parameters and states; all chemistries with charged species as bad input',
     'Tests build one neutral chemistry.',
     [NM], [('chemistry', NM + ':NeutralChemistry'), ('equations', NM + ':NeutralEquations'), ('model', NM + ':NeutralModel')],
     'differential testing against the scalar reference, refusal cases', 'Random search; single-species chemistries are left out.')
PM, GM, RS, CF = 'pygmo_fwork/pygmol/model_parameters.py', 'pygmo_fwork/global_model.py', 'pygmo_fwork/results.py', 'pygmo_fwork/config.py'
prop('C21', 'Model parameters are accepted exactly when legal, answer every alias, are frozen',
     'Model parameters given as a dictionary, keywords or both (keywords counting) under any documented alias are accepted exactly when every '
     'parameter is present and legal: positive numbers, feeds of names to positive numbers, non-negative power over times of the same length (at '
     'least two) from t <= 0 to 1.1 t_end or later. Otherwise the documented error is raised. Each parameter is then answered as it was given '
     'under every alias and as a dictionary, and nothing the caller does to the arguments or to what was handed out changes it.',
     ['inputs'], 'all legal parameter sets with any aliases and types of sequences, and sets with one illegal part',
     'Tests try some thirty sets; aliases, sequence types, boundary times and later changes are not sampled.',
     [PM], [('validation', PM + ':ModelParameters'), ('power profile', PM + ':_ModelParametersPower'), ('feeds', PM + ':_ModelParametersFeeds')],
     'generated parameter sets with injected faults against the stated rules', 'Random search; one fault at a time.')
prop('C22', 'Global model answers only a successful last run, and its logs give it back',
     'The global model answers results exactly when its last run succeeded and raises the documented error when none was made or the last was '
     'refused or failed; a refused run or refused parameters change no file and leave the model usable. Results stay those of the last run when '
     'the chemistry is changed. A successful logged run writes exactly its documented files, from which tables, model and initial parameters and '
     'the chemistry state are read back as they were; earlier logs of that name are kept unless overwriting was asked for. Default initial '
     'densities make up the pressure with the fractions asked for.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of runs (good, refused, failing), chemistry changes and parameter reloads',
     'Tests run one small chemistry a few times and look for the presence of files.',
     [GM, RS, MO], [('run', GM + ':run'), ('logs', GM + ':log_results'), ('fetching', RS + ':fetch_solution'),
                    ('initial densities', GM + ':generate_initial_n')],
     'model-based histories with injected faults, and round trip of logs', 'Random search; real runs of 1e-9 to 1e-8 s, failures of the solver injected.')
prop('C23', 'Production and consumption rates are those of the equations, sorted, named',
     'For every species the volumetric processes answered are exactly the reactions whose net stoichiometry for it is not zero, each with the '
     'net count times its rate, and the surface processes exactly those by which wall fluxes and returns consume or produce it; both are sorted '
     'descending, add up to the source rates of the equations, and are named by reaction and species. Printing shows the most prominent ones '
     'with rates in the unit asked for. Results of another chemistry are refused.',
     ['inputs', 'histories'], 'all chemistries and their changes, states or made-up rates and fluxes, species named in every documented way',
     'Tests use two tiny chemistries whose ids equal positions.',
     [RS], [('volume', RS + ':get_volumetric_rates'), ('surface', RS + ':get_surface_rates'), ('printing', RS + ':print_production_processes')],
     'generated frames against an independent reference of sources', 'Random search; printed rates are compared to three digits.')
prop('C24', 'Frames, compression, convergency and comparison agree with the results given',
     'Frames are the linear interpolation of results at the times asked for, refusing times outside. Compression keeps first and last frame '
     'and drops a frame exactly when it follows the last kept one by less than the shortest step or with every change below the threshold. '
     'Convergency of an output is the relative change over the last part of the time against the limit. Comparison lists the final values (or '
     'relative differences) of the runs named in every documented way. None changes what it is given.',
     ['inputs'], 'all tables of results with ascending times, and all parameters of these operations',
     'Tests use one table of five rows and a few logged runs.',
     [RS, GM], [('frames', RS + ':get_results_frames'), ('compression', RS + ':compress_solution'), ('convergency', GM + ':check_convergency'),
                ('comparison', RS + ':compare')],
     'generated tables against reference computations and laws', 'Random search; values exactly at a limit are not judged.')
prop('C25', 'Configuration is read or refused as documented and provides its directories',
     'A configuration file which is missing or is not a mapping in YAML raises the documented error; otherwise its keys are answered and '
     'others refused with that error. Each directory asked for is the documented one in the workspace, exists afterwards with all its parents '
     'whether or not it existed before, and nothing else is made, changed or removed; what lacks a setting or a binary, or names an unknown '
     'backend, is refused and makes nothing.',
     ['inputs', 'histories'], 'all contents of the file, states of the workspace and sequences of requests',
     'Tests use one valid and two invalid files.',
     [CF], [('reading', CF + ':Config'), ('directories', CF + ':get_results_dir')],
     'generated files, workspaces and request histories with snapshots of the file tree', 'Random search over seventeen kinds of broken content.')
GR, ER, MM, RD = ('pygmo_fwork/optichem/' + f for f in ('graph.py', 'errors.py', 'morris.py', 'reduction.py'))
prop('C26', 'Edges of the chemistry graph are the couplings of the documented weightings',
     'For the rates and wall fluxes at each time, the graph of a chemistry has an edge from species B to species A exactly where they '
     'share a process with a nonzero weight, and the weight is that of the documented method: |contribution of the processes with B| '
     'over the production plus consumption (DRG), over |production minus consumption| (DRG1, DRG2) or over the larger of both (DRGEP) of '
     'A, contributions summed by magnitude (DRG, DRG1) or with their sign (DRG2, DRGEP), sticking and return at the walls counting '
     'unless excluded. DRG and DRGEP weights are in (0, 1]. Only enabled species and reactions count, the index of the frames does not '
     'matter, the frames are not changed, and frames of another chemistry, other order or other times are refused.',
     ['inputs', 'histories'], 'all chemistries with any history of changes, rates, fluxes, times, frames and sequences of weighting methods',
     'Tests compare weights of one small network by hand; the sums run over all reactions and walls with special cases for balance and zeros.',
     [GR], [('weights', GR + ':ChemistryGraph.distribute_weights'), ('validation of the frames', GR + ':ChemistryGraph.__init__')],
     'differential testing against scalar reference formulae over generated chemistries and rates',
     'Random search; weights whose terms cancel up to rounding are not judged (unless rates are whole numbers).')
prop('C27', 'Graph searches are optimal and rankings are the best score over outputs, times',
     'For any directed graph with positive weights, the shortest-path, widest-path and maximum-flow searches give for every node the '
     'optimal value (with the weighting function and its inverse applied, and the documented value where there is no path) together with a '
     'real simple path of that value; they can be repeated and leave graph and attributes as they were. The ranking of a chemistry holds '
     'every enabled heavy species that is not an important output exactly once, with the best score over all outputs and times by the chosen '
     'search, in ascending order, whatever the order of the outputs; unknown searches, and searches before weights exist, are refused.',
     ['inputs', 'histories'], 'all graphs of up to eight nodes built by any sequence of insertions; all chemistries, rates, outputs and times',
     'Tests search one graph; optimality is a statement about all paths and all cuts.',
     [GR], [('searches', GR + ':Graph.find_shortest_paths'), ('flow', GR + ':Graph.get_max_flow'), ('ranking', GR + ':ChemistryGraph.get_ranking')],
     'differential testing against Bellman-Ford, threshold reachability and exhaustive minimal cuts',
     'Random search over graphs of up to 8 nodes; max_product paths of product exactly 1 may be missing, as its documentation warns.')
prop('C28', 'Errors between solutions are the documented mixed errors, maximal or RMS',
     'The error of an output at a time is 2 (reduced - full) / (full + max of full over the asked times), both values by linear interpolation '
     'in time whatever the time grids; the summary over times and outputs is the largest magnitude or the root of the mean of squares; a '
     'solution differs from itself by zero. Outputs or times a solution does not cover are refused, frames are not changed, and after a '
     'reset errors refer to the new full solution.',
     ['inputs'], 'all pairs of solutions, outputs and times', 'Tests use one pair of tables.',
     [ER], [('mixed error', ER + ':SolutionsDiff.get_output_errors'), ('summaries', ER + ':SolutionsDiff.get_error_max')],
     'differential testing against exact interpolation, with metamorphic relations (self, scaling)', 'Random search.')
prop('C29', 'A Morris trajectory steps once by 0.5 in every factor and is logged as such',
     'A trajectory starts on the grid 0.05 ... 0.95 and changes each factor (reaction, species or return coefficient) exactly once by +-0.5, in '
     'an order and with signs as logged; each run of the model uses exactly the values the factors map to (arrh_a 2x times nominal; product '
     'of 2x over the species involved; range^(2x-1) times the nominal return coefficient with the own return of the stuck species compensating), and '
     'nothing else changes. The seed determines the trajectory, starting values are spread over the grid, and what is logged does not alter '
     'results. The chemistry and parameters of the user stay untouched. A trajectory is finished only when all its runs are; one which was stopped '
     'can be run again under its id; a finished one is never overwritten; ids are the lowest unused; trajectories of another chemistry, other '
     'parameters, type or backend are refused. A batch of n trajectories over any number of processes adds n finished ones.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all chemistries, factors, seeds, logging modes, failures at any run, and schedules of parallel runs',
     'Tests check the maps of factors with one chemistry; no test runs a trajectory, interrupts one or runs several at once.',
     [MM], [('walk', MM + ':MorrisMethod._trajectory'), ('maps of the factors', MM + ':MorrisMethod._map_a_factor_to_ret_coef'),
            ('runs and logs', MM + ':MorrisMethod.run_trajectory'), ('parallel runs', MM + ':MorrisMethod.run_morris'),
            ('coherence', MM + ':MorrisMethod._assert_coherence')],
     'model-based generation of trajectories read back from their logs, with faults injected into runs and a slowed-down disk for parallel ones',
     'The numerical integration is replaced by a cheap stand-in depending on the right-hand side; schedules are those the system produces, perturbed by delays.')
prop('C30', 'Morris statistics are the moments of the logged elementary effects',
     'For logged trajectories, the elementary effect of a factor on an output at a time is the difference of the two successive solutions '
     '(interpolated in time) over the signed step; mu, sigma, their values relative to the mean output, and the mean outputs are the mean, the sample '
     'deviation and the mean over all finished trajectories, whatever their names, order of factors, time grids and unfinished neighbours. '
     'The ranking holds every factor once in ascending order of mean or maximal |mu| + sigma. Ambiguous or invalid arguments and times outside '
     'of a solution are refused.',
     ['inputs'], 'all sets of logged trajectories, factors, outputs and times', 'Tests use one prepared set of logs.',
     [MM], [('one trajectory', MM + ':MorrisMethod.evaluate_trajectory'), ('statistics', MM + ':MorrisMethod.get_morris_stats'),
            ('ranking', MM + ':MorrisMethod.get_ranking')],
     'differential testing of generated logs against plain reference statistics', 'Random search; both readings of the "max" ranking are accepted.')
prop('C31', 'A reduction removes by ranking, backs out what costs too much, reports truly',
     'A reduction takes species in the order of the ranking (recomputed from the solved model after each success if it is dynamic), skips those '
     'that are important, fed, protected or gone, and removes each with its cascade. It restores the chemistry exactly to the last good state '
     'when the removal is refused, takes an important or fed species along, does not solve, or exceeds the maximal error. It stops when more removals '
     'in a row than allowed exceed the error or nothing is left. The history held, answered and logged after every step has the true '
     'species, cascade, counts and errors to the base and to the last good solution; logged runs give their networks back; at the end the '
     'chemistry is as before. A run id that is in use and calls out of turn are refused.',
     ['inputs', 'histories', 'fault_sequences'], 'all chemistries, rankings, limits, effects of removals and failures of the solver at any step',
     'There are no tests of the reduction; its state is a product of refusals, failures, cascades and errors in any order.',
     [RD], [('one removal', RD + ':ReductionIterator.remove_one_species_and_run'), ('loop', RD + ':ReductionIterator.run_reduction')],
     'model-based testing of whole reductions with generated effects of removals and injected solver failures',
     'The numerical integration is replaced by a table of effects per species removed.')
#--MORE--


prop('C32', 'Plots of solutions and of reductions show the values logged',
     'A plot of a logged solution has exactly the curves asked for, or those of all densities (the electrons included) if none are named, each '
     'through all logged points under its own name, on the scale asked for. A comparison of reductions has for each run one curve through the '
     'number removed and the error in percent of exactly the states kept, a dead end from the last kept state before it for each removal above the maximal '
     'error, the line of that error, annotations naming the species, and limits which show all of them (or those given), as the options ask. '
     'Runs of different maximal errors or too few labels are refused. Plotting changes no log.',
     ['inputs', 'configurations'], 'all logged solutions, all histories of reductions, and all combinations of options',
     'No test draws a plot; what is on it depends on the whole history and on every option.',
     [RS, RD], [('solution', RS + ':plot_solution'), ('reductions', RD + ':compare_reduction_runs')],
     'generated logs and options, figures read back', 'Random search; fonts, positions of legends and the like are not judged.')


def main():
    props, checks = [], []
    for p in P:
        props.append({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'], 'hook_needed': None}})
        assert len(p['title']) <= 80, p['title']
        if not os.path.isfile(os.path.join(ROOT, 'harness', 'checks', p['id'].lower() + '.py')):
            raise SystemExit('no check for ' + p['id'])
        checks.append({
            'property': p['id'], 'quick_cmd': './run ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough ./run ' + p['id'],
            'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for x in props:
            f.write(json.dumps(x) + '\n')
    man = {
        'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
        'notes': 'Property-based testing of the real code in /repo with a generator of our own (harness/engine.py: seeded choice '
                 'sequences with integrated shrinking); no hooks in /repo are needed. '
                 'VERIF_SEED seeds every choice; failing cases are JSON files replayed with ./run ID --replay FILE.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(props), 'properties')


if __name__ == '__main__':
    main()
