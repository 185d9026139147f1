"""Generates /verif/properties.jsonl and /verif/MANIFEST.json (committed outputs)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique, note=note,
                  state=state))


CL, CLI = 'wcxf/classes.py', 'wcxf/cli.py'
TS, TW, TI = 'wcxf/translators/smeft.py', 'wcxf/translators/wet.py', 'wcxf/translators/__init__.py'
MS, MI = 'wcxf/matchers/smeft.py', 'wcxf/matchers/__init__.py'
SU, QC, PA = 'wcxf/util/smeftutil.py', 'wcxf/util/qcd.py', 'wcxf/parameters.py'
EO, SI, YJ = 'wcxf/converters/eos.py', 'wcxf/converters/smeftsim.py', 'wcxf/converters/yamljson.py'
SE = 'wcxf/converters/SMEFTsim_param_card_elements.py'
DATA = 'wcxf/data/flavorkit_jms.json'

prop('C01', 'Dumping and reloading a file object loses nothing',
     'Writing a Wilson coefficient, basis or EFT object as JSON or YAML (to a string or a stream) and loading it back gives an object with exactly the same content: every number to the last bit, every nested value, and every additional top-level entry, with nothing added. Dumping does not change the object, and the two formats hold the same data.',
     ['inputs'], 'all object contents, both formats, string and stream, any layout options',
     'The tests dump one toy file per class; numbers of any magnitude, exotic strings, extra entries, null or empty parts and repeated round trips are not reached.',
     [CL], [('dump / load of the common file base class', CL + ':WCxf')],
     ['public attributes of the object before and after, and the parsed dumped text'],
     'monitored dump/load round trips on generated objects, independent parser as oracle',
     'Held on the generated objects; parsing of the dumped text is done by json / yaml themselves.')
prop('C02', 'YAML/JSON conversion preserves the data and reports bad input',
     'Converting a YAML file to JSON, or a JSON file to YAML, writes a file that holds the same data as the input, so that converting back and forth is lossless. Input that cannot be parsed is reported as an error (non-zero status) and produces no output data; an unknown output format is an error too.',
     ['inputs', 'fault_sequences'], 'all non-empty documents expressible in both formats, and truncated or corrupted ones',
     'One toy basis file is converted in the tests; malformed input, unusual scalars, unicode and deep nesting are not.',
     [YJ, CL, CLI], [('converters between the two formats', YJ), ('convert subcommand', CLI + ':convert')],
     ['status value and output stream of the conversion functions and of the convert command'],
     'monitored conversions of generated and corrupted documents, independent parser as oracle',
     'Data equality (not key order or layout) on the generated documents; status of the function and of the command.')
prop('C03', 'Coefficient files validate exactly when their basis allows them',
     'Validating a Wilson coefficient file succeeds if its EFT is known, its basis is known for that EFT, and every coefficient it contains exists in that basis; in every other case it fails with an error that names the unknown EFT, basis or coefficients. Validation never modifies the file object.',
     ['inputs', 'histories'], 'all files against all sets of registered EFTs and bases, in any order of registration, replacement and removal',
     'The tests validate one good and one bad toy file against a fixed registry.',
     [CL], [('coefficient file validation', CL + ':WC.validate'), ('list of all coefficients of a basis', CL + ':Basis.all_wcs')],
     ['outcome (return / exception) of validation'],
     'history monitor with a set-based model of the registry deciding accept/reject',
     'Accept/reject compared with a small model on generated registries, files and registration histories.')
prop('C04', 'Basis files validate exactly when they are consistent',
     'Validating a basis succeeds if its EFT is known, all its sectors are sectors of that EFT, no coefficient name occurs in two sectors and its LaTeX code compiles (or no LaTeX can be run), and otherwise fails with an error naming the offending EFT, sectors, coefficients or LaTeX message. It works for coefficients without metadata, also while other validations run, and leaves no temporary files behind and all other files alone, whatever LaTeX does.',
     ['inputs', 'fault_sequences'], 'all bases, and all ways the LaTeX run can end (missing, not executable, succeeding, failing, no log file)',
     'The tests use one valid and a few invalid toy bases and no LaTeX faults.',
     [CL], [('basis validation', CL + ':Basis.validate'), ('LaTeX trial run', CL + ':_testtex')],
     ['outcome of validation, content of the temporary directory, document given to a recording fake latex executable'],
     'monitored validation with a recording fake latex, injected latex faults and a set-based model',
     'Accept/reject and clean-up on generated bases and the injected LaTeX outcomes; real LaTeX is not available here.')
prop('C05', 'A child basis inherits from its parent without disturbing it',
     'A basis that names a parent contains every sector it defines itself, exactly as it defines it, plus all other sectors of the parent; defining, loading or validating any number of children changes nothing in the parent, its other children or their coefficient lists. If the parent does not exist for that EFT, an error is raised and nothing is registered.',
     ['inputs', 'histories'], 'all parent/child/grandchild trees in every order of definition and use',
     'The tests define one child with one new sector and look only at the child.',
     [CL], [('parent handling in the basis constructor', CL + ':Basis.__init__')],
     ['sectors and coefficient list of all registered bases after each step'],
     'history monitor: a model of all registered bases is compared after every definition',
     'Held for the generated inheritance trees and histories.')
prop('C06', 'Registered definitions are found again by name',
     'After any sequence of definitions, redefinitions, deletions and clearings, looking up an EFT, basis, translator or matcher by its full name gives the most recent definition still present and fails otherwise; the lists of known bases and known translators of an EFT or basis contain exactly the present ones. Importing the package makes every EFT and basis file shipped with it available.',
     ['histories'], 'all sequences of register, look up, replace, delete and clear operations over all four kinds of definition',
     'The tests register a handful of names once; replacement, deletion and interleavings are barely touched, and the shipped basis files are absent.',
     [CL, 'wcxf/__init__.py'], [('registry of named instances', CL + ':NamedInstanceClass'), ('known bases and translators', CL)],
     ['look-up results and known lists after each step; registry of a fresh import of a staged copy with basis files'],
     'history monitor against an ordered-map model; staged import in a subprocess',
     'Held for the generated histories; import-time loading is observed on a staged copy with generated basis files.')
prop('C07', 'Coefficient values mean the number that was written',
     'A coefficient given as a number, a numeric string or a Re/Im mapping (with either part possibly absent) is read as exactly that real or complex number, and the scale likewise. Converting numeric values back to file values and reading them again returns the same numbers, writing a plain number whenever the imaginary part is zero and both parts otherwise.',
     ['inputs'], 'all value notations, magnitudes and numeric types, and all object histories (reading before or after dumping)',
     'Only a few literal values are read in the tests.',
     [CL], [('conversion between file values and numbers', CL + ':WC')],
     ['numeric dictionary of the object and values produced from numeric dictionaries'],
     'monitored conversions of generated values against Python numeric literals',
     'Held on the generated values in all notations, bit-exact.')
prop('C08', 'Translating or matching yields a correctly labelled complete result',
     'Translation keeps the EFT and the scale and sets the requested basis, matching sets the requested EFT and basis and keeps the scale, and the result contains every non-zero coefficient that the registered rule computed for these values, scale and parameters, unrounded, and no zero entries. If no rule is registered for the requested pair, a ValueError is raised; an error raised by the rule itself reaches the caller.',
     ['inputs', 'histories'], 'all files, all targets, all registered or unregistered rules and parameter choices',
     'The tests check one toy translator; values near zero, purely imaginary ones, missing rules and parameters passing through are not.',
     [CL], [('translate / match methods and rule wrappers', CL + ':WC.translate, WC.match, Translator, Matcher')],
     ['result object or exception for each call; arguments received by recording rules'],
     'monitor on every translate/match call with recording rules as oracle',
     'Held for recording rules returning arbitrary dictionaries and for all built-in routes.')
prop('C09', 'Results do not depend on history and inputs are never modified',
     'The result of a translation, matching or conversion depends only on the file content, the scale, the parameters and the registered definitions: not on earlier (completed, failed or interrupted) or concurrent calls, not on the order of coefficients in the file, not on the process or hash seed. No such call modifies its input file object, the parameters passed in, the default parameters or any registered basis, and results share no mutable state with inputs.',
     ['histories', 'schedules', 'inputs'], 'all sequences and thread interleavings of calls with all mixtures of parameters and scales',
     'Each test performs isolated calls with a fixed input in one process.',
     [CL, TI, MI, TS, TW, MS, QC, PA], [('copy of default parameters before update', TW), ('caches keyed by all arguments', QC)],
     ['snapshots of inputs, parameters, defaults and registries before/after each call; results across orders, threads, processes'],
     'snapshot monitor plus replay of one operation log in different orders, threads and processes',
     'Held for the generated logs; thread interleavings are those the scheduler produced at a tiny switch interval.')
prop('C10', 'User-supplied parameters are honoured in every route',
     'Every translation and matching that involves Standard Model inputs uses the value the caller supplies for any subset of them and the documented default for the others: supplying the defaults explicitly changes nothing, and overriding a parameter has the same effect in every route that depends on it, including composite ones.',
     ['inputs', 'configurations'], 'all routes, all subsets of overridden parameters and all values',
     'No test passes parameters to any translator or matcher.',
     [TI, MI, TS, TW, MS, PA], [('merging of user parameters with defaults', TW + ':get_parameters'), ('pass-through of parameters', TI + ', ' + MI)],
     ['results of every route with default, partial and full parameter sets'],
     'monitor comparing each route with a reference model evaluated at the merged parameters',
     'All routes, each parameter overridden alone and in random subsets; default values are frozen in the oracle.')
prop('C11', 'Warsaw and Warsaw up are related by the CKM rotation, both ways',
     'Translating SMEFT coefficients from the Warsaw to the Warsaw up basis rotates every left-handed quark doublet index by the CKM matrix and touches no other index, so that all non-redundant coefficients of the result are those of the rotated operators. The reverse translation is its exact inverse, for every coefficient including baryon-number violating and lepton-number violating ones.',
     ['inputs'], 'all coefficient values, sparse or dense, complex, and all CKM parameters',
     'No stable test exercises the SMEFT translators with their bases.',
     [TS, SU, TI], [('flavour rotation', SU + ':flavor_rotation'), ('index symmetries', SU + ':symmetrize')],
     ['input and output coefficients of both translations'],
     'monitor with an independent field-content based rotation as oracle, and round-trip monitor',
     'Held on the generated inputs to 1e-9 relative; the CKM matrix itself comes from the ckmutil dependency.')
prop('C12', 'Warsaw to Warsaw mass rotates only what is defined to change',
     'Translating to the Warsaw mass basis rotates the left-handed quark index of the up-type Yukawa-like and up-type dipole coefficients with the CKM matrix, replaces the Weinberg operator matrix by its non-negative diagonal singular values, and leaves every other coefficient exactly as it was.',
     ['inputs'], 'all coefficient values, sparse or dense, and all CKM parameters',
     'One test (not runnable without basis files) looks at file validity only.',
     [TS, TI], [('mass basis translation', TS + ':warsaw_to_warsawmass')],
     ['input and output coefficients of the translation'],
     'monitor with independent matrix-product and singular-value oracle',
     'Held on the generated inputs to 1e-9 relative.')
prop('C13', 'Redundant SMEFT coefficients follow from the independent ones',
     'From the non-redundant coefficients alone the package reconstructs every redundant entry by hermiticity, exchange of identical currents, Fierz identities and index symmetries, for every operator class; the result is independent of what the redundant entries contained, already consistent tensors are left unchanged, missing coefficients count as zero, and the tensors passed in are not modified.',
     ['inputs'], 'all operator classes, all values of the independent and redundant entries',
     'No stable test reaches the symmetrization tables (about 500 hand-written assignments).',
     [SU, TS], [('symmetrization tables', SU + ':symmetrize'), ('zero filling', SU + ':add_missing')],
     ['tensors after symmetrization; rotated coefficients computed from them'],
     'monitor with a group-orbit reconstruction of every tensor as oracle',
     'All classes and all entries of each class observed; the symmetry group of each class is the oracle.')
prop('C14', 'Tree-level SMEFT to WET matching follows the published conditions',
     'Matching Warsaw (or Warsaw up) SMEFT coefficients to the WET in the JMS basis gives, for every coefficient of that basis, the tree-level result of Jenkins, Manohar and Stoffer (contact terms plus modified W and Z exchange, with the input-scheme shifts), minus the Standard Model part, with down quarks rotated to the mass basis. Vanishing SMEFT coefficients give no WET coefficients, and any subset of coefficients may be absent from the input.',
     ['inputs', 'configurations'], 'all SMEFT coefficient values and Standard Model parameters',
     'The matching tests cannot run without basis files and only compare two numbers.',
     [MS, MI, TW], [('matching conditions', MS), ('rotation to the down-quark mass basis', TW + ':rotate_down')],
     ['input and output coefficients of each match call'],
     'monitor with an independently structured tree-level matching model as oracle',
     'Held on generated inputs to 1e-8 relative; baryon-number violating WET coefficients are not part of the JMS basis used.')
prop('C15', 'Different routes to the same basis agree',
     'Whenever a target basis can be reached in one step or through an intermediate basis, both give the same coefficients: matching SMEFT directly to flavio, EOS or Bern equals matching to JMS and translating, Warsaw equals going through Warsaw up, JMS to flavio equals JMS to Bern to flavio, FlavorKit to flavio equals going through JMS, and translation commutes with going to fewer flavours.',
     ['inputs', 'configurations'], 'all inputs, scales and parameters for every pair of routes',
     'No stable test compares two routes.',
     [MI, TI, TW, MS], [('composite matchers and translators', MI + ', ' + TI)],
     ['results along both routes'],
     'commuting-diagram monitor over all pairs of routes',
     'Held on generated inputs to 1e-8 relative on the coefficients common to both routes.')
prop('C16', 'JMS to Bern gives the defined combination for every coefficient',
     'Each Bern coefficient obtained from JMS coefficients equals the combination given by the operator definitions (Fierz and colour identities, hermitian conjugation, dipole normalization with running couplings and masses, overall Fermi constant normalization), for every flavour and lepton combination of the basis, in each of the WET, WET-4 and WET-3.',
     ['inputs', 'configurations'], 'all coefficient values, scales and parameters',
     'The translation tests cannot run without basis files and sample single coefficients.',
     [TW, TI], [('JMS to Fierz to Bern maps', TW)], ['input and output coefficients of each translation'],
     'monitor with an independent symbolic linear map as oracle',
     'Held on generated inputs to 1e-9 of the sum of contributing terms.')
prop('C17', 'JMS to flavio gives the defined combination for every coefficient',
     'Each flavio coefficient obtained from JMS coefficients equals the combination given by the operator definitions, including hermitian conjugation, CKM, Fermi constant, electromagnetic and strong coupling and bottom-mass normalization at the given scale, for every flavour and lepton combination, in each of the WET, WET-4 and WET-3.',
     ['inputs', 'configurations'], 'all coefficient values, scales and parameters',
     'The translation tests cannot run without basis files and sample single coefficients.',
     [TW, TI], [('JMS to flavio maps', TW)], ['input and output coefficients of each translation'],
     'monitor with an independent symbolic linear map as oracle',
     'Held on generated inputs to 1e-9 of the sum of contributing terms.')
prop('C18', 'flavio and Bern translations are inverse to each other',
     'Translating flavio coefficients to the Bern basis and back at the same scale and parameters returns them unchanged, for every flavio coefficient; translating Bern to flavio and back keeps the flavio content, i.e. a second translation to flavio reproduces the first. Both directions agree with the operator definitions for every coefficient, also when only some coefficients are given.',
     ['inputs', 'configurations'], 'all coefficient values, scales and parameters in WET, WET-4 and WET-3',
     'The round-trip tests cannot run without basis files.',
     [TW, TI], [('Bern to flavio and flavio to Bern maps', TW)], ['coefficients after each leg'],
     'round-trip monitor and symbolic linear map oracle',
     'Held on generated inputs to 1e-9 of the sum of contributing terms.')
prop('C19', 'JMS to EOS gives the defined combination for every coefficient',
     'Each EOS coefficient obtained from JMS coefficients equals the combination given by the operator definitions (four-quark sums over all quark flavours, semileptonic and dipole operators with running masses and couplings, CKM and Fermi constant normalization).',
     ['inputs', 'configurations'], 'all coefficient values, scales and parameters',
     'The translation tests cannot run without basis files.',
     [TW, TI], [('JMS to EOS map', TW + ':JMS_to_EOS')], ['input and output coefficients of each translation'],
     'monitor with an independent symbolic linear map as oracle',
     'Held on generated inputs to 1e-9 of the sum of contributing terms.')
prop('C20', 'JMS to FormFlavor gives the defined combination for every coefficient',
     'Each FormFlavor coefficient obtained from JMS coefficients equals the combination given by the operator definitions: meson mixing including up-type, semileptonic with muons, neutrino operators averaged over the three generations, and dipoles divided by the electromagnetic or strong coupling at the given scale.',
     ['inputs', 'configurations'], 'all coefficient values, scales and parameters',
     'The translation tests cannot run without basis files.',
     [TW, TI], [('JMS to FormFlavor map', TW + ':JMS_to_FormFlavor')], ['input and output coefficients of each translation'],
     'monitor with an independent symbolic linear map as oracle',
     'Held on generated inputs to 1e-9 of the sum of contributing terms.')
prop('C21', 'FlavorKit and JMS describe the same operators',
     'Every FlavorKit coefficient is translated to the JMS coefficient of the same operator (matching flavour indices, chirality, conjugation and lepton dipole normalization), translating back returns it unchanged, and no two coefficients are mixed. An input coefficient unknown to FlavorKit is an error in one direction and is left out in the other.',
     ['inputs'], 'all coefficients of both bases, one by one and in any combination',
     'The translation tests cannot run without basis files; the table has about 900 entries.',
     [TW, TI, DATA, 'wcxf/data/flavorkit_jms_conj.json'], [('FlavorKit translation and tables', TW)],
     ['input and output coefficients of both directions'],
     'monitor with a rule-based operator identification as oracle, every table entry exercised',
     'All entries in both directions; the naming rule is the oracle.')
prop('C22', 'Going to fewer flavours keeps exactly what still exists',
     'Matching from WET to WET-4, WET-3 and WET-2 in the flavio, Bern or JMS basis keeps every coefficient that exists in the target basis with an identical value and drops exactly the others, whatever the currently registered target basis contains.',
     ['inputs', 'histories'], 'all coefficient values and all registered target bases, also after redefinition',
     'The threshold tests cannot run without basis files.',
     [MI], [('restriction matchers', MI)], ['input and output coefficients of each match call'],
     'monitor with set restriction as oracle, also under redefinition of the target basis',
     'Held on generated inputs and redefined bases, bit-exact.')
prop('C23', 'Running couplings and masses are those of three-loop QCD',
     'The strong coupling and the bottom, charm and strange masses at a given scale with a given number of flavours equal the three-loop evolution with decoupling at the fixed thresholds from the given initial value, return the initial value at its own scale and flavour number, decrease with the scale, and depend on every argument; a non-positive scale or unsupported flavour number is an error. This holds in any call order and while other computations run in other threads.',
     ['inputs', 'histories', 'schedules'], 'all scales, flavour numbers and initial values, in any call order and thread interleaving',
     'The tests compare a few numbers at fixed scales with the default coupling.',
     [QC], [('running functions and their caches', QC)], ['returned numbers and errors'],
     'monitor with direct three-loop evolution and independent ODE integration as oracles',
     'Held on generated arguments; decoupling constants are those of the rundec dependency.')
prop('C24', 'EOS parameter files contain SM plus new physics for every coefficient',
     'The EOS output lists exactly the coefficients of the EOS parameter files marked as relevant, each with central, min and max equal to the Standard Model central value plus the real or imaginary part of the corresponding coefficient of the input file (zero if absent). Electron and muon charged-current coefficients must agree and are otherwise refused; other parameter files are ignored.',
     ['inputs', 'configurations'], 'all input files and EOS parameter directories',
     'One input file with the shipped parameter files is checked.',
     [EO, CLI], [('EOS conversion', EO), ('wcxf2eos command', CLI + ':eos')], ['returned dictionary, written file, exit status'],
     'monitor with an independent assembly of the expected parameter file',
     'Held on generated input files and parameter directories.')
prop('C25', 'SMEFTsim cards carry every coefficient with its value and phase',
     'For both model sets, the card contains each baryon- and lepton-number conserving coefficient of the Warsaw mass basis exactly once under its own label and entry number: real ones as signed value, complex ones as modulus and phase, scaled by the squared cutoff, zero if absent from the file, next to the cutoff itself. The written card is a readable parameter card with the masses of the chosen input scheme, and no coefficient leaks into another entry. The command writes no card for invalid files, nor for files in another basis unless the user insists.',
     ['inputs', 'configurations'], 'all coefficient values, cutoffs, model sets and input schemes',
     'One test (not stable here) checks that a file is produced and parses; the card has about 5000 hand-written lines.',
     [SI, SE, CLI], [('card filling and text', SI), ('wcxf2smeftsim command', CLI + ':smeftsim')], ['card structure and written file'],
     'monitor parsing every card entry, label grammar as oracle; one-coefficient leak probes',
     'Every entry of both cards is compared on each run; printed precision of six digits.')
prop('C26', 'The command line does what the library does',
     'Each subcommand reads its file or standard input (JSON or YAML), writes the requested format to the given file or standard output, and its output equals that of the corresponding library call; exit status is zero exactly when the operation succeeded. Invalid input, unknown targets, unknown types and failed validation give a non-zero status.',
     ['inputs', 'configurations', 'fault_sequences'], 'all subcommands, options, input channels and error cases',
     'The stable tests run convert only.',
     [CLI, YJ], [('argument parsing and dispatch', CLI)], ['standard output, output files and exit status'],
     'monitor on real command runs, library result as oracle, injected bad inputs',
     'Held on generated commands run in-process and as processes on a staged copy.')
prop('C27', 'Printed representations list all content faithfully',
     'The printed form of a Wilson coefficient file states its EFT, basis and scale and lists every coefficient with its value; that of a basis states its name and description and lists every sector and each coefficient with its operator and whether it is real, including coefficients without metadata. Printing changes nothing.',
     ['inputs'], 'all files and bases',
     'Printing is not tested except for one toy basis.',
     [CL], [('markdown rendering', CL)], ['the printed text'],
     'monitor parsing the printed tables back, content as oracle',
     'Held on generated objects.')
prop('C28', 'Every result is valid in its target basis',
     'For every built-in translation and matching and every valid input, the result contains only coefficients of the target basis and validates, all values are finite numbers, and coefficients that are real by hermiticity come out real up to rounding. An empty input gives an empty result and a valid input never raises an error.',
     ['inputs', 'configurations'], 'all routes, inputs (sparse, dense, real, complex, any magnitude), scales and parameters',
     'The built-in routes cannot be run by the tests without basis files.',
     [TI, MI, TW, TS, MS], [('all translators and matchers', TI + ', ' + MI)], ['each result'],
     'closure monitor on every result of every route under sparse, dense and extreme workloads',
     'Held on generated inputs over all 29 registered routes.')
prop('C29', 'Translations respect superposition',
     'Apart from the diagonalization of the Weinberg operator, translating a sum of coefficient sets gives the sum of the translations and scaling all coefficients by a real factor scales the result by it; each coefficient contributes independently of which others are present. Matching respects this to first order: small coefficients give results proportional to them.',
     ['inputs'], 'all pairs of coefficient sets, real factors, scales and parameters',
     'No test relates two translations.',
     [TI, MI, TW, TS, MS], [('linear maps', TW + ', ' + TS)], ['results for related inputs'],
     'metamorphic monitor over related calls',
     'Held on generated inputs to 1e-9 of the sum of contributing terms.')


prop('C30', 'General flavour rotations act on every index with its own matrix',
     'Rotating SMEFT coefficient tensors with one unitary matrix per fermion field (q, u, d, l, e) contracts every index with the matrix of its field (conjugated where the field is barred), for all operator classes, without touching bosonic coefficients or the input. Two successive rotations equal the combined one, the inverse matrices restore the tensors, and rotated tensors keep their index symmetries.',
     ['inputs'], 'all operator classes, tensors and unitary matrices',
     'No test calls the rotation with non-trivial lepton or right-handed quark matrices.',
     [SU], [('flavour rotation', SU + ':flavor_rotation')], ['tensors returned by the rotation'],
     'monitor with index-by-index contraction by field content, group-law metamorphic monitors',
     'All classes on random, real, permutation and diagonal matrices.')
prop('C31', 'Named coefficients and coefficient arrays hold the same data',
     'Turning a set of named SMEFT coefficients into arrays puts each value at the position given by its name with zeros elsewhere, turning arrays into names lists every entry under its own name, and one after the other returns the original numbers exactly, for every class including scalars. The single-class conversions do the same and ignore other classes.',
     ['inputs'], 'all coefficient names and values',
     'No stable test reaches these conversions.',
     [TS], [('conversion between names and arrays', TS)], ['returned arrays and dictionaries'],
     'monitored conversions compared entry by entry with the names',
     'All classes and all names observed on each run.')

prop('C32', 'Definition files shipped with the package are all available after import',
     'After importing the package, every EFT and basis definition file placed in its bases directory, child bases included, is registered under its own name with exactly the content of the file (children, whose parent is one of the non-child bases, with the sectors inherited from it), nothing else is registered, files that are not definitions are ignored, and all built-in translators and matchers are available; this does not depend on file names, directory order, working directory or the path the package is installed in. Without any definition files the package can be imported too.',
     ['inputs'], 'all sets of definition files, file names, installation paths and working directories',
     'The tests run in one fixed checkout in which the bases directory is empty.',
     ['wcxf/__init__.py', CL], [('loading of definition files on import', 'wcxf/__init__.py'), ('registration', CL + ':NamedInstanceClass')],
     ['registries of EFTs, bases, translators and matchers in a fresh process after import'],
     'staged copies of the package imported in fresh processes, registry dump compared with the files',
     'Held for the generated definition sets and installation paths; children of children are not exercised (load order between them is unspecified).')

prop('C33', 'Repeated use accumulates no resources',
     'However often files are loaded, dumped, printed, validated, converted, translated or matched, successfully or not, and whatever definitions are made, replaced and deleted in between: no open files, temporary files, threads or child processes are left behind, inputs, parameters, results and replaced or deleted definitions are released once the caller lets go of them, and memory use does not grow with the number of calls.',
     ['histories', 'inputs'], 'all sequences of calls of any length',
     'Each test makes a few calls in a process that ends; none observes what is kept.',
     [CL, TI, MI, TS, TW, MS, QC], [('calls of translators and matchers', CL + ':Translator.translate, Matcher.match'), ('registries', CL + ':NamedInstanceClass'), ('LaTeX test', CL + ':_testtex'), ('bounded caches', QC)],
     ['weak references to file objects, parameters and definitions; open descriptors, threads, child processes, temporary directory; traced memory'],
     'weak references and process tables inspected after every operation, traced memory over series of operations with different data',
     'Held for every built-in route and file operation; growth of a few bytes per call is seen only in the series of very many small calls; larger growth everywhere.')

prop('C34', 'Rules can be used directly on plain dictionaries',
     'A registered translator or matcher fetched from its registry and applied to a file object, and its function called with a plain dictionary of coefficients, a scale and parameters, give the same labels and coefficients as translating or matching the file object. So do the functions of the package that implement the built-in rules, with parameters optional, for Python and numpy numbers, without changing their arguments. Decorating a function with translator or matcher registers exactly that function and leaves it usable under its own name.',
     ['inputs', 'configurations'], 'all routes, coefficient values and number types, scales, parameters and user-defined rules',
     'Tests call some functions with one random input and never compare the ways with each other.',
     [CL, TI, MI, TS, TW, MS], [('rules', CL + ':Translator.translate, Matcher.match'), ('decorators', CL + ':parametrized, translator, matcher'), ('implementing functions', TW), ('SMEFT translations', TS), ('SMEFT matching', MS)],
     ['results of WC.translate, Translator.translate, Translator.function and the library functions for the same numbers'],
     'every way to apply a rule is run on the same numbers and the results are compared with each other',
     'Held for every built-in route and generated user rules.')


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in p['state']],
                             mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    have = [p for p in P if os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))]
    man = dict(version=1,
               setup_cmd='/opt/venv/bin/python -W ignore run.py --selftest',
               checks=[dict(property=p['id'],
                            quick_cmd='/opt/venv/bin/python -W ignore run.py %s' % p['id'],
                            thorough_cmd='VERIF_TIER=thorough /opt/venv/bin/python -W ignore run.py %s' % p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique=p['technique'], level='exploration', level_note=p['note'])
                       for p in have],
               not_applicable=[dict(property=p['id'], reason='check not built yet') for p in P if p not in have],
               notes='No hooks in /repo: the monitors wrap public entry points from the harness. See DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
    print(len(P), 'properties,', len(have), 'checks')


if __name__ == '__main__':
    main()
