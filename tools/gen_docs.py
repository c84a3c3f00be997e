"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.dirname(HERE)
F = 'wcxf/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': [F + f for f in files], 'mechanism': [{'name': a, 'where': F + b} for a, b in mech],
                           'state': [{'name': a, 'meaning': b, 'where': F + c} for a, b, c in state], 'observe_at': list(observe), 'hook_needed': None},
                  _tech=tech, _note=note, _na=na))


THREADS = 'deterministic simulation: seeded thread scheduler (preemption at any line or bytecode of the package)'
LIBC = 'deterministic simulation: real code in a forked process behind a libc seam with seeded faults'

prop('C01', 'Concurrent use of the registries of EFTs, bases, translators is linearizable',
     'EFTs, bases, translators and matchers can be defined, looked up, listed, deleted and used from several threads at the same time, and every operation behaves as if it had happened at one instant: '
     'no definition that was completed is lost, no lookup returns something that was never defined or was already removed, and a listing shows a state that existed. '
     'No operation fails for any reason other than the name being absent.',
     ['schedules', 'histories'], 'every interleaving of two to four threads, every sequence of operations',
     'The tests define and look up from one thread only; the interleavings in which the first definitions of a kind race, or a listing races with a definition, never occur in them.',
     ['classes.py'], [('registry per class, created with the class', 'classes.py NamedInstanceClass'), ('listings from a snapshot', 'classes.py known_bases, known_translators')],
     [('instances', 'name to object, per kind', 'classes.py')], ['EFT[...], Basis[...], Translator[...], Matcher[...], known_bases, known_translators'],
     tech=THREADS + '; recorded history checked for linearizability against a sequential model',
     note='Seeded search, not exhaustive. The GIL build is assumed: C functions are atomic.')

prop('C02', 'Loading an EFT or basis definition is all or nothing',
     'Loading a definition from text or a stream either makes it known completely, with every field of the file, or leaves what was known before exactly as it was. '
     'This holds when the input is invalid, the stream fails, memory runs out or the user interrupts at any point. '
     'No other thread ever sees a partially initialised definition.',
     ['fault_sequences', 'crash_points', 'schedules', 'inputs'], 'every definition, every point of failure or interruption, every interleaving with an observer',
     'The tests load valid files to the end; none fails or is interrupted half way, and none observes from another thread.',
     ['classes.py'], [('registration as the last step of construction', 'classes.py EFT.__init__, Basis.__init__'), ('parse before construct', 'classes.py WCxf.load')],
     [('instances', 'registered definitions', 'classes.py')], ['registry contents after a failed load', 'registry contents from a second thread during a load'],
     tech=THREADS + ' with asynchronous exceptions, failing streams and corrupt input; all-or-nothing oracle',
     note='Interruptions at every line/bytecode of the package by seeded choice; not inside C functions.')

prop('C03', 'Definitions are independent of each other',
     'The coefficients and sectors of a basis are those of its own definition plus, for a child basis, those of its parent, and never change because other definitions are loaded, replaced, deleted or validated, in any order or concurrently. '
     'In particular, loading a child basis never changes its parent or its siblings, and the caller\'s own data is not modified.',
     ['histories', 'schedules', 'inputs'], 'every sequence of definitions, families of parents and children, every interleaving',
     'The tests load each shipped basis once, in one order, and never look at a parent again after its children were loaded.',
     ['classes.py'], [('copy of the parent\'s sectors', 'classes.py Basis.__init__'), ('list of coefficients per basis', 'classes.py Basis.all_wcs')],
     [('sectors', 'coefficients by sector', 'classes.py Basis')], ['Basis.sectors, Basis.all_wcs, EFT.sectors after each operation'],
     tech=THREADS + '; refinement against a model of every definition',
     note='Objects handed out are not modified by the harness; that would be the caller\'s doing.')

prop('C04', 'Importing the package registers every shipped definition or fails',
     'After a successful import every EFT and basis file shipped with the package is registered with exactly its content, child bases included, whatever order the directory is listed in and however slowly it is read. '
     'If any of the files or directories cannot be listed, opened, read or parsed, the import fails instead of silently leaving definitions out, and a later retry succeeds.',
     ['fault_sequences', 'configurations', 'inputs'], 'every set of definition files, listing order, read fault and interruption during import',
     'The tests import once from a healthy disk; in this checkout the directory is even empty.',
     ['__init__.py', 'classes.py'], [('sorted listing that raises', '__init__.py _glob'), ('parents before children', '__init__.py all_bases + child_bases')],
     [], ['EFT[...] and Basis[...] after import', 'exception from import'],
     tech=LIBC + ' (listing order, short reads, EINTR, open/read/stat/listing errors, listings that break off, links, corrupt files, interrupt) around the real import',
     note='Generated definitions stand for the wcxf-bases submodule. A file that cannot be examined (stat, access) counts as one that cannot be opened.')

prop('C05', 'The way input is delivered never changes the result',
     'Reading the same bytes from a file, a pipe, standard input or any text stream, in pieces of any size and with interrupted system calls, gives the same result from every command and from loading through the library. '
     'If the input cannot be read to its end the operation fails; it never works on a part of the input.',
     ['fault_sequences', 'inputs', 'configurations'], 'every input, every partition into reads, every read error position, every kind of source',
     'The tests use strings and small local files read in one piece.',
     ['classes.py', 'cli.py', 'converters/yamljson.py'], [('whole stream read before parsing', 'classes.py _load_yaml_json'), ('argument parsing of FILE', 'cli.py')],
     [], ['output and exit status of wcxf convert, translate, match, validate, wcxf2eos', 'WC.load, EFT.load, Basis.load'],
     tech=LIBC + ' on the input side; metamorphic oracle (undisturbed delivery) plus the library result',
     note='Inputs are UTF-8.')

prop('C06', 'Exit status 0 means the complete result was delivered',
     'A command line tool ends with exit status 0 only if the complete, correct result has reached the requested file or standard output; a full disk, a write, flush or close error, a broken pipe or an output that cannot be opened gives a non-zero status. '
     'A request that cannot be carried out (unknown format, basis, EFT or type, malformed or incomplete input) gives a non-zero status. '
     'Partial writes and interrupted system calls alone never make a valid request fail or lose data.',
     ['fault_sequences', 'inputs', 'configurations'], 'every command, every output fault at every step',
     'The tests look at the exit status of a few successful runs on a disk that never fails.',
     ['cli.py', 'converters/yamljson.py', 'converters/eos.py', 'converters/smeftsim.py'], [('result written and flushed before returning', 'cli.py _write_output'), ('status returned to the caller', 'cli.py wcxf_cli')],
     [], ['exit status, output file, standard output of wcxf, wcxf2eos, wcxf2smeftsim'],
     tech=LIBC + ' on the output side (ENOSPC, EIO, EPIPE, quota, short writes, EINTR, loss at close); oracle: undisturbed run and library result',
     note='92% of the runs emulate interpreter shutdown for the package\'s modules only; 8% run the genuine one.')

prop('C07', 'A command that fails before it has a result leaves the output alone',
     'If a command fails, is interrupted or is killed before it has computed its result, an existing output file keeps its content and no new file appears. '
     'A command may name its own input file as output; it then gives the same result as with a separate file.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every command, every reason of failure, every point up to the first write of the result',
     'The tests write to fresh temporary files and never fail with an output file named.',
     ['cli.py'], [('output opened only to write the result', 'cli.py _write_output, smeftsim')],
     [], ['contents of the working directory before and after'],
     tech=LIBC + ' (crash, interrupt and errors at every input step, invalid requests); oracle: directory snapshot',
     note='What happens to the file when writing the result itself fails is not claimed.')

prop('C08', 'Dumping writes the complete object or raises, and leaves it unchanged',
     'Dumping a coefficient file, EFT or basis as JSON or YAML either delivers a text that loads back to an equal object, or raises; a stream that fails has received at most a prefix of that text. '
     'Dumping never changes the object, can be repeated, and works while other threads use the same object.',
     ['fault_sequences', 'schedules', 'histories', 'inputs'], 'every object, every preceding use, every failing write, every interleaving of users',
     'The tests dump once, before anything else touched the object, to a stream that never fails.',
     ['classes.py'], [('public fields only, by format', 'classes.py WCxf.dump'), ('cached numbers kept private', 'classes.py WC.dict')],
     [('_dict', 'cached numeric values', 'classes.py WC')], ['text returned or written by dump; load of that text'],
     tech='deterministic simulation: failing and short streams, libc seam, seeded thread schedules; round-trip and prefix oracles',
     note='Text streams accept a write completely or raise.')

prop('C09', 'A translation or matching result depends only on its own arguments',
     'Translating or matching coefficients gives the same result whatever was translated or matched before or is being computed at the same time in other threads, and whatever the caller did with earlier results. '
     'It modifies neither its input, the parameters passed in, the default parameters, nor results handed out earlier.',
     ['histories', 'schedules', 'inputs'], 'every sequence of calls over all routes, parameter sets and inputs; every interleaving',
     'The tests call each route in isolation with the default parameters; mixed histories and simultaneous calls are never compared with a fresh process.',
     ['classes.py', 'translators/smeft.py', 'translators/wet.py', 'matchers/smeft.py', 'matchers/__init__.py', 'parameters.py', 'util/smeftutil.py'],
     [('parameters copied before being updated', 'translators/wet.py, matchers/smeft.py'), ('input converted to a private dictionary', 'classes.py WC.dict')],
     [('p', 'default parameters', 'parameters.py'), ('_dict', 'cached numbers of a coefficient file', 'classes.py')], ['WC.translate, WC.match results'],
     tech=THREADS + ' and seeded call histories; oracle: the same call alone in a pristine process',
     note='numpy and rundec calls are atomic steps.')

prop('C10', 'Running couplings and masses depend only on their arguments',
     'The strong coupling and the running quark masses have the same value for the same arguments in every history: independent of earlier calls, of cache contents and evictions, of concurrent callers, of failed or interrupted calls, and of whether numbers are passed as int or float, positionally or by keyword. '
     'Invalid arguments are rejected every time.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'], 'every sequence of calls longer than the cache, every interleaving, every interruption',
     'The tests evaluate a handful of points, each once, in one order.',
     ['util/qcd.py'], [('memoised functions keyed by typed arguments', 'util/qcd.py lru_cache(typed=True)')],
     [('function caches', '32 most recent results', 'util/qcd.py')], ['alpha_s, m_b, m_c, m_s'],
     tech=THREADS + ', seeded call histories with interruptions; oracle: the call alone in a pristine process',
     note='rundec itself is trusted.')

prop('C11', 'The LaTeX check of a basis cleans up and gives an honest verdict',
     'Validating a basis leaves no files behind in the temporary or working directory, whether latex succeeds, fails, crashes, is killed or is missing, and whether the check is interrupted or the disk is full. '
     'It reports success only if latex was missing or ran successfully on the complete document, and simultaneous checks do not influence each other.',
     ['fault_sequences', 'crash_points', 'schedules', 'configurations'], 'every behaviour of the latex process, every fault between creation and clean-up, every interleaving of checks',
     'latex is not installed where the tests run; at best one successful call is exercised.',
     ['classes.py'], [('temporary directory removed on every path', 'classes.py _testtex'), ('verdict from the exit status of latex', 'classes.py _testtex_dir')],
     [], ['temporary directory afterwards', 'Basis.validate, wcxf validate basis'],
     tech='deterministic simulation: scripted latex process, libc seam (disk full, fork, pipe and file errors, SIGINT), seeded thread schedules; oracles: empty directory, verdict implied by the script',
     note='No fault is injected inside mkdtemp and rmtree themselves.')

prop('C12', 'Validation succeeds exactly for valid files, by the current definitions',
     'Validating a coefficient file, basis or EFT succeeds if and only if the file was read completely and is valid against the EFTs and bases registered at that moment: known EFT and basis, only coefficients of that basis, only sectors of that EFT, no coefficient in two sectors. '
     'Earlier validations, replaced or deleted definitions, interruptions and concurrent changes of other definitions do not influence the verdict; a truncated file is judged by what it contains.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'], 'every file, every truncation and read fault, every history of definitions and validations, every interleaving with redefinitions',
     'The tests validate a few files once against definitions that never change.',
     ['classes.py', 'cli.py'], [('comparison with the registered basis', 'classes.py WC.validate, Basis.validate'), ('coefficients of a basis', 'classes.py Basis.all_wcs'), ('exit status', 'cli.py validate')],
     [('instances', 'registered definitions', 'classes.py')], ['exit status of wcxf validate', 'exceptions from validate()'],
     tech='deterministic simulation: libc seam with torn and failing input, histories with interruptions, seeded thread schedules; refinement against a model of the validation rules',
     note='Types other than those of the format are not judged.')

prop('C13', 'The EOS conversion uses the complete set of EOS parameters or fails',
     'Converting to EOS gives exactly the parameters of all relevant files of the EOS installation, each with the contribution of the coefficients added, and the values do not depend on the order in which the directory is listed or on previous conversions. '
     'If the directory cannot be listed or any file cannot be opened, read or parsed the conversion fails; it never silently uses a part.',
     ['fault_sequences', 'configurations', 'histories', 'inputs'], 'every set of parameter files, listing order, read fault and history of conversions',
     'The test feeds one prepared dictionary and never lists or reads a directory.',
     ['converters/eos.py', 'cli.py'], [('sorted listing, every file read', 'converters/eos.py get_sm_wcs'), ('sum of both contributions', 'converters/eos.py wcxf2eos')],
     [], ['output of wcxf2eos', 'get_sm_wcs and wcxf2eos'],
     tech=LIBC + ' (listing order, listing/open/read/stat errors, listings that break off, links, short reads, broken files, changing installation); oracle: model of the parameter files',
     note='Where two files define the same name either value is accepted as long as it is the same in every order.')

prop('C14', 'An interrupted operation leaves the library as if it had never started',
     'If a library operation (translation, matching, running, loading, dumping, validation, EOS conversion) is cut short by an interrupt or by lack of memory at any point, every later operation, including a repetition of the same one, gives the result a fresh process would give. '
     'Inputs, default parameters, registered definitions and settings of the whole process (working directory, environment, signal handlers, floating-point error state and the like) are unchanged.',
     ['crash_points', 'histories'], 'every operation, every line or bytecode at which it can be interrupted, every later operation',
     'No test interrupts anything.',
     ['classes.py', 'translators/wet.py', 'translators/smeft.py', 'matchers/smeft.py', 'util/qcd.py', 'converters/eos.py'],
     [('results cached only when complete', 'classes.py WC.dict, Basis.all_wcs'), ('no modification of shared state', 'translators, matchers')],
     [('_dict, _all_wcs', 'values computed on first use', 'classes.py')], ['results of later operations'],
     tech='deterministic simulation: asynchronous exception injected at a seeded line or bytecode; oracle: each later operation alone in a pristine process',
     note='Exceptions arrive between bytecodes of the package, not inside C functions.')

prop('C15', 'The same request gives the same coefficients in every process',
     'The same command or call on the same data gives the same coefficients, verdicts and listings in every process: independent of hash randomisation, of the optimisation level of the interpreter, of the order in which directories are listed, of the order of the entries in the file, and of whether it is written as JSON or YAML.',
     ['configurations', 'inputs'], 'every request, every hash seed, listing order and order of entries',
     'The tests run in one process with one hash seed and compare nothing across processes.',
     ['classes.py', 'translators/smeft.py', 'translators/wet.py', 'matchers/smeft.py', 'util/smeftutil.py', 'converters/eos.py', 'converters/smeftsim.py'],
     [('no dependence on set order or hash', 'translators, matchers, converters'), ('sorted listings', '__init__.py, converters/eos.py')],
     [], ['output of every command; results of WC.translate and WC.match'],
     tech='deterministic simulation: the same request in processes with seeded hash, import and listing order and permuted input; differential oracle',
     note='Numbers are compared within rounding.')

prop('C16', 'Commands running at the same time or after a crash do not disturb each other',
     'Several command line tools running at the same time in the same directory with different output files each end with the same status and result as alone, leave no other files behind, and do not change their inputs. '
     'If one of them is killed, interrupted or hits an I/O error at any point the others are unaffected, and running it again succeeds as if nothing had happened.',
     ['schedules', 'crash_points', 'fault_sequences'], 'every interleaving of the file-system steps of two or three processes, every point of a kill',
     'The tests run one command at a time and never kill one.',
     ['cli.py', 'classes.py', 'converters/eos.py', 'converters/smeftsim.py'], [('private temporary directory per check', 'classes.py _testtex'), ('no shared scratch or state files', 'cli.py')],
     [], ['exit statuses, outputs and directory contents of all processes'],
     tech='deterministic simulation: several real processes gated at every file-system step by a seeded scheduler, with kills, torn writes, interrupts, errors and restart',
     note='Scheduling is at file-system steps; temporary names are seeded equal to provoke collisions.')

prop('C17', 'A SMEFTsim card is written only for a valid, confirmed input',
     'The SMEFTsim converter writes its card only for a file that was read completely and is valid and, if it is not in the Warsaw mass basis, only after the answer "i" or "I" to its warning. '
     'End of input, any other answer, a read error, an interrupt or a kill while waiting leaves an existing card untouched and creates none; a card that is written is the one for the given coefficients.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every file, every dialogue and terminal fault',
     'The test calls the conversion functions directly and never goes through the dialogue.',
     ['cli.py', 'converters/smeftsim.py'], [('validation and confirmation before the output is opened', 'cli.py smeftsim')],
     [], ['the card file', 'exit status'],
     tech=LIBC + ' with a scripted terminal (answers, end of file, chunked input, interrupt, error, kill)',
     note='Answers ending in a carriage return, and the exit status of a declined conversion, are not judged.')

NA = ('the function is a pure map from arguments to numbers: no schedule, clock, I/O, fault or history enters, so the simulator has nothing to vary; '
      'that it does not depend on history, threads, interruptions or processes is claimed by C09, C10, C14 and C15')
prop('C18', 'Translating to another basis and back restores the coefficients',
     'For every pair of bases with translators in both directions, translating there and back gives the original coefficients for every input inside the common set of operators.',
     ['inputs'], 'every coefficient file', 'The tests try single coefficients or one random point per route.',
     ['translators/wet.py', 'translators/smeft.py'], [('inverse formulas', 'translators/wet.py')], na=NA)
prop('C19', 'Translation and matching implement the published relations',
     'Every output coefficient is the combination of input coefficients and parameters given by the definitions of the bases, for every input and scale.',
     ['inputs'], 'every coefficient file, scale and parameter set', 'The tests compare a few coefficients with literature values.',
     ['translators/wet.py', 'translators/smeft.py', 'matchers/smeft.py'], [('formulas', 'translators/wet.py')], na=NA + '; there is also no independent reference offline')
prop('C20', 'Running couplings and masses solve the renormalisation group equations',
     'The running strong coupling and masses agree with the solution of the renormalisation group equations including flavour thresholds at every scale.',
     ['inputs'], 'every scale and number of flavours', 'The tests compare a few points with published values.',
     ['util/qcd.py'], [('rundec', 'util/qcd.py')], na=NA)
prop('C21', 'Every entry of a SMEFTsim card is the right coefficient',
     'Each entry of the card holds the modulus, phase, real or imaginary part of the coefficient its label names.',
     ['inputs'], 'every coefficient file and both model sets', 'The test checks that a card can be made.',
     ['converters/smeftsim.py'], [('table of entries', 'converters/smeftsim.py smeftsim_card_fill')], na=NA + '; that the written card is the converter\'s own output for the given file is claimed by C06 and C17')

FIX = {}


def main():
    with open(os.path.join(OUT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash ./setup.sh',
         'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the seams are libc (LD_PRELOAD), sys.monitoring and fork, all outside the package', 'source_commits': []},
         'checks': [], 'not_applicable': [],
         'notes': 'run.sh CHECK [--tier quick|thorough] [--seed N] [--replay FILE]; see DESIGN.md. The fix: commits in /repo are listed in KNOWN_FINDINGS.txt.'}
    for p in P:
        if p['_na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['_na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': './run.sh %s --tier quick' % p['id'], 'thorough_cmd': './run.sh %s --tier thorough' % p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['_tech'], 'level': 'exploration', 'level_note': p['_note']})
    with open(os.path.join(OUT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
