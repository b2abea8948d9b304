"""Which analyses decide which property."""
import units_loader, units_min, units_plug, units_compile, genjobs, units_stack

# rules whose violation also breaks the statement of another property
EXTRA = {
    ('C01', 'query'): ('C04',),
    ('C04', 'wrong-symbol'): ('C01',),
    ('C01', 'stale-pointer'): ('C02', 'C03'),
    ('C08', 'stale-path'): ('C02',),
    ('C03', 'stale-handle'): ('C02',),
    ('C21', 'setting-lost'): ('C17',),
    ('C21', 'setting-wrong'): ('C17',),
    ('C17', 'option-line'): ('C21',),
}

LOADER_EXPLAIN = ('Abstract interpretation (typestate dataflow) of the LLVM IR of generated C and C++ loaders: from the initial state every public call is '
    'interpreted abstractly on every reachable abstract loader state (library handle x symbol pointers x recorded path/message/flags) to a fixpoint; every outcome of every '
    'system function is a separate abstract successor, and the obligations of the property are checked on each abstract outcome. Nothing is executed.')
LOADER_ASSUME = ['system loader, libc and libstdc++ functions behave as modelled in sa/models.py and sa/models_cxx.py (every documented outcome, including failure, is enumerated)',
    'single-threaded use of one loader; a declaration set of three functions and one object stands for all sets (templates are instantiated uniformly per symbol, see C18)',
    'the generator is run only to obtain the source text that is analysed', 'analysed as x86-64 Linux IR; Windows and AIX branches are not covered']

LOADER_NOTE = ('Sound over-approximation of all call histories and system outcomes for the analysed configurations, relative to the library models; one loader object, '
    'one declaration set, Linux IR. Reports name the generated function, line and abstract path.')
def loader(rules): return {'jobs': units_loader.jobs, 'explain': LOADER_EXPLAIN, 'assumes': LOADER_ASSUME, 'rules': rules,
    'technique': 'abstract interpretation / typestate dataflow over LLVM IR of the generated loaders', 'note': LOADER_NOTE}

NOT_APPLICABLE = {
}

GEN_EXPLAIN = ('Whole-program abstract interpretation of the generator: all source files of /repo/src are lowered to LLVM IR together with the C++ library templates they instantiate, and main() is interpreted from the '
    'start of the program to exit on abstract inputs - bytes of files, arguments and names may be symbols that stand for sets of values, and every system call may have every outcome the scenario admits. Branches on symbols split the '
    'set of values; each abstract path ends in an exit status, output made of concrete and symbolic bytes, and a list of file-system effects, against which the obligations of the property are checked. No code of the repository is executed. ')
GEN_ASSUME = ['libc, iostream, filesystem and regex functions behave as modelled in sa/gxm.py and sa/gxre.py', 'x86-64 Linux IR; Windows branches are not covered',
    'configurations, template sets and shapes of inputs are enumerated, bytes and outcomes within them are symbolic; bounds are stated in DESIGN.md', 'paths listed as undecided in the evidence are not covered by the verdict']
GEN_NOTE = 'Exhaustive over the symbolic bytes and system outcomes of each scenario; the scenarios (option combinations, input shapes, lengths) are a bounded enumeration. Undecided paths, if any, are listed in the evidence and never reported as violations.'
def generator(jobs, rules, extra='', technique='whole-program abstract interpretation (symbolic byte sets, effect tracking) over LLVM IR of the generator', note=GEN_NOTE):
    return {'jobs': jobs, 'explain': GEN_EXPLAIN + extra, 'assumes': GEN_ASSUME, 'rules': rules, 'technique': technique, 'note': note}



PROPS = {
    'C01': loader(['load-all truth', 'pointer truth']), 'C02': loader(['free outcome', 'forced free', 'autorelease', 'no path after free']),
    'C03': loader(['handle bookkeeping', 'load outcome']), 'C04': loader(['single symbol', 'queries']), 'C05': loader(['wrapper', 'wrapper termination']),
    'C06': loader(['error message', 'error cleared', 'last error']), 'C07': loader(['bounds of every write', 'format arguments', 'string termination']),
    'C08': loader(['resources released', 'null dereference', 'use after release', 'library path']),
    'C11': {'jobs': units_min.jobs, 'explain': LOADER_EXPLAIN.replace('generated C and C++ loaders', 'the generated minimal C and C++ loaders'), 'assumes': LOADER_ASSUME,
            'rules': ['load outcome', 'rejected name', 'pointer truth', 'failure message', 'handle bookkeeping'],
            'technique': 'abstract interpretation / typestate dataflow over LLVM IR of the minimal loaders', 'note': LOADER_NOTE},
    'C09': {'jobs': units_plug.jobs, 'explain': 'Abstract interpretation (ownership/typestate dataflow) of the LLVM IR of the generated plugin loader: every list of up to three null, empty or '
            'non-empty names (three names at most two of them non-empty) is interpreted abstractly with every outcome of every allocation, open, lookup and unload; each returned list is checked entry by entry and then released.',
            'assumes': LOADER_ASSUME, 'rules': ['load outcome', 'entry', 'pointer truth', 'release outcome', 'release of NULL'],
            'technique': 'abstract interpretation / ownership dataflow over LLVM IR of the generated plugin loader',
            'note': 'List length is bounded by three (the loop body treats every entry alike); file names of any content.'},
    'C10': {'jobs': units_compile.jobs, 'explain': 'Type-level witnesses: the generator built from the current tree produces every member of a pairwise (thorough: 3-wise) covering array of configurations '
            '(format, parameter mode, single/separate, header guard style, library form, prefix, pragma once, configuration macros, language standard, platform branch); clang and, for a subset, gcc type-check each one '
            'together with a driver whose static assertions fix the type of every pointer, alias and public function. Symbol tables of the objects give the external names, -dM dumps the macros, and pairs of headers with different '
            'prefixes are compiled in one translation unit in both orders. Nothing is linked or executed.',
            'assumes': ['clang 18 and gcc 13 accept a program exactly when it is well-formed (with the listed warnings as errors)', 'Windows branches are type-checked against the stub headers in harness/win32',
            'combinations documented as unsupported are excluded: see DESIGN.md'], 'rules': ['compile-error', 'not-generated', 'undefined', 'header-definition', 'external-name', 'macro-name', 'coexistence'],
            'technique': 'type-level encodings: static-assertion drivers type-checked over a covering array of configurations',
            'note': 'Covering array of strength 2 (quick) or 3 (thorough), not the full product; one input set with every kind of declaration.'},
    'C12': generator(genjobs.c12, ['no file is opened for writing that exists or was not checked', 'nothing but the requested files is opened or removed', 'removal only when forced', 'forced overwriting is not refused', 'standard output touches no file'],
        'Every path named on the command line is absent, a file, a directory, a symbolic link or a dangling one; the output name itself is symbolic in some scenarios.'),
    'C13': generator(genjobs.c13, ['no unhandled exception, abort or crash', 'failing runs write to standard error', 'a failed system call or an impossible request never ends in exit status 0', 'valid runs do not fail'],
        'Failures of open, read, write, allocation, time and status calls are injected at every call, arguments and option values are symbolic.'),
    'C14': generator(genjobs.c14, ['every output stream is flushed and found good before exit status 0', 'every requested file is written'], 'Every write, flush and close may fail, at every call.'),
    'C15': generator(genjobs.c15, ['no output byte depends on a non-deterministic source', 'no decision depends on one', 'without -no-date only the date line does'],
        'Information-flow: values from the clock, the time zone, the locale, addresses, the environment and the file system carry a mark that follows them through all computations into the output and into branch conditions.',
        'information-flow analysis by whole-program abstract interpretation over LLVM IR of the generator'),
    'C16': generator(genjobs.c16, ['exactly the selected symbols', 'each once, in input order', 'missing symbols fail', 'declared symbols do not'], 'The names of declarations and the values of -S and -P are symbolic.'),
    'C17': generator(genjobs.c17, ['documented options and values are accepted', 'undocumented ones are rejected', 'the setting and only the setting changes', 'order does not matter', '%option lines equal their options', 'help texts'],
        'The effect of each option is the difference it makes in the abstract output; arguments are symbolic strings.'),
    'C18': generator(genjobs.c18, ['no placeholder left', 'each entry once per symbol', 'every occurrence replaced', 'templates complete and in order', 'embedded templates equal the files'],
        'The abstract output is compared line by line with a reference expansion (sa/spec.py, written from the documentation) of the template files of the source tree; the names and types of declarations are symbolic in some scenarios.'),
    'C19': generator(genjobs.c19, ['every load and store inside a live object', 'no use after release', 'no uninitialised decision', 'character classification in range', 'external templates are used'],
        'Every access of the program and of the inlined library code is checked against the bounds and the life time of the object its pointer refers to.'),
    'C20': generator(genjobs.c20, ['token lists equal the reference', 'no echo', 'scanner automaton equals the reference automaton', 'line ends counted'],
        'The scanner function is interpreted on symbolic bytes in many contexts and compared with a reference tokenizer; its transition tables, taken from the IR, are walked in product with reference automata of every start condition, which covers texts of every length.',
        'automaton equivalence over the scanner tables and abstract interpretation of the scanner over LLVM IR'),
    'C21': generator(genjobs.c21, ['every declaration is used as declared or the run fails', 'nothing is invented', 'settings appear in the output', 'nothing dropped next to malformed or unsupported text'],
        'Several hundred forms of declarations, alone and next to other text, with symbolic names in some.'),
    'C22': generator(genjobs.c22, ['every output line is attributed to the template line it came from'], 'The #line directives of the abstract output are resolved for every line and compared with the origin the reference expansion gives.'),
    'C23': generator(genjobs.c23, ['no cycle in the call graph of the program', 'no stack object of run-time size', 'no pattern that repeats without bound', 'call depth and stack objects independent of text length', 'long text used in full'],
        'The call graph of the lowered program is searched for cycles; about sixty kinds of text are interpreted at two lengths and the depth of calls and the size of stack objects compared; every pattern given to the regular-expression library is inspected.',
        'call-graph analysis, pattern inspection and abstract interpretation at two lengths over LLVM IR of the generator',
        'Cycles through direct calls are found for all functions; recursion through indirect calls is found by comparing call depths of the interpreted texts. Recursion inside the C++ library is limited to four known, bounded cases; another one is listed as undecided.'),
}
