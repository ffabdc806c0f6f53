#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FW = 'src/easyMockFramework/src/easyMock.cpp'
MF = 'src/easyMockFramework/src/MockedFunction.c'
MT = 'src/easyMockFramework/src/easyMock_matcher.cpp'
CS = 'src/easyMockFramework/src/cstring.c'
MH = 'src/easyMockFramework/include/MockedFunction.h'
CG = 'src/easyMockGenerate/src/CTemplateGenerator/CodeGeneratorCTemplate.cpp'
LP = 'src/easyMockGenerate/src/LLVMParser/LLVMParser.cpp'
MCG = 'src/easyMockGenerate/src/MainCodeGenerator.cpp'
MAIN = 'src/easyMockGenerate/src/main.cpp'
CLP = 'src/easyMockGenerate/src/CmdLineParser/CmdLineParser.cpp'

P = []


def prop(id, title, statement, over, text, why, files, mech, note, thorough=True, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


prop('C01', 'The verdict of a test is sound and complete',
     'After any sequence of expectations, mock calls and checks, the check passes exactly when every mocked function was called as many times as it was expected, every argument satisfied the matcher given for it, '
     'class instances were the expected ones, and (when order checking is on) the calls came in the expected order. Otherwise it fails, and it keeps failing until the framework is initialised again. '
     'No history makes the framework crash, hang or end the test process.',
     ['histories', 'schedules', 'inputs'],
     'all histories of init, expectations, calls, checks and setting changes over any set of mocked functions, interleaved in any order by any number of test tasks, with any argument values and matchers',
     'The tests run a fixed script per header (a few expectations, a few calls, one deliberate error); they never interleave many functions, settings, repeated checks and mixed failures in one history.',
     [FW, MF, MH, MT, CG], [('per-function call and expectation queue', MH + ' and ' + MF), ('error list and check', FW), ('generated mock body', CG)],
     'seeded search over histories; every operation is compared with a reference model, memory errors show through a guarding allocator')
prop('C02', 'The n-th call meets the n-th expectation, with its return value and output data',
     'The n-th call of a mocked function since initialisation is answered by the n-th expectation recorded for that function: its matchers judge the arguments, its return value is returned and its output data is copied to where the pointer argument points, byte for byte. '
     'Other functions, later changes to the caller\'s variables, calls made from inside a matcher and failures of other calls do not disturb that pairing; an unexpected call returns a default value and consumes no expectation of another function. '
     'Nothing is written outside the output arguments.',
     ['histories', 'schedules', 'inputs', 'programs'],
     'all interleavings of expectations and calls over several functions of several modules, all argument, return and output values, nested calls from matchers, mutation of pointed-to data between expectation and call',
     'Tests check one function at a time with two expectations and constant data; pairing after errors, after mutation, or while re-entered is never sampled.',
     [MF, MH, CG, 'src/easyMockFramework/src/easyMock_glueStdlib.c'], [('add/get current expectation', MH), ('copying of return value and out data', CG)],
     'seeded search over interleavings with bit-exact comparison of returned and written data against the model; shadow copies of all pointed-to memory detect stray writes')
prop('C03', 'Order checking reports exactly the calls that are out of order',
     'With order checking on, a call that is expected but is not the next one in the global order of the expectations is reported, naming both the function called and the one that was due, and makes the check fail; a call in its turn is never reported, whichever modules the functions come from. '
     'With order checking off, order never influences the verdict.',
     ['histories', 'schedules'],
     'all interleavings of expectations and calls over functions of several modules, with order checking switched on or off in any test and between operations',
     'The tests check one swapped pair of two functions; drift after errors, across modules, after changes of the setting or after init is not reached.',
     [FW, MF, CG], [('global queue of expected calls', FW + ' addCall/popCurrentCall'), ('comparison in the mock', CG)],
     'seeded search over interleavings of order-checked tests against the model queue')
prop('C04', 'Initialisation isolates a test from whatever came before',
     'After initialisation, a test behaves as if it were the first one of the process, whatever the tests before it did: left expectations behind, failed, were abandoned in the middle of a mock call (a longjmp or an exception out of a matcher), or never called check. '
     'Only the settings (order checking, call stacks) carry over.',
     ['histories', 'crash_points', 'schedules'],
     'all prefixes of all test histories, abandoned at any operation or inside any matcher, followed by initialisation and any further history',
     'Each test case of the suite starts from a clean fixture and finishes; abandonment at an arbitrary point and the behaviour of what follows is never tried.',
     [FW, MF, CG], [('init of the framework and of each mocked file', FW), ('per-function reset', MF)],
     'seeded search with abandonment as the crash fault; the model restarts from empty at init and every later operation is compared')
prop('C05', 'The error report is complete, accurate and consistent',
     'Every failure is reported exactly once per cause, in the order it happened, and every message names the function, the call number and, for an argument, the parameter and both values. '
     'The text view and the array view hold the same errors, are empty exactly when no error was recorded, and reading them changes nothing.',
     ['histories', 'inputs', 'schedules'],
     'all histories with any number of failures of any kind, all argument values (long strings included), views read at any moment and any number of times',
     'The tests compare a handful of fixed messages; counting, ordering, truncation of long texts and repeated reading in mixed histories are not covered.',
     [FW, MT, CS], [('error list, string and array views', FW), ('message building in matchers', MT), ('string type', CS)],
     'seeded search; the recorded errors are compared one by one with the model\'s, and the two views with each other, after every operation')
prop('C06', 'A comparator accepts an argument exactly when it equals the expected value',
     'For every type (integers, floating point, pointers, strings, arrays, bit fields, structs, unions, nested and anonymous members, typedefs) the comparator of that type accepts an argument if and only if every field equals the expected one. '
     'For pointers, what counts is the content at the time of the call (where the comparator compares content); padding and memory outside the value never matter, and a null pointer is reported instead of being dereferenced.',
     ['inputs', 'programs', 'histories'],
     'all values of all generated types, with differences placed in any single field, padding filled at random, and pointed-to data changed between expectation and call',
     'Tests compare one or two hand-written structs with one changed field each; single-bit differences in arbitrary members of arbitrary types and aliasing over time are not reachable.',
     [MT, CG], [('built-in comparators', MT), ('generated struct and union comparators', CG)],
     'seeded search over types, values, single-field mutations and mutation schedules; equality recomputed from the type\'s layout by the simulator')
prop('C07', 'Mocked modules can be loaded and unloaded at any time',
     'A module of mocks can be loaded or unloaded at run time, in any order and at any moment between mock calls; a loaded module takes part in init and check, an unloaded one no longer does, and the others are not affected. '
     'Reloading gives a fresh module, and nothing the framework still holds refers to an unloaded one.',
     ['histories', 'schedules'],
     'all interleavings of loading, unloading and using several modules, across and within tests',
     'Every test program links its mocks statically, so that registration order is fixed and unregistration only happens at exit.',
     [FW, CG], [('register/unregister of mocked files', FW), ('constructor/destructor of the generated file', CG)],
     'seeded search with dlopen/dlclose as operations of the simulated tasks; use of unloaded code is a crash')
prop('C08', 'Running out of memory or capacity is never silent',
     'When an allocation fails, or more expectations are recorded than a mock can hold, the framework either completes the operation correctly, reports a failure, or ends the process with a message; it never drops an expectation, loses an error or corrupts memory silently. '
     'A mock holds its documented number of expectations exactly, and after a failure was survived, initialisation restores normal service.',
     ['fault_sequences', 'histories'],
     'all allocation failures (single, repeated, permanent) at any allocation of any operation, and all numbers of expectations around the capacity',
     'The tests never make an allocation fail and never approach the capacity.',
     [MH, MF, CS, FW, MT], [('capacity check', MH), ('allocation checks', CS)],
     'seeded search over allocation-failure points; outcome must be correct, loud, or reported')
prop('C09', 'Failing to produce a backtrace never changes the verdict',
     'With call stacks switched on, failures of any kind while producing a backtrace (files that cannot be opened, read or mapped, exhausted descriptors or memory) never end the process, never change the verdict, and never lose or alter the error they belong to.',
     ['fault_sequences', 'histories'],
     'all failures of open, read, fopen and mmap, at any of their calls and for any duration, during any history with call stacks on',
     'The tests only print call stacks on a healthy system.',
     [FW], [('addError with call stack', FW)],
     'seeded search over I/O fault plans injected under boost.stacktrace/libbacktrace')
prop('C10', 'Repeating a test does not accumulate memory or descriptors',
     'Running the same test again and again, with initialisation in between, reaches a state in which memory and file descriptors no longer grow, whether the tests pass, fail, or print call stacks.',
     ['histories'],
     'all test histories repeated any number of times',
     'Each test of the suite runs once; leaks are only checked by hand.',
     [FW, MF, CS, CG], [('release of expectations and errors at init', FW)],
     'seeded search; each history is repeated tens of times in one process and live blocks, bytes and descriptors are compared between windows')
prop('C11', 'A successful exit of the generator means complete, correct outputs',
     'When the generator exits with status 0, both of its output files exist and are byte for byte what an undisturbed run writes, whatever I/O errors, short reads or writes, interruptions, full disks or failing allocations it met, and whatever stale files were there before.',
     ['fault_sequences', 'inputs'],
     'all sequences of failing or shortened system calls and allocations at any point of a run, over seeded headers and command lines',
     'The tests run the generator in-process on a healthy disk.',
     [CG, MCG, MAIN], [('opening, writing and closing the outputs', CG), ('exit status', MAIN)],
     'seeded search over fault plans at the system-call boundary of the real generator; outputs compared with an undisturbed run')
prop('C12', 'The generator fails loudly and always ends',
     'When the generator cannot do its work (missing or unreadable input, header that does not parse, unusable output directory, incomplete command line, any I/O error) it ends within a bounded number of steps, with a non-zero status and a message on standard error. '
     'It never crashes with a memory fault and never exits with 0 without its outputs.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all broken headers, broken command lines and sequences of system-call failures',
     'The tests feed it one or two malformed headers; arbitrary corruption and I/O failures at arbitrary points are not tried.',
     [MAIN, CLP, LP, MCG, CG], [('validation of parameters', MAIN), ('error of the parser', LP + ' / ' + MCG)],
     'seeded search over corrupted inputs, broken command lines and fault plans, with a bound on system calls and CPU time for progress')
prop('C13', 'The generator touches nothing but its two output files',
     'A run of the generator, successful, failing, killed or concurrent with others, creates, changes and removes nothing except its two output files; inputs, neighbours of the outputs and the rest of the file system stay as they were, and no other process or connection is started.',
     ['fault_sequences', 'crash_points', 'inputs', 'schedules'],
     'all runs over seeded inputs, fault plans, kill points and interleavings of several processes',
     'The tests look at the outputs only.',
     [CG, MCG, MAIN], [('output paths', CG)],
     'every file-system call is seen by the simulator; the whole scratch tree is compared before and after each run')
prop('C14', 'The outputs are a function of the header and the options alone',
     'The same header and options give byte-identical outputs, independent of memory layout, environment variables, locale, clock, working directory, spelling of the paths, position of the options, earlier runs, stale outputs and the place of the output directory.',
     ['configurations', 'inputs', 'histories'],
     'all combinations of heap layouts, environments, clocks, working directories, path spellings and earlier runs, over seeded inputs',
     'The tests compare parsed structures or compile the output once; run-to-run variation is never provoked.',
     [CG, LP, 'src/easyMockGenerate/src/ElementToMockContext.cpp', CLP], [('collections of types and functions', CG), ('paths', CLP)],
     'seeded search over simulated environments with scattered heap addresses and simulated clock')
prop('C15', 'A killed generator leaves nothing a later run cannot repair',
     'When the generator is killed at any point, or power is lost so that its files are torn, truncated, zero-filled or missing, its inputs are intact and a later undisturbed run succeeds and writes the same outputs as if nothing had happened, also after repeated crashes.',
     ['crash_points', 'fault_sequences'],
     'all crash points (every system call, before and after; partial writes), followed by any loss of unsynced data, repeated any number of times',
     'No test kills the generator.',
     [CG, MCG], [('outputs are rewritten from scratch', CG)],
     'seeded search over crash points and disk states after power loss')
prop('C16', 'Generators running side by side do not disturb each other',
     'Several generators running at the same time over headers that share included files and an output directory, even twice over the same header, or with some of them failing or killed, produce the same outputs as when run one after the other.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all interleavings, at system-call granularity, of up to eight generator processes, with faults and kills in some of them',
     'The tests run one generator at a time; a parallel build runs many.',
     [CG, MCG, LP], [('no shared intermediate files', CG)],
     'seeded scheduler decides the order of every file-system call of all processes')
prop('C17', 'C mocks compile, load and behave, for any supported C header',
     'For every C header made of the supported kinds of declarations, and any combination of generation options, the generated mock compiles without the user\'s help, agrees with the header on the size and layout of every type and on constants (also when the types are regenerated), and behaves as the runtime properties demand.',
     ['programs', 'inputs', 'histories'],
     'all headers drawn from a grammar of C declarations (functions, structs, unions, enums, bit fields, arrays, function pointers, typedefs, macros, includes), all option combinations',
     'The tests use one hand-written header per feature; combinations of features are not reached.',
     [CG, LP], [('parser', LP), ('code templates', CG)],
     'seeded headers go through the real generator and compiler into the simulator, which drives them through seeded schedules')
prop('C18', 'C++ mocks compile, load and behave, for any supported C++ header',
     'For every C++ header made of the supported kinds of declarations (functions in nested namespaces, classes with member functions, references, C types), the generated mock compiles, and behaves as the runtime properties demand, including the check of the instance a member function is called on.',
     ['programs', 'inputs', 'histories'],
     'all headers drawn from a grammar of C++ declarations, all option combinations',
     'The tests use one hand-written header per feature.',
     [CG, LP], [('parser', LP), ('C++ code templates', CG)],
     'seeded C++ headers go through the real generator and compiler into the simulator, which drives them through seeded schedules')
prop('C19', 'The selection options mock exactly the selected functions',
     'With the options that select functions (only these, all but these, included headers too), the generated mock defines exactly the selected functions: none missing, none added, in any combination with the other options; the others stay free for the user to define.',
     ['configurations', 'programs'],
     'all combinations of selection options over seeded headers and includes',
     'The tests use each option once, on one header.',
     [LP, CG, CLP], [('filter of functions', LP)],
     'symbols of the compiled mock are compared with the selection, then the selected mocks are driven in the simulator')

NA = [
    ('N01', 'Type model equality and hashing', 'Two parsed types compare and hash equal exactly when they denote the same type.',
     'a pure function of its arguments without concurrency, time, I/O or other parties: nothing for a simulator to schedule or to fail; what users see of it is decided under C14 and C17'),
    ('N02', 'Every option is parsed as documented', 'Every documented option sets exactly the documented behaviour, independently of the others.',
     'parsing a fixed argument vector is a pure function; its observable consequences under faults are part of C12, C14 and C19'),
    ('N03', 'The parser models every declaration faithfully', 'The internal model of a header reproduces every declaration of it.',
     'internal representation without nondeterminism; decided only as far as the generated mock shows it (C17, C18)'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
        for i, t, s, r in NA:
            f.write(json.dumps({'id': i, 'title': t, 'statement': s, 'quantifier': {'over': ['inputs'], 'text': 'all inputs'}, 'why_tests_cant': 'they sample a few inputs',
                                'anchors': {'files': [LP, CLP], 'mechanism': [{'name': 'see statement', 'where': LP}]}}) + '\n')
    level = 'Sampling: a bounded number of seeded runs per check; a violation is reported only after a fresh process reproduced it from its replay file. '
    m = {
        'version': 1,
        'setup_cmd': 'python3 -m vf.build',
        'hooks': {'guard': 'none', 'enable': 'no hooks: allocator, file system, clock, scheduling and test tasks are reached through link-time and system-call seams', 'source_commits': []},
        'checks': [{'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                    'technique': 'deterministic simulation with fault injection: ' + p['note'].split(';')[0], 'level': 'exploration', 'level_note': level + p['note'] + '.'} for p in P],
        'not_applicable': [{'property': i, 'reason': r} for i, t, s, r in NA],
        'notes': 'See DESIGN.md. known-findings.txt lists repaired and known defects. python3 check.py --replay FILE executes a replay file.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
