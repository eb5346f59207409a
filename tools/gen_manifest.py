#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property listed in the harness's table."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = re.findall(r'\("(P\d\d)", ', open(root + '/harness/src/props/mod.rs').read())
T = {
 'P01': 'property-based fuzzing: grammar-aware mutation of OCAfile text, crash and determinism oracle',
 'P02': 'property-based testing: generated instruction lists rendered in random layouts, reference model of the instructions',
 'P03': 'property-based testing: print/parse round trip over generated instruction lists',
 'P04': 'stateful model-based testing: random add/remove histories against a set model',
 'P05': 'property-based testing: JSON round trip over generated instructions; exhaustive enumeration of the numeric codes',
 'P06': 'model-based testing: generated instruction lists built and compared with a reference content model',
 'P07': 'metamorphic property-based testing: reorderings and splittings keep identifiers, single edits change them; separate processes agree',
 'P08': 'property-based testing: JSON encode/load round trip and regeneration over generated bundles',
 'P09': 'property-based testing: bundle to OCAfile to bundle round trip over generated bundles',
 'P10': 'property-based mutation fuzzing of bundles: validator accepts built ones and exposes each generated tampering',
 'P11': 'model-based testing: generated translation sets against a reference model of missing/unexpected translations',
 'P12': 'differential property-based testing: generated expressions and values against an independent evaluator',
 'P13': 'stateful property-based testing: every split of a generated instruction list, step chain invariants',
 'P14': 'stateful model-based testing of the facade: histories of builds, resubmissions and reopenings',
 'P15': 'stateful property-based testing: recorded histories replayed and rebuilt; bounded-read oracle for termination',
 'P16': 'stateful fault-injection testing: rejected files among accepted ones, full store snapshots compared',
 'P17': 'model-based testing: generated reference graphs, transitive closure oracle',
 'P18': 'stateful model-based testing: generated naming histories against a map model',
 'P19': 'stateful property-based testing: page walks over generated listings for all page sizes',
 'P20': 'model-based testing and fuzzing of search: reference matcher for word queries, crash oracle for arbitrary text',
 'P21': 'model-based testing: generated bundle collections against a relation model',
 'P22': 'stateful model-based and fault-injection testing: operation histories on every backend against a map model, with reopening, writes that fail or are cut short in a process of their own, and handles used at once',
 'P23': 'property-based testing: generated transformation files against a reference model and JSON round trip',
 'P24': 'property-based testing: generated and mutated URNs against an independent recognizer',
 'P25': 'property-based testing: combined document encode/load round trip',
 'P26': 'property-based fault injection: one failing instruction planted at a random place in a random layout',
 'P27': 'stateful property-based testing: object requests against the objects of the built bundles',
 'P28': 'model-based testing: version records of generated builds against a reference derivation',
 'P29': 'structure-aware fuzzing of bundle documents (JSON mutation), crash oracle',
 'P32': 'property-based testing: generated bundle documents (not built by the software) against a reference validity verdict, byte-for-byte rewriting, and an editing round trip',
 'P31': 'stateful fault-injection testing: every file interrupted before a chosen store or search database write, compared with an uninterrupted run',
 'P33': 'stateful fault-injection testing: a chosen store or search database operation fails while a file is built, compared with an undisturbed run',
 'P34': 'model-based and differential testing: generated compositions through the programming interface against a content model and the built bundle',
 'P35': 'property-based testing: pairs of generated instructions, equal ones written in another order and near misses, against the algebra of equality, hashing, sets and maps',
 'P36': 'stateful fault-injection testing: stored records removed or corrupted after generated histories, every answer compared with the undamaged one',
 'P37': 'stateful model-based testing with fault injection: histories of builds into one version graph against a step-by-step model of the whole store',
 'P38': 'differential testing: generated histories and programs answered by two builds of the library, with and without its optional features',
 'P30': 'property-based fuzzing: arbitrary parsed instruction lists, crash and error-report oracle',
}
NOTE = 'generated-input search with shrinking; evidence reports case counts, non-trivial counts and samples'
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p, 'quick_cmd': f'./check.sh {p} quick', 'thorough_cmd': f'./check.sh {p} thorough', 'technique': T[p], 'level': 'exploration', 'level_note': NOTE} for p in built],
     'not_applicable': [{'property': p, 'reason': 'its check is not built yet'} for p in T if p not in built]}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(built), 'checks')
