#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'exhaustive enumeration of bounded module bytes run through decoding and validation, compared with an executable model of WebAssembly 1.0',
 'C02': 'exhaustive exploration of the typing state machine: all bounded bodies over small alphabets plus the state graph of the reference validator, each path run on the real validator',
 'C03': 'exhaustive enumeration of operand stacks for every instruction and of call signatures, real validator compared with the reference model',
 'C04': 'exhaustive enumeration of memory instructions, alignments, offsets and memory configurations against the reference model',
 'C05': 'exhaustive enumeration of index-space shapes and boundary indices against the reference model',
 'C06': 'exhaustive enumeration of constant-expression instruction sequences and global environments against the reference model',
 'C07': 'exhaustive enumeration of boundary limits, table/memory counts, result arities and start types against the reference model',
 'C08': 'exhaustive enumeration of bounded export name lists against the reference model',
 'C09': 'exhaustive enumeration of bounded import/export lists; reported external types compared one by one with the reference model',
 'C10': 'exhaustive enumeration of bounded byte strings, mutations of base modules and nesting shapes under a crash/hang/panic monitor',
 'C11': 'exhaustive enumeration of inflated counts at every position under an allocation monitor',
 'C12': 'exhaustive enumeration of bounded instruction byte strings and block structures; decoded tree compared with the reference decoder',
 'C13': 'exhaustive enumeration of bounded section entry bytes; decoded value compared with the reference decoder',
 'C14': 'exhaustive enumeration of bounded section sequences, sizes and custom sections against the reference decoder',
 'C15': 'exhaustive enumeration of function/code section counts and type assignments against the reference decoder',
 'C16': 'every prefix of a structured family of modules enumerated and decoded, compared with the reference decoder',
 'C17': 'exhaustive enumeration of LEB128 byte strings per width against the reference decoder',
 'C18': 'exhaustive enumeration of bounded byte patterns for bytes, arrays and floats against the reference decoder',
 'C19': 'exhaustive enumeration of vectors, names and run-length lists over bounded bytes and sizes against the reference decoder',
 'C20': 'exhaustive enumeration of declared against actual sizes, nested, against the reference decoder',
 'C21': 'exhaustive enumeration of element sequences over 12 kinds of byte source, compared with the reference decoder element by element',
 'C22': 'exhaustive enumeration of bounded operation histories, every outcome compared with the reference model',
 'C23': 'exhaustive enumeration of malformed inputs; reported error kind compared with the reference decoder',
 'C24': 'exhaustive enumeration of bounded command lines, file states and modules run through the built tool, compared with a model of it',
 'C25': 'exhaustive enumeration of bounded lists of function bodies; verdict of the module compared with the verdicts of its functions alone',
 'C26': 'exhaustive enumeration of nestings and of two-thread schedules with bounded context switches at byte granularity, every outcome compared with the reference model',
 'C27': 'exhaustive enumeration of bounded syntax trees, including ones no binary encodes, under a panic/hang monitor',
 'C28': 'exhaustive enumeration of inputs and of user decoder behaviours for every container shape; call log, values, errors and drops compared with a reference',
 'C29': 'exhaustive enumeration of pairs of modules within bounded families; equality and printing compared with equality in the reference model',
}
checks = []
for line in open(f'{here}/properties.jsonl'):
    p = json.loads(line)['id']
    checks.append({
        'property': p,
        'quick_cmd': f'bash ./check.sh {p} quick',
        'thorough_cmd': f'bash ./check.sh {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'explicit-state model checking: ' + TECH[p],
        'level': 'model_checking',
        'level_note': 'every path of the bounded choice trees named in the evidence is executed on the code built from /repo; the reference model is an independent executable reading of the WebAssembly 1.0 specification; nothing outside the bounds is claimed',
    })
json.dump({'version': 1, 'setup_cmd': 'bash ./build.sh', 'checks': checks, 'not_applicable': [],
  'notes': 'Known findings and repairs are in known-findings.txt. No hooks in /repo are needed: the checks drive the public API of the library and the built command line tool.'},
  open(f'{here}/MANIFEST.json', 'w'), indent=1)
open(f'{here}/MANIFEST.json', 'a').write('\n')
