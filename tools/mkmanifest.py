#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (edit here, then run)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE_RT = ('Held on the executions observed, in debug and release builds; no claim beyond them. Trusts the independent model in '
           'harness/model (decoder, encoder, value comparison), rustc and the standard library.')
NOTE_CG = ('Held on the schemas, values and inputs generated; no claim beyond them. Trusts the independent schema model, printer, '
           'encoder and decoders in harness, rustc and the standard library.')
C = [
 ('C01', 'online monitor: generated builder programs, every value read back through every reader and compared with the program', 'exploration', NOTE_RT),
 ('C02', 'online monitor: strict independent format judge over every finished buffer', 'exploration', NOTE_RT),
 ('C03', 'differential monitor: every reader against an independent lenient decoder on hostile bytes', 'exploration', NOTE_RT),
 ('C04', 'AddressSanitizer and Miri over the mixed workloads of the runtime checks and direct raw-memory workloads', 'exploration',
  'Undefined behaviour in the executions interpreted by Miri (aliasing, alignment, validity, uninitialised memory, bounds) or instrumented by AddressSanitizer (bounds, lifetime). Thorough adds 32-bit and big-endian hosts under Miri.'),
 ('C05', 'history monitor: the same build calls replayed on builders with other capacities, pasts, resets and clones must give the same bytes', 'exploration', NOTE_RT),
 ('C06', 'online monitor: vtable multiset and presence on the wire against the program', 'exploration', NOTE_RT),
 ('C07', 'typestate monitor: legal and illegal builder call sequences against a reference automaton, with real 2 GiB allocations', 'exploration', NOTE_RT),
 ('C08', 'model-based monitor: iterator operation sequences against a reference sequence', 'exploration', NOTE_RT),
 ('C09', 'differential monitor: buffers from an independent randomised-layout encoder read back through every reader', 'exploration', NOTE_RT),
 ('C10', 'online monitor: framing of every finished buffer and of its truncations against an independent decoder', 'exploration', NOTE_RT),
 ('C11', 'panic, crash and CPU-time monitor over hostile schema texts: bytes, token soup, mutated schemas, unsupported constructs, nesting', 'exploration', NOTE_CG),
 ('C12', 'rustc as the oracle over the code generated from random schemas with hostile names', 'exploration', NOTE_CG),
 ('C13', 'online monitor: generated code of random schemas, every value written and read back through every accessor and compared', 'exploration', NOTE_CG),
 ('C14', 'online monitor: buffers of generated code judged by an independent decoder, buffers of an independent encoder read by generated code', 'exploration', NOTE_CG),
 ('C15', 'online monitor: stored, elided, absent and argument-default values of generated code against the defaults the schema text declares', 'exploration', NOTE_CG),
 ('C16', 'online monitor: conversions of generated enums and unions over defined and undefined discriminants (all values of 8- and 16-bit bases)', 'exploration', NOTE_CG),
 ('C17', 'online monitor: buffers with required and optional fields left out, read by generated code and judged by an independent decoder', 'exploration', NOTE_CG),
 ('C18', 'metamorphic monitor: code of the same declarations in other orders compared item by item; types behind references observed at run time', 'exploration', NOTE_CG),
 ('C19', 'metamorphic monitor: code of the same tokens in other layouts compared byte by byte; documentation traced to the item it precedes', 'exploration', NOTE_CG),
 ('C20', 'differential monitor: outputs of all entry points, processes and repetitions compared byte by byte', 'exploration', NOTE_CG),
 ('C21', 'fault injection at reads, writes, flushes, files and the formatter, with a monitor of what was reported and delivered', 'fault_enumeration', NOTE_CG),
 ('C22', 'online monitor: schemas with one planted defect must be rejected, valid ones accepted', 'exploration', NOTE_CG),
 ('C23', 'recording service generator: the calls it received compared with the declared services, its output located in the code', 'exploration', NOTE_CG),
 ('C24', 'differential monitor: generated accessors on hostile bytes against an independent lenient decoder', 'exploration', NOTE_CG),
 ('C25', 'differential monitor: code of two versions of a schema reading each other\'s buffers', 'exploration', NOTE_CG),
]
def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    have = [c[0] for c in C]
    m = dict(version=1, setup_cmd='python3 check.py --setup',
             checks=[dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py ' + p,
                          thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                          technique=t, level=l, level_note=n) for p, t, l, n in C],
             not_applicable=[dict(property=p, reason='no check built yet') for p in ids if p not in have])
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
main()
