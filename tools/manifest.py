#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks in harness/src/checks/mod.rs and the notes below."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl') if l.strip()]
have = set(re.findall(r'"(C\d\d)"', open(root + '/harness/src/checks/mod.rs').read()))
ENUM = 'exhaustive bounded enumeration of executions of the real code against an independent reference'
SEARCH = 'explicit-state search over the real driver attached to a simulated camera'
FAULT = 'exhaustive enumeration of fault points in executions of the real driver'
SCHED = 'stateless exploration of all schedules up to a preemption bound on the real drivers'
T = {
 'C01': (ENUM, 'every destination length, pattern route, subpage, call and status word; two destination contents per run decide what was stored'),
 'C02': (ENUM, 'every RAM word of the map flipped/varied one at a time, all 65536 values of frame words'),
 'C03': (ENUM, 'f64 reference with running single-precision error bounds; all values of pixel words and frame words per configuration (rotating subsets in the quick tier)'),
 'C04': (ENUM, 'one-pass and two-pass paths of the real code run side by side over enumerated frames, sizes and flag patterns'),
 'C05': (ENUM, 'independent decoder written from the datasheet layout; every header word takes all 65536 values on several backgrounds, every pixel word all values, boundary pairs'),
 'C06': (ENUM, 'independent decoder written from the datasheet layout; every EEPROM word takes all 2048 data values, scale/offset pairs'),
 'C07': (ENUM, 'complete: all 65536 words and all 65536 inputs of the encoder'),
 'C08': (ENUM, 'all single and double bit flips of every EEPROM word, from a buffer and over the bus'),
 'C09': (ENUM, 'all buffer lengths, all values of header words on extreme backgrounds, pairs of extreme words; overflow checks on'),
 'C10': (ENUM, 'all values of frame words with degenerate calibrations and settings; overflow checks on'),
 'C11': (ENUM, 'complete over all 65536 register values and all field values'),
 'C12': (ENUM, 'complete over all 65536 register contents for every getter and setter'),
 'C13': (SEARCH, 'all sequences of settings calls, camera register changes and bus faults up to closure/depth; images compared with a fresh driver'),
 'C14': (SEARCH, 'all sequences of camera publications, polls and faults at every transaction'),
 'C15': (FAULT, 'every call x every transaction index x fault kind, followed by a comparison with a fresh driver'),
 'C16': (ENUM, 'all 128+ addresses and every call; every transaction checked against the memory map by the simulated bus'),
 'C17': (FAULT, 'every status word, measurement delay, spurious publication point and fault point of synchronize'),
 'C18': (SEARCH, 'all sequences of session calls, images and faults up to the depth bound, against a session model'),
 'C19': (SCHED, 'all interleavings of the bus transactions of two drivers up to the preemption bound'),
 'C20': (ENUM, 'complete over all f32 bit patterns, all u8/u16'),
 'C21': (ENUM, 'every pixel, every pair of pixels, every pixel word value'),
 'C22': (SEARCH, 'all call sequences to a depth on the two drivers side by side'),
 'C23': ('exhaustive enumeration of camera event placements in executions of the real driver', 'a publication of either subpage at every one and every two transaction boundaries'),
 'C24': ('exhaustive bounded enumeration on two builds of the crate compared with each other', 'the std and libm builds run the same enumerated inputs'),
 'C25': (SEARCH, 'all histories of frames, images, settings and failed reads up to the depth bound, against a fresh driver'),
}
WHY = 'not claimed yet: its check is still being built'
m = {'version': 1, 'setup_cmd': './check build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in have:
        t, n = T[i]
        m['checks'].append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}',
            'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': WHY})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
