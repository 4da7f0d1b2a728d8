"""Writes known_findings.jsonl: genuine defects of the code, recorded or repaired."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    {'status': 'known', 'property': 'C19',
     'what': 'the text literal "\\u+12a" is accepted (as U+012A): the escape decoder of the dependency escape8259 takes a sign '
             'among the four digits of \\u',
     'case': {'texts': ['a = "\\u+12a"'], 'docs': [], 'ev': [{'a': 'parse', 't': 1}]},
     'observed': '{"e":"","rules":[{"k":"type","name":"a","parms":[],"v":[{"x":{"k":"val","v":{"c":[298],"t":"text"}},"k":"simple"}]}]}'},
    {'status': 'known', 'property': 'C16',
     'what': 'the JSON number 9.485167413552546e-08 is read as a neighbouring double: serde_json is used without its '
             'float_roundtrip feature (a dependency setting)',
     'case': {'texts': ['top = 9.485167413552546e-08'], 'docs': [{'json': '9.485167413552546e-08'}],
              'ev': [{'a': 'one', 't': 1, 'rule': 'top', 'd': 1}]}, 'observed': '"mismatch"'},
]
FIXED = [
    ('C03', 'b1d5c01', 'a parenthesised group inside a group or occurrence did not take what it had matched from the enclosing array or map'),
    ('C04', 'd0f1594', 'an occurrence with upper limit 0 (0*0, *0) still matched once'),
    ('C04', '9585649', 'an occurrence of something that can match without taking an element repeated for ever'),
    ('C24', '754924b', 'an unwrapped array or map that failed kept the elements it had matched'),
    ('C03', 'baa3f52', 'an occurrence that did not reach its minimum kept the elements it had matched'),
    ('C07', '53c04a3', 'a schema error while comparing map keys was taken for a mismatch'),
    ('C02', '3a5b029', 'a member with a key type tried only the first entry whose key matched, although the value of a later one matched'),
    ('C06', '7877950', '&( ... ) as a map member was rejected as unsupported'),
    ('C19', '0c6d01f', 'characters from U+F0000 up to U+10FFFD were rejected in text literals and comments'),
    ('C19', 'e4f89f7', 'the literal -9223372036854775808 was rejected'),
    ('C19', 'cc1333a', 'a floating-point literal with many integer digits in a group was taken for an occurrence and rejected'),
    ('C19', '1aeb0ad', 'malformed hex, base64, text or integer literals inside groups were reported as unparseable'),
    ('C19', 'd2d2756', 'double quotes and escaped single quotes in byte string literals were rejected'),
    ('C08', '9683152', 'unwrapping an array or map named through an alias or a generic parameter never matched'),
    ('C29', 'fa41ff0', 'parsing took time exponential in the nesting of parentheses around groups, as in ([([([( ... ], b: int)], b: int)'),
    ('C37', '7d289ff', 'a repeated map entry validated the entries it had passed over again after each match, which took time exponential in the nesting of maps'),
]
with open(os.path.join(ROOT, 'known_findings.jsonl'), 'w') as f:
    for k in KNOWN:
        f.write(json.dumps(k) + '\n')
    for p, c, w in FIXED:
        f.write(json.dumps({'status': 'fixed', 'line': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
