"""Writes known_findings.json: what was repaired, what is open."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ('C06', 'a rule that drops a blank off the tape needs the edge',
     'a step that writes a blank at the far end and drops it recorded no edge, so a minimal signature could match a tape with more cells there'),
    ('C13', 'infer macro dimensions from instruction targets as well',
     'a macro of a program whose highest state or colour is only ever a target got too few states/colours and misread instructions (also C10)'),
    ('C12', 'apply a Rust rule in full, subtracting where it decreases',
     'apply_rule in the Rust prover left decreasing runs partly applied / wrapped (also C07)'),
    ('C12', 'infer Rust rules from the full counts',
     'rule differences were taken on counts truncated to i32 (also C08)'),
    ('C12', 'stop a Rust run when a count overflows', 'mark and step totals wrapped silently past 64 bits'),
    ('C12', 'reading a count is a touch on the Rust side too',
     "index out of bounds panic on '1RB 1LA  1RC 1RD  0LA ...  0LA 1RE  1RB 0RF  0RB 1LC' with limit 4859"),
    ('C01', 'add quotients exactly when one denominator does not divide the other',
     'a/12 + b/10 was computed with the integer quotient of the denominators'),
    ('C03', 'residues of powers of 2 mod 30 and of 3 mod powers of 2',
     '2^4k mod 30 gave 15; 3^n mod 2^k used a float logarithm'),
    ('C02', 'compare multiples of powers by exact integers', '9*2^40 was said to be less than 2^43, and coefficient ratios were compared as floats (also C01)'),
    ('C02', 'compare small symbolic numbers with integers exactly', '2^10 + 5 < 2000 and the like were answered by the sign alone'),
    ('C02', 'a power is less than itself plus something positive', '2^n < 8 + 2^n was said to be false'),
    ('C08', 'test the growing-quotient rule on every observation',
     'observations 1, 4, 19, 37 gave the rule n -> 5n - 1: the third quotient was never compared'),
    ('C20', 'cut only trailing states and colors that nothing mentions',
     "a mentioned state or color without instructions was cut: KeyError or another program, e.g. '1RE 1LC  0LC 1RE  ... ...  0LD 1RE  0LF 0RD  0LE 0RE'"),
    ('C20', 'cinch to the state in which the run first writes', 'the first state in the table that writes a mark became the start, reached or not'),
    ('C20', 'normalize programs whose first instruction is undefined', 'KeyError'),
    ('C21', 'tree normal form follows the renamed machine',
     'after a renaming the old names were followed, and an undefined slot raised KeyError'),
    ('C23', 'count spin-outs in the 2-4 runner like the others', 'its state B was tested twice, so a spin-out was counted one step short'),
    ('C22', 'give states H, L and R labels of their own in C', 'the text for programs with 8 or more states did not compile (duplicate label H, macros L and R)'),
    ('C16', 'infer the dimensions for segments from instruction targets as well',
     "panic or a wrong verdict when the highest state or colour is only a target, e.g. '1RB 2RB 2LC  1LA 0RA 2LC  ... ... ...'"),
    ('C24', 'give 2315619 a tape it does not run off', 'read past the end of the tape at move 845972'),
    ('C24', 'give 2333909, 32779477 and 3932964 tapes they do not run off', 'read and wrote past the ends of their tapes'),
    ('C24', 'print the halting mark in 3932964', "the last instruction, 1RH at color 3, left the 3 standing"),
    ('C25', 'predict recurrence times beyond the range of a cycle correctly', 'predictions past 2^31 wrapped around to wrong differences'),
    ('C30', 'print every program that just_so keeps, in input order', 'lines were lost when the pool was ended before a worker had written its buffer, '
     'and lines of two workers ran together or came out of order'),
    ('C30', 'name drawings after the program, without its line end', 'the line end became part of the file name, so the picture had no .png and dot failed on ".png"'),
]
OPEN = [
    {'property': 'C15', 'id': 'F1', 'part': 'verdict', 'key': 'only-a-target',
     'case': {'prog': '1RB 1RC  1LA 0RB  ... ...', 'depths': [0, 12]},
     'what': 'cant_halt overlooks the undefined slots of a state or colour that instructions only ever lead to or print '
             '(reason.rs halt_configs takes the dimensions from the defined slots)'},
    {'property': 'C15', 'id': 'F2', 'part': 'verdict', 'key': 'no-way-back-to-A',
     'case': {'prog': '1RB ...  0LC ...  1LC 0RB', 'depths': [0, 12]},
     'what': 'cant_halt, cant_blank and cant_spin_out ignore how the run starts when nothing leads back to state A '
             '(reason.rs get_entrypoints drops the instructions of A)'},
    {'property': 'C25', 'id': 'F3', 'part': 'histories', 'key': 'first-sighting-counted-twice',
     'case': {'ops': [[0, 0], [1, 0], [1, 1], [1, 3], [1, 6]]},
     'what': 'the first sighting of a state other than the one the history was made with is counted twice, so a fit of the doubled '
             'list is answered at the fourth sighting (prover.rs PastConfigs::next_deltas)'},
    {'property': 'C28', 'id': 'F4', 'part': 'instr', 'key': 'symbol-lost-going-right',
     'case': {'prog': '1RB ...  0LB 0LA', 'seed': 1, 'backsym': 1},
     'what': 'a Rust back-symbol macro whose machine leaves the cells to the left (a macro move to the right) keeps one symbol less than '
             'it should (macros.rs BacksymbolLogic::reconstruct_outputs splits at cells - 1 instead of cells)'},
    {'property': 'C28', 'id': 'F4b', 'part': 'endless', 'key': 'symbol-lost-going-right',
     'case': {'prog': '1RB 0RC  1LA ...  0RF 1LD  0LE ...  1LC ...  ... 0RA', 'backsym': 1, 'lim': 22},
     'what': 'for the same reason (F4) a machine that stops is called endless through a Rust back-symbol macro'},
]


def main():
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
    byname = {line.split(' ', 1)[1]: line.split(' ', 1)[0] for line in log.splitlines()}
    fixed = [f'fixed: property={p} {byname["fix: " + m]} {what}' for p, m, what in FIXED]
    with open(os.path.join(HERE, 'known_findings.json'), 'w') as fp:
        json.dump({'findings': OPEN, 'fixed': fixed}, fp, indent=1)
        fp.write('\n')


main()
