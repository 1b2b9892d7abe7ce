#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 {'property': 'C06', 'key': 'exponent:10000000000',
  'what': 'numbers of ten or more digits before the point are printed with an exponent (10000000000 -> 1e+10), and 1e+10 is read as 1*e + 10'},
]
FIXED = {  # subject prefix -> (properties, what failed)
 'consider all failed commands in exit code': ('C20 C19', 'quit inside a loaded file forgot failures of the including session'),
 'keep last character of an unterminated': ('C19 C01', 'last line without newline lost its last character'),
 'add negative results to history': ('C07', 'negative results were not added to the history with simplification rules loaded'),
 'do not dereference missing operator when delimiter': ('C01', 'sum((1,2)) dereferenced NULL'),
 'reject closing parenthesis directly after': ('C05', '(1+) and (-) were accepted'),
 'reject definition whose right hand side can not': ('C01', 'f(x)=1/0 crashed'),
 'do not reuse ids of operators': ('C10', 'after clear NAME a new definition could get the identity of an existing one'),
 'reject list-variables as function parameters': ('C01 C10', 'f([x])=... was accepted and crashed'),
 'load simplification independently of user': ('C13 C16', 'user-defined function changed how rule conditions were parsed'),
 'keep remaining factors when multiplying a power': ('C11', '2*x^2*(a+b) style products lost factors'),
 'let gcd and lcm terminate': ('C26 C03', 'gcd/lcm of large or infinite operands did not end'),
 'let binomial coefficient be zero': ('C03 C26', 'C with k > n wrong, big operands did not end'),
 'calculate binomial coefficients exactly': ('C03 C17', '55 C 26 was no integer (3560597348629859.5)'),
 'calculate least common multiples exactly': ('C03', 'lcm(394222770477,15845922) was no integer'),
 'let factorial terminate': ('C26', 'factorial of big operands did not end'),
 'compute fibonacci numbers iteratively': ('C26 C01', 'fib of large operands recursed exponentially'),
 'avoid undefined conversions': ('C01 C25', 'rand and @ converted out-of-range doubles to integers'),
 'powers of negative numbers are complex': ('C03', '(-2)^(-0.5) and (-2)^(large odd) treated wrongly'),
 'report malformed simplification ruleset': ('C16 C02', 'malformed rule file ended the program or leaked'),
 'do not match bound list-variable': ('C14 C01', 'bound list variable read beyond operands'),
 'keep simplification when loading another': ('C09 C16', 'failed load dropped the loaded rules'),
 'keep loaded simplification when loading': ('C09 C16', 'failed load dropped the loaded rules'),
 'reject rules with too many constraints': ('C16', 'surplus conditions were ignored'),
 'consider correct borders when computing': ('C18', 'spanning cell with borders was too narrow'),
 'do not skip empty first line': ('C18', 'cell text beginning with a newline lost a line'),
 'skip consecutive escape sequences': ('C18 C01', 'adjacent escape sequences counted as width; read past end'),
 'treat quit, comments and empty commands': ('C20', '-c quit / comment / empty command failed'),
 'let load command fail when': ('C19 C20', 'load reported success although a command failed'),
 "do not treat expressions starting with 'clear'": ('C05', 'clearx was treated as clear command'),
 'report wrong arity of nested': ('C21', 'wrong arity was reported at an unrelated token'),
 'do not let simplification eliminate constant': ('C09 C13', '0*(1/0) gave a result with rules'),
 'negate both summands when pulling': ('C11', '-(x+y) was simplified to -x+y'),
 'reduce constant subtrees next to': ('C26 C27', '((x-x)^(-2))^2 never ended'),
 'do not read uninitialized variable name': ('C01', 'table of a constant expression used an uninitialised pointer (MSan)'),
 'do not write past buffer when ruleset': ('C01 C16', 'nine RULESET headers in a row wrote past the array of rule sets'),
 'reject rules whose constraints contain': ('C16 C14', 'condition on a variable unknown to the pattern was applied to another variable'),
 'check constraints of patterns without variables': ('C14', 'conditions of patterns without variables were ignored'),
 'reject rules that would replace a list': ('C01 C16', 'rule putting a list variable into an operator of fixed arity made it read missing operands'),
 'count characters instead of bytes': ('C18', 'cells with non-ASCII text were too narrow (constants page of help operators)'),
 'truncate clashing spans': ('C18', 'a span clashing with a set cell lost its width or never ended printing'),
 'let load command fail if file': ('C19', 'load of a directory succeeded'),
 'keep message and marker of table errors': ('C21', 'marker of table errors appeared on a line of its own, at the wrong column'),
 'differentiate quotients and roots': ('C12', 'deriv(x/y, y) and deriv(sqrt(x), x) were refused'),
}
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in reversed(log):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    hit = [v for k, v in FIXED.items() if s[5:].startswith(k)]
    assert hit, l
    for p in hit[0][0].split():
        fixed.append('fixed: property=%s %s %s' % (p, h, hit[0][1]))
json.dump({'findings': FINDINGS, 'fixed': fixed}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)
open(os.path.join(V, 'known_findings.json'), 'a').write('\n')
print(len(fixed), 'fixed entries')
