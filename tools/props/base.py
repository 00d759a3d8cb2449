PROPS = [
 dict(id='V01', title='Shell-safety validation rejects every string a shell could be tricked with',
  statement='A string validated as shell safe is accepted exactly when it holds none of the backtick, dollar, semicolon, pipe, redirection and double-ampersand sequences, wherever they appear. The verdict and the reported error always agree.',
  over=['inputs'], qtext='every input string', why='Tests sample a handful of strings; the guarantee is about every position and combination of bytes in an input of attacker choice.',
  files=['validator/shellsafe/shellsafe.go'], mech=[('bad character scan', 'validator/shellsafe/shellsafe.go Validate')],
  note='Decides the validator against a byte-level reference for every string up to the bound.'),
 dict(id='F02', title='Fact filter operators compare facts the way their symbols say',
  statement='A fact filter matches exactly when the node\'s fact stands in the stated relation to the filter value: ordering and equality of strings ignore case, integers and decimals compare numerically, and booleans compare as truth values. Facts that are absent, of a type that has no such relation, or compared with an operator that does not exist never match.',
  over=['inputs'], qtext='every fact value, filter value and operator', why='Tests check one or two literals per operator; a wrong boundary such as equality under a strict comparison shows only for particular value pairs.',
  files=['filter/facts/matchers.go', 'filter/facts/facts.go'], mech=[('operator dispatch', 'filter/facts/facts.go HasFactJSON'), ('typed comparisons', 'filter/facts/matchers.go')],
  note='Decides each operator against mathematical comparison over symbolic facts and filter values; the JSON lookup of the fact is a stub.'),
 dict(id='Q02', title='Retry backoff stays within its published range for any attempt number',
  statement='For every backoff policy and every attempt number the delay is never negative, is within half to one and a half times the step chosen for that attempt, and never exceeds one and a half times the last step of the policy.',
  over=['inputs', 'histories'], qtext='every policy, attempt number and random draw', why='The delay depends on randomness and on unbounded attempt counters; tests see a few draws.',
  files=['backoff/backoff.go'], mech=[('clamp and jitter', 'backoff/backoff.go Duration')],
  note='Decides the range for every attempt number of the int type and every random draw.'),
]
