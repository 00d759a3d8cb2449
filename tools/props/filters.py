PROPS = [
 dict(id='F01', title='A request filter selects a node only when every part of it matches',
  statement='A node acts on a filtered request exactly when every populated part of the filter, classes, agents, identities, facts and compound, matches that node. A filter with no parts selects every node, and a part that cannot be evaluated excludes the node.',
  over=['inputs', 'fault schedules'], qtext='every combination of filter parts and their outcomes', why='A node matching when one of several parts does not runs an action on machines the operator excluded; tests try one part at a time.',
  files=['server/discovery/discovery.go', 'filter/classes', 'filter/agents', 'filter/identity'], mech=[('filter conjunction', 'server/discovery/discovery.go ShouldProcess')],
  note='Decides the conjunction and the class, agent and identity matchers over symbolic filters and node inventories.'),
 dict(id='F03', title='Fact filter strings parse into the fact, operator and value they spell',
  statement='A fact filter given as text parses into exactly the fact name, operator and value it spells, aliases of operators included, and text that is no fact filter is refused. A filter written back as text and parsed again is the same filter.',
  over=['inputs'], qtext='every fact name, value and operator up to the bound', why='A filter that parses into something else silently targets other machines; tests hold a dozen strings.',
  files=['filter/facts/facts.go'], mech=[('grammar', 'filter/facts/facts.go ParseFactFilterString')],
  note='Decides the parser for symbolic names and values and every operator spelling.'),
 dict(id='F04', title='Compound filters match only when every expression given evaluates to true',
  statement='A node matches a set of compound filters exactly when each of them evaluates to boolean true for its agents, classes and facts; an expression that does not compile, errors or yields something other than true excludes the node, whatever the others say.',
  over=['inputs', 'histories', 'fault schedules'], qtext='every list of up to the bounded number of expressions and outcomes', why='Only particular mixes of true and false expressions expose a wrong conjunction; one such was found here.',
  files=['filter/compound/compound.go'], mech=[('conjunction', 'filter/compound/compound.go MatchExprString')],
  note='Decides the conjunction for symbolic outcomes of each expression; the expression language library is a stub.'),
]
