PROPS = [
 dict(id='D02', title='Discovery finds the nodes that match all filters given and no others',
  statement='Every discovery method returns the nodes that match every filter given, each once, and never nodes that one of the filters excludes; a filter the method cannot apply, a source that cannot be used and a request or command that failed are errors and not empty or partial discoveries. Network discovery returns exactly the nodes that replied, and waits for replies for the timeout asked for or, with a sliding window, until none arrive for its duration. External commands are given the complete request and are stopped at the timeout.',
  over=['inputs','configurations','schedules'], qtext='every combination of filters, sources, replies and times of replies within the bounds', why='Tests use one filter of each kind per method, no combinations of filters, no timing and no failures.',
  files=['providers/discovery/broadcast/broadcast.go','providers/discovery/flatfile/flatfile.go','providers/discovery/inventory/inventory.go','providers/discovery/external/external.go','client/discovery/cli_helper.go'],
  mech=[('network','providers/discovery/broadcast/broadcast.go Discover, handler'), ('files','providers/discovery/flatfile/flatfile.go Discover'), ('inventories','providers/discovery/inventory/inventory.go selectMatchingNodes'), ('commands','providers/discovery/external/external.go Discover'), ('methods','client/discovery/cli_helper.go Discover')],
  note='The network, the command, the JSON schema, the expression language and fact lookups are models. YAML and GJSON sources are not covered and neither are the queries made to PuppetDB.'),
]
