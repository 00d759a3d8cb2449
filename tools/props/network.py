C='choria/connection.go'
PROPS = [
 dict(id='N01', title='Requests are published to exactly the subjects of their targets',
  statement='Publishing a request sends it to the broadcast or service subject of its agent and collective, or once to the direct subject of each of its hosts; through federations each federation receives requests that together name each target exactly once, in groups of bounded size, with the original reply target. When publishing any part fails the caller gets an error, and the list of hosts of the caller is unchanged.',
  over=['inputs','fault_sequences'], qtext='every combination of message type, host lists around the group size, federations and publish failures within the bounds', why='Grouping, federations and errors multiply; tests publish one small request.',
  files=[C,'internal/util/util.go'], mech=[('publishing', C+' Publish, publishFederatedDirect, publishConnectedDirect'), ('grouping', 'internal/util/util.go SliceGroups')],
  note='Runs the real publishing code over a recording NATS stub with symbolic hosts, groups and failures.'),
 dict(id='K01', title='Servers, clients and brokers connect to the configured or discovered hosts',
  statement='Brokers, federation brokers, PuppetDB and broker peers are exactly the configured ones, else those found in DNS in their order when lookups are enabled, else the documented default; a federated network never uses the brokers of a collective, and an invalid list is an error instead of a part of it. Any host, including IPv6, with port and scheme is kept as configured and its url leads back to it, and answers of DNS are reused for no longer than they may be kept.',
  over=['inputs','configurations','histories'], qtext='every combination of configuration, environment and resolvable names in the model, host names with arbitrary letters, and every history of four lookups with one failure', why='Precedence between the sources has many combinations of which tests have a few.',
  files=['choria/framework.go','srvcache/cache.go','srvcache/util.go','srvcache/server.go'], mech=[('precedence','choria/framework.go MiddlewareServers, FederationMiddlewareServers, PuppetDBServers, NetworkBrokerPeers, TrySrvLookup'), ('hosts','srvcache/util.go, srvcache/server.go'), ('cache','srvcache/cache.go')],
  note='Executes the framework with a resolver that knows any subset of the names; facts are a stand-in.'),
 dict(id='L01', title='The tally of nodes is the number of nodes known for each version',
  statement='After any history of startup, alive and shutdown events, changes of leadership and time, the tally of each component and version is the number of nodes that last said they run it and did not stop or stay silent for more than 80 minutes, never negative, with a node counted once. Malformed events are skipped and a recorder that cannot subscribe fails.',
  over=['histories','schedules','fault_sequences'], qtext='all histories of four events for two nodes with arbitrary versions, numbers of minutes and leadership changes', why='Counts drift apart after particular sequences of events that unit tests do not have.',
  files=['lifecycle/tally/tally.go'], mech=[('events','lifecycle/tally/tally.go process*'), ('expiry','lifecycle/tally/tally.go maintenance')],
  note='Executes the recorder with symbolic versions and times against a model of the known nodes; metrics are replaced by counters.'),
 dict(id='L02', title='Servers announce their start, stop and that they are alive',
  statement='A server announces its start once, that it is alive within 30 minutes and every 30 minutes after, and its stop, and nothing after that; each event has its own id, the time it happened, the identity, version and component of the server and is published to the subject of its kind. An event that cannot be published does not stop later ones.',
  over=['histories','fault_sequences','schedules'], qtext='any random delay, any one failing publish, stopping early or late, and all component settings', why='The events happen over hours and their content is not looked at by tests.',
  files=['server/lifecycle.go'], mech=[('events','server/lifecycle.go publishAliveEvents, publishStartupEvent, publishShutdownEvent')],
  note='Executes the real publishing over virtual hours with a symbolic random delay and fault index; legacy format only, the cloud event encoding is a library.'),
]
