AG='server/agents/agents.go'
PROPS = [
 dict(id='P01', title='A server answers every accepted request once and never leaks a worker',
  statement='Each valid, matching request for a known agent that arrives at a server is handed to that agent once; its reply is published once to the reply target and collective of the request when the agent answers within its timeout; invalid, unmatched, expired, denied or unknown requests run nothing. Whether agents answer in time, late, never or panic-free with errors, and in whatever order things happen, no goroutine stays blocked and later requests are served.',
  over=['inputs','schedules'], qtext='every interleaving within the preemption bound of requests, agent replies and timeouts, for every combination of request validity and filter outcome modelled', why='Late replies and full channels only show under particular timing that unit tests do not create.',
  files=[AG,'server/processor.go'], mech=[('receiving','server/processor.go'), ('dispatch', AG+' Dispatch')],
  note='Executes the processor and agent manager with symbolic requests over all schedules within the bounds; connector and framework are fakes.'),
 dict(id='P02', title='The agents a server announces are exactly the ones it is subscribed for',
  statement='After any sequence of registering, denying, failing, replacing and unregistering agents, with subscriptions and unsubscriptions that fail at any point, an agent is known only if all its subscriptions for all collectives were made and none were left behind, names are unique, inactive agents are not started, and a failed registration can be retried.',
  over=['fault_sequences','histories'], qtext='every sequence of three manager operations with a failure of any subscribe or unsubscribe call', why='Partial failures leave stale subscriptions; tests fail at most the first.',
  files=[AG], mech=[('subscribe', AG+' RegisterAgent, subscribeAgent'), ('undo', AG+' UnregisterAgent')],
  note='Symbolic fault schedules against the set of live subscriptions kept by a fake connector.'),
 dict(id='L03', title='Registration publishes data of all its providers as configured',
  statement='While connected a server publishes each item of each registration provider once when it is due, by interval or by change in size, with the data, agent, target and collective the provider and configuration gave, independent of other providers; data that is not due, empty or while registration is disabled is not published. The file provider gives the content of its file when it is new or changed, whatever file operation fails in between data is not lost for good and the server does not crash.',
  over=['inputs','histories','fault_sequences','configurations'], qtext='every sequence of 3 items with sizes, gaps, connection states and settings from the bounds, two providers concurrently, every change to the file in 3 rounds and every failing file operation', why='The state that decides what is due is shared between rounds and providers, single round tests do not reach it.',
  files=['server/registration/registration.go','providers/registration/file_content.go'], mech=[('publishing','server/registration/registration.go publish, publishWorker'), ('file provider','providers/registration/file_content.go')],
  note='Executes the manager with fake providers and connections, and the file provider over a model of the file system with one failure at any operation.'),
 dict(id='S05', title='The status a server writes tells its real state and its checks are right',
  statement='When enabled the status file is written at start and every interval with the identity, connection, statistics, token and certificate of the server, and is written again after a write failed; when the file or interval is not set nothing is written and nothing crashes. The checks of a status report a problem exactly when the token or certificate expires within the limit, the file or last message is older than the limit or the server is not connected.',
  over=['inputs','histories','fault_sequences','configurations'], qtext='every offset of the times and limits in seconds within the bounds, and every failing file operation in three rounds of writing', why='Monitoring relies on these, and the boundaries and failures are not sampled by tests.',
  files=['statistics/instance.go','server/infosource.go'], mech=[('checks','statistics/instance.go Check*'), ('writing','server/infosource.go WriteServerStatus')],
  note='Checks are decided over symbolic offsets and limits, writing runs against the file system model with a symbolic fault index.'),
]
