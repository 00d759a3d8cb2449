MC='providers/agent/mcorpc/client/'
PROPS = [
 dict(id='C01', title='An RPC request reaches each of its targets exactly once, limits permitting',
  statement='A request for a set of targets, direct or broadcast, in batches of any size, is published so that every selected target is addressed in exactly one batch and nobody else is addressed; a limit picks min(limit, targets) distinct members of the given targets and leaves the given list as it was; batches are at most the batch size and failures to publish are reported. Requests that cannot be served (no targets, service requests with targets or filters, DDLs of other agents) are refused before anything is published.',
  over=['inputs','configurations'], qtext='every combination of target list, batch size, limit kind and publish failure within the bounds', why='Batching arithmetic and limits depend on the combination of several numbers; tests use a few.',
  files=[MC+'client.go', MC+'options.go', 'internal/util/util.go'], mech=[('the request', MC+'client.go Do'), ('limits and batches', MC+'options.go'), ('grouping', 'internal/util/util.go SliceGroups')],
  note='Symbolic targets, batch sizes and limits; framework and messages are fakes that record what is published.'),
 dict(id='C02', title='The statistics of an RPC request account for every target and every reply',
  statement='After a request each reply that was received is given to the reply handler once, with its sender, and counted once as good, failed or unusable; the nodes that did not reply are exactly the targets no reply came from, replies from nodes that were not asked are reported as unexpected, and no count is ever inflated by repeats.',
  over=['inputs','histories'], qtext='every history of up to three replies from any sender, of any kind and in any batch', why='Repeated, foreign and broken replies in any order exceed what tests sample.',
  files=[MC+'client.go', MC+'stats.go'], mech=[('the handler', MC+'client.go handlerFactory'), ('the counters', MC+'stats.go')],
  note='Symbolic senders and outcomes against an independent count.'),
 dict(id='C03', title='A client request returns every reply that arrives in time and always ends',
  statement='A request subscribes before it publishes, hands every reply that arrives before its timeout to the handler exactly once, returns the error when publishing fails, and returns once its timeout passed or its context ends, with all its goroutines and subscriptions gone, whatever the number of receivers and however often the client was used before.',
  over=['schedules','fault_sequences'], qtext='every schedule within the delay bound of publisher, receivers, replies and timeout', why='Depends on the interleaving of several goroutines and timers.',
  files=['client/client/client.go'], mech=[('the request', 'client/client/client.go Request'), ('receivers', 'client/client/client.go receiver')],
  note='All schedules within a delay bound, goroutine leaks and blocking are detected by the scheduler; the broker connection is a fake.'),
 dict(id='R01', title='Summaries of replies count each value that was received',
  statement='The summary of an output has each value that was received, by its configured name, as often as it was received and nothing else, with the most frequent first; averages and charts are of exactly the numbers that were received, values that are not numbers are refused. Summaries that are not valid are ignored, replies received at the same time are all counted and no reply or definition crashes the client.',
  over=['inputs','schedules'], qtext='all sequences of up to 3 values with arbitrary letters, booleans, numbers and texts, all modelled definitions, and two replies aggregated concurrently', why='Values come from remote nodes and definitions from others; tests use a few regular ones.',
  files=['providers/agent/mcorpc/aggregate/summary.go','providers/agent/mcorpc/aggregate/average.go','providers/agent/mcorpc/aggregate/chart.go','providers/agent/mcorpc/ddl/agent/aggregators.go'], mech=[('aggregates','providers/agent/mcorpc/aggregate'), ('per output','providers/agent/mcorpc/ddl/agent/aggregators.go')],
  note='Executes the aggregators with symbolic values; the drawing of charts is replaced by a stand-in that has the demands of the library.'),
 dict(id='R02', title='Exactly the replies a user asked for are shown with status and values',
  statement='A reply is shown exactly when the display mode, or without one the definition of the action, says so for its status. What is shown has the sender, status, message of a failure, and all values with their described name, including defaults and names with special characters; colors are not used when disabled, and summaries show what was received or that nothing was.',
  over=['inputs','configurations'], qtext='every status, display mode, definition mode, color and verbosity with the modelled data', why='The combination of modes is large and tests cover few, a hidden failure misleads users.',
  files=['providers/agent/mcorpc/replyfmt/console.go'], mech=[('display','providers/agent/mcorpc/replyfmt/console.go shouldDisplayReply'), ('values','providers/agent/mcorpc/replyfmt/console.go ddlAssistedPrinter')],
  note='Executes the formatter with a symbolic status and mode and looks at the text; color functions are replaced by a stand-in that marks the text.'),
]
