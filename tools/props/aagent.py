W='aagent/watchers/'
PROPS = [
 dict(id='W01', title='Schedules of autonomous agents are on exactly while they should be',
  statement='A schedule watcher fires its on transition when a schedule starts and its off transition when the last schedule that overlaps it ended, once each and within a second, lasting the configured or default duration. It follows the states it is active in, skips or repeats the trigger on reentry as configured, delays within its splay, and nothing fires after it was stopped.',
  over=['inputs','schedules','histories'], qtext='every schedule start, duration, splay and time of state changes within the bounds', why='Tests sample single schedules and do not vary overlaps, splay or the time of a state change.',
  files=[W+'schedulewatcher/schedule.go',W+'schedulewatcher/item.go'], mech=[('scheduling', W+'schedulewatcher/item.go start'), ('on and off', W+'schedulewatcher/schedule.go Run, performWatch')],
  note='The cron expression parser runs as is; the clock and timers are modelled with symbolic durations.'),
 dict(id='W02', title='A timer watcher fires once, when its timer ends, and never once stopped',
  statement='A timer watcher starts its timer when its machine enters a state it is active in, starts it anew when that state is entered again, and stops it when the state is left or the watcher is stopped or deleted. A timer that ends fires the fail transition exactly once and at that time, one that was stopped never does.',
  over=['histories','schedules'], qtext='every history of state changes and times within the bounds', why='The failures need state changes in a short time from each other, which tests do not do.',
  files=[W+'timerwatcher/timer.go'], mech=[('timer', W+'timerwatcher/timer.go timeStart, timeStop, watch')],
  note='The clock and timers are modelled with symbolic durations.'),
 dict(id='W03', title='Machines move between states only as their transitions allow',
  statement='A machine changes state only for an event that has a transition from its current state, moves to the destination of that transition, and tells its watchers, notifiers and subscribed machines once, whether or not they fail. Fast transitions are delayed and never lost, a machine that is not started refuses them, a machine starts its watchers once until it is stopped, and machines that are not valid are refused.',
  over=['programs','histories','schedules'], qtext='every machine of two transitions and every history of events within the bounds', why='Needs many machine shapes, event orders and times.',
  files=['aagent/machine/machine.go'], mech=[('transitions', 'aagent/machine/machine.go Transition, buildFSM'), ('starting', 'aagent/machine/machine.go Start, Stop, Delete')],
  note='Runs the real machine and state machine library; manifests are given as structures and not decoded from YAML.'),
 dict(id='W04', title='Watchers are active only in the states they are configured for',
  statement='A watcher watches if and only if it has no list of states or its machine is in one of them, and every other machine it requires is known and in the required state. A watcher that succeeds or fails fires exactly the transition configured for that, or none.',
  over=['configurations','inputs'], qtext='every set of states, requirements and machine states within the bounds', why='Tests sample a few combinations.',
  files=[W+'watcher/watcher.go'], mech=[('gate', W+'watcher/watcher.go ShouldWatch'), ('events', W+'watcher/watcher.go SuccessTransition, FailureTransition')],
  note=''),
 dict(id='W05', title='The machines that run are exactly those on disk',
  statement='Each valid machine directory has exactly one running machine of the version that is on disk, also when the directory is added, changed or removed at any time, even while it is being loaded; others are left alone. Machines are listed and transitioned by name, version and path, a machine follows the transitions it subscribed to, and removing, transitioning, listing and looking up machines at the same time never block each other.',
  over=['histories','schedules','crash_points'], qtext='every history of directory changes over the scans within the bounds and every order of concurrent use', why='Needs changes at particular times during a scan, and particular interleavings.',
  files=['aagent/aagent.go','aagent/info.go','aagent/machine/machine.go',W+'watchers.go'], mech=[('scanning', 'aagent/aagent.go watchSource, loadFromSource'), ('transitions', 'aagent/aagent.go Transition, notifyMachinesAfterTransition'), ('listing', 'aagent/info.go AllMachineStates')],
  note='The YAML decoder and the network are stand-ins; file system, clock and watchers are modelled. Embedded (plugin) machines and the HTTP listener are not covered.'),
 dict(id='W06', title='Data of machines survives failures and crashes',
  statement='Data a machine stored is there after a restart, and what could not be stored or deleted is reported as failed. Whichever file operation fails and wherever the process crashes, the stored data is that before or after the operation, never partial, and a later operation works again.',
  over=['crash_points','fault_sequences','histories'], qtext='every history of operations and every failure or crash at a file operation within the bounds', why='Needs a crash or failure at each point of the file operations.',
  files=['aagent/machine/machine.go'], mech=[('data', 'aagent/machine/machine.go DataPut, DataDelete, saveData, loadData')],
  note='The file system is modelled in memory.'),
 dict(id='W07', title='Nagios checks end in exactly the state their result says',
  statement='A check that runs moves its machine to OK, WARNING, CRITICAL or UNKNOWN as its exit code says, to UNKNOWN for any other exit code, a timeout or a plugin that cannot run, and publishes that state once. Checks run on their interval in the states they are for, forced checks always run and never block the machine, and no output can crash the server.',
  over=['inputs','fault_sequences','schedules'], qtext='every exit code, run time, start failure and performance data within the bounds, and orders of forced checks', why='Tests do not run plugins with unusual exit codes and outputs or force checks while one runs.',
  files=[W+'nagioswatcher/nagios.go','aagent/util/nagios.go'], mech=[('checks', W+'nagioswatcher/nagios.go watch, watchUsingPlugin, handleCheck'), ('forcing', W+'nagioswatcher/nagios.go NotifyStateChance'), ('performance data', 'aagent/util/nagios.go ParsePerfData')],
  note='Commands are stand-ins with symbolic exit code, duration and failure; templates in the command and the built in checks are not covered.'),
 dict(id='W08', title='Commands of exec watchers run as configured and their result is acted on',
  statement='An exec watcher runs its command on state changes and its interval only in the states it is for, never twice at a time, with the arguments, environment, data and facts it should have. A command that exits with 0 in time, and whose output can be stored when that is asked for, fires the success transition; anything else, including failing to prepare or start it, fires the fail transition, and no files are left behind.',
  over=['inputs','fault_sequences','configurations'], qtext='every setting, exit code, run time, output and file or start failure within the bounds', why='Tests do not combine failures of files, of starting and of the command with the settings.',
  files=[W+'execwatcher/exec.go',W+'watcher/watcher.go'], mech=[('running', W+'execwatcher/exec.go watch'), ('result', W+'execwatcher/exec.go handleCheck'), ('files', W+'watcher/watcher.go DataCopyFile, FactsFile')],
  note='Commands are stand-ins with symbolic exit code, duration and failure; templates and governors are not covered.'),
 dict(id='W09', title='Archives are deployed only when they and their contents are the expected ones',
  statement='An archive watcher deploys an archive only if it is complete, has the expected checksum, holds nothing but files and directories within it and, when contents are verified, has the expected list of checksums and files that match it; what is not is refused, reported as failed and leaves what is deployed as it was. A deployment that verifies is kept, one that does not is replaced, never in part, and no temporary files are left behind.',
  over=['inputs','fault_sequences','configurations'], qtext='every archive, deployment and failing file operation within the bounds', why='Tests check single archives and no failing or partial downloads and no failing file operations.',
  files=[W+'archivewatcher/archive.go','internal/util/sha256sum.go'], mech=[('verification', W+'archivewatcher/archive.go verifyCreates, verify; internal/util/sha256sum.go Sha256VerifyDir'), ('download', W+'archivewatcher/archive.go downloadSourceToTemp'), ('extraction', W+'archivewatcher/archive.go extractAndVerifyToTemp, untar')],
  note='HTTP, gzip, tar and SHA256 are models, templates and governors are not covered.'),
 dict(id='W10', title='Managed machines and plugins are exactly those that the signed data asks for',
  statement='When a signing key is configured only data with a valid signature of that key is used and other data is removed; data with names that are not plain, empty entries or missing fields is reported and changes nothing. Every entry that matches the node has a manager exactly as specified, with purging everything else that is managed is removed even when the server stops meanwhile, and nothing that is not managed is touched.',
  over=['inputs','configurations'], qtext='every signature, key, set of entries and deployment within the bounds', why='Tests check one specification and few keys and never names that leave the directory or an interrupted purge.',
  files=[W+'machineswatcher/machines.go',W+'pluginswatcher/plugins.go',W+'pluginswatcher/specification.go','internal/util/ed25519.go'], mech=[('signatures', W+'machineswatcher/machines.go loadAndValidateData, '+W+'pluginswatcher/specification.go VerifySignature'), ('names', W+'machineswatcher/machines.go desiredState, '+W+'pluginswatcher/plugins.go desiredState'), ('deploying', W+'machineswatcher/machines.go watch, '+W+'pluginswatcher/plugins.go watch'), ('purging', W+'machineswatcher/machines.go purgeUnknownMachines, '+W+'pluginswatcher/plugins.go purgeUnknownPlugins')],
  note='Match expressions are symbolic booleans; mapstructure, ed25519, SHA256 and templates are models. A purge that is cut by a crash is not covered.'),
 dict(id='W11', title='Machine data follows a watched key once for every change of its value',
  statement='A key-value watcher in a state it is active in stores a value that differs from the data the machine has and fires the success transition once, removes the data when the key is gone, and otherwise fires only as configured for values put again and for any fetch. A value that cannot be fetched or stored changes nothing and is reported as failed, the watcher tries again, and republished values of other keys are never used.',
  over=['histories','inputs','fault_sequences'], qtext='every history of values, revisions and failures within the bounds', why='Needs sequences of polls, republished messages and failures that tests do not go through.',
  files=[W+'kvwatcher/kv.go'], mech=[('polling', W+'kvwatcher/kv.go poll, handleState'), ('republished values', W+'kvwatcher/kv.go repubHandler'), ('scheduling', W+'kvwatcher/kv.go Run, pollKey')],
  note='The key-value store and the subscription are stand-ins; hiera, queries and templates are not covered.'),
 dict(id='W12', title='Gossip is published while a machine is in an active state and only then',
  statement='A gossip watcher publishes its message once every interval, with the life time it is configured for, while its machine is in a state it is active in, whatever states it went through before and how quickly; it publishes nothing in other states and nothing after it was stopped. Registrations of services that are not valid are refused.',
  over=['histories','schedules','configurations'], qtext='every history and time of state changes and interleaving within the bounds', why='Needs state changes at particular times and particular interleavings.',
  files=[W+'gossipwatcher/gossip.go'], mech=[('publishing', W+'gossipwatcher/gossip.go startGossip, stopGossip, watch, Run'), ('registrations', W+'gossipwatcher/gossip.go validate')],
  note='The connection is a stand-in, the clock is modelled.'),
 dict(id='W13', title='Metrics of machines are those their command made',
  statement='A metric watcher publishes, keeps and stores the metrics and labels of a successful run of its command, in JSON or as performance data, with its configured labels and the time. A command that cannot run, fails or is too slow and output that is not valid leaves the last metrics as they were, nothing is gathered in other states, and metrics that were handed out never change later.',
  over=['inputs','fault_sequences','configurations'], qtext='every exit code, run time, start failure, form of output and setting within the bounds', why='Tests run one command that succeeds.',
  files=[W+'metricwatcher/metric.go'], mech=[('gathering', W+'metricwatcher/metric.go watch'), ('parsing', W+'metricwatcher/metric.go parseJSONCheck, parseNagiosCheck'), ('publishing', W+'metricwatcher/metric.go handleCheck, performWatch')],
  note='Commands are stand-ins with symbolic exit code, duration and failure; Prometheus files, Graphite and templates are not covered.'),
 dict(id='W14', title='Switches and metrics of machines are served over HTTP as they are',
  statement='A press of a switch makes the on or off transition of its machine once and is answered with the new state when the machine is in an active state that does not disable it, and is refused otherwise; a switch is on or off as last pressed or as its machine entered states that are on or off. Requests reach the named switch or metric of the machine that runs now and no other, requests for others just fail, and presses and state changes at the same time never block.',
  over=['histories','inputs','schedules'], qtext='every history of presses and states, request and order of concurrent presses within the bounds', why='There are no tests of switches, and these need histories and interleavings.',
  files=[W+'httpswitchwatcher/httpswitch.go','aagent/http/http.go','aagent/aagent.go'], mech=[('switches', W+'httpswitchwatcher/httpswitch.go TurnOn, TurnOff, handleStateChange, Run'), ('requests', 'aagent/http/http.go SwitchHandler, HASwitchHandler, MetricHandler'), ('replaced machines', 'aagent/http/http.go RemoveSwitchWatcher, RemoveMetricWatcher'), ('exposing', 'aagent/aagent.go ManageMachines, configureMachine')],
  note='The HTTP server itself and routing are not covered.'),
 dict(id='W15', title='Files are reported when they change and managed files are as configured',
  statement='A file watcher fires its success transition once for every change of a file, by a later modification time, and its fail transition when the file is missing or not accessible, in the states it is active in. A file with managed content is replaced as a whole, with its owner and mode, whenever it is not as configured; a failure at any point is reported, leaves the file as it was and leaves no temporary files.',
  over=['histories','fault_sequences','configurations'], qtext='every history of changes to the file and every failing file operation within the bounds', why='Needs failures of single file operations and sequences of changes between checks.',
  files=[W+'filewatcher/file.go'], mech=[('watching', W+'filewatcher/file.go watchFileStat, Run, handleCheck'), ('managing', W+'filewatcher/file.go watchFileContent, createFile')],
  note='The file system is modelled in memory, templates are not covered; that ownership changes later is not noticed and not covered.'),
 dict(id='W16', title='Expression watchers fire once when an expression starts to hold',
  statement='An expression watcher fires its success or fail transition once when the success expression, or else the fail expression, starts to hold while its machine is in an active state, and again only after another outcome in between. An expression that cannot be evaluated fires nothing, and nothing is evaluated in other states or after the watcher was stopped.',
  over=['histories','configurations'], qtext='every history of outcomes of both expressions and states within the bounds', why='Tests check single outcomes.',
  files=[W+'expressionwatcher/expression.go'], mech=[('evaluating', W+'expressionwatcher/expression.go watch'), ('transitions', W+'expressionwatcher/expression.go handleCheck, Run')],
  note='The evaluation of expressions is a stand-in.'),
]
