PROPS = [
 dict(id='D01', title='Requests are accepted only when their inputs are as the action describes',
  statement='The inputs of a request are accepted exactly when every required one is given, none is given that the action does not have, and each has the type, length, list membership and validation its description asks for; a maximum length of zero means no maximum and leaves the validation in force. Texts of a command line are turned into exactly the value they spell, and missing values get their defaults, in requests and results.',
  over=['inputs'], qtext='every description and value within the bounds', why='Tests check one value of each kind and never a validation without a length.',
  files=['providers/agent/mcorpc/ddl/common/input_item.go','providers/agent/mcorpc/ddl/common/common.go','providers/agent/mcorpc/ddl/agent/action.go','validator/util.go','validator/ipv4/ipv4.go'],
  mech=[('values','providers/agent/mcorpc/ddl/common/input_item.go ValidateValue'), ('texts','providers/agent/mcorpc/ddl/common/common.go ValToDDLType'), ('requests','providers/agent/mcorpc/ddl/agent/action.go ValidateRequestData, ValidateAndConvertToDDLTypes, SetOutputDefaults')],
  note='Kinds of values are told apart with reflect.Value.Kind, which the engine implements; regular expressions run as automata over the symbolic text.'),
 dict(id='X01', title='The external agents that run are those on disk',
  statement='After every reconciliation the external agents that run and are subscribed are exactly those that have a description on disk and activate, in the version of the first place that has one; removing, adding, moving and changing any number of them at once is followed, files that just changed are left for later, and nothing happens while nothing changes. Descriptions that are faulty, of other providers or for reserved names are ignored and never stop others or crash the server.',
  over=['histories','inputs','configurations'], qtext='every sequence of states of the disk and every faulty description within the bounds', why='Tests add and remove one agent at a time and none of their descriptions is faulty.',
  files=['providers/agent/mcorpc/external/provider.go','providers/agent/mcorpc/external/agent.go','server/agents/agents.go'],
  mech=[('reconciliation','providers/agent/mcorpc/external/provider.go reconcileAgents'), ('finding','providers/agent/mcorpc/external/provider.go eachAgent'), ('activation','providers/agent/mcorpc/external/agent.go externalActivationCheck')],
  note='Runs the real agent manager on a modelled disk with modelled commands. An agent that did not activate and is then upgraded is not started until it is removed for a while, which is not judged.'),
 dict(id='X02', title='External agents run once per good request and answer for themselves',
  statement='The command of an external agent is run exactly once for a request whose inputs its description allows and never for another one; it is given that request and the facts as they are. Its answer is returned with missing values set to their defaults, and when the command cannot run, fails, takes longer than its timeout or gives no readable answer the request is answered as aborted; no request, reply or facts are left on disk.',
  over=['inputs','fault_sequences'], qtext='every request and outcome of the command within the bounds', why='Tests use a few commands that work and ones that fail in one way.',
  files=['providers/agent/mcorpc/external/agent.go'],
  mech=[('requests','providers/agent/mcorpc/external/agent.go externalAction'), ('commands','providers/agent/mcorpc/external/agent.go executeRequest')],
  note='Commands and disk are modelled; commands that leave children holding their output open are not.'),
 dict(id='X03', title='Supervised jobs publish and store their output and how they ended',
  statement='A supervised job runs once; everything it wrote is published completely and in order as output of the stream it was written to, and stored, before its exit is published exactly once as the last message; its exit code, or that it was killed, is published and stored. A submission that fails or output that cannot be stored never makes output appear as that of the other stream nor keeps the job from ending, and a job that could not be started is reported as an error.',
  over=['schedules','inputs','fault_sequences'], qtext='every output, timing, exit and fault within the bounds', why='Tests do not run any supervised job.',
  files=['providers/execution/exec.go'],
  mech=[('running','providers/execution/exec.go StartSupervised'), ('output','providers/execution/exec.go watchOutput, watchOutputReader'), ('state','providers/execution/exec.go ParseExitCode, IsRunning')],
  note='Commands and the disk are modelled; lines longer than 64 kilobytes are outside the bounds.'),
 dict(id='X04', title='Supervised jobs are shown and signaled only for callers allowed to run them',
  statement='A signal is sent through the executor agent exactly when the named job of the spool runs and the policy of the agent that made it allows the caller that action; it goes to the process of that job and to nothing else, also when its pid was reused after it ended or its pid file is unusable. The command is shown only to such callers, the status of a job is what it is, exactly the jobs that match a query are listed, and nothing outside of the spool is taken for a job.',
  over=['inputs','configurations'], qtext='every job, policy, query and request within the bounds', why='There are no tests for the executor agent.',
  files=['providers/agent/mcorpc/golang/executor/signal.go','providers/agent/mcorpc/golang/executor/status.go','providers/agent/mcorpc/golang/executor/list.go','providers/agent/mcorpc/golang/executor/util.go','providers/execution/exec.go'],
  mech=[('signals','providers/agent/mcorpc/golang/executor/signal.go signalAction'), ('status','providers/agent/mcorpc/golang/executor/status.go statusAction'), ('lists','providers/agent/mcorpc/golang/executor/list.go listAction, providers/execution/exec.go List'), ('policies','providers/agent/mcorpc/golang/executor/util.go proxyAuthorize')],
  note='Policies are decided by the real action policy authorizer; the generic parsing of requests is replaced with plain JSON.'),
]
