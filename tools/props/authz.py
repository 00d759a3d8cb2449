PROPS = [
 dict(id='A01', title='Action policies decide requests exactly as written and fail closed',
  statement='A request is allowed by the action policy only when the first line that matches its caller, action, facts and classes says allow, or when no line matches and the default of the file or of the configuration is allow. A missing, unreadable or malformed policy, an unknown group or a pattern that does not compile never turns into an allow.',
  over=['inputs', 'fault schedules'], qtext='every policy of the modelled lines, request, node and read failure', why='The decision depends on the order and combination of lines, groups, facts and defaults; tests hold a few fixed files.',
  files=['providers/agent/mcorpc/authz_actionpolicy.go'], mech=[('policy evaluation', 'providers/agent/mcorpc/authz_actionpolicy.go evaluatePolicy'), ('line matching', 'providers/agent/mcorpc/authz_actionpolicy.go MatchesCallerID, MatchesAction, MatchesFacts, MatchesClasses'), ('policy file lookup', 'providers/agent/mcorpc/authz_actionpolicy.go lookupPolicyFile')],
  note='Decides evaluation of policy files assembled from symbolic lines against an independent first-match reference; facts and classes lookups are stubs, files are an in-memory model with symbolic read failures.'),
 dict(id='A02', title='Token based authorization allows only what the caller\'s token grants',
  statement='With the token authorizer a request is allowed only when the caller presents a valid client token whose allowed agents list holds *, agent.* or agent.action, or whose embedded policy evaluates to allow; requests to the discovery agent need only a valid token. An absent or invalid token, an empty grant, both kinds of grant at once and a failing policy all deny.',
  over=['inputs', 'fault schedules'], qtext='every token content, request and parse or policy failure', why='Tests hold a few tokens; a prefix, case or default slip admits callers only for particular grant lists.',
  files=['providers/agent/mcorpc/authz_jwt.go'], mech=[('token authorizer', 'providers/agent/mcorpc/authz_jwt.go aaasvcPolicyAuthorize'), ('agent list', 'providers/agent/mcorpc/authz_jwt.go EvaluateAgentListPolicy')],
  note='Decides the grant check over symbolic tokens; token parsing and policy evaluation are stubs with symbolic outcome.'),
 dict(id='A03', title='Authorization is enforced whenever enabled and unknown providers deny',
  statement='When RPC authorization is enabled a request is allowed only if the configured provider allows it without error; an unknown or unset provider, a provider error, a missing request and missing server information all deny. Only explicitly disabling authorization skips the provider.',
  over=['inputs', 'fault schedules'], qtext='every provider name, provider outcome and setting', why='The dangerous combinations are error together with allow, or unknown providers, which tests do not enumerate.',
  files=['providers/agent/mcorpc/agent.go', 'providers/agent/mcorpc/authz_rego.go'], mech=[('provider dispatch', 'providers/agent/mcorpc/agent.go AuthorizeRequest'), ('rego policy', 'providers/agent/mcorpc/authz_rego.go authorize')],
  note='Decides provider dispatch over every listed provider name and every provider outcome.'),
 dict(id='A04', title='RPC actions run and are audited only for parsed, known, authorized requests',
  statement='An agent runs an action only when the request parses, names an action it has and authorization allows it. The action sees the caller, sender, collective and request id the security layer verified rather than those the payload claims, and when auditing is on each run is recorded once with them. Every other request runs nothing and gets one reply with the status of its failure.',
  over=['inputs', 'fault schedules'], qtext='every request, agent state and authorization outcome', why='Combination of parse failure, unknown action, denied authorization and forged payload identity; tests look at each alone.',
  files=['providers/agent/mcorpc/agent.go', 'providers/agent/mcorpc/audit/choria.go'], mech=[('request handling', 'providers/agent/mcorpc/agent.go HandleMessage, parseIncomingMessage'), ('audit', 'providers/agent/mcorpc/audit/choria.go Request')],
  note='Decides HandleMessage with symbolic requests against a reference of which outcome applies, and records action calls, audit lines and replies.'),
]
