PROPS = [
 dict(id='N02', title='Federation brokers pass messages on to whom they are for, once each',
  statement='A federation broker publishes each valid federated request it receives to exactly the targets in its header, or rejects it, and sends each reply to the inbox of the federated requester, with the message itself unchanged, the federation header set so that the reply finds its way back, and itself recorded in the path. Messages that are not valid or not federated are dropped, and never stop others from passing or crash the broker.',
  over=['inputs','schedules','fault_sequences'], qtext='every message of the kinds and targets within the bounds, publish failures and orders of messages', why='Tests cover single messages of the usual kind and not the chain of two networks with failures.',
  files=['broker/federation/request_transformer.go','broker/federation/reply_transformer.go','broker/federation/choria_nats_ingest.go','broker/federation/choria_nats_egest.go','broker/federation/federation.go'],
  mech=[('requests', 'broker/federation/request_transformer.go'), ('replies', 'broker/federation/reply_transformer.go'), ('networks', 'broker/federation/choria_nats_ingest.go, choria_nats_egest.go')],
  note='The network connections are stand-ins for two networks; JSON and the protocol run as they are.'),
 dict(id='E01', title='An election has at most one leader, until that is stopped or fails',
  statement='At no time do two members of an election lead, whatever requests to the bucket fail or succeed without the member knowing, and a member is told that it won once per win and only while it holds the key. One of the members is elected when requests do not fail, another one takes over when the leader stops, and a stopped member never campaigns or wins; stopping never blocks, and an election that stopped or could not start can be started again.',
  over=['schedules','fault_sequences','histories'], qtext='every order, timing, loss of requests or replies and time of stopping within the bounds', why='Needs requests to fail at particular times, and stopping at particular moments.',
  files=['providers/election/streams/election.go'], mech=[('campaigns', 'providers/election/streams/election.go campaignForLeadership, maintainLeadership'), ('stopping', 'providers/election/streams/election.go Stop, stop, Start')],
  note='The bucket is a stand-in with a key that expires after the TTL and compares sequence numbers as the server does; clocks of members do not drift and requests take no longer than half a second.'),
 dict(id='G01', title='Governors never let more work at once than their limit',
  statement='A worker works only while it holds a slot of its governor, so never more than the limit at once, whatever requests fail. It waits for a slot no longer than asked to, leaves exactly its own slot when done, once, unless set to keep it, can try again when leaving fails, and a governor that did not get a slot can be used again.',
  over=['schedules','fault_sequences','histories'], qtext='every order of workers and failure of requests within the bounds', why='Needs requests to fail at particular times with several workers at once.',
  files=['providers/governor/streams/governor.go'], mech=[('slots', 'providers/governor/streams/governor.go Start')],
  note='The stream is a stand-in that refuses messages over its limit as the server does; eviction of slots by age is not covered.'),
 dict(id='A05', title='Rego policies decide from the request itself, and only true allows',
  statement='A Rego policy in a file or token is given the action, caller, data, facts, claims and other properties of the request and server as they are, and its requires_ functions say exactly which filters the request has. A request is allowed only if evaluating the policy gives a single true; a policy that cannot be read, is not valid, fails or has no, several or other results denies.',
  over=['inputs','configurations'], qtext='every request, filter, question and outcome of evaluation within the bounds', why='Tests use a few policies with a few requests.',
  files=['opa/opa.go','providers/agent/mcorpc/authz_rego.go','providers/agent/mcorpc/authz_jwt.go'], mech=[('evaluation', 'opa/opa.go Evaluate, New'), ('functions', 'providers/agent/mcorpc/authz_jwt.go opaFuncRequires*'), ('inputs', 'providers/agent/mcorpc/authz_rego.go regoInputs, authz_jwt.go opaInputs')],
  note='The Rego engine is not encoded, it is a stand-in with symbolic results.'),
]
