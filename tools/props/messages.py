SEC='providers/security/choria/choria_security.go'
V1='protocol/v1/security_request.go'; V2='protocol/v2/secure_request.go'
PROPS = [
 dict(id='S01', title='A request signature is accepted only from the key of a trusted token',
  statement='The Choria security provider accepts a signature over data only when it was made over exactly those bytes by the key of the caller\'s own valid token, or, when a delegate token is presented, by the key of that delegate, whose token permits delegation and authentication, while the caller token is a valid client token that a trusted signer or the organization issuer signed. Any other number of tokens, any damaged, expired, foreign or keyless token refuses.',
  over=['inputs'], qtext='every combination of tokens, signers, purposes, permissions, keys, signed data and trust settings modelled', why='Who may sign for whom is a product of two tokens, two keys and the trust settings; tests sign a few good requests.',
  files=[SEC], mech=[('verification', SEC+' VerifySignatureBytes'), ('token check', SEC+' and tokens')],
  note='Runs VerifySignatureBytes on symbolic tokens, trust settings and signatures against an independent reference; ed25519 and the JWT parser are stubs that know who signed what.'),
 dict(id='S02', title='Only requests and replies that pass their security checks are accepted',
  statement='In both protocol versions a secure request taken from a transport without skipping validation is returned only if it follows its schema and its signature over exactly the request it carries, with the certificate or tokens it carries, verifies and its caller is one the credential may use, and then holds exactly that request. Sending signs exactly the encoded request, by the remote signer when configured, and fails when signing fails, a secure reply is returned only when its hash is the hash of its body, and each version demands its security technology.',
  over=['inputs'], qtext='every secure request and reply with bounded fields and every outcome of the schema, signature and caller checks', why='Several independent verdicts are combined in order and any one missed lets unsigned commands run; tests use one good and one bad message.',
  files=[V1,V2,'protocol/v1/constructors.go','protocol/v2/secure_reply.go','protocol/v1/security_reply.go'], mech=[('protocol 1', V1+' Valid, '+'protocol/v1/constructors.go'), ('protocol 2', V2+' Valid, NewSecureRequestFromTransport')],
  note='Executes both protocol packages symbolically against a provider that records what it was asked to verify or sign.'),
 dict(id='S03', title='A caller name is accepted only from the credential that holds it',
  statement='A request\'s caller name is accepted without delegation only when the token parses as a client token of exactly that caller name that may use the fleet; with a delegate token, only when that token parses and permits authentication delegation and the caller token is a client token of exactly that caller. No other number of tokens is accepted, and no token can crash the check.',
  over=['inputs'], qtext='every caller name of up to four bytes and every combination of token permissions, purpose and damage', why='Impersonation hides in a name that is nearly equal or a token of another kind; tests compare two names.',
  files=[SEC], mech=[('own token', SEC+' shouldAllowCallerUnsigned'), ('delegated', SEC+' ShouldAllowCaller')],
  note='Runs ShouldAllowCaller on symbolic names and tokens against an independent reference.'),
 dict(id='M02', title='Requests and replies arrive exactly as sent',
  statement='A message sent by a client, encoded to the wire and decoded by a server has the same payload, agent, collective, caller, sender, request id, TTL, time, filter, reply target and federation data; the reply the server sends for it carries its request id, agent and federation data back and arrives at the client with the body the server set. This holds for both protocols and for broadcast, direct and service requests.',
  over=['inputs'], qtext='every payload, filter, agent, reply target, TTL and federation data within the bounds, both protocols', why='A dozen nested structures copy fields by hand and silently drop optional ones; tests check one layer and a few fields each.',
  files=['choria/protocol.go','message/message.go','protocol/v1/request.go','protocol/v2/request.go','protocol/v1/transport.go','protocol/v2/transport.go'], mech=[('layers', 'choria/protocol.go'), ('message', 'message/message.go'), ('formats', 'protocol/v1, protocol/v2')],
  note='Runs the whole client to server to client path over the real packages with symbolic contents; only the security primitives and schema validator are stubs.'),
 dict(id='M05', title='Malformed network messages are dropped without harm',
  statement='Whatever a peer sends as transport, secure request, request, secure reply or reply, including JSON nulls, wrong types, missing or empty parts and broken encodings at any level, the receiver returns an error or a message it can use; it never crashes while decoding, routing, answering or reading it.',
  over=['inputs'], qtext='every combination of malformed shapes at every level of nesting within the bounds, with any field contents', why='A single null in any of five nested structures is enough to crash; unit tests have well formed structures.',
  files=['protocol/v1/constructors.go','protocol/v2/transport.go','protocol/v2/secure_reply.go','choria/protocol.go'], mech=[('decoding', 'choria/protocol.go NewTransportFromJSON, NewReplyFromTransportJSON, NewRequestMessageFromTransportJSON')],
  note='Decodes the product of malformed shapes with symbolic fields through the real decoding, reply and accessor code, where any panic is a violation.'),
 dict(id='M01', title='Requests are acted on only within their time to live',
  statement='A server accepts a request only while the clock is within the request\'s own TTL of the moment the request was made, in either direction, and accepts every request that is; a TTL of zero is never fresh. This holds for every creation time, TTL and clock.',
  over=['inputs'], qtext='every TTL of up to 70000 seconds, every creation time to the nanosecond within 39 hours of now and a clock that moves on during the check', why='Replay protection is an inequality over 64 bit times; tests try one stale and one fresh message.',
  files=['message/message.go'], mech=[('age check','message/message.go ValidateTTL'), ('TTL of the request', 'message/message.go NewMessageFromRequest')],
  note='64 bit time arithmetic decided by the solver over all values, with a frozen and a moving clock.'),
 dict(id='M04', title='Only well formed messages can be made and sent',
  statement='A message can only be made for a named agent in a collective this client or server belongs to and of a known type; a direct request always has targets and a service request never has any; only requests can have a reply target and no request is sent without one, nor without a filter when those are required. A refused change leaves the message as it was, a reply keeps agent and collective of what it answers, and transports are reused only when caching is on and no unique one was asked for.',
  over=['inputs','histories'], qtext='every agent and collective within the bounds, every type and every sequence of three changes to a message with any outcome of the framework', why='The rules hold across orders of setter calls that no test tries in combination.',
  files=['message/message.go'], mech=[('construction','message/message.go NewMessage'), ('changes','message/message.go SetType, SetCollective, SetReplyTo'), ('sending','message/message.go Transport')],
  note='Symbolic histories of setter calls against a small reference state machine; the transport constructor is a recording stub.'),
]
