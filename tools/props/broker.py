A='broker/network/choria_auth.go'
PROPS = [
 dict(id='B01', title='The broker admits connections only with verified proof and as whom it proves',
  statement='The broker admits an ordinary connection only over the in-process pipe, with verified TLS, or with a client or server token that a trusted signer or the issuer of its organization signed, that has not expired and whose key signed the nonce of this very connection. It is then known under the name in the token, placed in the choria account with the permissions of its class; every other connection is denied and registers nothing.',
  over=['inputs'], qtext='every combination of connection, TLS state, token, signer, nonce proof and broker trust settings modelled', why='The decision spans a dozen independent settings; tests walk a few paths, and the dangerous ones are combinations that no test holds.',
  files=[A], mech=[('connection check', A+' Check, handleDefaultConnection'), ('token verification', A+' parseClientIDJWT, parseServerJWT'), ('nonce proof', A+' verifyNonceSignature')],
  note='Decides Check over symbolic connections and broker settings against an independent admission reference; token parsing and the ed25519 primitive are stubs that know who signed what.'),
 dict(id='B02', title='A client can use only the subjects its token grants',
  statement='A client admitted by token may subscribe and publish exactly to its own reply inbox, its additional subjects and what each of its permissions grants; requests to the fleet need a fleet management permission, governors also need streams, and only an organization administrator is unrestricted. No client sees another caller\'s replies.',
  over=['inputs'], qtext='every combination of token permissions, organization and additional subjects', why='Permissions interact, and an allow list that ends up empty means everything is allowed; tests check each permission alone.',
  files=[A], mech=[('client permissions', A+' setClientTokenPermissions')],
  note='Compares by subject coverage, in both directions, the registered permissions with a reference for every combination of permissions.'),
 dict(id='B03', title='A server can use only the subjects its token grants and its own identity',
  statement='A server admitted by token receives requests only for its own identity and broadcasts in the collectives of its token, and publishes only replies, registration, events and what its permissions grant; it can never publish requests to other nodes. A token with no collectives, and servers on a broker that denies servers, get no subject at all.',
  over=['inputs'], qtext='every combination of server token permissions, collectives, identity and broker settings', why='An empty list silently means everything is allowed, and per collective grants accumulate; tests check a few fixed lists.',
  files=[A], mech=[('server permissions', A+' setServerPermissions, setClaimsBasedServerPermissions')],
  note='Compares by subject coverage, in both directions, the registered permissions with a reference for every combination of claims.'),
 dict(id='B04', title='System and provisioning accounts are reached only with their full credentials',
  statement='The system account is entered only with the configured non-empty password over verified TLS or the pipe, or over unverified TLS with a trusted client token granting it and a valid nonce proof. The provisioning account is entered as provisioner only with the configured password and verified TLS, or in issuer mode a trusted token with the provisioner permission, and by unprovisioned servers only with a trusted provisioning token and the few subjects provisioning needs.',
  over=['inputs'], qtext='every password pair, TLS state, token, signer and setting modelled', why='Many independent conditions must all hold; tests drop one at a time from a handful of good combinations.',
  files=[A], mech=[('system user', A+' handleVerifiedSystemAccount, handleUnverifiedSystemAccount'), ('provisioner', A+' handleProvisioningUserConnection'), ('unprovisioned servers', A+' handleUnverifiedProvisioningConnection')],
  note='Decides Check for the special users over symbolic credentials and settings; token parsing and the ed25519 primitive are stubs that know who signed what.'),
]
