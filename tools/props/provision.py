PROPS = [
 dict(id='T01', title='A server is provisioned only in the right mode, with the token, by one at a time',
  statement='Every action of the provisioning agent changes the server, makes keys or returns data exactly when the server is in the mode the action is for, the request has the provisioning token of the build if that has one, and, for actions that configure a server, no other provisioner holds the lock; a restart also needs a configuration that is valid and does not enable provisioning. The lock is held by one provisioner, which extends it with every action, until it was not used for the time of the lock.',
  over=['inputs','configurations','histories'], qtext='every action, mode, token, lock and request within the bounds', why='Tests check single actions with fixed tokens and never two provisioners over time.',
  files=['providers/agent/mcorpc/golang/provision/provision.go','providers/agent/mcorpc/golang/provision/util.go','providers/agent/mcorpc/golang/provision/restart_action.go','providers/agent/mcorpc/golang/provision/configure_action.go','providers/agent/mcorpc/golang/provision/reprovision_action.go','providers/agent/mcorpc/golang/provision/shutdown_action.go','providers/agent/mcorpc/golang/provision/release_update_action.go'],
  mech=[('gates','providers/agent/mcorpc/golang/provision/provision.go New, lockedAction'), ('tokens','providers/agent/mcorpc/golang/provision/util.go checkToken'), ('locks','providers/agent/mcorpc/golang/provision/util.go lockFor')],
  note='Cryptography is replaced with models of it; configurations are parsed by a simple model.'),
 dict(id='T02', title='Provisioning writes what was given, completely, or reports that it did not',
  statement='A server that reports that it was configured holds exactly the settings, certificates, private key, token and policies it was given; faulty settings, keys that were not encrypted for this server and failed writes are reported and not announced, and the configuration file is always the previous or the new one, complete. A private key is stored only when it was decrypted with the exchanged secret, and a token is never left with a seed it was not made for.',
  over=['inputs','fault_sequences'], qtext='every request and failing file operation within the bounds', why='Tests check successful writes and no failing ones.',
  files=['providers/agent/mcorpc/golang/provision/configure_action.go','providers/agent/mcorpc/golang/provision/ed25519_action.go','providers/agent/mcorpc/golang/provision/util.go'],
  mech=[('files','providers/agent/mcorpc/golang/provision/configure_action.go writeConfig, writeTLS, writePolicies, writeJWT'), ('keys','providers/agent/mcorpc/golang/provision/util.go decryptPrivateKey'), ('seeds','providers/agent/mcorpc/golang/provision/ed25519_action.go ed25519Action')],
  note='The disk and the cryptography are models.'),
 dict(id='S04', title='Certificates are accepted only from the CA and for the names they hold',
  statement='A caller is allowed by its certificate exactly when that is a valid client certificate of the configured CA and either has a privileged name or is for the name of the caller, which is then also on the list of allowed callers; anything else, like no certificate, one that cannot be read or a CA that cannot be used, is refused. A signature is accepted only when it was made over the data by the key of the certificate, and certificates with other kinds of keys are refused without harm. TLS connections verify peers with the CA unless that is disabled, and legacy certificates without alternative names only by their common name.',
  over=['inputs','configurations'], qtext='every certificate, CA, name and list within the bounds', why='Tests check one certificate of each kind and no CA that cannot be used.',
  files=['providers/security/filesec/file_security.go','providers/security/filesec/util.go'],
  mech=[('callers','providers/security/filesec/file_security.go ShouldAllowCaller, VerifyCertificate'), ('lists','providers/security/filesec/util.go MatchAnyRegex'), ('signatures','providers/security/filesec/file_security.go VerifySignatureBytes'), ('connections','providers/security/filesec/file_security.go TLSConfig, ClientTLSConfig')],
  note='The puppet, certmanager and pkcs11 providers pass these decisions on to this one. Parsing and verification of certificates by the standard library are models. Caller ids may have text after the identity, like domains of email addresses, which the certificate is not compared to.'),
]
