#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts are reviewable)."""
import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","An ownership voucher is accepted only if its whole chain verifies",
 "Verification of a list of ownership-voucher entries succeeds only if the header decodes, the first entry carries a valid hash of the encoded header followed by the encoded header HMAC and is signed by the manufacturer key in the header, and every later entry carries a valid hash of the complete encoded previous entry and is signed by the key that the previous entry transferred ownership to. Validation of a whole voucher additionally succeeds only if both protocol versions are 1.0.1, a device certificate chain is present and hashes to the value recorded in the header, and the rendezvous information and device description are non-empty. The key reported as the voucher's current owner is the one named in its last entry, and an entry-less voucher has no owner key.",
 ["inputs"],"every voucher header, HMAC, certificate chain and entry list of any length and content",
 "Tests never call voucher verification; a sample of vouchers cannot cover every chain length and every position at which one link may be wrong.",
 ["core/shared/voucher.go","core/shared/hashing.crypto.go","core/shared/signing.crypto.go"],
 [("OVEntryArray.VerifyEntries","core/shared/voucher.go"),("OwnershipVoucher.Validate","core/shared/voucher.go"),("OwnershipVoucher.GetFinalOwnerPublicKey","core/shared/voucher.go"),("ComputeOVDevCertChainHash","core/shared/voucher.go")])

p("C02","A COSE signature is accepted only for the signed bytes and the stated key",
 "Verification of a COSE Sign1 message succeeds only if its signature is a valid ECDSA or RSA signature, under the given public key, over the digest of the canonical Sig_structure built from exactly the message's protected header and payload, with the digest and signature length fixed by the key type (SHA-256 for P-256 and RSA-2048, SHA-384 for P-384 and the corresponding digest for RSA-3072). Verification against a certificate chain uses the key of the leaf certificate and succeeds only if the chain has at least two certificates, its last certificate is a CA, and the leaf verifies up to it. Unknown key types, key encodings, missing or malformed keys and wrong lengths are rejected with an error.",
 ["inputs"],"every message, key encoding, key type, signature length and certificate chain",
 "Two tests sign and verify a few random messages with matching keys; no test presents a wrong key, wrong algorithm, wrong length, altered header or malformed key.",
 ["core/shared/signing.crypto.go","core/shared/signing.cose.go","core/shared/signing.misc.go"],
 [("VerifyCoseSignature","core/shared/signing.crypto.go"),("VerifySignature","core/shared/signing.crypto.go"),("VerifyCoseSignatureWithCertificate","core/shared/signing.crypto.go"),("VerifyCertificateChain","core/shared/signing.crypto.go")])

p("C03","Hash and HMAC checks accept exactly the matching digest",
 "Checking a payload against a typed digest succeeds if and only if the type is a known one of the right family (plain hash, or keyed HMAC), and the carried value equals the SHA-256 or SHA-384 digest (respectively the HMAC under the given key) of exactly that payload. Generating a typed digest yields the requested type and the corresponding digest, or an error for any unknown type. The negotiated hash and HMAC strengths are those the specification assigns to the pair of device and owner key types.",
 ["inputs"],"every payload, key, digest type and digest value",
 "No test exercises digest verification or negotiation; the guarantee is an equivalence over all byte strings and all type codes.",
 ["core/shared/hashing.crypto.go"],
 [("VerifyHash","core/shared/hashing.crypto.go"),("VerifyHMac","core/shared/hashing.crypto.go"),("GenerateFdoHash","core/shared/hashing.crypto.go"),("GenerateFdoHMAC","core/shared/hashing.crypto.go"),("NegotiateHashHmacTypes","core/shared/hashing.crypto.go")])

p("C04","Decryption returns plaintext only for authenticated messages of the session",
 "Unwrapping an encrypted message returns a plaintext only if the message's algorithm identifiers match the negotiated cipher suite and its authentication tag verifies under the session key: the AEAD tag over the canonical Enc_structure of the protected header, or the HMAC over the canonical MAC structure computed before anything is decrypted. Wrapping followed by unwrapping with the same session key and suite returns the original bytes. An unknown or unsupported suite is always an error, and never yields unencrypted or unauthenticated output.",
 ["inputs"],"every byte string received, every session key and every cipher-suite identifier",
 "The only encryption test round-trips one message with one suite; it never presents a forged tag, another suite, or malformed headers.",
 ["core/shared/enc.crypto.go","core/shared/ccm/ccm.go"],
 [("RemoveEncryptionWrapping","core/shared/enc.crypto.go"),("AddEncryptionWrapping","core/shared/enc.crypto.go"),("decryptEMB/decryptETM","core/shared/enc.crypto.go")])

p("C05","Session keys follow the KDF and have the suite's key lengths",
 "The key-derivation function returns exactly the requested number of bits: the prefix of the concatenation of the HMACs, under the shared secret, of the counter, label, context and length block for counters 1, 2, 3 and so on, with the hash chosen by the cipher suite. For every supported cipher suite the session encryption and verification keys are consecutive, disjoint slices of that output with the lengths the suite's algorithms require. An unknown suite is an error.",
 ["inputs","configurations"],"every shared secret, context, requested length and every cipher suite",
 "No test calls the derivation; the lengths of only one suite are ever exercised and then by a fixed 32-byte key.",
 ["core/shared/enc.crypto.go"],
 [("Sp800108CounterKDF","core/shared/enc.crypto.go"),("CipherSuitesInfoMap","core/shared/enc.crypto.go")])

p("C06","Both sides of a key exchange derive the same session secret",
 "For every key-exchange suite, when each side derives the session secret from its own parameters and the other side's exchange message, both obtain the same shared secret, equal to the concatenation the specification prescribes (the Diffie-Hellman or ECDH shared value followed by device then owner randomness, or owner then device randomness order fixed by the suite). The exchange message encodes fixed-length coordinates and randomness so that the other side's parser reads back exactly what was generated. A message that is not of its suite's shape (for ECDH another length, another length prefix or a point off the curve; for Diffie-Hellman a value outside the group; for the asymmetric suites one the owner key cannot decrypt), or an unknown suite, is an error.",
 ["inputs"],"every pair of generated key-exchange parameters, including coordinates and secrets with leading zero bytes, and every received exchange message",
 "No test runs a key exchange; failures for values with leading zeros occur in under one percent of runs, so sampling misses them.",
 ["core/shared/kex.crypto.go"],
 [("GenerateXABKeyExchange","core/shared/kex.crypto.go"),("DeriveSessionKey","core/shared/kex.crypto.go")])

p("C07","The owner service enforces TO2 message order, nonces and device proof",
 "The owner service accepts a TO2 message only in a session it created and only directly after the message that must precede it (hello, then one or more voucher-entry requests, then device proof, then service-info-ready, then service info exchanges, then done); every other order is refused without changing the session's progress. It establishes session keys and answers the device proof only after the proof's signature verified against the voucher's device certificate chain and carried the nonce issued in this session, and it completes onboarding only for a done message carrying that same nonce, answering with the device's own setup nonce. Messages after the device proof are processed only if they decrypt and authenticate under the session's keys, and their responses are encrypted under those keys.",
 ["histories","inputs"],"every sequence of TO2 requests with every body, authorization token and stored session state",
 "Tests start no server and send no message; order violations and replays are histories no fixed test enumerates.",
 ["core/do/to2/listener-to2-60-HelloDevice.go","core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-70-Done.go","core/do/to2/common.go"],
 [("session progress (previous message id)","core/do/to2/*.go"),("receiveAndVerify/receiveAndDecrypt","core/do/to2/common.go")],
 state=[("owner session","what the owner service remembers of one TO2 run: last message sent, nonces, voucher, keys")])

p("C08","The rendezvous service registers only proven owners, for a bounded time",
 "The rendezvous service stores a redirect for a device only when the request belongs to a TO0 session it created, echoes that session's nonce, carries a voucher that validates and a redirect blob signed by that voucher's final owner whose digest covers exactly the submitted owner data, and every address in it names a host or an IP. It stores exactly that request under exactly the voucher's device identifier, for the smaller of the requested time and the service's maximum, and reports that same time. Every other request is refused and stores nothing.",
 ["inputs","histories"],"every TO0 request body, session token, voucher and stored state",
 "Tests never run the rendezvous service; the guarantee is a conjunction of checks each of which must hold for every malformed or forged request.",
 ["core/rv/listener-to0.go","core/rv/ownersign.db.go","core/rv/session.db.go"],
 [("Handle20Hello/Handle22OwnerSign","core/rv/listener-to0.go"),("OwnerSignDB.Save","core/rv/ownersign.db.go")],
 state=[("redirect store","per device identifier: the registered owner message and its expiry")])

p("C09","The rendezvous service redirects only the device that proved itself",
 "The rendezvous service answers a TO1 proof with a redirect only if the request belongs to a TO1 session it created for a registered device, the proof is signed by the leaf key of the device certificate chain in that device's registered voucher, and carries the nonce issued in that session. The redirect returned is exactly the blob registered for that session's device. A TO1 session is opened only for a device with a stored registration, with a fresh nonce, and the response echoes the requested signature type.",
 ["inputs","histories"],"every TO1 request, session token and stored registration",
 "Tests never run the rendezvous service; forged, replayed or cross-device proofs are not sampled.",
 ["core/rv/listener-to1.go","core/rv/ownersign.db.go","core/rv/session.db.go"],
 [("Handle30HelloRV/Handle32ProveToRV","core/rv/listener-to1.go"),("OwnerSignDB.Get","core/rv/ownersign.db.go")])

p("C10","No received message or token can crash protocol processing",
 "No protocol request, whatever its headers, authorization token and body, makes the owner or rendezvous service's handling of that request abort with a runtime panic; it ends in a response or an error response. The same holds for the message-processing routines these services share: digest, signature and voucher verification, key exchange, decryption and service-info decoding return an error on malformed input.",
 ["inputs","histories"],"every request and every decodable or undecodable message, including absent optional fields, wrong lengths and unknown sessions",
 "Tests feed only well-formed inputs; absence of a panic is a claim about every input.",
 ["core/do/to2/common.go","core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-64-ProveDevice.go","core/rv/listener-to0.go","core/rv/listener-to1.go","core/shared/enc.crypto.go","core/shared/kex.crypto.go","core/shared/signing.crypto.go","core/shared/voucher.go","core/shared/sims.tools.go","core/shared/transport.go"],
 [("request handlers","core/do/to2, core/rv"),("shared message processing","core/shared")])

p("C11","Protocol sessions and stored records are kept under their own key and expiry",
 "What is stored under a session token, device identifier or record identifier is what a later lookup with that same identifier returns, a lookup with any other identifier never returns it, and a lookup that finds nothing is reported as an error, never as an empty success. Protocol sessions expire ten minutes after they were last written, logins after seven days, and test records after the configured storage time, also after they are updated. A failed read, write or commit is reported to the caller and leaves the stored record as it was.",
 ["histories","fault_sequences","inputs"],"every identifier, every record value, every sequence of stores, updates and lookups, and every storage failure",
 "No test opens the database; key composition, expiry on update and error paths are never exercised.",
 ["core/do/dbs/session.db.go","core/do/dbs/voucher.db.go","core/rv/session.db.go","core/rv/ownersign.db.go","dbs/session.db.go","dbs/user.db.go","dbs/devicebase.db.go","dbs/config.db.go","dbs/verify.db.go","core/shared/testcom/dbs/listener.db.go","core/shared/testcom/dbs/reqt.db.go"],
 [("store and lookup of sessions, vouchers, registrations, users and test records","*/dbs/*.db.go, core/rv/*.db.go")])

p("C12","Device test runs step through every scheduled test in order",
 "A listener test run starts at the first message of its protocol with no results, and then for each protocol message hands out that message's scheduled tests one after the other, in order, staying on the last one, and nothing is handed out when no run is active. Completing a message records it as completed and moves to the named next message starting again at its first test; completing the run marks it complete, stops it and files it in the history. Recording a pass or a failure appends exactly one result carrying the test that was last handed out, and removing a run removes that run only.",
 ["histories"],"every sequence of operations on a run, with any test schedule",
 "No test touches the run state machine; its guarantees are about every operation history.",
 ["core/shared/testcom/listener/testrun.go","core/shared/testcom/listener/listenert.db.go","core/shared/testcom/listener/factory.go"],
 [("RequestListenerRunnerInst operations","core/shared/testcom/listener/listenert.db.go")],
 state=[("listener run","expected message, test index, completed messages, current results, history")])

p("C13","A negative conformance test passes only if the peer answered with an error",
 "Whenever the tool sends a deliberately wrong request to the implementation under test, the recorded verdict is a pass only if the implementation answered with a non-success HTTP status and a body that decodes as a protocol error message; otherwise it is a failure with a reason. The verdict carries the identifier of the test that was run, and a test that does not belong to the message under test is never recorded as a pass.",
 ["inputs","configurations"],"every test identifier, HTTP status and response body",
 "No test evaluates a verdict; each of the many test identifiers, response codes and bodies would need its own case.",
 ["core/shared/testcom/methods.go","core/shared/testcom/common.go","core/device/to1/to1-common.go","core/device/to2/to2-common.go","core/do/to0/common.go"],
 [("ExpectAnyFdoError / ExpectFdoError / ExpectGroupTests","core/shared/testcom/methods.go"),("confCheckResponse","core/device/to1, core/device/to2, core/do/to0")])

p("C14","Test management acts only for a logged-in user on that user's own tests",
 "Every test-management request of the web API is refused with an unauthorized answer, changing nothing, unless it carries the token of a stored login session that is marked logged in and belongs to an existing user. Starting, listing, executing, exporting or deleting a test instance or run happens only if the identifier given belongs to that user; otherwise the request is refused and nothing is read out or changed.",
 ["inputs","histories"],"every request, cookie, identifier and stored user and session state",
 "No test sends an API request.",
 ["api/testapi/device.api.go","api/testapi/do.api.go","api/testapi/rv.api.go","api/user.other.api.go","dbs/user.structs.db.go"],
 [("checkAutzAndGetUser","api/testapi/*.api.go"),("ownership tests RVT_/DOT_/DeviceT_ContainID","dbs/user.structs.db.go")])

p("C15","The device side accepts an owner's TO2 answers only when they verify",
 "As a device, the tool accepts the owner's voucher header only if it is signed by the announced owner key, echoes the nonce and signature type just sent, its hash covers exactly the hello message sent, and the header HMAC verifies under the device's own secret. It accepts the setup message and the final acknowledgement only if they decrypt under the session keys, and carry the device's own setup nonce, and a voucher entry only as sent by the owner; a protocol error or undecodable answer is always reported as an error. Each request it sends answers the nonces received from the owner.",
 ["inputs","histories"],"every answer of the owner service, well-formed or not",
 "No test runs the device side against any server.",
 ["core/device/to2/req-to2-60-HelloDevice.go","core/device/to2/req-to2-62-GetOVNextEntry.go","core/device/to2/req-to2-64-ProveDevice.go","core/device/to2/req-to2-66-DeviceServiceInfoReady.go","core/device/to2/req-to2-68-DeviceServiceInfo.go","core/device/to2/req-to2-70-Done.go"],
 [("To2Requestor message methods","core/device/to2")])

p("C16","Mandatory device info is required; owner info is sent once, in order",
 "The owner service accepts a device's service information only if every mandatory item is present, and decodes each known item to the type the specification gives it, rejecting the message otherwise. After the device has sent its last item, the owner's items are sent exactly once each, in order, one per exchange, and the exchange is reported done only when all have been sent; until then nothing is sent to a device that still has more to send.",
 ["inputs","histories"],"every list of service-info items and every sequence of service-info messages",
 "One unit test validates two hand-written item lists; sequences of exchanges are never run.",
 ["core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/common.go","core/shared/sims.tools.go","core/shared/sims.reg.go"],
 [("ValidateDeviceSIMs","core/do/to2/common.go"),("DecodeSims / FindDelta / Contains","core/shared/sims.tools.go"),("DeviceServiceInfo68","core/do/to2/listener-to2-68-DeviceServiceInfo.go")])

p("C17","Generated device credentials and vouchers are consistent and verifiable",
 "Every voucher the tool generates without a fault to inject names the device's identifier, hashes the device's certificate chain, has its header HMAC computed with the device's own secret, and chains each entry to the exact previous entry with a signature by the then owner, ending at the owner key that is stored with it. Each fault-injection variant deviates from that only in the artefact its name says.",
 ["inputs","configurations"],"every credential, key type, rendezvous information and requested test variant",
 "No test generates a voucher.",
 ["core/device/genvoucher.go","core/device/genvoucher_with_provided_keys.go","core/shared/distuff.go"],
 [("NewVirtualDeviceAndVoucher","core/device/genvoucher.go"),("GenerateOvEntry","core/device/genvoucher.go")])

p("C18","Rendezvous instructions and addresses are translated faithfully",
 "Turning a service URL into a rendezvous instruction or redirect address yields exactly its host as an IP address of the right length or as a DNS name, its port (the scheme's default when absent) and the protocol of its scheme, or an error. Reading instructions back yields for each audience exactly the instructions addressed to it, with the decoded value of each field, and duplicated or malformed instructions are refused.",
 ["inputs"],"every URL and every rendezvous instruction list",
 "No test parses a URL or an instruction.",
 ["core/shared/other.go","core/shared/rvinfo.go"],
 [("UrlToTOAddrEntry / UrlToRvDirective","core/shared/other.go"),("RendezvousDirective.Validate / NewMappedRVDirective / GetOwnerOnly","core/shared/rvinfo.go")])

p("C19","AES-CCM implements RFC 3610 and rejects every altered message",
 "Sealing produces the CTR encryption of the plaintext followed by the encrypted CBC-MAC of nonce, associated data and plaintext as RFC 3610 defines for the configured tag and nonce sizes, and opening returns the plaintext only if that tag recomputed from the decrypted text matches in full. Opening never returns plaintext for a ciphertext shorter than a tag or a failed tag. Only tag and nonce sizes the RFC allows are accepted, and messages longer than the length field can express are refused.",
 ["inputs"],"every key, nonce, associated data and message length",
 "The mode has no test of its own.",
 ["core/shared/ccm/ccm.go"],
 [("NewCCM / Seal / Open / tag","core/shared/ccm/ccm.go")])

p("C20","Test results are recorded completely and only for the run they belong to",
 "Reporting a result stores exactly that result under its test in the current run and in that run's history entry, keeping every other result and every other run; starting a run adds one new empty run and marks the test in progress, finishing marks it not in progress, and neither loses earlier runs. Removing a run removes exactly the runs with that identifier.",
 ["histories"],"every sequence of start, report, finish and remove operations, with any identifiers and results",
 "No test records a result.",
 ["core/shared/testcom/dbs/reqt.db.go","core/shared/testcom/request/rvt.db.go"],
 [("RequestTestDB operations","core/shared/testcom/dbs/reqt.db.go")])

p("C21","Without an active test the services answer honestly",
 "When no test run is active for a device, or the active step is its positive test, the owner and rendezvous services answer with genuine, unmodified protocol messages: correctly encoded, signed with the owner key, echoing the client's nonces, and encrypted under the session key. A fault is injected only when the current scheduled test names it, and then only into the artefact that test names.",
 ["inputs","histories","configurations"],"every request, every stored test-run state and every scheduled test",
 "No test runs the services.",
 ["core/do/to2/listener-to2-60-HelloDevice.go","core/do/to2/listener-to2-62-GetOVNextEntry.go","core/do/to2/listener-to2-64-ProveDevice.go","core/do/to2/listener-to2-66-DeviceServiceInfoReady.go","core/do/to2/listener-to2-68-DeviceServiceInfo.go","core/do/to2/listener-to2-70-Done.go","core/rv/listener-to1.go"],
 [("fault injection branches","core/do/to2, core/rv")])
if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s); assert len(x["title"])<=80,x["id"]
    print(len(P))
