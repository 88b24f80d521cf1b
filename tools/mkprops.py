#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
A='anothertls/src/'
SC=A+'net/server/connection.rs'; SH=A+'net/server/server_hello.rs'; CC=A+'net/client/connection.rs'; CH=A+'net/client/client_hello.rs'
ST=A+'net/stream.rs'; RE=A+'net/record.rs'; KS=A+'net/key_schedule.rs'; CE=A+'net/handshake/certificate.rs'; FI=A+'net/handshake/finished.rs'
HS=A+'net/handshake/mod.rs'; AL=A+'net/alert.rs'; KL=A+'utils/keylog.rs'; X5=A+'utils/x509.rs'; DE=A+'utils/der.rs'; SG=A+'crypto/ellipticcurve/signature.rs'
EX=A+'net/extensions/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
NOHS='No test performs a handshake at all: the suite only checks primitives on fixed vectors; '
p('S01','A server session requires a correct client Finished',
 'A server hands out an established session only after it received, encrypted under the client handshake key of this very handshake, a Finished message whose verify data is exactly the MAC, under the client handshake secret, of every handshake message both sides exchanged so far. A Finished that is missing, truncated, extended, altered in any bit, computed over another transcript or with another secret, replayed from another connection, or sent in the clear yields an error and no session.',
 ['inputs','histories'],'every peer behaviour up to and including the Finished flight, for every suite and with or without client authentication',
 NOHS+'the property quantifies over every message sequence and every wrong verify data.',
 [SC,FI,KS],[('handle_client_finish compares verify data',SC),('get_verify_data_for_finished',FI)],['return value of ServerConnection::accept','bytes on the socket'],
 [('ServerHsState','what the server expects next',SC),('tshash','running transcript',SC)])
p('S02','Client-certificate authentication cannot be bypassed',
 'A server configured with a client CA hands out a session only if the client answered this handshake\'s certificate request (same request context) with a certificate that is within its validity period, is signed by that CA and is accepted by the custom verify function (called with the certificate actually presented), and then proved possession of that certificate\'s private key with a client CertificateVerify signature over exactly this handshake. In every other case the connection ends with an error and no session, whatever else the client sends afterwards, including a correct Finished.',
 ['inputs','histories','configurations'],'every order and content of Certificate / CertificateVerify / Finished, every certificate fault, every configuration of CA and verify function',
 NOHS+'authentication decisions are never executed by a test.',
 [SC,CE,X5,A+'net/server/config.rs'],[('handle_client_certificate / handle_client_certificate_verify',SC),('has_signed, is_certificate_valid, from_hello',CE),('FinishWithError never turns into Ready',SC)],
 ['return value of ServerConnection::accept','calls of the custom verify function'],[('ServerHsState::FinishWithError','a pending authentication failure',SC)])
p('S03','A client session requires the server to prove its key',
 'A client returns an established session only after the server presented a certificate within its validity period, sent a server CertificateVerify that verifies under that certificate\'s key over exactly this handshake\'s messages, and sent a Finished with the correct MAC under this handshake\'s server secret. If any of these is missing, wrong, belongs to another handshake or role, or arrives unprotected, the client returns an error and sends no Finished and no application data.',
 ['inputs','histories'],'every server behaviour: any message omitted, replaced, altered or signed with another key, transcript or role label',
 NOHS+'a client is never connected to anything.',
 [CC,CE,FI],[('handle_server_certificate_verify',CC),('handle_server_finish',CC)],['return value of ClientConnection::connect','bytes on the socket'],
 [('ClientHsState','what the client expects next',CC)])
p('H01','Handshake messages are accepted only in protocol order',
 'During the handshake each role accepts a message only where TLS 1.3 allows it: any message that is out of order, repeated, omitted, of the other role, of an unexpected content type, or protected when it must be clear (or clear when it must be protected) makes the handshake fail and no session is returned. The only messages that may be ignored are ChangeCipherSpec records after the first hello.',
 ['inputs','histories'],'every sequence of message kinds, in both roles, with and without client authentication',
 NOHS+'the number of message sequences is unbounded and none is exercised.',
 [SC,CC,HS],[('state match in handle_handshake_record',SC),('state match in handle_handshake_encrypted_record',CC)],['accept/connect result','bytes sent'],
 [('ServerHsState / ClientHsState','position in the handshake',SC)])
p('H02','Compatible peers always complete and agree on every key',
 'Every handshake between this library and a conforming TLS 1.3 peer that offers X25519, a supported suite and (where asked) a P-256 certificate completes, in either role and also between this library\'s own client and server, whatever the random values, key shares, signatures, session id length and certificates (that fit one record) are, and however the peer packs its handshake messages into records. Both sides then hold the same handshake and application traffic keys, derived as RFC 8446 prescribes.',
 ['inputs','configurations'],'all random values (including key shares, shared secrets and signatures with leading or trailing zero bytes), all three suites, all configurations',
 NOHS+'failures that depend on rare random values (about one handshake in a hundred) are invisible to any fixed vector.',
 [SC,CC,KS,SH,CH,A+'utils/bytes.rs',SG],[('KeySchedule::do_key_schedule',KS),('ibig_to_32bytes',A+'utils/bytes.rs'),('ServerHello::from_client_hello',SH)],['accept/connect result','both directions of application data'],[])
p('H03','Only mutually offered parameters are negotiated',
 'A server negotiates only TLS 1.3, a cipher suite and an X25519 key share that the client actually offered, skipping unknown values wherever they stand in the offer, always choosing the ChaCha20 suite when it is offered, echoing the session id exactly; if there is no common version, suite or key share group it fails without sending a ServerHello. A client accepts a ServerHello only if version, suite, group and session id are ones it offered or sent.',
 ['inputs'],'every ClientHello offer (order, duplicates, unknown values, missing extensions) and every ServerHello answer',
 NOHS+'hello parsing and selection have no tests.',
 [SH,CH,CC,EX+'key_share.rs',EX+'client.rs',EX+'server.rs',EX+'supported_versions.rs',A+'crypto/ciphersuite.rs'],[('ServerHello::from_client_hello',SH),('ServerHello::from_raw',SH)],['ServerHello bytes','accept/connect result'],[])
p('H04','The configured server name is enforced',
 'A server configured with a server name rejects, with the unrecognized_name alert and before sending a ServerHello, every client that sends a different name, and accepts a client that sends exactly this name or no name at all; a server without configured name ignores the name. A client configured with a name sends exactly that name.',
 ['inputs','configurations'],'every configured name and every offered name (prefixes, extensions, empty, other bytes)',
 NOHS+'name matching is never executed.',
 [SH,EX+'server_name.rs',A+'net/server/config.rs'],[('ServerName comparison in from_client_hello',SH),('ServerName::server_parse',EX+'server_name.rs')],['alert and result','ClientHello bytes'],[])
p('R01','Every protected record leaves under the right key and a fresh nonce',
 'After the hello exchange every byte a role sends is a protected record (apart from ChangeCipherSpec): handshake messages under that role\'s handshake key, application data and alerts after the handshake under its application key, with a sequence number that starts at 0 for each key and grows by exactly one per record, so no nonce is ever used twice with one key, however many records are sent. Record headers and inner content types are correct and no record exceeds the maximum size.',
 ['histories','inputs'],'every sequence of sends (handshake flights, writes of every size, alerts) and sequence numbers up to 2^64',
 'No test sends two records; nonce reuse needs many records, a key change or a failure path to show.',
 [RE,KS,ST],[('get_per_record_nonce',KS),('encrypt chooses key by epoch and role',RE)],['bytes on the socket, decrypted by an independent peer'],[('Key.sequence_number','per-key record counter',KS)],'cfg(verif_hooks): set a sequence number to reach the 2^8..2^64 boundaries')
p('R02','Only authentic, in-order peer data is ever delivered',
 'The bytes that reading from a session returns are always a prefix of the bytes the peer wrote in this session in this direction: records that are forged, altered in header, body or tag, replayed, dropped, reordered, reflected back, truncated, sent in the clear or protected with another key deliver nothing. Once such a record was seen, reading keeps failing and later records are not delivered.',
 ['inputs','histories','fault_sequences'],'every sequence of genuine and manipulated records in both roles and all suites',
 'Record protection has no test; the property is about all interleavings of attacks and genuine records.',
 [RE,ST,A+'crypto/ciphersuite.rs'],[('RecordPayloadProtection::decrypt',RE),('TlsStream::tls_read',ST)],['results of tls_read'],[('read sequence number','expected next record',KS)])
p('R03','Application data is a faithful byte stream',
 'Whatever sizes are written (including empty writes and writes larger than one record) and whatever sizes are read, each side reads exactly the bytes the other side wrote, in order, complete and without duplicates, in both directions, for every suite, padding and record size the peer may choose up to the protocol maximum, as long as the peer sends nothing but data.',
 ['inputs','histories'],'every interleaving of writes, reads, buffer sizes and record sizes',
 'tls_read/tls_write have no tests ("TODO: create tests" in the source); block-boundary and buffer-boundary sizes matter.',
 [ST,RE,A+'crypto/chacha20/cipher.rs',A+'crypto/aes/gcm.rs'],[('tls_read / tls_write',ST)],['tls_read results','decrypted output records'],[])
p('R04','Behaviour does not depend on TCP segmentation',
 'How the TCP byte stream is cut into segments changes nothing: handshakes and data transfer behave the same if records arrive one byte at a time, several records at once, cut at any point, or together with the first application data. In particular data sent directly after the peer\'s Finished is not lost.',
 ['schedules','inputs'],'every cut of the byte stream in both roles, in handshake and data phase',
 NOHS+'on loopback nearly every record arrives in one piece, so even an end-to-end test would not see it.',
 [ST,SC,CC,RE],[('receive loops of do_handshake',SC),('tls_read',ST)],['accept/connect result','tls_read results'],[])
p('A01','Failures are reported with one correct alert and the matching error',
 'When a handshake fails because of what the peer sent, exactly one fatal alert is sent, after any handshake records already produced and protected under the keys in force at that point, carrying the RFC 8446 code of the error that the call returns, and nothing follows it. When the peer sends an alert the call returns the error for that code and no alert is sent back; when the transport closes a broken-pipe error is returned.',
 ['inputs','histories'],'every failure cause at every handshake position, every received alert code',
 'No test covers an error path of the protocol.',
 [AL,ST,SC,CC],[('TlsError::new / as_u8',AL),('do_handshake_with_error',SC),('write_alert',ST)],['alert bytes','returned TlsError'],[])
p('A02','No peer input makes the library panic or hang',
 'Whatever bytes the peer sends, in the clear or correctly protected, in any phase, in either role, every call returns (an error or a result): it never panics, never overflows, never loops forever. The same holds for parsing certificates, signatures, records and handshake messages taken from the peer.',
 ['inputs','fault_sequences'],'all byte strings for every parser and every message position: truncated, extended, wrong lengths, unknown values',
 'Parsers are only tested on two valid certificates.',
 [RE,HS,CH,SH,EX+'client.rs',EX+'server.rs',EX+'key_share.rs',EX+'server_name.rs',CE,DE,X5,SG,SC,CC],[('bounds checks in each parser',HS)],['call returns'],[])
p('L01','One connection cannot influence the next',
 'A listening server treats every accepted connection independently: after any number of earlier connections that succeeded, failed at any point or were aborted, the next connection behaves exactly as on a fresh server, with its own keys, transcript, request context, authentication state and key log lines.',
 ['histories','configurations'],'every history of successful, failing, unauthenticated and aborted connections before the one observed',
 'No test accepts even one connection.',
 [SC,ST],[('ServerHandshake::new per accept',SC)],['sequence of accept results'],[])
p('K01','The key log holds exactly the session secrets, and only on request',
 'With key logging enabled the file gains, for each handshake, the server and client handshake secrets when they are derived and the server and client application secrets when a correct Finished arrives, each exactly once in NSS key log format, labelled correctly, keyed by the client random and equal to the secrets in use, and nothing is logged for secrets that were never derived. Without key logging no secret is written anywhere.',
 ['histories','configurations'],'every handshake outcome, role, suite and number of connections sharing one file',
 'No test enables the key log.',
 [KL,SC,CC],[('KeyLog::append_*',KL)],['key log file contents'],[])
p('K02','Everything that must be fresh is fresh',
 'Hello randoms, session ids, key shares, certificate request contexts and signature nonces are generated anew for every handshake and every signature: no two of them are ever equal or share predictable parts, within one connection, between connections, or between client and server, including when several connections are made from one configuration.',
 ['histories'],'every number of handshakes and signatures in one process',
 'Freshness is a property of pairs of executions; each test runs once.',
 [SC,CC,SH,A+'crypto/ellipticcurve/ecdsa.rs',A+'rand/urandom.rs'],[('URandomRng',A+'rand/urandom.rs'),('Ecdsa::sign',A+'crypto/ellipticcurve/ecdsa.rs')],['hello bytes','signatures'],[])
p('P01','Transcript hashes depend only on the concatenated input',
 'The running SHA-256 and SHA-384 hashes used for the transcript return, at any time, the standard hash of the concatenation of everything fed so far, however the input was split; reading the hash or cloning it does not disturb it, and a clone evolves independently.',
 ['inputs','histories'],'every split of every input length and every interleaving of update, finalize and clone',
 'Tests hash a few messages in one piece and never clone.',
 [A+'hash/sha256.rs',A+'hash/sha384.rs',A+'hash/mod.rs'],[('update / finalize / clone',A+'hash/mod.rs')],['finalize output'],[])
p('P02','The record ciphers are correct authenticated encryption',
 'For all three suites sealing gives the standard ciphertext and tag for every key, 12-byte nonce, plaintext length (including 0, and exact or nearly exact multiples of the block size) and associated data, and opening returns the plaintext exactly when key, nonce, associated data, ciphertext and full tag all match what was sealed; any change of any bit is rejected.',
 ['inputs'],'all lengths up to a full record and all single-field or single-bit changes',
 'Tests use a handful of vectors, none at a multiple of 64 bytes for ChaCha20 and no forged tag.',
 [A+'crypto/aes/gcm.rs',A+'crypto/aes/cipher.rs',A+'crypto/chacha20/cipher.rs',A+'crypto/chacha20/poly1305.rs'],[('Cipher::encrypt / decrypt',A+'crypto/ciphersuite.rs')],['outputs of the cipher trait'],[])
p('P03','ECDSA signatures are accepted exactly when genuine',
 'Every signature made with a P-256 key verifies under the matching public key for the same digest, also after being encoded and decoded, and standard peers accept it; verification rejects every other digest or key, every changed signature value (apart from the negation of s inherent in ECDSA), zero or out-of-range values and public keys that are not on the curve. Encoding is valid DER (minimal, non-negative integers) for every value.',
 ['inputs'],'all keys, digests and nonces, including short values with leading zero bytes',
 'One fixed signature is verified in tests; roughly one signature in 128 has a short component.',
 [A+'crypto/ellipticcurve/ecdsa.rs',SG,A+'crypto/ellipticcurve/math.rs',A+'crypto/ellipticcurve/math/jacobian.rs',A+'utils/bytes.rs'],[('Ecdsa::sign / verify',A+'crypto/ellipticcurve/ecdsa.rs'),('Signature::to_der / from_der',SG)],['sign/verify results'],[])
p('P04','X25519 key agreement always agrees and rejects degenerate shares',
 'For every pair of private keys both parties compute the same shared secret, equal to RFC 7748\'s function of their keys, for every peer public key encoding including non-canonical ones and values with leading or trailing zero bytes. A peer share that yields the all-zero secret or does not have 32 bytes is rejected.',
 ['inputs'],'all scalars and all 32-byte peer values',
 'Two fixed base-point multiplications are tested.',
 [A+'crypto/ellipticcurve/math/curve25519.rs',A+'crypto/ellipticcurve/math.rs',KS,EX+'key_share.rs',A+'utils/bytes.rs'],[('scalarmult',A+'crypto/ellipticcurve/math/curve25519.rs'),('KeySchedule::from_handshake',KS)],['derived secrets','key share bytes'],[])
p('P05','HMAC and HKDF match the standard for every length',
 'HMAC and HKDF with SHA-256 and SHA-384 return the RFC 2104 / RFC 5869 result for every key, salt and message length (in particular around the block sizes), HMAC input may be fed in any pieces, and HKDF expansion succeeds exactly for lengths up to 255 hash lengths, shorter outputs being prefixes of longer ones.',
 ['inputs'],'all key, message and output lengths',
 'Tests use short keys only.',
 [A+'hash/hmac.rs',A+'hash/hkdf.rs'],[('Hmac::result',A+'hash/hmac.rs'),('Hkdf::expand',A+'hash/hkdf.rs')],['outputs'],[])
p('X01','Certificate validity periods are enforced to the second',
 'A peer certificate is accepted on validity grounds exactly when the current time is not before its start and not after its end, both inclusive, for every date from 1970 to 2049 including leap days, month ends and the two-digit year pivot. Dates before 1970 count as the distant past and nonsense dates are rejected rather than accepted.',
 ['inputs'],'every second between 1970 and 2049 as start, end and current time',
 'Date conversion is not tested; errors show only on certain days of certain years.',
 [X5,CE],[('UtcTime::get_unix_timestamp',X5),('Validity::is_valid',X5)],['acceptance of certificates at a controlled clock'],[])
p('X02','Certificates mean what their encoding says',
 'Parsing a certificate yields exactly the encoded issuer and subject attributes, validity, public key and signature, and the bytes checked against the issuer\'s signature are exactly the encoded to-be-signed part, for every size of the parts and every length encoding; a certificate altered in any signed byte never counts as signed by the CA, and truncated encodings are refused.',
 ['inputs'],'all certificate shapes: field sizes, attribute sets, length encodings, single-byte changes',
 'Two certificates of similar size are parsed in tests and no signature of a certificate is ever checked.',
 [X5,DE,CE],[('X509::from_raw',X5),('Certificate::has_signed',CE)],['parsed fields','has_signed result'],[])
p('X03','PEM files load exactly what they contain or fail cleanly',
 'Loading certificates and keys from PEM text returns exactly the encoded bytes of the first suitable block for every line length, line ending and surrounding text, and base64 decoding inverts encoding; text that is not valid base64 or not complete PEM is refused, never decoded into something else and never a crash.',
 ['inputs'],'all block sizes, line lengths, line endings, block orders and invalid characters',
 'Base64 is tested on seven ASCII strings; PEM parsing is not tested.',
 [A+'utils/pem.rs',A+'utils/base64.rs',A+'crypto/ellipticcurve/privatekey.rs',CE],[('get_pem_content_from_file',A+'utils/pem.rs'),('base64::decode',A+'utils/base64.rs')],['returned bytes'],[])
p('G01','Configurations are built only when complete, and faithfully',
 'Building a server configuration succeeds exactly when certificate and private key were given and a custom verify function is not given without a client CA; building a client configuration fails exactly when a client certificate comes without a private key. Every option set, in any order and any number of times, takes effect with its last value, and every option not set keeps its documented default.',
 ['programs'],'every sequence of builder calls',
 'No test builds a configuration.',
 [A+'net/server/config.rs',A+'net/client/config.rs'],[('build()',A+'net/server/config.rs')],['resulting configuration'],[])
p('N01','The random generators honour their contract',
 'Asked for a number of bytes a generator returns exactly that many, and asked for a value between two byte-lengths it returns one inside that range; the system generator never repeats output and every byte position varies; the seeded generator gives the same sequence for the same seed, and a server configured with it works.',
 ['inputs','histories'],'every requested size and every call sequence',
 'Only one private helper of the seeded generator is tested.',
 [A+'rand/urandom.rs',A+'rand/simplerng.rs',A+'rand/mod.rs'],[('RngCore::bytes / between',A+'rand/mod.rs')],['returned values'],[])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,x['title']
        f.write(json.dumps(x)+'\n')
print(len(P))
