"""The properties, and properties.jsonl and MANIFEST.json made from them.

python3 tools/properties.py   rewrites both files for the harnesses present."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'python/src/keyczar/'

KZ, KEYS, UTIL, DATA, INFO, RD, WR, TOOL = [
    SRC + f + '.py' for f in ('keyczar', 'keys', 'util', 'keydata', 'keyinfo',
                              'readers', 'writers', 'keyczart')]
INTEROP = 'interop/interop.py'

TESTS = ('The reliable tests exercise only the interoperability script and '
         'never reach this code; ')

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe,
         state=()):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=quant),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=n, where=w) for n, w in mechanism],
                    state=[dict(name=n, meaning=m, where=w)
                           for n, m, w in state],
                    observe_at=observe, hook_needed=None)))


prop('C01', 'What is encrypted with a symmetric key set decrypts to itself',
     'Decrypting the output of encryption returns exactly the original bytes, '
     'for every message, every supported AES key size, either supported crypto '
     'library on either side, and with or without the default text encoding. '
     'It keeps doing so after key rotation: whatever status the encrypting key '
     'has later, as long as it is still in the key set, and whichever key has '
     'become primary.',
     ['inputs', 'configurations', 'histories'],
     'all plaintexts, keys, initialisation vectors, key sizes, libraries, key '
     'set sizes and later statuses',
     TESTS + 'a round-trip test samples a few messages and keys, while padding '
     'and buffer errors depend on length, byte values and the key chosen.',
     [KZ, KEYS, UTIL],
     [('padding and unpadding', KEYS), ('cipher adaptors', KEYS),
      ('key lookup by header', KZ)],
     ['return values of encrypting and decrypting objects'])
prop('C02', 'Nothing but a genuine ciphertext is ever decrypted',
     'Decryption returns a plaintext only for a byte string that was itself '
     'produced by encryption under a key of the set, and then only the '
     'plaintext that was encrypted; any altered, truncated, extended, spliced '
     'or invented byte string raises an error. This holds for every byte of '
     'the header, initialisation vector, body and signature.',
     ['inputs', 'histories'],
     'all adversarial byte strings, all honest histories within the bounds, '
     'all keys', TESTS + 'tests flip a few bytes; the guarantee is about every '
     'string other than the honest ones.',
     [KZ, KEYS],
     [('signature checked before decrypting', KEYS),
      ('signature covers header, vector and body', KEYS)],
     ['return values and exceptions of decryption'])
prop('C03', 'Ciphertext layout, signature coverage and a fresh random IV',
     'A symmetric ciphertext is the version byte, the four-byte identifier of '
     'the primary key, a 16-byte initialisation vector drawn anew from the '
     'operating system\'s random source for each message, the AES-CBC '
     'encryption of the PKCS5-padded message, and the HMAC-SHA1 under the '
     'key\'s signing key of everything before it. The default text form is the '
     'unpadded web-safe Base64 of exactly these bytes.',
     ['inputs', 'configurations'],
     'all plaintexts, keys, random outcomes, key sizes and libraries',
     TESTS + 'a reused or predictable vector, or a signature that omits some '
     'bytes, round-trips in every test.',
     [KZ, KEYS, UTIL],
     [('vector drawn per message', KEYS), ('encrypt-then-sign', KEYS)],
     ['ciphertext bytes'])
prop('C04', 'HMAC signatures verify for what was signed and for nothing else',
     'A signature made by a key set verifies for exactly the message signed, '
     'also after the signing key has lost its primary status, and has the '
     'documented form: version byte, key identifier, HMAC-SHA1 of the message '
     'followed by the version byte. Verification succeeds for no message that '
     'was not signed under a key of the set, whatever signature bytes are '
     'presented.',
     ['inputs', 'histories'],
     'all messages, keys, later statuses and adversarial signature strings',
     TESTS + 'partial comparisons and truncated signature checks pass every '
     'sampled positive and most sampled negative tests.',
     [KZ, KEYS],
     [('signature comparison', KEYS), ('version byte signed', KZ)],
     ['return values of signing and verifying'])
prop('C05', 'Attached signatures return data only for the right nonce',
     'Verifying an attached signature with the nonce it was made with returns '
     'exactly the data signed, for every data and nonce including empty ones, '
     'and also after key rotation. With a different nonce of the same length, '
     'or for any blob that was not made by the key set, no data is returned.',
     ['inputs', 'histories'],
     'all data, nonces, keys, later statuses and adversarial blobs',
     TESTS + 'a nonce that is not really bound, or a length that is misparsed, '
     'shows only for particular inputs.',
     [KZ, KEYS, UTIL],
     [('nonce packed into what is signed', KZ), ('length-prefixed data', UTIL)],
     ['return values of attached signing and verifying'])
prop('C06', 'Standard signatures verify under any key of the set, no other',
     'A standard (unversioned) signature is the bare signature of the message '
     'under the primary key, and it verifies while that key remains anywhere '
     'in the verifying set. It never verifies for a message that no key of the '
     'set has signed, and malformed signatures are rejected without an '
     'exception.',
     ['inputs', 'configurations', 'histories'],
     'all messages, keys, positions of the signing key and adversarial '
     'signature strings',
     TESTS + 'whether every key is tried depends on the size and order of the '
     'key set.',
     [KZ, KEYS], [('loop over all versions', KZ)],
     ['return values of standard signing and verifying'])
prop('C07', 'Inputs are routed by header; malformed ones raise the right error',
     'A ciphertext or signature is handled by exactly the key its header '
     'names. Input that is too short, has an unknown version byte, names no '
     'key of the set, or is not Base64 raises the corresponding documented '
     'error (short input, bad version, key not found, Base64 decoding), and a '
     'wrong signature on a ciphertext raises the invalid-signature error.',
     ['inputs', 'configurations'],
     'all byte strings and all text strings within the bounds, all key sets',
     TESTS + 'each length and header byte is its own case; tests sample a few.',
     [KZ, KEYS, UTIL], [('header parsing', KZ), ('length checks', KZ)],
     ['exceptions of decrypting and verifying'])
prop('C08', 'Promote, demote and revoke follow the key lifecycle',
     'Promoting an inactive key makes it active, promoting an active key makes '
     'it primary and the previous primary active, demoting goes the other way, '
     'and only inactive keys can be revoked, after which they are gone from '
     'the set. Every other request is refused with an error and changes '
     'nothing, no key other than those mentioned changes, and there is never '
     'more than one primary.',
     ['histories', 'configurations'],
     'all sequences of operations within the bounds on all key sets',
     TESTS + 'a lifecycle error needs a particular sequence and a particular '
     'starting state.',
     [KZ, DATA], [('status transitions', KZ), ('single primary', KZ)],
     ['metadata, primary and keys of the set'],
     [('key status', 'primary, active or inactive', DATA)])
prop('C09', 'Adding a key gives it a fresh number and disturbs no other key',
     'A key added to a set gets the next number above every existing one, the '
     'status asked for, and an identifier no other key of the set has. Existing '
     'keys keep their material and status, except that a new primary makes '
     'the previous primary active; an unsupported size is refused and nothing '
     'changes.',
     ['inputs', 'configurations', 'histories'],
     'all key sets, statuses, sizes and random outcomes including identifier '
     'collisions',
     TESTS + 'identifier collisions have probability 2^-32 under test, and '
     'numbering errors need gaps or unordered versions.',
     [KZ, KEYS, DATA],
     [('next version number', KZ), ('collision loop', KZ)],
     ['metadata and keys of the set'])
prop('C10', 'Key set metadata survives its JSON form',
     'Metadata written as JSON and read back has the same name, purpose, type, '
     'encrypted flag and the same versions with the same number, status and '
     'exportable flag. Unknown purposes, types and statuses are refused with '
     'an error, and a version number is never listed twice.',
     ['inputs', 'configurations'],
     'all names within the bounds and all combinations of the other fields',
     TESTS + 'field mix-ups show only for particular combinations.',
     [DATA, INFO], [('JSON writing and reading', DATA),
                    ('name lookup', INFO)],
     ['JSON text and object fields'])
prop('C11', 'A key set written to disk reads back the same, plain or encrypted',
     'Writing a key set to a directory and reading it back gives the same '
     'metadata and the same keys under the same numbers; written with a '
     'crypter, each key file is a ciphertext of that crypter and the set can '
     'only be read through it. Metadata creation without overwriting never '
     'replaces existing metadata, and removing a key deletes its file only.',
     ['inputs', 'configurations', 'histories'],
     'all key sets, crypters and rewrites within the bounds',
     TESTS + 'mixing up encrypted and plain forms or version files needs '
     'particular sets and sequences of writes.',
     [KZ, RD, WR, DATA, KEYS],
     [('encrypted reader and writer', RD), ('file writer', WR)],
     ['files written and objects read'])
prop('C12', 'Generated keys have the requested size and full entropy',
     'Generating a key gives a key of the requested (or default) size whose '
     'secret bytes all come from the operating system\'s random source, an AES '
     'key comes with an independent 256-bit signing key, and no random byte is '
     'used twice. Unsupported sizes and public key types are refused with an '
     'error.',
     ['inputs', 'configurations'],
     'all key types, all sizes within the bounds, all random outcomes',
     TESTS + 'a test cannot tell a random byte from a constant or repeated '
     'one.',
     [KEYS, UTIL, INFO],
     [('key generators', KEYS), ('size check', INFO)],
     ['generated keys and bytes drawn'])
prop('C13', 'Key sets are usable only for their declared purpose',
     'Each kind of object opens exactly the key sets whose declared purpose '
     'allows its operations: encrypting needs encrypt or decrypt-and-encrypt, '
     'decrypting needs decrypt-and-encrypt, verifying needs verify or '
     'sign-and-verify, signing needs sign-and-verify. All others are refused '
     'with an error when opened.',
     ['configurations', 'inputs'],
     'all object kinds, purposes, key types, ways of opening and statuses',
     TESTS + 'a test of one pair says nothing about the others.',
     [KZ, INFO], [('purpose check', KZ)], ['construction of the objects'])
prop('C14', 'Web-safe Base64 encodes and decodes every byte string exactly',
     'Encoding uses only letters, digits, minus and underscore, has no '
     'padding, is standard Base64 otherwise, and decoding it returns the '
     'original bytes. Decoding ignores spaces and line breaks anywhere, '
     'accepts omitted padding, and refuses with a Base64 error a text whose '
     'remaining length is one more than a multiple of four.',
     ['inputs'], 'all byte strings and all texts within the bounds',
     TESTS + 'an alphabet or padding error shows only for some bytes and '
     'lengths.',
     [UTIL], [('encoder and decoder', UTIL)], ['return values'])
prop('C15', 'Incremental Base64 equals one-shot Base64 for any chunking',
     'Writing data in any pieces through the Base64 stream writer and flushing '
     'produces exactly the one-shot encoding, and reading an encoding in any '
     'pieces and with any read sizes yields exactly the original data. No '
     'byte is lost, repeated or reordered, a source that has no data for the '
     'moment only delays it, and a read never returns more characters than '
     'asked for.',
     ['inputs', 'schedules'],
     'all data, all ways of splitting writes and reads, all patterns of '
     'unavailable data within the bounds',
     TESTS + 'buffering errors depend on how the pieces fall relative to '
     'groups of three and four.',
     [UTIL], [('buffering of incomplete groups', UTIL)],
     ['bytes written and read'])
prop('C16', 'Streaming encryption equals one-shot encryption for any chunking',
     'Data written in any pieces to an encrypting stream and flushed forms a '
     'ciphertext that one-shot decryption accepts and decrypts to the data, '
     'and a decrypting stream reading any genuine ciphertext, in any pieces, '
     'returns exactly the plaintext and then end of data. This holds for both '
     'libraries, with and without text encoding, whatever amounts are read and '
     'however often the source has no data for the moment.',
     ['inputs', 'schedules', 'configurations'],
     'all data, keys, chunkings of writes and reads, read sizes and patterns '
     'of unavailable data within the bounds',
     TESTS + 'block-boundary and end-of-data errors need particular '
     'chunkings.',
     [KEYS, KZ, UTIL],
     [('block buffering', KEYS), ('signature held back', KEYS)],
     ['stream contents and read results'])
prop('C17', 'A stream that was tampered with or cut short never ends cleanly',
     'A decrypting stream that reports the end of its data without an error '
     'has returned exactly the plaintext of a genuine ciphertext under a key '
     'of the set. Altered, truncated, extended or invented streams raise an '
     'error before the end is reported, however they are read.',
     ['inputs', 'schedules'],
     'all adversarial streams and all read schedules within the bounds',
     TESTS + 'truncation points and altered bytes each are their own case.',
     [KEYS], [('signature checked at the end of the stream', KEYS)],
     ['read results and exceptions'])
prop('C18', 'Packed byte arrays unpack to themselves; malformed ones never do',
     'Packing any byte arrays and unpacking the result gives the same arrays '
     'in the same order, each with a four-byte big-endian length before it and '
     'the count in front. Unpacking returns only pieces that lie within the '
     'input, and an input with a negative or too large length is refused with '
     'an error.',
     ['inputs'], 'all lists of byte arrays and all inputs within the bounds',
     TESTS + 'length arithmetic fails at particular lengths.',
     [UTIL], [('length prefix', UTIL), ('length check', UTIL)],
     ['return values and exceptions'])
prop('C19', 'Byte, bit and integer conversions are exact',
     'Conversions between integers, bit strings and big-endian byte strings '
     'are exact inverses for all values they accept; four-byte integers are '
     'big-endian; exclusive-or works bytewise after padding the shorter '
     'operand with leading zeros; trimming removes all leading zero bytes but '
     'leaves one for zero. The mask generation function is MGF1 with SHA-1 for '
     'every length.',
     ['inputs'], 'all byte strings and integers within the bounds',
     TESTS + 'carry, sign and leading-zero errors need particular values.',
     [UTIL], [('conversions', UTIL)], ['return values'])
prop('C20', 'RSA encryption is OAEP and round-trips for every message length',
     'Encrypting under an RSA public key gives the header and the RSA '
     'encryption of the OAEP encoding (SHA-1, empty label, fresh random seed) '
     'of the message, and the private key decrypts it to exactly that '
     'message, also when the ciphertext or the encoding begins with zero '
     'bytes. Messages longer than OAEP allows are refused, and decryption of '
     'anything that is not a valid OAEP encoding raises an error.',
     ['inputs', 'configurations'],
     'all messages, seeds and adversarial ciphertexts for a pool of key pairs '
     'of every supported size',
     TESTS + 'leading zero bytes appear in one of 256 runs, and OAEP checks '
     'matter only for adversarial input.',
     [KEYS, UTIL], [('OAEP encoding and decoding', KEYS), ('MGF1', UTIL)],
     ['ciphertexts, plaintexts, exceptions'])
prop('C21', 'RSA signatures are PKCS#1 v1.5 over SHA-1 and verify exactly',
     'An RSA signature is the full-length RSA signature of the PKCS#1 v1.5 '
     'SHA-1 encoding of the message, and it verifies for that message under '
     'the same key, its public half or its exported public key. Verification '
     'succeeds for no message that was not signed, whatever signature bytes '
     'are presented.',
     ['inputs', 'configurations'],
     'all messages and signature strings for a pool of key pairs of every '
     'supported size',
     TESTS + 'encoding and length errors depend on the key size and on '
     'leading zero bytes of the signature.',
     [KEYS, UTIL], [('EMSA encoding', UTIL), ('signature length', KEYS)],
     ['signatures and verification results'])
prop('C22', 'DSA signatures are DER sequences, verify exactly, never repeat k',
     'A DSA signature is the DER sequence of the two integers of a DSA '
     'signature over the SHA-1 of the message with a per-message secret in the '
     'proper range drawn afresh for every signature, and it verifies for that '
     'message under the same key or its public half. Verification succeeds for '
     'no message that was not signed, and malformed signatures are rejected '
     'without an exception.',
     ['inputs', 'histories'],
     'all messages, random outcomes and signature strings for a pool of key '
     'pairs',
     TESTS + 'the secret\'s range and DER sign bytes fail only for particular '
     'random outcomes.',
     [KEYS, UTIL], [('per-message secret', KEYS), ('DER coding', UTIL)],
     ['signatures and verification results'])
prop('C23', 'Exported public key sets work with, and hide, the private ones',
     'Exporting the public keys of an asymmetric set writes every version with '
     'its number and status, the right public purpose and type, and the same '
     'key identifiers, so that it encrypts for, and verifies signatures of, '
     'the private set. The exported files contain no private parameter, and '
     'sets that have no public part are refused.',
     ['inputs', 'configurations', 'histories'],
     'all key set configurations within the bounds for a pool of key pairs',
     TESTS + 'a status, purpose or identifier mismatch needs a particular '
     'configuration.',
     [KZ, KEYS, DATA], [('public key export', KZ)],
     ['exported files and their use'])
prop('C24', 'Session encryption round-trips, with a fresh key per session',
     'What a session encrypter encrypts, a session decrypter built from its '
     'session material and the matching crypter decrypts to the original. '
     'Every session has its own freshly generated key, the material reveals '
     'it only through the crypter, and material or messages that are not '
     'genuine, or belong to another session, are refused with an error.',
     ['inputs', 'histories'],
     'all messages, keys and interleavings of several sessions within the '
     'bounds',
     TESTS + 'confusion between sessions needs several sessions at once.',
     [KZ, KEYS, UTIL],
     [('packed session key', KZ), ('per-session crypter', KZ)],
     ['session material, ciphertexts and plaintexts'])
prop('C25', 'Signed sessions accept only their own signed messages',
     'A signed session decrypter returns the original of every message its '
     'peer session encrypted, and returns nothing or raises an error for '
     'messages of another session, of another signer, or otherwise not made '
     'by its peer. This holds for any number of sessions used together in one '
     'process, in any order.',
     ['inputs', 'histories'],
     'all messages, nonces, keys and interleavings of sessions within the '
     'bounds',
     TESTS + 'sharing state between sessions needs several sessions with '
     'particular contents.',
     [KZ, UTIL], [('nonce in the attached signature', KZ),
                  ('memoised crypter', UTIL)],
     ['messages and plaintexts'])
prop('C26', 'Keys survive their JSON form; equality means same key material',
     'A key written as JSON and read back has the same type, size, identifier '
     'and key material, writes the same JSON again and behaves the same, also '
     'when integers carry leading zero bytes. Two keys are equal exactly when '
     'type, size and key material agree.',
     ['inputs', 'configurations'],
     'all key bytes of symmetric keys and a pool of asymmetric keys of every '
     'supported size',
     TESTS + 'swapped or dropped fields and sign bytes show for particular '
     'keys.',
     [KEYS, UTIL], [('key readers and writers', KEYS)],
     ['JSON text and key fields'])
prop('C27', 'Key identifiers follow the specification',
     'The identifier of a key is the unpadded web-safe Base64 of the first '
     'four bytes of the SHA-1 over the specified, unambiguous serialisation of '
     'its key material: length-prefixed key bytes and signing key bytes for '
     'AES, the key bytes for HMAC, the length-prefixed minimal big-endian '
     'public parameters for RSA and DSA. A private key and its public key have '
     'the same identifier, and the five header bytes are the version byte and '
     'the identifier.',
     ['inputs', 'configurations'],
     'all key bytes and sizes of symmetric keys and a pool of asymmetric keys, '
     'with any number of leading zero bytes',
     TESTS + 'identifiers that differ from the specification are self-'
     'consistent in one implementation and only break other ones.',
     [KEYS, UTIL], [('identifier computation', KEYS)],
     ['identifiers and headers'])
prop('C28', 'PKCS#8 and X.509 key encodings are standard DER and round-trip',
     'Exporting RSA or DSA key parameters as PKCS#8 private keys or X.509 '
     'public keys gives the standard DER encodings in web-safe Base64, and '
     'parsing such an encoding returns exactly the same parameters. Encodings '
     'with an unknown version, an unknown algorithm or the wrong number of '
     'fields are refused with an error.',
     ['inputs'], 'all parameter values within the bounds',
     TESTS + 'sign bytes and length bytes of DER depend on the values.',
     [UTIL], [('DER export and parsing', UTIL)], ['encodings and parameters'])
prop('C29', 'The key tool leaves exactly the key set its commands describe',
     'Each command of the key tool, with any valid flags in any order, changes '
     'the key set on disk exactly as documented: create writes metadata with '
     'the requested purpose, name and algorithm and never overwrites a set; '
     'addkey, promote, demote and revoke apply their operation to the named '
     'set and version; pubkey exports. Sets encrypted with a crypter stay '
     'encrypted under it, and a refused command leaves the files as they '
     'were.',
     ['inputs', 'configurations', 'histories'],
     'all commands and flag values and sequences of commands within the bounds',
     TESTS + 'flag combinations and sequences of commands multiply.',
     [TOOL, KZ, RD, WR], [('command dispatch', TOOL)],
     ['files after each command'])
prop('C30', 'Interop runs exactly the combinations the configuration describes',
     'The interoperability runner enumerates every combination of '
     'implementation, operation, key set and option values that the '
     'configuration describes, each exactly once, and leaves out exactly those '
     'that some ignore rule matches, where a rule matches when '
     'implementation, operation, algorithm and every option it mentions match.',
     ['configurations', 'inputs'],
     'all configurations and ignore rules within the bounds',
     'The unit tests check a few fixed configurations; a matching error needs '
     'a particular combination of rule and options.',
     [INTEROP], [('ignore rule matching', INTEROP),
                 ('option product', INTEROP)],
     ['generated combinations'])
prop('C31', 'Interop passes each implementation the right commands and files',
     'For every implementation, algorithm and size the runner asks for a key '
     'set with two primary-status keys of that size in its own directory '
     '(plus public keys for asymmetric algorithms and an encrypted variant), '
     'and each generate or test request names the operation, options, key '
     'path of the generating implementation and that implementation\'s output. '
     'Command line flags are honoured and unknown or malformed ones start '
     'nothing.',
     ['configurations', 'inputs'],
     'all configurations and argument lists within the bounds',
     'The unit tests check flags for a few fixed cases, with no argument '
     'parsing of malformed input.',
     [INTEROP], [('request construction', INTEROP),
                 ('argument parsing', INTEROP)],
     ['commands and requests issued'])
prop('C32', 'Output is made with the one primary key or not at all',
     'Encryption, streaming encryption and every kind of signing always use '
     'the primary key of the set, whatever other keys and statuses it has. A '
     'set without a primary raises the no-primary error for all of them but '
     'still decrypts and verifies, and a set with several primaries is '
     'refused when opened.',
     ['configurations', 'inputs'],
     'all key sets and statuses within the bounds, all messages and keys',
     TESTS + 'using the newest or first key instead is right in most sampled '
     'sets.',
     [KZ], [('primary lookup', KZ)], ['outputs and exceptions'])
prop('C33', 'Key sets work alike on every storage back end',
     'A location is handled by a back end (a Reader or Writer subclass) that '
     'accepts it and is handed that very location; an existing directory is '
     'accepted by the file back end, and a location nobody accepts raises a '
     'KeyczarError and creates nothing. Every module in the directories of '
     'KEYCZAR_BACKEND_PATHS is loaded before the choice. A key set read '
     'through a back end is the one stored there, writing hands the back end '
     'the metadata and every key exactly once, and the key tool leaves the '
     'same state on a back end as it does in files and closes every reader '
     'and writer it opened; closing an encrypted reader closes the reader it '
     'wraps.',
     ['configurations', 'inputs', 'histories'],
     'all acceptance patterns of the back ends, all key sets and statuses '
     'within the bounds, all key bytes',
     TESTS + 'only other back ends than files show a difference.',
     [RD, WR, UTIL],
     [('reader selection', RD), ('writer selection', WR),
      ('plug-in loading', UTIL)], ['back-end calls and contents'])

EXTRA = os.path.join(VERIF, 'tools', 'more.py')
if os.path.exists(EXTRA):
  exec(compile(open(EXTRA).read(), EXTRA, 'exec'))

TECHNIQUE = ('symbolic execution of the real Python source with SMT (z3) '
             'deciding every assertion within bounds; counterexamples replayed '
             'on the real code')
NOTE = ('Bounded: holds for every value of the symbolic inputs within the '
        'bounds listed in the evidence. Trusted: the source instrumentation '
        'and the models of built-ins and of SHA-1, HMAC, AES, RSA and DSA '
        '(uninterpreted or algebraic, see DESIGN.md), z3, and the replay that '
        'validates sampled paths against the real interpreter.')

SPECIAL = {}
NOT_APPLICABLE = []


def main():
  have = []
  for p in P:
    if os.path.exists(os.path.join(VERIF, 'harness', p['id'].lower() + '.py')):
      have.append(p)
  with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in have:
      assert len(p['title']) <= 80, p['title']
      f.write(json.dumps(p) + '\n')
  m = {'version': 1,
       'setup_cmd': 'python3-vt -m sx.setup',
       'hooks': {'guard': 'none', 'enable': 'no hooks are needed',
                 'source_commits': []},
       'checks': [{
           'property': p['id'],
           'quick_cmd': 'python3-vt -m sx.check %s quick' % p['id'],
           'thorough_cmd': 'python3-vt -m sx.check %s thorough' % p['id'],
           'evidence_file': 'evidence/%s.json' % p['id'],
           'technique': TECHNIQUE,
           'level': 'model_checking',
           'level_note': NOTE + SPECIAL.get(p['id'], ''),
       } for p in have],
       'not_applicable': NOT_APPLICABLE,
       'notes': 'Made by tools/properties.py. Known findings and repairs: '
                'known-findings.jsonl.'}
  with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
  print(len(have), 'properties')


if __name__ == '__main__':
  main()
