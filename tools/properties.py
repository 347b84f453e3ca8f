"""Writes properties.jsonl and MANIFEST.json (run: /opt/venv/bin/python -B tools/properties.py)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C12, C13 = 'gostcrypto/gostcipher/gost_34_12_2015.py', 'gostcrypto/gostcipher/gost_34_13_2015.py'
H, M, P = 'gostcrypto/gosthash/gost_34_11_2012.py', 'gostcrypto/gosthmac/r_50_1_113_2016.py', 'gostcrypto/gostpbkdf/r_50_1_111_2016.py'
R, S, O, U = 'gostcrypto/gostrandom/r_1323565_1_006_2017.py', 'gostcrypto/gostsignature/gost_34_10_2012.py', 'gostcrypto/gostoid/oid.py', 'gostcrypto/utils/utils.py'
ALL = [C12, C13, H, M, P, R, S, O, U]

PROPS = []


def prop(ident, title, statement, over, text, why, files, mechanism, technique, note, hook=None):
    PROPS.append(dict(id=ident, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, technique=technique, note=note, hook=hook))


prop('C01', 'Kuznechik and Magma are the block ciphers of GOST R 34.12-2015',
     'For every 256-bit key and every block, encrypting one block with Kuznechik (128-bit) or Magma (64-bit) gives the ciphertext block GOST R 34.12-2015 defines for that key, and decrypting that ciphertext gives the block back.',
     ['inputs'], 'every key, every block, both ciphers, both directions',
     'The tests encrypt the standard\'s example blocks under one key; table entries, carries and key bytes those examples never touch are untested.',
     [C12, U], [('Kuznechik rounds, key schedule and tables', C12), ('Magma rounds, key schedule and substitution', C12)],
     'bounded exhaustive enumeration of block/key families against an executable reference model',
     'Byte-wise and bit-wise families drive every table entry at every position of every round; larger key and block sets only by structured families.')
prop('C02', 'One-call encryption and decryption follow GOST R 34.13-2015 in every mode',
     'For every cipher, mode (ECB, CBC, CFB, OFB, CTR), key, initialization vector of every allowed length, padding procedure and message length, a fresh object\'s encryption is the standard\'s ciphertext (message padded first in ECB and CBC; ciphertext as long as the message in the other modes). Decrypting that ciphertext with a fresh object gives the (padded) message back.',
     ['inputs', 'configurations'], 'every cipher x mode x padding x IV length x message length and content',
     'The tests use one key, one IV and the four-block example of the standard per mode; other lengths, IV lengths and padding boundaries are not reached.',
     [C13, C12], [('mode loops and shift register', C13), ('padding procedures 1 and 2', C13)],
     'exhaustive enumeration of configurations and lengths against a state-machine model of the modes',
     'All lengths up to several blocks for every configuration; contents from deterministic families. One listed known finding (padding procedure 2 adds a block).')
prop('C03', 'Consecutive calls on one object continue one stream',
     'For every sequence of encrypt and decrypt calls on one ciphering object whose data are whole blocks, the outputs are those of the standard\'s mode run over the concatenated data, whatever the division into calls and whatever the length of the initialization vector; reading the object\'s vector shows the current one and changes nothing.',
     ['histories', 'inputs'], 'every history of block-aligned calls, every division of a message into calls',
     'The tests make one call per object, or a handful of fixed splits.',
     [C13], [('shift register kept between calls', C13), ('iv attribute', C13)],
     'explicit-state exploration of call histories of the real objects in lock-step with a model',
     'All histories up to the stated depth with state merging by the implementation\'s own state; all compositions of a message into calls.')
prop('C04', 'CTR mode never reuses key stream and its counter is exact',
     'In CTR mode the key stream block number i is the encryption of the vector followed by zeros plus i, modulo the block width, for every i, whatever the division of the data into calls of encrypt and decrypt (a call that ends inside a block uses up that block). The counter attribute shows the next counter value and handing it out gives the caller no way to change it.',
     ['histories', 'inputs'], 'every history of calls, every counter value including every carry',
     'The tests encrypt four blocks; carries between counter bytes need more than 256 blocks or a chosen vector.',
     [C13], [('counter increment', C13), ('counter attribute', C13)],
     'explicit-state exploration of call histories plus exhaustive counter carries against a model',
     'Every carry chain of the counter is entered by walking or by setting up the counter state; histories to the stated depth.')
prop('C05', 'The MAC is that of GOST R 34.13-2015 for every message and every chunking',
     'For both ciphers, every key, every message and every way of feeding it in pieces (including empty pieces and none), the digest of every allowed size is the leftmost bytes of the standard\'s MAC of the concatenation. Asking for a digest never changes what later updates and digests give.',
     ['inputs', 'histories'], 'every message length and content, every division into updates, digests interleaved',
     'The tests compute the MAC of one four-block message and a few splits of it.',
     [C13], [('update, final block and subkeys', C13)],
     'explicit-state exploration of update/digest histories in lock-step with a CMAC model',
     'All lengths over several blocks, all compositions of short messages, both subkey branches forced by chosen keys.')
prop('C06', 'Streebog digests are those of GOST R 34.11-2012 for every message',
     'For every byte string, the 256-bit and 512-bit digests (bytes and hexadecimal) are the values of GOST R 34.11-2012.',
     ['inputs'], 'every message length and content',
     'The tests hash the two example messages of the standard and a few more; table entries, carries of the checksum and length boundaries are not all reached.',
     [H], [('compression function, tables, padding, checksum', H)],
     'bounded exhaustive enumeration of lengths and block families against an executable reference model',
     'All lengths up to several blocks, byte-wise families driving every table entry, carry families, injected length counters.')
prop('C07', 'A hash object digests everything since its last reset, in any history',
     'For every sequence of update, digest, hexdigest, reset and copy calls over one or several hash objects, each digest equals the one-call digest of the concatenation of the data given to that object since its creation or last reset (a copy starts with its original\'s data and is independent from then on).',
     ['histories'], 'every interleaving of operations on an object and its copies, every division of the data',
     'The tests call update a few times with fixed chunks.',
     [H], [('buffering in update', H), ('copy, reset, digest on a copy', H)],
     'explicit-state exploration of operation histories in lock-step with a model',
     'All histories to the stated depth over chunk sizes around the block size; states merged by the implementation\'s own state.')
prop('C08', 'HMAC is the function of R 50.1.113-2016 for every key and message',
     'For both digest sizes, every key of 0 to 64 bytes and every message, the HMAC object\'s digest and hexadecimal digest equal the HMAC of R 50.1.113-2016 (RFC 2104 with Streebog).',
     ['inputs'], 'every key length and content, every message',
     'The tests use one key length and one message.',
     [M, H], [('key padding and the two hash passes', M)],
     'exhaustive enumeration of key and message lengths and byte families against a reference model',
     'All key lengths 0..64 with all message lengths in range; every key byte position.')
prop('C09', 'An HMAC object accumulates data correctly through any history',
     'For every sequence of update, digest, hexdigest, reset, copy and clear calls over an HMAC object and its copies, each digest equals the HMAC, under the object\'s key, of all data given since creation or the last reset, and operations on a copy (clear included) never influence the original.',
     ['histories'], 'every interleaving of operations on an object and its copies, every division of the data',
     'The tests update once or twice.',
     [M, H], [('update, reset, copy', M)],
     'explicit-state exploration of operation histories in lock-step with a model',
     'All histories to the stated depth over chunk sizes around the block size.')
prop('C10', 'Derived keys are those of R 50.1.111-2016',
     'For every password of up to 64 bytes, salt, iteration count and key length, the derived key (bytes and hexadecimal) is the PBKDF2 value of R 50.1.111-2016, and deriving again from the same object, in any order of lengths, gives the same value.',
     ['inputs', 'histories'], 'every password, salt, iteration count, length and sequence of derivations',
     'The tests check the standard\'s few vectors.',
     [P, M], [('block function and block counter', P)],
     'exhaustive enumeration of bounded parameters and derivation histories against a reference model',
     'Small iteration counts and lengths exhaustively, standard vectors, block counter boundaries by bounded runs.')
prop('C11', 'The generator outputs exactly the sequence of R 1323565.1.006-2017',
     'For every seed, seed length and output length, the successive outputs of a generator are the sequence R 1323565.1.006-2017 defines from that seed, for any number of calls, and a reset with a new seed starts that seed\'s sequence from its beginning.',
     ['inputs', 'histories'], 'every seed, sizes, every history of generate/reset calls',
     'The tests generate one value and compare it with a fixed constant.',
     [R, H], [('counter and hash of the state', R)],
     'explicit-state exploration of generate/reset histories in lock-step with a model',
     'All histories to the stated depth, all output sizes in range, counter carries entered by injection.')
prop('C12', 'The generator refuses to repeat itself or to run on a zero seed',
     'A generator never returns a block of output it has already returned since it was seeded: when the counter of blocks is used up, every further request fails with the documented error until a new seed is set. A seed of all zeros, from the caller or from the system, never produces output.',
     ['histories', 'inputs'], 'every seed length and history up to and past the end of the counter',
     'Reaching the end of the counter takes as many blocks as the counter has values; the tests make a handful.',
     [R], [('counter limit and zero check', R)],
     'complete walk of the smallest counter and explicit-state exploration from injected near-end states',
     'One-byte counter walked completely; larger ones from injected states just below every byte boundary and the limit.')
prop('C13', 'Signatures are those of GOST R 34.10-2012 and verify',
     'For every accepted curve, private key, digest and usable nonce, the signature is the pair (r, s) GOST R 34.10-2012 defines, encoded as r then s, big-endian in the full size, and verifying it with the matching public key succeeds.',
     ['inputs', 'configurations'], 'every curve, private key, digest and nonce',
     'The tests sign a few fixed values per curve; degenerate values (digest divisible by q, doublings inside the ladder) are not reached.',
     [S, U], [('point arithmetic and signature equation', S)],
     'exhaustive enumeration on toy curves (every key, nonce, digest) and structured families on the standard curves against a model',
     'The toy curves run the same code through a guarded hook; full-size values by structured families.', 'GOSTCRYPTO_MC_SMALL_CURVES')
prop('C14', 'Verification accepts exactly the valid signatures',
     'For every curve, public key on the curve, digest and pair (r, s), verification returns True exactly when GOST R 34.10-2012 accepts the pair; keys that are not points of the curve are refused with the documented error.',
     ['inputs', 'configurations'], 'every public key, digest and signature, valid or forged, including points at infinity',
     'The tests verify a few right signatures and a few wrong ones; forged combinations that hit degenerate points need enumeration.',
     [S, U], [('verification equation, range checks, key check', S)],
     'exhaustive enumeration of all (key, digest, r, s) on toy curves and structured families at full size against a model',
     'Toy curves complete; full size: every one-bit change and boundary value.', 'GOSTCRYPTO_MC_SMALL_CURVES')
prop('C15', 'Public keys are the private multiple of the base point on the standard curves',
     'For every private key the public key is the coordinates of that multiple of the base point, each in the full size big-endian, and the published curve table holds exactly the parameters of the standard for every curve (given in canonical or Edwards form alike).',
     ['inputs', 'configurations'], 'every private key on every curve',
     'The tests generate a few keys.',
     [S], [('scalar multiplication', S), ('curve table and Edwards conversion', S)],
     'exhaustive enumeration of all keys on toy curves and structured families on the standard curves against a model',
     'Every power of two and boundary scalar at full size; toy curves complete.', 'GOSTCRYPTO_MC_SMALL_CURVES')
prop('C16', 'Only sound curve parameters are accepted',
     'A signature object is created exactly when the parameters satisfy the requirements checked by the library\'s documentation and standard: the base point lies on the curve, the group order is in the required range for the size and differs from the field prime\'s trivial cases, and the embedding degree is large; otherwise the documented error is raised.',
     ['inputs', 'configurations'], 'every change of every parameter of every curve, both sizes',
     'The tests try a handful of wrong parameters.',
     [S], [('parameter checks at construction', S)],
     'exhaustive enumeration of single- and double-parameter changes against a decision model',
     'Every bit of every parameter of every curve in turn, purpose-built curves with small embedding degree, size boundaries.')
prop('C17', 'Signing uses the first usable random nonce, never an unusable one, and ends',
     'Without an explicit nonce, signing takes the first value from the system\'s randomness that lies in 1..q-1 and gives nonzero r and s, whatever values came before it, and asks for no more. An explicit nonce that is not usable, and a private key that is zero modulo q, are refused with the documented error.',
     ['fault_sequences', 'inputs'], 'every sequence of answers of the system\'s randomness, every explicit nonce and key',
     'Unusable answers have negligible probability at full size; the tests never meet one.',
     [S], [('nonce generation and retry loop', S)],
     'enumeration of every environment answer sequence (exhaustive over toy groups) through a controlled randomness seam',
     'All answer sequences to the stated length over the classes of unusable values; toy curves with every value.', 'GOSTCRYPTO_MC_SMALL_CURVES')
prop('C18', 'Object identifiers encode exactly, name correctly; malformed ones are refused',
     'For every dotted string, the digits are its arcs and the octets its DER encoding when it is a well-formed identifier, and the documented error is raised when it is not. The name is the registered TC 26 name or the empty string.',
     ['inputs'], 'every string',
     'The tests encode a few identifiers with short arcs.',
     [O], [('arc, length and root encoding', O), ('parsing', O), ('name table', O)],
     'exhaustive enumeration of short strings, arcs and lengths against an independent encoder and decoder',
     'Every string up to the stated length over the relevant characters, every arc boundary, every content length.')
prop('C19', 'Sizes, names and identifiers of objects are right in every state',
     'In every state reachable by calls, rejected calls, copies and clearing, and whatever other objects exist, an object reports the documented block size, digest size, algorithm name and object identifier for what it was created as, and its results have the reported size.',
     ['histories', 'configurations'], 'every kind of object, every history of calls',
     'The tests read some of the attributes once, on fresh objects.',
     ALL[:4] + [S, O], [('attributes and properties of the objects', C13), ('hash attributes', H), ('HMAC attributes', M)],
     'explicit-state exploration of operation histories with an invariant on all metadata',
     'All histories to the stated depth over every kind of object.')
prop('C20', 'The caller\'s buffers are neither modified nor kept, and bytes equals bytearray',
     'No call modifies a byte object or a dictionary of curve parameters handed to it; overwriting an argument or a result after the call never changes any later result; and each byte argument may be bytes or bytearray with the same outcome.',
     ['histories', 'inputs'], 'every kind of object, history, argument type and moment of overwriting',
     'The tests never reuse or overwrite a buffer, and use one type per argument.',
     ALL, [('copies taken at the interface', C13), ('conversion in xor and fill helpers', U)],
     'explicit-state exploration of operation histories with argument/result overwriting as an environment action, against a model',
     'All histories to the stated depth over every kind of object, for five ways of handling buffers.')
prop('C21', 'Clearing erases secrets in every state, and signing keeps none',
     'After clear(), whatever was called before, the object and the library hold neither the key, password or seed nor values derived from it that would replace it, a repeated clear changes nothing, and what the object answers no longer depends on the erased secret. Signature objects never retain a private key or nonce after a call.',
     ['histories'], 'every kind of object with secrets, every history before, calls after',
     'The tests call clear once and look at one attribute, or not at all.',
     [C12, C13, M, P, R, S, U], [('clear() of each class', C13), ('round key erasure', C12), ('zero fill helper', U)],
     'explicit-state exploration of histories with a reachability search for secrets and a two-run non-interference check',
     'Everything reachable from the object through Python references is searched; freed memory is out of reach.')
prop('C22', 'Objects are independent of each other, in any interleaving and any threads',
     'Whatever calls are made on other objects in between, by the same thread or by other threads preempting at any point, in a freshly loaded library or not, the results of calls on an object are those it gives when used alone; this includes copies and objects with equal keys, and objects being cleared or destroyed.',
     ['schedules', 'histories'], 'every interleaving of calls on several objects; every schedule of threads that share no object',
     'The tests use one object at a time in one thread.',
     ALL, [('all state kept per object; module tables read-only', C13)],
     'exhaustive interleaving exploration and stateless exploration of thread schedules under a controlled line-level scheduler',
     'Preemption bound one (every executed source line) and two (function entries); two threads; module-level state started cold and warm.')
prop('C23', 'Invalid arguments are refused with the documented error and valid ones accepted',
     'Every call with an argument of a wrong type, length or value raises the documented exception class with the documented message, without further errors when the object is destroyed; every argument within the documented limits is accepted.',
     ['inputs', 'configurations'], 'every argument position, wrong type, length and value, alone and combined',
     'The tests try one or two invalid values per argument.',
     ALL, [('argument checks of the constructors and methods', C13), ('value check helper', U)],
     'exhaustive enumeration of argument combinations against a decision model of the documentation',
     'All lengths in range, all selector values in range, a list of wrong types in every position, all combinations of constructor arguments.')
prop('C24', 'A failed call leaves no trace in later results',
     'After any rejected call, failed constructor or failure of the system\'s randomness, every object gives the results it would have given had the failed call not been made; only a ciphering or MAC object given data of a wrong type may have its key erased instead.',
     ['histories', 'fault_sequences'], 'every history with failing calls and randomness failures at any point',
     'The tests stop at the exception.',
     ALL, [('checks before state changes', C13), ('seeding', R)],
     'explicit-state exploration of histories with failing calls and injected environment failures, in lock-step with a model',
     'All histories to the stated depth, failures at every position.')
prop('C25', 'Default salts, seeds and nonces are fresh system randomness in full length',
     'When no salt, seed or nonce is given, the object uses a new answer of the operating system\'s random source of the documented length, in full, for every object, reset and signature, and fails when the source fails; when one is given, the source is not used.',
     ['fault_sequences', 'histories', 'inputs'], 'every history of calls, every answer and failure of the system\'s randomness',
     'The tests cannot see where random values come from or whether they are reused.',
     [P, R, S], [('default salt', P), ('default seed', R), ('default nonce', S)],
     'exploration of call histories under every enumerated answer and failure of a controlled randomness seam',
     'Requests and results are predicted exactly by the model for all histories to the stated depth.')

prop('C26', 'A call interrupted at any point does no lasting harm',
     'When an exception from outside (such as KeyboardInterrupt or MemoryError) ends a call at any point: an interrupted CTR call or generator request may lose key stream or output but never makes the object reuse or corrupt any, and calls that only read (digest, hexdigest, copy, derive, sign, verify, public key, ECB encryption, attributes) leave their object as it was. A reset after any interrupted call makes the object as good as new, and clear() after any interrupted call, clear() itself included, leaves no secret in it. An interrupted constructor disturbs no other object, leaves none of its secrets in the library, and what it has built is destroyed without errors.',
     ['crash_points', 'histories'], 'every call, every point in it at which it can be interrupted, every call afterwards',
     'No test interrupts a call.',
     [C13, C12, H, M, P, R, S], [('counter step', C13), ('copies made before finishing', H), ('reset and clear', R), ('destructors', C12)],
     'exhaustive fault injection on the real code: an exception before every executed source line of every call, then exploration of the calls that follow in lock-step with a model',
     'Every source line of every call is a crash point (first and last occurrences in loops; every line event in the thorough tier for the faster calls).')

LEVEL_NOTE = 'Bounded exhaustive exploration of the real code in lock-step with an independent reference model written from the standards (self-tested on their published vectors by setup_cmd). '


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for p in PROPS:
            row = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                               'hook_needed': p['hook']}}
            out.write(json.dumps(row, ensure_ascii=False) + '\n')
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^hook:'], capture_output=True, text=True).stdout.split()
    python = '/opt/venv/bin/python -B -m mc '
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -B -m mc.ref.selftest',
        'hooks': {'guard': 'GOSTCRYPTO_MC_SMALL_CURVES',
                  'enable': 'the checks set the environment variable GOSTCRYPTO_MC_SMALL_CURVES=1 in their own process while they build toy curves; nothing is compiled',
                  'source_commits': hook},
        'checks': [{'property': p['id'], 'quick_cmd': python + p['id'], 'thorough_cmd': python + p['id'] + ' --tier thorough',
                    'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'model_checking',
                    'level_note': LEVEL_NOTE + p['note']} for p in PROPS],
        'not_applicable': [],
        'notes': 'DESIGN.md describes the engine, the bounds and what is trusted; known_findings.json lists the known finding and the repaired defects.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
        json.dump(manifest, out, indent=1, ensure_ascii=False)
        out.write('\n')


if __name__ == '__main__':
    main()
