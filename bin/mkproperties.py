#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


p("C01", "Conversations decrypt exactly once to what was sent",
  "Whatever order, loss or repetition the network imposes on the encrypted messages of a conversation, and whichever "
  "side writes first or both at once, every message that arrives at its addressee decrypts the first time to exactly "
  "the content its sender encrypted and names that sender. A repeated arrival of the same message is refused, and "
  "neither the repetition nor the loss of messages (fewer than 250 in a row) stops later messages from being decrypted. "
  "Nor does the death of a party, or the failure of a write to its key store, in the middle of encrypting or decrypting: "
  "what was being decrypted can still be decrypted when it arrives again, and what is encrypted afterwards can be read.",
  ["schedules", "histories", "fault_sequences", "crash_points"],
  "All interleavings of encryptions by the parties with deliveries, losses, duplications and reorderings of the "
  "messages in flight, including session renewals at any point, simultaneous session starts, key batches running out, "
  "and state resets, and crashes before any write to the key store.",
  "The session tests of the msg package do not even compile at this commit; the engine has no tests; a conversation "
  "test samples a handful of schedules.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/keys.go", "msg/session/session.go", "msg/session/memstore/memstore.go"],
  [("session establishment and renewal", "msg/encrypt.go Encrypt, msg/decrypt.go Decrypt"),
   ("message key derivation and single use", "msg/keys.go, msg/session/memstore/memstore.go"),
   ("session renewal hand-over (next session keys)", "msg/decrypt.go")],
  ["msg.Encrypt", "msg.Decrypt", "session state after each call"],
  [("session state per pair", "counters, own/peer temporary keys, announced next keys"),
   ("message keys", "per session and direction, numbered, each usable once")])

p("C02", "Only untampered messages of the named sender are accepted",
  "Bytes that are not a message as its sender built it are never accepted: a message with any byte of its encrypted "
  "header, body, padding or authentication code altered, one that was cut short, one recombined from parts of other "
  "messages, one that arrives at somebody it was not encrypted for, or one whose header names a party whose keys its "
  "builder does not have (a UID message that is not properly signed, or keys other than those in it). A signature is "
  "reported for a message exactly if the sender asked for one, and it verifies under the sender's own signing key and "
  "over exactly the delivered content.",
  ["inputs", "fault_sequences"],
  "Every position of a valid message being altered, every combination of parts of different valid messages, messages "
  "addressed to others, signed and unsigned, at any point of a conversation.",
  "Unit tests flip nothing: there is no test that alters a ciphertext at each structural position or splices two messages.",
  ["msg/decrypt.go", "msg/header.go", "msg/inner.go", "msg/outer.go", "msg/preheader.go"],
  [("header authentication", "msg/header.go newHeaderPacket/readHeader, NaCl box"),
   ("HMAC over all packets", "msg/decrypt.go Decrypt"),
   ("signature over the content hash", "msg/encrypt.go, msg/decrypt.go")],
  ["msg.Decrypt result, sender identity, signature"])

p("C03", "Used message keys and superseded session keys are destroyed",
  "Once a message was encrypted or decrypted, the key that protected it can no longer be obtained from the key store, "
  "and no two messages are ever protected by the same key, crashes in between included. Once a party has received a message in a session both sides "
  "have keys for, the temporary private key that party agreed the session with is no longer in its store, while keys "
  "that are still needed stay.",
  ["histories", "schedules", "crash_points"],
  "All histories of encryptions and decryptions between two parties, across session renewals and key batches, with "
  "crashes before any write to the key store.",
  "Tests look at the returned content, never at what is left in the key store after a history of operations.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/keys.go", "msg/session/memstore/memstore.go", "keydb/session.go"],
  [("deletion of message keys after use", "msg/encrypt.go, msg/decrypt.go DelMessageKey"),
   ("deletion of session private keys", "msg/decrypt.go DelPrivSessionKey")],
  ["key store contents after each call"])

p("C04", "All encrypted messages have the same size",
  "Every encrypted message has exactly the same length, whatever its content length, whether it is signed, whether it "
  "opens, continues or renews a session, and whoever the parties are. Content that does not fit into that size is "
  "refused and never truncated, and everything up to the documented limit is accepted.",
  ["inputs", "histories"],
  "All content lengths from empty to beyond the limit, signed or unsigned, with any legal sender and recipient "
  "identities, in every session state.",
  "The size tests of the package do not compile; each size is one sample of a product of content length, signature, "
  "identity length and session state.",
  ["msg/encrypt.go", "msg/header.go", "msg/inner.go", "msg/padding/padding.go", "msg/msg.go"],
  [("padding to the fixed size", "msg/encrypt.go Encrypt"),
   ("fixed header size", "msg/header.go newHeader padding"),
   ("length limits", "msg/msg.go")],
  ["length of msg.Encrypt output; error for too long content"])

p("C05", "The persistent key store behaves like an ideal key store",
  "For every sequence of stores, lookups, updates, extensions and deletions of identities, key initialisation "
  "messages, session states, session keys and message keys, the encrypted key database answers as an ideal map "
  "would, also after it was closed and reopened. A write that fails leaves everything as it was. A message key read before its deletion is the key that was stored "
  "for that session, direction and number, and one party's records are never mixed up with another's.",
  ["histories", "fault_sequences"],
  "All sequences of the key store operations over several identities, partners and sessions, with reopening at any "
  "point and a failure of any single write inside an operation.",
  "The tests make one straight pass per table; interactions such as updating one session after creating another are "
  "never reached.",
  ["keydb/keydb.go", "keydb/session.go", "keydb/sessionkey.go", "keydb/sessionstate.go", "keydb/keyvalue.go"],
  [("tables and queries", "keydb/keydb.go"), ("session and message key tables", "keydb/session.go")],
  ["return values of the keydb API"])

p("C06", "A database stays openable through passphrase changes and crashes",
  "An encrypted database opens with its current passphrase and only with it, and shows exactly the data committed to "
  "it. Changing the passphrase keeps all data, and if the process dies at any point of a change the database can still "
  "be opened with the old or with the new passphrase. Creating a database never overwrites an existing one.",
  ["crash_points", "histories", "fault_sequences"],
  "All sequences of create, open, write, change of passphrase and close with right and wrong passphrases, and a crash "
  "before any file system operation of a change or creation.",
  "No test kills the process in the middle of a change of passphrase or damages the key file.",
  ["encdb/encdb.go", "encdb/keyfile.go", "encdb/util.go"],
  [("key file generation, reading and replacement", "encdb/keyfile.go"), ("create/open/rekey", "encdb/encdb.go")],
  ["files on disk; errors of Create/Open/Rekey"])

p("C07", "Identity records are only valid when their owner made them",
  "An identity record is accepted only if it is self-consistent and signed by the key it names, and an update is "
  "accepted only if, in addition, it continues the previous record's counter by one and is signed with the previous "
  "record's key. The server's confirmation of a record is accepted only if it was signed by the server's key and "
  "belongs to exactly that record.",
  ["inputs", "histories"],
  "All single-field alterations of records, updates and confirmations and all chains of genuine and foreign updates.",
  "Tests check that good records verify; they alter almost no field and build no chains.",
  ["uid/uid.go", "uid/keyentry.go"],
  [("self signature and chain verification", "uid/uid.go Check, VerifySelfSig, VerifyUserSig"),
   ("server confirmation", "uid/uid.go VerifySrvSig, Decrypt")],
  ["uid API results"])

p("C08", "Key initialisation messages are honoured only when valid",
  "A key initialisation message is accepted only for the identity that signed it, never after its validity period has "
  "ended, and only if its encrypted part matches its public commitment. The session key it yields is exactly the one its "
  "owner generated, and a message of another identity, an expired one or an altered one yields none.",
  ["inputs", "histories"],
  "All single-field alterations, foreign identities and times before, at and after the validity bounds.",
  "Tests cover the good case and a few bounds with fixed inputs.",
  ["uid/keyinit.go", "uid/keyentry.go", "cryptengine/keyinit.go"],
  [("signature and commitment checks", "uid/keyinit.go Check, Verify, KeyEntryECDHE25519")],
  ["uid.KeyInit API results"])

p("C09", "Every spelling of an identity maps to one canonical form",
  "Mapping an identity gives one canonical form: mapping it again changes nothing, spellings that differ only in case "
  "or in characters that look alike map to the same form, and the domain is kept. An identity is refused exactly if it "
  "contains a character outside the allowed alphabet, breaks a placement or length rule, or does not have exactly one "
  "'@'.",
  ["inputs"],
  "All strings over the character classes the mapping distinguishes, up to a bounded length, and the length boundaries.",
  "Tests list a few dozen strings; the mapping is defined for all of them.",
  ["uid/identity/identity.go"],
  [("mapping and validation", "uid/identity/identity.go Map, MapPlus, Split")],
  ["identity.Map / MapPlus / Split results"])

p("C10", "The local key hash chain is append-only and fully linked",
  "The locally stored key hash chain of a domain only ever grows, contiguously: no reply of a key server, however wrong "
  "or ill-formed, alters, removes or skips a stored entry or crashes the engine. A validation succeeds exactly if the "
  "stored chain is correctly linked from its first to its last entry. A search or lookup of an identity stores a record "
  "only if it is authentic, belongs to that identity and is the one the chain commits to.",
  ["fault_sequences", "inputs", "histories"],
  "All sequences of synchronisation, validation, search and lookup against a key server that may answer rightly, "
  "late, with gaps, duplicated, altered or malformed entries, or with errors, at any step.",
  "The engine has no tests and no test has a misbehaving key server.",
  ["cryptengine/hashchain.go", "keyserver/hashchain/hashchain.go", "keydb/keydb.go"],
  [("synchronisation, validation, search, lookup", "cryptengine/hashchain.go"),
   ("entry format", "keyserver/hashchain/hashchain.go")],
  ["exit status and the hash chain stored in the key database"])

p("C11", "An outgoing message is never lost, doubled or overtaken",
  "From the moment it is accepted until it is reported as sent, every outgoing message is in exactly one place: waiting "
  "for encryption or in the outgoing queue; nothing but sending or the user's deletion removes it. The queue of an "
  "identity hands out its entries in the order they were put in, an entry marked for resending stays until it is "
  "released, and an entry taken back becomes sendable again. An operation that fails leaves everything as it was.",
  ["histories", "fault_sequences"],
  "All sequences of message queue operations over several identities and contacts, with reopening in between and a "
  "failure of any single write inside an operation.",
  "Tests drive one message through one path; order, resend and withdrawal interactions are not explored.",
  ["msgdb/outqueue.go", "msgdb/messages.go", "msgdb/msgdb.go"],
  [("queue operations in transactions", "msgdb/outqueue.go")],
  ["msgdb API results"])

p("C12", "An incoming message is delivered once and only to its owner",
  "Every fetched message stays in the incoming queue, in order of arrival, until it was either turned into exactly one "
  "stored message or deliberately dropped. Stored messages are visible only to the identity they belong to, keep their "
  "content, date, direction and read status, and disappear only when deleted, together with what belongs to them.",
  ["histories", "fault_sequences"],
  "All sequences of incoming queue, message and message id cache operations over several identities and contacts, with "
  "a failure of any single write inside an operation.",
  "Tests push one message through; ownership, order and dropping are not combined.",
  ["msgdb/inqueue.go", "msgdb/messages.go", "msgdb/cache.go"],
  [("incoming queue", "msgdb/inqueue.go"), ("message table", "msgdb/messages.go"), ("id cache", "msgdb/cache.go")],
  ["msgdb API results"])

p("C13", "Contacts, accounts and identities are kept apart per user",
  "The address book answers as an ideal map from the user's own identity and the partner's identity to name and status "
  "(accepted, pending, blocked); every change touches exactly the named entry. The same holds for mail accounts per "
  "contact and for the user's own identities, and removing one of them removes exactly what belongs to it.",
  ["histories", "fault_sequences"],
  "All sequences of adding, changing, blocking, unblocking, removing and listing over several own identities and "
  "partners, with a failure of any single write inside an operation.",
  "Tests use one identity and one contact.",
  ["msgdb/contacts.go", "msgdb/accounts.go", "msgdb/nyms.go"],
  [("contact status", "msgdb/contacts.go"), ("accounts", "msgdb/accounts.go"), ("identities", "msgdb/nyms.go")],
  ["msgdb API results"])

p("C14", "The sending pipeline sends each message once whatever fails",
  "When messages are sent, each accepted message is encrypted once per attempt, paid for with one token and delivered "
  "in order; it counts as sent exactly if delivery succeeded. If payment, encryption, envelope creation or delivery "
  "fails at any point, the message remains to be sent later, the token is spent only on an envelope that was created, "
  "and no token stays locked.",
  ["fault_sequences", "histories"],
  "All sequences of adding and sending messages with a failure of any step (no token, encryption, envelope, temporary, "
  "final and resend-requesting delivery failures) at any point.",
  "The control engine has no tests.",
  ["ctrlengine/msg.go", "ctrlengine/wallet.go", "ctrlengine/ctrlengine.go", "msgdb/outqueue.go"],
  [("outgoing queue processing", "ctrlengine/msg.go procOutQueue, msgSend"), ("token handling", "util/wallet/wallet.go")],
  ["calls made to the encryption and protocol programs, wallet and message database after each command"])

p("C15", "A payment token is never handed to two users at once",
  "A token in the wallet that is reserved by one user of the wallet is not given out to or reserved by another until it "
  "is released, deleted, or its reservation is old enough to have expired. Among the usable tokens the one expiring "
  "first is given out, balances count exactly the usable tokens, and only tokens expired beyond renewal are purged. "
  "Every stored token and credential is returned exactly as it was stored, also after reopening the wallet; storing "
  "that fails is reported and changes no token.",
  ["histories", "schedules", "fault_sequences"],
  "All sequences of storing, reserving, releasing, taking (also by several users at once), deleting, purging, balance "
  "queries, caching of credentials and reopening, with a failure of any single write inside an operation.",
  "The wallet store's tests do not compile at this commit.",
  ["serviceguard/client/walletstore/store.go", "serviceguard/client/walletstore/types.go"],
  [("lock column and lock cleanup", "serviceguard/client/walletstore/store.go"),
   ("token and credential encoding", "serviceguard/client/walletstore/types.go")],
  ["walletstore API results"])

p("C16", "Exchanging tokens never loses or double-spends one",
  "While tokens are obtained and exchanged for the service they are meant for, every token the wallet paid for is "
  "still in the wallet, was handed to the caller, was replaced by a token of which that is true, or can still be had by "
  "repeating the unanswered request, which is repeated a fixed number of times before it is given up; whatever request "
  "to the servers fails, and wherever the wallet dies once a token is in its store. A request for a replacement is stored before it is sent, a token is never submitted in two "
  "different requests nor after its replacement was received, and a token is handed out only if it verified, is of the "
  "usage and owner asked for, and is reserved for the caller.",
  ["fault_sequences", "histories", "crash_points"],
  "All sequences of token requests, resumed exchanges and restarts, with a failure, refusal or wrong answer of any "
  "server call, and a crash before any write to the store or request.",
  "The wallet client's tests do not compile at this commit and contact live servers.",
  ["serviceguard/client/reissue.go", "serviceguard/client/clientlib.go", "serviceguard/client/walletserver.go",
   "serviceguard/client/walletrpc/client.go"],
  [("reissue protocol", "serviceguard/client/reissue.go"), ("obtaining tokens", "serviceguard/client/clientlib.go")],
  ["results of the wallet client's calls, store contents, requests seen by the servers"])

p("C17", "A received token is accepted only if genuine, usable and ours",
  "A token is accepted for a service only if it carries a valid signature by a currently trusted issuing key for that "
  "usage, names the expected owner, and has not expired. A token that is altered, issued by an untrusted key, meant for "
  "another usage or owned by somebody else is refused without a crash.",
  ["inputs"],
  "All alterations of a genuine token and all combinations of issuer, usage, owner and expiry.",
  "The tests of the verifying package do not compile at this commit.",
  ["serviceguard/client/verify.go", "serviceguard/client/receive.go", "serviceguard/common/token/types.go",
   "serviceguard/common/signkeys/keys.go"],
  [("verification", "serviceguard/client/verify.go"), ("token format", "serviceguard/common/token/types.go")],
  ["result of receiving or verifying a token"])

p("C18", "The key pool serves only trusted, current keys of its usage",
  "A key pool loads and hands out only public keys that were signed by its trusted signer for its service and usage "
  "and have not expired, and a generating pool hands out a signing key only as long as it stays valid long enough, "
  "replacing it in time. Keys once accepted are found again under their identity until they expire, saving a key stores "
  "it or reports an error, and foreign, altered or expired keys never enter the pool.",
  ["histories", "inputs", "schedules"],
  "All sequences of generating, loading, saving and looking up keys with time passing, and concurrent lookups.",
  "The key pool tests are a single straight line and the storage tests do not compile.",
  ["serviceguard/common/keypool/generator.go", "serviceguard/common/keypool/keydir/filestorage.go",
   "serviceguard/common/signkeys/keys.go"],
  [("rotation", "serviceguard/common/keypool/generator.go Current"), ("trust", "serviceguard/common/keypool/generator.go")],
  ["keypool API results"])

p("C19", "Only configuration signed by the trusted key takes effect",
  "A new configuration takes effect only if exactly its content and date are signed by the trusted key, its date is "
  "close to the current time and not before that of the configuration it replaces; and a certificate takes effect only "
  "if it is, alone, the one whose hash such a configuration pins. Otherwise the configuration in effect, including the "
  "pinned certificate, remains exactly as it was. An update succeeds if any configured server supplies a valid "
  "configuration (the first such in the order of priorities decides) and one of them the certificate it pins, unless "
  "that is in effect already; failing updates never prevent a later one.",
  ["fault_sequences", "inputs", "histories"],
  "All sequences of updates against servers that answer validly, wrongly signed, altered, malformed or not at all.",
  "The tests of the package do not compile at this commit.",
  ["configclient/client.go", "configclient/sortedmap/map.go", "configclient/sortedmap/signedmap.go",
   "configclient/cahash/hash.go"],
  [("signature over the sorted map", "configclient/sortedmap"), ("update loop", "configclient/client.go Update")],
  ["configuration in effect after each update"])

p("C20", "Mixed messages open only for their addressee and unaltered",
  "A message wrapped for a mix opens only with that mix's key and yields exactly the wrapped instructions and content, if "
  "its size is within the limits; a nym address is opened only with the key it was made for and gives back exactly the "
  "delivery data put in, until it expires; a message the mix passes on is read only by who made the address, under the nym "
  "put in. Any alteration, truncation or foreign key leads to an error, never to a crash or to different content (the "
  "unencrypted fields of a nym address serve the sender and are not protected). Messages against the format are refused. "
  "No random part of addresses and messages ever repeats, so that they cannot be linked. The marks by which a mix recognises repeated messages and repeated use of single-use addresses are equal for these "
  "and only for these.",
  ["inputs"],
  "All message types, lengths, parameters and alterations at every structural position.",
  "The tests of the mix packages do not compile or cover the good case only.",
  ["mix/mixcrypt/clientmix.go", "mix/mixcrypt/envelope.go", "mix/mixcrypt/mixclient.go", "mix/nymaddr/addr.go",
   "mix/nymaddr/crypt.go"],
  [("envelope", "mix/mixcrypt"), ("nym addresses", "mix/nymaddr/addr.go")],
  ["results of sending, receiving, opening addresses"])

p("C21", "Mix address lists contain only authentic, unexpired addresses",
  "A published list of mix addresses verifies only under the key of the mix that signed it and as a whole. A mix "
  "publishes every key it can still use, finds the private key of each of its published, unexpired addresses and of no "
  "other, drops keys when they have expired and not before, and keeps all that across saving, loading, restarting from "
  "its newest key file, and concurrent use. A client's list takes only unexpired addresses from statements that verify, "
  "and loses only expired ones.",
  ["histories", "inputs"],
  "All sequences of adding, expiring, listing, saving, loading and looking up addresses, and all alterations of a statement.",
  "The tests of the package do not compile at this commit.",
  ["mix/mixaddr/addrlist.go", "mix/mixaddr/privkey.go"],
  [("statement signature", "mix/mixaddr/addrlist.go"), ("key list", "mix/mixaddr/privkey.go")],
  ["mixaddr API results"])

p("C22", "Message bodies and attachments come back as they went in",
  "A message is read back with the same header fields, subject (its first line), text and attachments (contents, name "
  "without directories, content type, inline or not) whatever bytes they consist of, and a long message that is sent in "
  "pieces is the concatenation of the pieces. A message that was cut off anywhere, lacks a mandatory header field, or "
  "has a part against the format is reported as an error, as is an attachment that cannot be read, or a message that "
  "cannot be written, to the end. No input crashes the reader.",
  ["inputs"],
  "All combinations of texts, attachments, names, content types and piece sizes, truncation of the result at every "
  "position, and random alterations of it.",
  "Tests cover a few fixed messages and no truncated one.",
  ["msg/mime/mime.go"],
  [("build and parse", "msg/mime/mime.go New, Parse"), ("pieces", "msg/mime/mime.go EncodeChunks, DecodeChunk")],
  ["results of building and parsing"])

p("C23", "The text viewer shows exactly the text it was given and the cursor stays in it",
  "The text buffer gives back every text it was made from, and its lines, characters and screen cells agree with each "
  "other for all combinations of narrow, wide, combining and invalid characters; positions outside of the text are "
  "answered without a crash. Whatever keys, cursor commands, changes of size and new texts the viewer gets, the cursor "
  "is at a position within the text and on the screen, whoever watches it is told when it moved, the screen shows the "
  "part of the text the view is at, and moving around never changes the text.",
  ["inputs", "histories"],
  "All texts, and all sequences of keys, cursor commands, resizing and replacing the text, including empty texts.",
  "Tests check two fixed texts in the text buffer and nothing of the viewer.",
  ["tui/textbuffer/textbuffer.go", "tui/editor/model.go", "tui/editor/view.go", "tui/editor/editor.go"],
  [("text buffer", "tui/textbuffer/textbuffer.go"), ("cursor limits", "tui/editor/model.go limitCursor"),
   ("keys and drawing", "tui/editor/view.go")],
  ["buffer contents, cursor and screen contents after each command"])

p("C24", "The local web interface shows data only after login",
  "Without a login with the right passphrase, the local web interface shows nothing but the login page, whatever "
  "requests and cookies it is sent, and no login with another passphrase ever gets a cookie, also not while a session "
  "exists or other logins are going on. After a login it serves exactly the requests that carry the cookie it issued last, "
  "and nothing outside its document root; failed logins leave the session as it is.",
  ["histories", "inputs"],
  "All sequences of login attempts and page requests with missing, empty, wrong, stale and right cookies and passphrases.",
  "The application server has no tests.",
  ["ctrlengine/app.go"],
  [("cookie check", "ctrlengine/app.go")],
  ["HTTP responses"])

p("C25", "Received mail obeys the contact policy and is filed once",
  "Each message fetched from the server is decrypted and filed exactly once under the identity it was sent to and the "
  "contact that sent it; messages of blocked contacts are dropped, and unknown senders become pending contacts. A "
  "failure of any step leaves the message in the queue so that a later run completes it.",
  ["fault_sequences", "histories"],
  "All sequences of fetching with any mix of senders and contact states and a failure of any step at any point.",
  "The control engine has no tests.",
  ["ctrlengine/msg.go", "ctrlengine/contact.go", "msgdb/inqueue.go"],
  [("incoming queue processing", "ctrlengine/msg.go procInQueue"), ("contact policy", "ctrlengine/msg.go, ctrlengine/contact.go")],
  ["message database after each command"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
