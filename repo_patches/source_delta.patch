From 1f11c2179fc9bb6e158c97c56d35c30c842f4813 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 01/61] fix: walletstore: CleanLocks removes expired locks
 only, not all locks

---
 serviceguard/client/walletstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..a6822ac 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -207,7 +207,7 @@ func (ws *Storage) initDB() (err error) {
 
 // CleanLocks cleans all locks. If force is true all locks are removed, not only expired locks
 func (ws *Storage) CleanLocks(force bool) {
-	locktime := times.Now() + MaxLockAge
+	locktime := times.Now() - MaxLockAge
 	if force {
 		locktime = int64(^uint32(0)) // MaxUInt32
 	}
-- 
2.43.0


From 7360fd633e2ad7796e471df8a3ba7dd5690149ce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:18:04 +0000
Subject: [PATCH 02/61] fix: walletstore: read the cached credentials back
 after reopening the store

---
 serviceguard/client/walletstore/store.go | 15 +++++++++++++--
 serviceguard/client/walletstore/types.go |  4 +++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index a6822ac..f6ee26d 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -321,10 +321,15 @@ func (ws *Storage) writeCache() error {
 
 // readCache reads the cache from the database
 func (ws *Storage) readCache() {
-	var data string
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
+	ws.loadCache()
+}
+
+// loadCache reads the cache from the database, the caller must hold the cacheMutex
+func (ws *Storage) loadCache() {
+	var tmp, data string
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&tmp, &data)
 	if err != nil {
 		return
 	}
@@ -338,6 +343,9 @@ func (ws *Storage) readCache() {
 // SetVerifyKeys saves verification keys
 func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
 	ws.cacheMutex.Lock()
+	if ws.cache == nil {
+		ws.loadCache()
+	}
 	if ws.cache == nil {
 		ws.cache = new(CacheData)
 	}
@@ -367,6 +375,9 @@ func (ws *Storage) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
 // SetAuthToken stores an authtoken and tries
 func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 	ws.cacheMutex.Lock()
+	if ws.cache == nil {
+		ws.loadCache()
+	}
 	if ws.cache == nil {
 		ws.cache = new(CacheData)
 	}
diff --git a/serviceguard/client/walletstore/types.go b/serviceguard/client/walletstore/types.go
index e096422..8c6b77d 100644
--- a/serviceguard/client/walletstore/types.go
+++ b/serviceguard/client/walletstore/types.go
@@ -203,7 +203,9 @@ func (cd *CacheData) Unmarshal(d string) (*CacheData, error) {
 		copy(copyKey[:], key)
 		cd.VerifyKeys = append(cd.VerifyKeys, *copyKey)
 	}
-	cd.AuthToken = cdb.AuthToken
+	if len(cdb.AuthToken) > 0 {
+		cd.AuthToken = cdb.AuthToken
+	}
 	cd.AuthTries = cdb.AuthTries
 	return cd, nil
 }
-- 
2.43.0


From c110641981aa025650fd5a933fb19c128073e244 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 03/61] fix: keydb: store further message keys under the
 session they belong to

AddSession used the last insert ID after an UPDATE, so the message keys of the
second and every later batch were stored under an unrelated session ID and the
session could neither send nor receive anymore.
---
 keydb/session.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..fd58a84 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,35 +36,40 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
+	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
+		// get session ID
+		sessionID, err = res.LastInsertId()
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	case err != nil:
 		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
-	}
-
-	// get session ID
-	sessionID, err := res.LastInsertId()
-	if err != nil {
-		tx.Rollback()
-		return log.Error(err)
+		// get session ID (an update does not set the last insert ID)
+		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	}
 
 	// stores message keys
-- 
2.43.0


From 6afb0813e553658d2133f26bd1118f323ede62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 04/61] fix: msg: limit the number of missing message keys, not
 the message number

The limit on message keys derived at once was compared with the number of the
message in the session, so a recipient refused every message of a session after
the first few hundred.
---
 msg/decrypt.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..72aa5b1 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -358,15 +358,12 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			return "", "", err
 		}
 		// prevent denial of service attack by very large h.SenderMessageCount
-		numOfKeys := h.SenderMessageCount / args.NumOfKeys
-		if h.SenderMessageCount%args.NumOfKeys > 0 {
-			numOfKeys++
-		}
-		numOfKeys *= args.NumOfKeys
-		if numOfKeys > mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
+		// (only the keys which are still missing count)
+		if h.SenderMessageCount-n >= mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
 			return "", "",
 				log.Errorf("msg: requested number of message keys too large")
 		}
+		numOfKeys := ((h.SenderMessageCount-n)/args.NumOfKeys + 1) * args.NumOfKeys
 		log.Debugf("numOfKeys=%d", numOfKeys)
 		var recipientPub *[32]byte
 		if h.RecipientTempHash == ss.SenderSessionPub.HASH {
-- 
2.43.0


From 65a6f576276b3ce9ae261e191a463f093d664f88 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 05/61] fix: msg: verify the sender UID message of a received
 message

The UID message in the header was neither checked nor compared with the
identity and the key the header names, so anybody could send messages that were
accepted as coming from somebody else.
---
 msg/decrypt.go | 15 ++++++++++-----
 msg/errors.go  |  4 ++++
 msg/procuid.go |  9 +++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 72aa5b1..584ef17 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -156,6 +156,16 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	res := make(chan *procUIDResult, 1)
 	go procUID(h.SenderUID, res)
 
+	// get processed sender UID and make sure the header names its owner
+	uidRes := <-res
+	if uidRes.err != nil {
+		return "", "", uidRes.err
+	}
+	if uidRes.msg.Identity() != h.SenderIdentity ||
+		!uid.KeyEntryEqual(uidRes.msg.PubKey(), &h.SenderIdentityPub) {
+		return "", "", log.Error(ErrWrongSender)
+	}
+
 	// get session state
 	sender := h.SenderIdentity
 	recipient := identity.Identity()
@@ -532,11 +542,6 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			return "", "", log.Error(ErrNotPaddingPacket)
 		}
 	}
-	// get processed sender UID
-	uidRes := <-res
-	if uidRes.err != nil {
-		return "", "", uidRes.err
-	}
 
 	// verify signature, if necessary
 	if contentHash != nil {
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..2b1fd54 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -58,3 +58,7 @@ var ErrReflection = errors.New("msg: reflection attack detected")
 
 // ErrStatusError is raised when a decryption operation lead to a StatusCode StatusError.
 var ErrStatusError = errors.New("msg: StatusCode == StatusError")
+
+// ErrWrongSender is raised when the sender named in the header is not the owner
+// of the sender UID message.
+var ErrWrongSender = errors.New("msg: header does not name the owner of the sender UID message")
diff --git a/msg/procuid.go b/msg/procuid.go
index a2bbc8a..f5473e9 100644
--- a/msg/procuid.go
+++ b/msg/procuid.go
@@ -27,6 +27,15 @@ func procUID(senderUID string, res chan *procUIDResult) {
 		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
 		return
 	}
+	// make sure the UID message is valid and really from its owner
+	if err := r.msg.Check(); err != nil {
+		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
+		return
+	}
+	if err := r.msg.VerifySelfSig(); err != nil {
+		res <- &procUIDResult{uidIndex: nil, msg: nil, err: err}
+		return
+	}
 	// return results
 	res <- &r
 }
-- 
2.43.0


From f9ccbe85b68b83a94032f2c0de7305c756861547 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:20:22 +0000
Subject: [PATCH 06/61] fix: identity: refuse identities that are too long
 after mapping

---
 uid/identity/identity.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/uid/identity/identity.go b/uid/identity/identity.go
index 77011c3..e2b45e5 100644
--- a/uid/identity/identity.go
+++ b/uid/identity/identity.go
@@ -38,7 +38,12 @@ func Map(identity string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return mlp + "@" + MapDomain(domain), nil
+	mappedID := mlp + "@" + MapDomain(domain)
+	// mapping to lowercase can make the domain longer
+	if len(mappedID) > MaxLen {
+		return "", ErrTooLong
+	}
+	return mappedID, nil
 }
 
 // IsMapped returns an error, if the given identity is not well-formed or not
@@ -68,6 +73,10 @@ func MapPlus(identity string) (mappedID, mappedDomain string, err error) {
 	}
 	mappedDomain = MapDomain(domain)
 	mappedID = mlp + "@" + mappedDomain
+	// mapping to lowercase can make the domain longer
+	if len(mappedID) > MaxLen {
+		return "", "", ErrTooLong
+	}
 	return
 }
 
-- 
2.43.0


From 4faef696555159e3aa3d7b5ce65050245590f82c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 07/61] fix: uid: compare the confirmed UID message with the
 sent one

---
 uid/uid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..6ebb9fc 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -639,14 +639,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, replyMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(replyMsg.JSON(), msg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From b223a02eae4ca68ce05d423cdc052771cda40dcf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 08/61] fix: uid: malformed replies and key init messages are
 errors

---
 uid/keyinit.go | 13 +++++++++++--
 uid/uid.go     |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..8407af2 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,10 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		log.Error(ErrSessionAnchor)
+		return nil, ErrSessionAnchor
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
@@ -201,7 +206,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -229,7 +236,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
diff --git a/uid/uid.go b/uid/uid.go
index 6ebb9fc..1e1ea0c 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -625,6 +626,9 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Error(ErrMsgMismatch)
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
-- 
2.43.0


From f8194e89bb88e313a6ea24ccb4c2825ab9261e16 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:49:45 +0000
Subject: [PATCH 09/61] fix: hash chain sync only appends the missing entries
 it asked for

A reply of the key server with missing or wrongly typed positions made the
engine panic, entries at other positions than the missing ones were stored
(doubled or leaving a gap), and a failure to store an entry was reported as
success.
---
 cryptengine/hashchain.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..934d6cb 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"fmt"
+	"math"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/cipher/aes256"
@@ -39,8 +40,8 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
-	if !ok {
+	hcPosFloat, ok := reply["HCPos"].(float64)
+	if !ok || hcPosFloat < 0 || hcPosFloat >= math.MaxInt64 {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
 	hcPos := uint64(hcPosFloat)
@@ -88,11 +89,18 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcPosFirstFloat, ok := reply["HCFirstPos"].(float64)
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
-	hcFirstPos := uint64(hcPosFirstFloat)
+	// make sure we got exactly the missing entries
+	if hcPosFirstFloat != float64(start) {
+		return log.Error("cryptengine: fetched hash chain entries have the wrong first position")
+	}
+	hcFirstPos := start
+	if uint64(len(hcEntries)) <= hcPos-hcFirstPos {
+		return log.Error("cryptengine: fetched hash chain entries are incomplete")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
@@ -102,7 +110,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
-- 
2.43.0


From 11e548ef98bf473db7d63efdb906801212b62ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 10/61] fix: do not panic if the key server names no signature
 key

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..8c11cf3 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -66,6 +66,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if len(kis) != len(sigs) {
 		return log.Error("cryptengine: number of returned signatures does not equal number of sent key init messages")
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Error("cryptengine: key server has no signature key")
+	}
 	for i, ki := range kis {
 		sig, ok := sigs[i].(string)
 		if !ok {
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..d7721e5 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -117,6 +117,9 @@ func (ce *CryptEngine) registerOrUpdate(
 
 	// verify reply
 	// TODO: keyserver can return more than one SIGPUBKEY
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Error("cryptengine: key server has no signature key")
+	}
 	if err := msgReply.VerifySrvSig(msg, caps.SIGPUBKEYS[0]); err != nil {
 		return err
 	}
-- 
2.43.0


From 9aacbb36fd524f87bf3eacb55ae80c0b2dd34081 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 11/61] fix: only store UID messages of the identity that was
 searched

The message a hash chain entry leads to was stored without checking that it
belongs to the identity searched for, and for a key server's first message
without checking that it is the one the entry commits to.
---
 cryptengine/hashchain.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 934d6cb..793f452 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -271,6 +271,19 @@ func (ce *CryptEngine) verifyServerSig(
 	return nil
 }
 
+// checkUID makes sure that uid belongs to the given (mapped) id and hashes to
+// UIDHash.
+func checkUID(uid *uid.Message, id string, UIDHash []byte) error {
+	if uid.Identity() != id {
+		return log.Errorf("cryptengine: UID message is for '%s' instead of '%s'",
+			uid.Identity(), id)
+	}
+	if hash, _, _ := uid.Encrypt(); !bytes.Equal(hash, UIDHash) {
+		return log.Error("cryptengine: UID message does not match UIDHash")
+	}
+	return nil
+}
+
 // searchHashChain searches the local hash chain corresponding to the given id
 // for the id. It talks to the corresponding key server to retrieve necessary
 // UIDMessageReplys and stores found UIDMessages in the local keyDB.
@@ -363,6 +376,11 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check that this is the message the hash chain entry commits to
+		if err := checkUID(uid, mappedID, UIDHash); err != nil {
+			return err
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -491,6 +509,11 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Check that this is the message the hash chain entry commits to
+		if err := checkUID(uid, mappedID, UIDHash); err != nil {
+			return err
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
-- 
2.43.0


From 9678d0c8512a554797356bf7139ac3a0d11245a0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:00:07 +0000
Subject: [PATCH 12/61] fix: verify fetched key init messages before storing
 them

---
 cryptengine/keyinit.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index 8c11cf3..79ffa65 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -129,6 +129,10 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// verify key init message
+	if err := ki.Verify(msg.UIDContent.REPOURIS, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From 1b57f0f09630e7537c71ab7f3258e6bda5426dba Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:40:04 +0000
Subject: [PATCH 13/61] fix: mime: report a message that was cut off instead of
 crashing

---
 msg/mime/mime.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 5f4e14e..8bb25eb 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -369,6 +369,9 @@ func Parse(r io.Reader) (
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, "", "", nil, log.Error(err)
+		}
 		// parse header
 		contentType := p.Header.Get("Content-Type")
 		if contentType == "" {
@@ -398,9 +401,6 @@ func Parse(r io.Reader) (
 		}
 
 		// parse body
-		if err != nil {
-			return nil, "", "", nil, log.Error(err)
-		}
 		enc, err := ioutil.ReadAll(p)
 		if err != nil {
 			return nil, "", "", nil, log.Error(err)
-- 
2.43.0


From e3ba38ceb8ce1ee7a6149e5740b3c7a5865a1094 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:40:04 +0000
Subject: [PATCH 14/61] fix: mime: quote filenames of attachments

---
 msg/mime/mime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 8bb25eb..549788c 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -104,7 +104,8 @@ func multipartMIME(
 			}
 		}
 		mh.Add("Content-Transfer-Encoding", "base64")
-		mh.Add("Content-Disposition", "attachment; filename="+base)
+		mh.Add("Content-Disposition", mime.FormatMediaType("attachment",
+			map[string]string{"filename": base}))
 		if attachment.Inline {
 			mh.Add("Content-Disposition", "inline")
 		}
-- 
2.43.0


From 288f8d8bf6827125e576dc11c979adc850970e5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:40:53 +0000
Subject: [PATCH 15/61] fix: mime: detect messages cut off within the header of
 a part

---
 msg/mime/mime.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 549788c..717f51c 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -338,8 +338,17 @@ func Parse(r io.Reader) (
 	} else if mediaType != "multipart/mixed" {
 		return nil, "", "", nil, log.Error("mime: wrong 'Content-Type' header ")
 	}
+	// make sure the closing boundary is there, multipart.Reader reports a
+	// message which was cut off within the header of a part as io.EOF
+	body, err := ioutil.ReadAll(msg.Body)
+	if err != nil {
+		return nil, "", "", nil, log.Error(err)
+	}
+	if !bytes.Contains(body, []byte("\r\n--"+params["boundary"]+"--")) {
+		return nil, "", "", nil, log.Error("mime: closing boundary missing")
+	}
 	// read first MIME part (message)
-	mr := multipart.NewReader(msg.Body, params["boundary"])
+	mr := multipart.NewReader(bytes.NewReader(body), params["boundary"])
 	p, err := mr.NextPart()
 	if err != nil {
 		return nil, "", "", nil, log.Error(err)
-- 
2.43.0


From d0b49590d0929758e67465ad1bd372a2bfa64a5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 16/61] fix: mime: read back every subject as it was

---
 msg/mime/mime.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 717f51c..dcfd17f 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -47,6 +47,15 @@ type Header struct {
 	InReplyTo string   // optional
 }
 
+// encodeSubject encodes the subject such that it is decoded unchanged.
+func encodeSubject(subject string) string {
+	if strings.Contains(subject, "=?") || strings.TrimSpace(subject) != subject {
+		// would be taken for an encoded word or trimmed
+		return "=?utf-8?b?" + base64.Encode([]byte(subject)) + "?="
+	}
+	return mime.QEncoding.Encode("utf-8", subject)
+}
+
 func mailHeader(
 	w io.Writer,
 	header Header,
@@ -59,7 +68,7 @@ func mailHeader(
 		fmt.Fprintf(w, "Cc: %s\r\n", strings.Join(header.Cc, ","))
 	}
 	if subject != "" {
-		fmt.Fprintf(w, "Subject: %s\r\n", mime.QEncoding.Encode("utf-8", subject))
+		fmt.Fprintf(w, "Subject: %s\r\n", encodeSubject(subject))
 	}
 	fmt.Fprintf(w, "Message-ID: %s\r\n", header.MessageID)
 	if header.InReplyTo != "" {
@@ -310,11 +319,8 @@ func Parse(r io.Reader) (
 			h.Cc = append(h.Cc, address.Address)
 		}
 	}
-	// parse subject
+	// parse subject (not written, if empty)
 	subj := msg.Header.Get("Subject")
-	if subj == "" {
-		return nil, "", "", nil, log.Error("mime: 'Subject' not defined")
-	}
 	dec := new(mime.WordDecoder)
 	subject, err = dec.DecodeHeader(subj)
 	if err != nil {
-- 
2.43.0


From 0e9ff75ab0513643109fd81a34eea6270fe1b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 17/61] fix: textbuffer: treat negative coordinates as invalid
 ones

---
 tui/textbuffer/textbuffer.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tui/textbuffer/textbuffer.go b/tui/textbuffer/textbuffer.go
index a68eef9..02e546f 100644
--- a/tui/textbuffer/textbuffer.go
+++ b/tui/textbuffer/textbuffer.go
@@ -138,8 +138,8 @@ func New(b []byte) *TextBuffer {
 // GetRune returns the rune in line y at position x of the rune coordinate
 // system.
 func (tb *TextBuffer) GetRune(x, y int) rune {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].runes) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].runes) {
 			return tb.lines[y].runes[x]
 		}
 	}
@@ -149,8 +149,8 @@ func (tb *TextBuffer) GetRune(x, y int) rune {
 // GetChar returns the character in line y at position x of the character
 // coordinate system.
 func (tb *TextBuffer) GetChar(x, y int) []rune {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].chars) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].chars) {
 			var l int
 			if x > 0 {
 				l = tb.lines[y].chars[x-1]
@@ -166,8 +166,8 @@ func (tb *TextBuffer) GetChar(x, y int) []rune {
 // coordinate system. It also returns the width of the character:
 // 1: narrow, 2: wide, first half, 0: wide, second half.
 func (tb *TextBuffer) GetCell(x, y int) (c []rune, width int) {
-	if y < tb.Lines() {
-		if x < len(tb.lines[y].cells) {
+	if y >= 0 && y < tb.Lines() {
+		if x >= 0 && x < len(tb.lines[y].cells) {
 			c := tb.lines[y].cells[x]
 			return tb.GetChar(c.charIndex, y), c.charWidth
 		}
@@ -195,7 +195,7 @@ func (tb *TextBuffer) Lines() int {
 // LineLenRune returns the length of line y in the rune coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenRune(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].runes)
 	}
 	return 0
@@ -204,7 +204,7 @@ func (tb *TextBuffer) LineLenRune(y int) int {
 // LineLenChar returns the length of line y in the character coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenChar(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].chars)
 	}
 	return 0
@@ -213,7 +213,7 @@ func (tb *TextBuffer) LineLenChar(y int) int {
 // LineLenCell returns the length of line y in the cell coordinate system.
 // Returns 0 if y is an invalid coordinate.
 func (tb *TextBuffer) LineLenCell(y int) int {
-	if y < tb.Lines() {
+	if y >= 0 && y < tb.Lines() {
 		return len(tb.lines[y].cells)
 	}
 	return 0
-- 
2.43.0


From 5906ed823453610b9d5c6d513ca82acd6781db2e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 18/61] fix: editor: adjust cursor and view to new content

---
 tui/editor/editor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tui/editor/editor.go b/tui/editor/editor.go
index d91e1e5..c2c9743 100644
--- a/tui/editor/editor.go
+++ b/tui/editor/editor.go
@@ -27,6 +27,9 @@ func (e *Editor) SetContent(b []byte) {
 	e.model.tb = textbuffer.New(b)
 	e.model.width = e.model.tb.MaxLineLenCell()
 	e.model.height = e.model.tb.Lines()
+	e.port.SetContentSize(e.model.width, e.model.height, true)
+	e.model.MoveCursor(0, 0) // keep cursor within new content
+	e.MakeCursorVisible()
 }
 
 // SetStyle of Editor.
-- 
2.43.0


From 0d7fc3c941b19608498ad18d35f929915f749b5b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 19/61] fix: editor: setting a cursor column keeps the row and
 vice versa

---
 tui/editor/view.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tui/editor/view.go b/tui/editor/view.go
index cdbd540..b3c4039 100644
--- a/tui/editor/view.go
+++ b/tui/editor/view.go
@@ -16,8 +16,6 @@ type textBufferView struct {
 	view     views.View
 	content  views.Widget
 	contentV *views.ViewPort
-	cursorX  int
-	cursorY  int
 	style    tcell.Style
 	lines    []string
 	model    views.CellModel
@@ -277,19 +275,19 @@ func (a *textBufferView) Resize() {
 
 // SetCursor sets the the cursor position.
 func (a *textBufferView) SetCursor(x, y int) {
-	a.cursorX = x
-	a.cursorY = y
 	a.model.SetCursor(x, y)
 }
 
 // SetCursorX sets the the cursor column.
 func (a *textBufferView) SetCursorX(x int) {
-	a.SetCursor(x, a.cursorY)
+	_, y, _, _ := a.model.GetCursor()
+	a.SetCursor(x, y)
 }
 
 // SetCursorY sets the the cursor row.
 func (a *textBufferView) SetCursorY(y int) {
-	a.SetCursor(a.cursorX, y)
+	x, _, _, _ := a.model.GetCursor()
+	a.SetCursor(x, y)
 }
 
 // MakeVisible makes the given coordinates visible, if they are not already.
-- 
2.43.0


From b5f54b1b7ef83397327e3d7046259a07d50333be Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 20/61] fix: keypool: replace the signing key before half of
 its lifetime has passed

---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..73a73be 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -164,7 +164,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0


From e71deb887220d15429b525873120e0b7eb83dbee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 21/61] fix: keypool: Lookup adds fetched keys, hold the write
 lock

---
 serviceguard/common/keypool/generator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 73a73be..97c93f4 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -102,8 +102,8 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	kp.mapMutex.Lock() // fetched keys are added to the pool
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
-- 
2.43.0


From 9599a3982e7de91964a4680c41207ceae21accaf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 22/61] fix: keydb: report a key that could not be written

---
 serviceguard/common/keypool/keydb/dbstorage.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 2bde807..c6c5ee0 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -130,10 +130,14 @@ func (kd *KeyDB) writeFunc() keypool.WriteKeyCallbackFunc {
 		id := hex.EncodeToString(keyid)
 		marshalled := base64.StdEncoding.EncodeToString(marshalledKey)
 		_, err := kd.insertQuery.Exec(id, usage, marshalled)
-		if err == nil {
-			return err
+		if err != nil {
+			// a key that is already stored can be written again
+			var stored string
+			if kd.selectQuery.QueryRow(id).Scan(&stored) == nil && stored == marshalled {
+				return nil
+			}
 		}
-		return nil
+		return err
 	}
 }
 
-- 
2.43.0


From a73303e54ff8743f0c1a95dda1282374a817e2ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:03:33 +0000
Subject: [PATCH 23/61] fix: keypool: don't load keys that are not on the curve

---
 serviceguard/common/keypool/generator.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 97c93f4..ce6b33d 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -217,6 +217,11 @@ func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]by
 		// Don't load keys without matching signature
 		return nil, ErrBadSigner
 	}
+	if !kp.Generator.Curve.Curve.IsOnCurve(loadKey.PublicKey.X, loadKey.PublicKey.Y) {
+		// The signature does not cover the boundary between the coordinates,
+		// don't load keys where it has been moved
+		return nil, ErrBadSigner
+	}
 	if _, exists := kp.keys[loadKey.KeyID]; exists {
 		return &loadKey.KeyID, ErrExists
 	}
-- 
2.43.0


From 364c3534c5f4e2d92905ce553ec0cc5a22e620a3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 24/61] fix: token: refuse tokens with fields of the wrong size

---
 serviceguard/common/token/types.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serviceguard/common/token/types.go b/serviceguard/common/token/types.go
index 4ac5c2e..ede479d 100644
--- a/serviceguard/common/token/types.go
+++ b/serviceguard/common/token/types.go
@@ -9,6 +9,7 @@ import (
 	"crypto/rand"
 	"crypto/sha256"
 	"encoding/asn1"
+	"errors"
 	"io"
 	"math/big"
 
@@ -27,6 +28,9 @@ const (
 	OwnerSize = ed25519.PublicKeySize
 )
 
+// ErrBadToken is returned if an encoded token is malformed.
+var ErrBadToken = errors.New("token: malformed token")
+
 // Rand is the random number source.
 var Rand = rand.Reader
 
@@ -112,6 +116,10 @@ func Unmarshal(d []byte) (*Token, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The hash does not cover the boundaries between the fields
+	if len(t.KeyID) != KeyIDSize || len(t.Nonce) != NonceSize || len(t.Owner) != OwnerSize {
+		return nil, ErrBadToken
+	}
 	return t, nil
 }
 
-- 
2.43.0


From fb3870a5c9c346945d2b9fdcc3b49d052409bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 25/61] fix: client: receiving a token without owner is an
 error, not a crash

---
 serviceguard/client/receive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..24c4353 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,7 +16,7 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
-- 
2.43.0


From 8666d3f506ddd1cb8d80e973ed2ddac9caba671f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 26/61] fix: client: a token with a bad signature point is an
 error, not a crash

---
 serviceguard/client/verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index a1956e9..07693f8 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -32,6 +32,10 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	}
 	// Get data from token, signature first
 	signature := tokenUnmarshalled.GetSignature()
+	if !c.packetClient.Curve.Curve.IsOnCurve(signature.PointR.X, signature.PointR.Y) {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	tempSignature := jjm.NewClearSignature(&pubkey.PublicKey)
 	tempSignature.PointR = signature.PointR
 	tempSignature.ScalarS = signature.ScalarS
-- 
2.43.0


From d36ab5b4256a88d396e474bf1d53d22959a2bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 27/61] fix: keylookup: refuse another key than the one asked
 for

---
 serviceguard/client/keylookup/impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..d1798ee 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -61,6 +61,10 @@ func (klc LookupClient) GetKey(keyid *[signkeys.KeyIDSize]byte) (*signkeys.Publi
 	if err != nil {
 		return nil, err
 	}
+	if loadKey.KeyID != *keyid {
+		// We've been given some other key
+		return nil, ErrParams
+	}
 	return loadKey, nil
 }
 
-- 
2.43.0


From 891f0b04e7cfb06fb6cc9e2ec873df227279af0a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 28/61] fix: serviceguard: answers with values of the wrong
 type are errors, not crashes

---
 serviceguard/client/guardrpc/client.go  | 14 +++++++-------
 serviceguard/client/keylookup/impl.go   | 10 +++++-----
 serviceguard/client/walletrpc/client.go |  3 +++
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..54b8bb5 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,7 +74,7 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
+	if _, ok := data["Packet"].(string); ok {
 		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
 		if err != nil {
 			return nil, err
@@ -97,7 +97,7 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
+	if _, ok := data["Packet"].(string); ok {
 		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
 		if err != nil {
 			return nil, err
@@ -120,7 +120,7 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
+	if _, ok := data["Status"].(bool); ok {
 		return data["Status"].(bool), nil
 	}
 	return false, ErrParams
@@ -139,10 +139,10 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
@@ -176,10 +176,10 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	if _, ok := data["Packet"].(string); !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	if _, ok := data["PubkeyUsed"].(string); !ok {
 		return nil, nil, ErrParams
 	}
 	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index d1798ee..aa045e5 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -79,8 +79,8 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
-		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
+	if key, ok := data["Key"].(string); ok {
+		keyMarshalled, err := base64.StdEncoding.DecodeString(key)
 		if err != nil {
 			return nil, err
 		}
@@ -123,13 +123,13 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	if _, ok := data["PublicKey"].(string); !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	if _, ok := data["Signature"].(string); !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	if _, ok := data["KeyList"].(string); !ok {
 		return nil, ErrParams
 	}
 	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..71c503c 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -162,6 +162,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if _, ok := data["Params"].(string); !ok {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	token, err = base64.StdEncoding.DecodeString(data["Token"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From d94e5b580e030a76e4b076858746ad1f8f164d9f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 29/61] fix: walletauth: short error messages are no crash

---
 serviceguard/common/walletauth/walletauth.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..8ad2c4e 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,7 +81,7 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
+	if strings.HasPrefix(err.Error(), "ErrReplay: ") {
 		counter := err.Error()[len("ErrReplay: "):]
 		LastCounter, err := strconv.ParseInt(counter, 10, 64)
 		if err == nil {
-- 
2.43.0


From 0bab3577a077a697a8197f0869e9002b1c0cee9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 30/61] fix: client: do not reissue a token that is locked

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..0cd42b0 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
-- 
2.43.0


From d84c03371025a9801854901b891fb7f382ff5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 31/61] fix: client: reissuing to a new owner of our own does
 not crash

---
 serviceguard/client/reissue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 0cd42b0..4190014 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -88,6 +88,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPubkey[:], pk)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
-- 
2.43.0


From 67af301be589f50ccedb8bf0ac6107a8d1219834 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 32/61] fix: client: keep the old token until its replacement
 is stored

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 4190014..bbd5e4e 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -125,7 +125,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -177,5 +176,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it has been replaced
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From 40b6ef54fbf8656c3ba072143ada01ae0d335d30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 33/61] fix: packetproto: refuse malformed and wrong signatures
 when unblinding

---
 serviceguard/client/packetproto/methods.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..09a9a87 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -21,6 +21,8 @@ var (
 	ErrNoToken = errors.New("client: token creation failed")
 	// ErrMissingSigner signals that a request must be signed but no signer is present
 	ErrMissingSigner = errors.New("client: signer missing but required")
+	// ErrBadSignature signals that the signature of an issued token does not verify
+	ErrBadSignature = errors.New("client: bad signature on issued token")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
 )
@@ -147,15 +149,21 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	ok, err := blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !ok {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
-- 
2.43.0


From 434a72a94c31899fc39190695dba13881a69d6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 34/61] fix: packetproto: refuse parameters that are not on the
 curve

---
 serviceguard/client/packetproto/methods.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 09a9a87..3e4e1fb 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -31,6 +31,9 @@ var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
 
 // NewToken returns a blinded token ready for signing. Blindmessage goes to server, blindfactors and clear message remain local
 func (c Client) NewToken(issuerPubKey *signkeys.PublicKey, pubParams *jjm.BlindingParamClient, owner *[ed25519.PublicKeySize]byte) (genericblinding.BlindingFactors, genericblinding.BlindMessage, *token.Token, error) {
+	if !c.Curve.Curve.IsOnCurve(pubParams.PointRs1.X, pubParams.PointRs1.Y) || !c.Curve.Curve.IsOnCurve(pubParams.PointRs2.X, pubParams.PointRs2.Y) {
+		return nil, nil, nil, ErrParamMismatch
+	}
 	newToken := token.New(&issuerPubKey.KeyID, owner)
 	if newToken == nil {
 		return nil, nil, nil, ErrNoToken
-- 
2.43.0


From 2e278e259f484792282a65c5a336c9e1a760f62d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:29:10 +0000
Subject: [PATCH 35/61] fix: client: GetToken reports errors of the wallet
 store

---
 serviceguard/client/clientlib.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..16b4e35 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -197,6 +197,9 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 			c.LastError = err
 			return nil, ErrFatal
 		}
+	} else if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	return retToken, nil
 }
-- 
2.43.0


From dc455a6e5c5ac234a82d50197b6d038177dd4181 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:31:51 +0000
Subject: [PATCH 36/61] fix: client: drop parameters that cannot be used for a
 reissue

---
 serviceguard/client/reissue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index bbd5e4e..83e79e2 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -99,6 +99,10 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		serverPacket, blindingFactors, err := c.packetClient.Reissue(tokenEntry.Token, tokenEntry.OwnerPrivKey, tokenEntry.NewOwnerPubKey, tokenEntry.Params)
 		if err != nil {
 			c.LastError = err
+			// The params are unusable, the next attempt needs new ones
+			tokenEntry.Params = nil
+			tokenEntry.NewOwnerPubKey, tokenEntry.NewOwnerPrivKey = nil, nil
+			c.walletStore.SetToken(*tokenEntry)
 			return nil, ErrFatal
 		}
 		// Marshall local, store packet and local in walletStore
-- 
2.43.0


From 683381a74381844752d42402eea860e9edddb099 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:31:52 +0000
Subject: [PATCH 37/61] fix: client: a token of the wallet server must be of
 the key and usage it should be

---
 serviceguard/client/walletserver.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 39f45e4..54af82d 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -5,7 +5,9 @@
 package client
 
 import (
+	"bytes"
 	"crypto/ed25519"
+
 	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
 	"github.com/mutecomm/mute/serviceguard/common/keypool"
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
@@ -39,6 +41,10 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	if !bytes.Equal(tokenUnmarshalled.KeyID, keyid[:]) {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFatal
+	}
 	c.packetClient.Keypool.SaveKey(*keyid)
 	// If we have params this is not renewable
 	renewable := false
@@ -74,6 +80,11 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	if tokenentry.Usage != usage {
+		// Keep the token, but it is not the one we asked for
+		c.LastError = ErrUsageToken
+		return nil, ErrRetry
+	}
 	if owner == nil && renewable == false {
 		return tokenentry.Hash, ErrNeedReissue
 	}
-- 
2.43.0


From 2c290697821118501f06e8e4ae3d93fbbfe81057 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:02:52 +0000
Subject: [PATCH 38/61] fix: configclient: start every update with the first
 server

After an update for which all servers failed, Update() did not ask any
server any more and crashed on the missing certificate.
---
 configclient/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..328106f 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -65,6 +65,7 @@ func (c *Config) Update() error {
 	if c.LastSignDate == 0 {
 		c.LastSignDate = uint64(times.Now() - skew)
 	}
+	c.curServer = 0 // server order has been determined anew
 GetConfigLoop:
 	for ; c.curServer < len(c.servers); c.curServer++ {
 		cert, err = getConfig(c.servers[c.curServer], c.PublicKey, c.LastSignDate, c.Timeout)
-- 
2.43.0


From 82edd2ad84f6cca139913c627d6f7325dd4e9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 39/61] fix: cahash: return an error for what is not PEM
 instead of crashing

Any configuration server could crash the client with such a certificate.
---
 configclient/cahash/hash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..ac3f40e 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,11 +9,18 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
+// ErrNoPEM is returned if cert is not pem-encoded.
+var ErrNoPEM = errors.New("cahash: cert is not pem-encoded")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
 	block, _ := pem.Decode(cert)
+	if block == nil {
+		return nil, ErrNoPEM
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 34d76f99cce12dcb486877dfa76cfaa4aa71ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 40/61] fix: cahash: refuse certificates with data after them

The hash covers the first PEM block only, but everything in the file is
trusted as CA later: whoever answers the (unencrypted) request for the
certificate could append another one to the pinned certificate.
---
 configclient/cahash/hash.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index ac3f40e..6d261c1 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -6,21 +6,30 @@
 package cahash
 
 import (
+	"bytes"
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
 	"errors"
 )
 
-// ErrNoPEM is returned if cert is not pem-encoded.
-var ErrNoPEM = errors.New("cahash: cert is not pem-encoded")
+var (
+	// ErrNoPEM is returned if cert is not pem-encoded.
+	ErrNoPEM = errors.New("cahash: cert is not pem-encoded")
+	// ErrTrailing is returned if there is something after the cert, which the
+	// hash would not cover.
+	ErrTrailing = errors.New("cahash: data after cert")
+)
 
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
-	block, _ := pem.Decode(cert)
+	block, rest := pem.Decode(cert)
 	if block == nil {
 		return nil, ErrNoPEM
 	}
+	if len(bytes.TrimSpace(rest)) > 0 {
+		return nil, ErrTrailing
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From fec7898a6bcd4c4d38451c2c124b29c34ad44544 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:04:01 +0000
Subject: [PATCH 41/61] fix: configclient: keep the CA certificate if the new
 one cannot be fetched

It was overwritten with nil, which means that no CA is enforced at all.
---
 configclient/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configclient/client.go b/configclient/client.go
index 328106f..44013f2 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -50,6 +50,7 @@ func (c *Config) Update() error {
 	var err error
 	var cert *sortedmap.SignedMap
 	var myCAhash, certHashb []byte
+	newCACert := c.CACert
 	var hisHash string
 	var ok bool
 
@@ -96,7 +97,7 @@ GetConfigLoop:
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			newCACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
 				break CALoop
 			}
@@ -105,6 +106,7 @@ GetConfigLoop:
 	if err != nil {
 		return err
 	}
+	c.CACert = newCACert
 	c.Map = cert.Config
 	c.LastSignDate = cert.SignDate
 	return nil
-- 
2.43.0


From 8d09b2bdf92bfb338091431ea0f91fd5c383d789 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:05:39 +0000
Subject: [PATCH 42/61] fix: sortedmap: accept no signature without a complete
 public key

A missing key was padded to the key of zeros, for which signatures can be
forged by anyone.
---
 configclient/sortedmap/map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/configclient/sortedmap/map.go b/configclient/sortedmap/map.go
index 0456287..4602df6 100644
--- a/configclient/sortedmap/map.go
+++ b/configclient/sortedmap/map.go
@@ -114,6 +114,9 @@ func (so SortedMap) Verify(signdate uint64, publicKey []byte, signature []byte)
 	sdate := make([]byte, 8)
 	binary.BigEndian.PutUint64(sdate, signdate)
 
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false // a padded key would not be the trusted one
+	}
 	copy(pubkey[:], publicKey)
 	return ed25519.Verify(pubkey[:], append(so.Image(), sdate...), signature)
 }
-- 
2.43.0


From 69dfffe8f3a00711f97b2bfb4ae5b32aee9f65de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:18:33 +0000
Subject: [PATCH 43/61] fix: mixcrypt: do not crash on messages with an empty
 token or revoke ID

---
 mix/mixcrypt/clientmix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..fd5b31b 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -71,10 +71,10 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 1 && cl.Token[0] == 0x00 {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if (len(cl.RevokeID) == 1 && cl.RevokeID[0] == 0x00) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
-- 
2.43.0


From 7e3a93013daba56e343a9ac394920b7e15497f46 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 44/61] fix: mixcrypt: do not crash on messages with long
 headers

The computation of the length of the header overflowed, as did the one of
the end of the part of the message which is hashed.
---
 mix/mixcrypt/clientmix.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index fd5b31b..f3a4ca4 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -9,6 +9,7 @@ import (
 	"encoding/asn1"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	"github.com/mutecomm/mute/mix/nymaddr"
 )
@@ -63,10 +64,11 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if cl == nil {
 		cl = new(ClientMixHeader)
 	}
-	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
-	if len(d) < int(lenB) {
-		return nil, lenB, ErrTooShort
+	lenH := int(binary.BigEndian.Uint16(d[0:2])) + 2
+	if lenH > math.MaxUint16 || len(d) < lenH {
+		return nil, 0, ErrTooShort
 	}
+	lenB := uint16(lenH)
 	_, err = asn1.Unmarshal(d[2:lenB], cl)
 	if err != nil {
 		return nil, lenB, err
@@ -158,7 +160,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB:][:256]), // First 256 byte of message
 		})
 		if rstr.NymAddressPrivate.SingleUse {
 			rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
@@ -169,7 +171,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	} else {
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: timeNow() + ExpireReceive,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB:][:256]), // First 256 byte of message
 		})
 	}
 	rstr.Message = decMessage[lenB:]
-- 
2.43.0


From 3119c8d9a349b6434722e65024def7f1ba8506cd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:18:34 +0000
Subject: [PATCH 45/61] fix: mixcrypt: refuse messages of unknown type

Their size was not checked, which crashed the mix if they were short.
---
 mix/mixcrypt/clientmix.go | 3 +++
 mix/mixcrypt/common.go    | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index f3a4ca4..f6230e1 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -138,6 +138,9 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	if err != nil {
 		return nil, err
 	}
+	if rstr.MixHeader.MessageType != MessageTypeRelay && rstr.MixHeader.MessageType != MessageTypeForward {
+		return nil, ErrMessageType
+	}
 	// Test Size
 	msgLen := len(decMessage) - int(lenB)
 	if rstr.MixHeader.MessageType == MessageTypeRelay && (msgLen < RelayMinSize || msgLen > RelayMaxSize) {
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..a6ea829 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -31,6 +31,8 @@ var (
 	ErrTooShort = errors.New("mixcrypt: too short")
 	// ErrSize is returned if a message is too long/short
 	ErrSize = errors.New("mixcrypt: message out of bounds")
+	// ErrMessageType is returned if a message of an unknown type was received
+	ErrMessageType = errors.New("mixcrypt: unknown message type")
 	// ErrBadSystem is returned if a message for a wrong system was received
 	ErrBadSystem = errors.New("mixcrypt: bad system")
 )
-- 
2.43.0


From 5e48dfef0a1087690ac70981670c1928913afd61 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 46/61] fix: sign mix addresses with the lengths of their
 parts, verify exact keys and signatures

---
 mix/mixaddr/addrlist.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mix/mixaddr/addrlist.go b/mix/mixaddr/addrlist.go
index f677ee1..7065ae0 100644
--- a/mix/mixaddr/addrlist.go
+++ b/mix/mixaddr/addrlist.go
@@ -36,15 +36,21 @@ type AddressStatement struct {
 // AddressList contains many addresses.
 type AddressList []Address
 
-// image the entry for hashing
+// image the entry for hashing. The fields of variable size are preceded by
+// their length, so that no other entries have the same image.
 func (adr Address) image() []byte {
 	d := make([]byte, 8)
+	image := make([]byte, 0, len(adr.Pubkey)+len(adr.Address)+len(adr.TokenKey)+4*8)
+	add := func(field []byte) {
+		binary.BigEndian.PutUint64(d, uint64(len(field)))
+		image = append(image, d...)
+		image = append(image, field...)
+	}
+	add(adr.Pubkey)
 	binary.BigEndian.PutUint64(d, uint64(adr.Expire))
-	image := make([]byte, 0, len(adr.Pubkey)+len(adr.Address)+len(adr.TokenKey)+8)
-	image = append(image, adr.Pubkey...)
 	image = append(image, d...)
-	image = append(image, adr.Address...)
-	image = append(image, adr.TokenKey...)
+	add([]byte(adr.Address))
+	add(adr.TokenKey)
 	return image
 }
 
@@ -86,6 +92,9 @@ func getPubKey(privateKey *[ed25519.PrivateKeySize]byte) *[ed25519.PublicKeySize
 func (stmt AddressStatement) Verify() bool {
 	var pubKey [ed25519.PublicKeySize]byte
 	var signature [ed25519.SignatureSize]byte
+	if len(stmt.PublicKey) != len(pubKey) || len(stmt.Signature) != len(signature) {
+		return false
+	}
 	copy(pubKey[:], stmt.PublicKey)
 	copy(signature[:], stmt.Signature)
 	return stmt.Addresses.Verify(&pubKey, &signature)
-- 
2.43.0


From 2d2246692cb69ec4a28778d534a87b3770ec49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:33:38 +0000
Subject: [PATCH 47/61] fix: mixaddr: marshal the key list itself, not a copy
 made without the lock

---
 mix/mixaddr/privkey.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 5ef2b9f..a573bd3 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -119,13 +119,13 @@ func (kl *KeyList) Maintain() {
 }
 
 // Marshal the keylist.
-func (kl KeyList) Marshal() []byte {
+func (kl *KeyList) Marshal() []byte {
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
 	return kl.marshal()
 }
 
-func (kl KeyList) marshal() []byte {
+func (kl *KeyList) marshal() []byte {
 	klist := make([]KeyEntry, 0, len(kl.Keys))
 	for _, e := range kl.Keys {
 		klist = append(klist, e)
-- 
2.43.0


From 6ce313d512885bc85814a5cc54c244f28b8b1844 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:41:01 +0000
Subject: [PATCH 48/61] fix: app: a cookie without a value is no login

---
 ctrlengine/app.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index cbc8fc3..0989fec 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -104,7 +104,7 @@ func (sh *staticHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	secret = auth.secret
 	auth.RUnlock()
 	// check that cookie has been set and equals random secret
-	if cookie.Value != "" && cookie.Value != secret {
+	if secret == "" || cookie.Value != secret {
 		http.Error(w, "invalid cookie value", http.StatusForbidden)
 		return
 	}
-- 
2.43.0


From 3ac979b468008c6e36b7da25c389df530b89327d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:42:08 +0000
Subject: [PATCH 49/61] fix: app: check the passphrase of every login, one
 login at a time

---
 ctrlengine/app.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index 0989fec..dc58402 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -10,10 +10,12 @@ import (
 	"io"
 	"net"
 	"net/http"
+	"path/filepath"
 	"sync"
 	"time"
 
 	"github.com/mutecomm/mute/cipher"
+	"github.com/mutecomm/mute/msgdb"
 	"github.com/mutecomm/mute/util/browser"
 	"github.com/urfave/cli"
 )
@@ -42,9 +44,10 @@ var auth struct {
 }
 
 type loginHandler struct {
-	ce       *CtrlEngine
-	c        *cli.Context
-	statusfp io.Writer
+	sync.Mutex // one login at a time, they share ce
+	ce         *CtrlEngine
+	c          *cli.Context
+	statusfp   io.Writer
 }
 
 func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
@@ -58,9 +61,9 @@ func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusBadRequest)
 			return
 		}
-		passphrase := r.Form["passphrase"][0]
-		lh.ce.passphrase = []byte(passphrase)
-		if err := lh.ce.prepare(lh.c, true, true); err != nil {
+		lh.Lock()
+		defer lh.Unlock()
+		if err := lh.unlock([]byte(r.Form.Get("passphrase"))); err != nil {
 			// TODO: allow to input passphrase again
 			http.Error(w, err.Error(), http.StatusForbidden)
 			return
@@ -85,6 +88,23 @@ func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 }
 
+// unlock checks the passphrase and prepares the CtrlEngine with it.
+func (lh *loginHandler) unlock(passphrase []byte) error {
+	if lh.ce.msgDB != nil {
+		// prepare doesn't open an open msgDB again -> check passphrase here
+		msgdbname := filepath.Join(lh.c.GlobalString("homedir"), "msgs")
+		msgDB, err := msgdb.Open(msgdbname, passphrase)
+		if err != nil {
+			return err
+		}
+		if err := msgDB.Close(); err != nil {
+			return err
+		}
+	}
+	lh.ce.passphrase = passphrase
+	return lh.ce.prepare(lh.c, true, true)
+}
+
 type staticHandler struct {
 	handler http.Handler
 }
-- 
2.43.0


From a582ad6ce64862683b7219493a8ac6136aec3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 50/61] fix: smtpclient: a mail accepted by the server is
 delivered, whatever becomes of the goodbye

---
 mix/smtpclient/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index d53dd02..4757cc5 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -194,6 +194,7 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		client.Reset()
 		return mc.parseError(err)
 	}
-	err = client.Quit()
-	return mc.parseError(err)
+	// the mail has been accepted, a failure to say goodbye does not change that
+	client.Quit()
+	return nil
 }
-- 
2.43.0


From a09e40e1126cb2023ee835857615d907f9d679c6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:17:14 +0000
Subject: [PATCH 51/61] fix: ctrlengine: keep name and type apart from those of
 the known contact when adding one

---
 ctrlengine/contact.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index a338049..0974441 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -252,16 +252,16 @@ func (ce *CtrlEngine) contactAdd(
 		return err
 	}
 	// check if contact is already known and white listed
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
+	unmappedID, prevFullName, prevType, err := ce.msgDB.GetContact(idMapped,
 		contactMapped)
 	if err != nil {
 		return err
 	}
 	if unmappedID != "" {
 		log.Infof("contact already known -> make sure it is white listed")
-		if contactType != msgdb.WhiteList {
-			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
-				msgdb.WhiteList)
+		if prevType != msgdb.WhiteList {
+			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID,
+				prevFullName, msgdb.WhiteList)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From a8a98130f8c5a0eeea9da8d14898a12699a9abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 52/61] fix: ctrlengine: unlock the token when no envelope was
 created

---
 ctrlengine/msg.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 79fe5b0..f13f276 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -292,7 +292,7 @@ func (ce *CtrlEngine) procOutQueue(
 			// parse nymaddress
 			na, err := base64.Decode(nymaddress)
 			if err != nil {
-				return log.Error(na)
+				return log.Error(err)
 			}
 			addr, err := nymaddr.ParseAddress(na)
 			if err != nil {
@@ -309,6 +309,8 @@ func (ce *CtrlEngine) procOutQueue(
 			env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
 				base64.Encode(token.Token), nymaddress)
 			if err != nil {
+				// no envelope contains the token
+				ce.client.UnlockToken(token.Hash)
 				return log.Error(err)
 			}
 			// update outqueue
-- 
2.43.0


From a81befad90ba35a0a9fcaf624b906e063c241bee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:18:32 +0000
Subject: [PATCH 53/61] fix: ctrlengine: store fetched messages oldest first,
 with their IDs, once all arrived

---
 ctrlengine/msg.go | 35 +++++++++++++++++++--------------
 msgdb/inqueue.go  | 49 +++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index f13f276..7bcc3a0 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -539,7 +539,15 @@ func muteprotoFetch(
 			}
 		}
 	}()
-	firstMessage := true
+	// The account server lists the newest message first and the first known one
+	// ends the fetch. To lose none if the fetch fails, the messages are only
+	// stored after all of them arrived, the oldest one first.
+	type fetchedMessage struct {
+		messageID   string
+		receiveTime int64
+		msg         string
+	}
+	var messages []fetchedMessage
 	cache, err := msgDB.GetMessageIDCache(myID, contactID)
 	if err != nil {
 		return 0, err
@@ -575,13 +583,9 @@ func muteprotoFetch(
 			}
 			break
 		} else {
-			// message unknown -> fetch it and add messageID to cache
+			// message unknown -> fetch it
 			log.Debug("write: NEXT")
 			fmt.Fprintln(cmdW, "NEXT")
-			err := msgDB.AddMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
 		}
 		// read message
 		stop := make(chan uint64)
@@ -632,19 +636,22 @@ func muteprotoFetch(
 
 		stop <- length
 		<-done
-		err = msgDB.AddInQueue(myID, contactID, receiveTime, outbuf.String())
-		if err != nil {
-			return 0, err
-		}
-		if firstMessage {
-			newMessageTime = receiveTime
-			firstMessage = false
-		}
+		messages = append(messages, fetchedMessage{messageID, receiveTime, outbuf.String()})
 		outbuf.Reset()
 	}
 	if err := cmd.Wait(); err != nil {
 		return 0, err
 	}
+	for i := len(messages) - 1; i >= 0; i-- {
+		m := messages[i]
+		err := msgDB.AddInQueueMessageID(myID, contactID, m.receiveTime, m.msg, m.messageID)
+		if err != nil {
+			return 0, log.Error(err)
+		}
+	}
+	if len(messages) > 0 {
+		newMessageTime = messages[0].receiveTime
+	}
 	return
 }
 
diff --git a/msgdb/inqueue.go b/msgdb/inqueue.go
index 9c95dae..ebf3ded 100644
--- a/msgdb/inqueue.go
+++ b/msgdb/inqueue.go
@@ -39,6 +39,55 @@ func (msgDB *MsgDB) AddInQueue(myID, contactID string, date int64, msg string) e
 	return nil
 }
 
+// AddInQueueMessageID adds the given message corressponding to myID and
+// contactID (can be nil) to the inqueue and its messageID to the message ID
+// cache.
+func (msgDB *MsgDB) AddInQueueMessageID(
+	myID, contactID string,
+	date int64,
+	msg, messageID string,
+) error {
+	if err := identity.IsMapped(myID); err != nil {
+		return log.Error(err)
+	}
+	if contactID != "" {
+		if err := identity.IsMapped(contactID); err != nil {
+			return log.Error(err)
+		}
+	}
+	if messageID == "" {
+		return log.Error(ErrNilMessageID)
+	}
+	var mID int64
+	if err := msgDB.getNymUIDQuery.QueryRow(myID).Scan(&mID); err != nil {
+		return log.Error(err)
+	}
+	var cID int64
+	if contactID != "" {
+		if err := msgDB.getContactUIDQuery.QueryRow(mID, contactID).Scan(&cID); err != nil {
+			return log.Error(err)
+		}
+	}
+	tx, err := msgDB.encDB.Begin()
+	if err != nil {
+		return log.Error(err)
+	}
+	if _, err := tx.Stmt(msgDB.addInQueueQuery).Exec(mID, cID, date, msg); err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	_, err = tx.Stmt(msgDB.addMessageIDCacheQuery).Exec(mID, cID, messageID)
+	if err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	if err := tx.Commit(); err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	return nil
+}
+
 // GetInQueue returns the first entry in the inqueue.
 func (msgDB *MsgDB) GetInQueue() (
 	iqIdx int64,
-- 
2.43.0


From 779da194e740a9856c9ad3119925ba9c66be84e4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:36:22 +0000
Subject: [PATCH 54/61] fix: smtpclient: report the server's error message as
 it was sent

---
 mix/smtpclient/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index 4757cc5..414c478 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -9,10 +9,12 @@ import (
 	"crypto/tls"
 	"crypto/x509"
 	"errors"
+	"fmt"
 	"math/rand"
 	"net"
 	"net/mail"
 	"net/smtp"
+	"net/textproto"
 	"strconv"
 	"strings"
 
@@ -80,6 +82,10 @@ func (mc *MailClient) parseError(err error) error {
 	if err == nil {
 		return nil
 	}
+	if e, ok := err.(*textproto.Error); ok {
+		// the error prints the message quoted, callers compare it as it was sent
+		err = fmt.Errorf("%03d %s", e.Code, e.Msg)
+	}
 	mc.LastError = err
 	str := err.Error()
 	str = strings.Trim(str, " \t")
-- 
2.43.0


From 4824676bb40c503d7e3b65b7110c0d8932626522 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 05:39:26 +0000
Subject: [PATCH 55/61] fix: a broken entry in the list of messages fails the
 fetch instead of cutting the list short

---
 mix/client/accountrpc.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..98a6a75 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -252,7 +252,11 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	}
 	if len(messagesI) > 0 {
 		for _, e := range messagesI {
-			x := e.(map[string]interface{})
+			x, ok := e.(map[string]interface{})
+			if !ok {
+				err = ErrProto
+				break
+			}
 
 			ReceiveTime, ok := x["ReceiveTime"].(float64)
 			if !ok {
@@ -274,7 +278,8 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				err = ErrProto
 				break
 			}
-			uk, err := hex.DecodeString(uks)
+			var uk []byte
+			uk, err = hex.DecodeString(uks)
 			if err != nil {
 				break
 			}
@@ -286,7 +291,8 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 				err = ErrProto
 				break
 			}
-			mi, err := hex.DecodeString(mis)
+			var mi []byte
+			mi, err = hex.DecodeString(mis)
 			if err != nil {
 				break
 			}
-- 
2.43.0


From 192c049a1276c7afb5e83ba89799f2c665a51b23 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:53:05 +0000
Subject: [PATCH 56/61] fix: msg: count a sent message before its key is
 deleted

A crash between the deletion of the message key and the update of the
session state left a state pointing to a deleted key: every later message
to that contact failed.
---
 msg/encrypt.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/msg/encrypt.go b/msg/encrypt.go
index ed95615..363c286 100644
--- a/msg/encrypt.go
+++ b/msg/encrypt.go
@@ -425,14 +425,16 @@ func Encrypt(args *EncryptArgs) (nymAddress string, err error) {
 		return "", log.Error(err)
 	}
 
-	// delete message key
-	err = args.KeyStore.DelMessageKey(sessionKey, true, ss.SenderMessageCount)
+	// increase SenderMessageCount, before the message key is deleted (otherwise
+	// a crash in between would leave a count which points to a deleted key)
+	messageCount := ss.SenderMessageCount
+	ss.SenderMessageCount++
+	err = args.KeyStore.SetSessionState(sessionStateKey, ss)
 	if err != nil {
 		return "", err
 	}
-	// increase SenderMessageCount
-	ss.SenderMessageCount++
-	err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+	// delete message key
+	err = args.KeyStore.DelMessageKey(sessionKey, true, messageCount)
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 64e8a38b5a72a5f552503c44c28af51c06d19171 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:53:05 +0000
Subject: [PATCH 57/61] fix: msg: finish a session whose start was interrupted

A crash after the root key agreement and before the session state was
stored made the next message of the sender panic (nil session state).
---
 msg/decrypt.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 584ef17..d1536eb 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -179,19 +179,22 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	sessionKey := session.CalcKey(recipientID.HASH, h.SenderIdentityPub.HASH,
 		h.RecipientTempHash, h.SenderSessionPub.HASH)
 
-	if !args.KeyStore.HasSession(sessionKey) { // session unknown
+	hasSession := args.KeyStore.HasSession(sessionKey)
+	if !hasSession || ss == nil { // session unknown or without state
 		// try to start session from KeyInit message
 		recipientKI, err := args.KeyStore.GetPrivateKeyEntry(h.RecipientTempHash)
 		if err != nil && err != session.ErrNoKeyEntry {
 			return "", "", err
 		}
 		if err != session.ErrNoKeyEntry { // KeyInit message found
-			// root key agreement
-			err = rootKeyAgreementRecipient(&senderHeaderPub, sender, recipient,
-				&h.SenderSessionPub, &h.SenderIdentityPub, recipientKI, recipientID,
-				nil, args.NumOfKeys, args.KeyStore)
-			if err != nil {
-				return "", "", err
+			// root key agreement (if it was not interrupted after that)
+			if !hasSession {
+				err = rootKeyAgreementRecipient(&senderHeaderPub, sender, recipient,
+					&h.SenderSessionPub, &h.SenderIdentityPub, recipientKI, recipientID,
+					nil, args.NumOfKeys, args.KeyStore)
+				if err != nil {
+					return "", "", err
+				}
 			}
 
 			// TODO: delete single-use KeyInit message
@@ -376,7 +379,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		numOfKeys := ((h.SenderMessageCount-n)/args.NumOfKeys + 1) * args.NumOfKeys
 		log.Debugf("numOfKeys=%d", numOfKeys)
 		var recipientPub *[32]byte
-		if h.RecipientTempHash == ss.SenderSessionPub.HASH {
+		if ss != nil && h.RecipientTempHash == ss.SenderSessionPub.HASH {
 			recipientPub = ss.SenderSessionPub.PublicKey32()
 		} else {
 			log.Debug("different session")
-- 
2.43.0


From d5df3db8b7b93dd048587bf9af9b372151ec5cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 06:53:05 +0000
Subject: [PATCH 58/61] fix: msg: do not agree on the same root key twice

A crash after the root key agreement of a session renewal repeated the
agreement on the next message and added its keys a second time, where
they are never looked up.
---
 msg/decrypt.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index d1536eb..55f962e 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -301,13 +301,17 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					if err != nil {
 						return "", "", err
 					}
-					// root key agreement
-					err = rootKeyAgreementRecipient(&senderHeaderPub, sender,
-						recipient, h.NextSenderSessionPub, &h.SenderIdentityPub,
-						nextSenderSession, recipientID, previousRootKeyHash,
-						args.NumOfKeys, args.KeyStore)
-					if err != nil {
-						return "", "", err
+					// root key agreement (if it was not interrupted after that)
+					if !args.KeyStore.HasSession(session.CalcKey(recipientID.HASH,
+						h.SenderIdentityPub.HASH, nextSenderSession.HASH,
+						h.NextSenderSessionPub.HASH)) {
+						err = rootKeyAgreementRecipient(&senderHeaderPub, sender,
+							recipient, h.NextSenderSessionPub, &h.SenderIdentityPub,
+							nextSenderSession, recipientID, previousRootKeyHash,
+							args.NumOfKeys, args.KeyStore)
+						if err != nil {
+							return "", "", err
+						}
 					}
 					// store new session state
 					ss = &session.State{
-- 
2.43.0


From d8eab81b313396497d88764d0de1d76694646a4f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 59/61] fix: walletstore: keep the state of a token that could
 not be deleted

---
 serviceguard/client/walletstore/store.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index f6ee26d..9d73673 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -272,7 +272,9 @@ func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.
 // DelToken deletes the token identified by tokenHash
 func (ws *Storage) DelToken(tokenHash []byte) {
 	tokenHashS := hex.EncodeToString(tokenHash)
-	ws.deleteTokenQuery.Exec(tokenHashS)
+	if _, err := ws.deleteTokenQuery.Exec(tokenHashS); err != nil {
+		return // the token is still there and needs its state
+	}
 	ws.deleteStateQuery.Exec(tokenHashS)
 }
 
-- 
2.43.0


From f850dc50d068c842752de733caee4dbed7fe40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 60/61] fix: walletstore: store a token completely or report
 that it was not stored

A failing insert was followed by an update of no row, which succeeds, so
that a token that was not stored was reported as stored; and a failure
between token and state left a token that could not be read any more.
---
 serviceguard/client/walletstore/store.go | 51 +++++++++++++++++++-----
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 9d73673..c188c3e 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -53,6 +53,8 @@ CREATE TABLE IF NOT EXISTS walletState (
 						FROM walletTokens WHERE Hash=?;`
 	setStateQuery       = `INSERT INTO walletState (Hash, State) VALUES (?,?);`
 	setStateUpdateQuery = `UPDATE walletState SET State=? WHERE Hash=?;`
+	countTokenQuery     = `SELECT COUNT(*) FROM walletTokens WHERE Hash=?;`
+	countStateQuery     = `SELECT COUNT(*) FROM walletState WHERE Hash=?;`
 	cleanLocksQuery     = "UPDATE walletTokens SET LockTime=0, LockID=0 WHERE LockTime!=0 AND LockTime<?;"
 	lockQuery           = "UPDATE walletTokens SET LockID=?, LockTime=? WHERE Hash=? AND LockID=0 OR LockID=?;"
 	unlockQuery         = "UPDATE walletTokens SET LockID=0,LockTime=0 WHERE Hash=?;"
@@ -217,31 +219,62 @@ func (ws *Storage) CleanLocks(force bool) {
 // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 	global, state := encodeToken(&tokenEntry)
-	_, err := ws.setTokenQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+	// token and state are stored together or not at all
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback() // without effect after the commit
+	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 		global.OwnerPrivKey, global.Renewable, global.CanReissue,
 		global.Usage, global.Expire, global.OwnedSelf,
 		global.HasParams, global.HasState)
 	if err != nil {
-		_, err := ws.setTokenUpdateQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+		_, errUpdate := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 			global.OwnerPrivKey, global.Renewable, global.CanReissue,
 			global.Usage, global.Expire, global.OwnedSelf,
 			global.HasParams, global.HasState, global.Hash)
-		if err != nil {
+		if errUpdate != nil {
+			return errUpdate
+		}
+		// an update of a token that is not there has no effect
+		if !hasRow(tx, countTokenQuery, global.Hash) {
 			return err
 		}
 	}
 	if len(state) > 0 {
-		_, err = ws.setStateQuery.Exec(global.Hash, state)
-		if err != nil {
-			_, err = ws.setStateUpdateQuery.Exec(state, global.Hash)
-			if err != nil {
-				return err
-			}
+		if err := ws.setState(tx, global.Hash, state); err != nil {
+			return err
+		}
+	}
+	return tx.Commit()
+}
+
+// setState writes the state for the given hash
+func (ws *Storage) setState(tx *sql.Tx, hash, state string) error {
+	_, err := tx.Stmt(ws.setStateQuery).Exec(hash, state)
+	if err != nil {
+		_, errUpdate := tx.Stmt(ws.setStateUpdateQuery).Exec(state, hash)
+		if errUpdate != nil {
+			return errUpdate
+		}
+		// an update of a state that is not there has no effect
+		if !hasRow(tx, countStateQuery, hash) {
+			return err
 		}
 	}
 	return nil
 }
 
+// hasRow returns true if the given count query for the given hash counts at least one row
+func hasRow(tx *sql.Tx, countQuery, hash string) bool {
+	var count int64
+	if err := tx.QueryRow(countQuery, hash).Scan(&count); err != nil {
+		return false
+	}
+	return count > 0
+}
+
 // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
 func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.TokenEntry, err error) {
 	var state, tmp string
-- 
2.43.0


From 3d8e45493571fd01bdb44c9074e5461643a8dcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 61/61] fix: walletstore: report credentials that could not be
 written

---
 serviceguard/client/walletstore/store.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index c188c3e..2160652 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -344,14 +344,15 @@ func (ws *Storage) writeCache() error {
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
 	data := ws.cache.Marshal()
-	_, err := ws.setStateQuery.Exec("CONFIGCACHE", data)
+	tx, err := ws.DB.Begin()
 	if err != nil {
-		_, err = ws.setStateUpdateQuery.Exec(data, "CONFIGCACHE")
-		if err != nil {
-			return err
-		}
+		return err
 	}
-	return nil
+	defer tx.Rollback() // without effect after the commit
+	if err := ws.setState(tx, "CONFIGCACHE", data); err != nil {
+		return err
+	}
+	return tx.Commit()
 }
 
 // readCache reads the cache from the database
-- 
2.43.0

