From 13c369b46053613a8c6f6559c1e3f203d9ee541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 01/34] fix: refuse private keys of a wrong length instead of
 panicking or truncating

---
 conversion/key_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index 3f1ea7b..becbe4c 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -96,6 +96,9 @@ func GetPriKey(priKeyString string) (tcrypto.PrivKey, error) {
 	if err != nil {
 		return nil, fmt.Errorf("fail to hex decode private key: %w", err)
 	}
+	if len(rawBytes) != secp256k1.PrivKeySize {
+		return nil, fmt.Errorf("invalid private key length: %d", len(rawBytes))
+	}
 	var priKey secp256k1.PrivKey
 	priKey = rawBytes[:32]
 	return priKey, nil
-- 
2.43.0


From 9d0d821219ffb9b60c098edc4b0cc2dc471ec99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 02/34] fix: GetPeersID panics on an empty map

---
 conversion/conversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion/conversion.go b/conversion/conversion.go
index 0558d71..9a1590a 100644
--- a/conversion/conversion.go
+++ b/conversion/conversion.go
@@ -86,7 +86,7 @@ func GetPeersID(partyIDtoP2PID map[string]peer.ID, localPeerID string) []peer.ID
 	if partyIDtoP2PID == nil {
 		return nil
 	}
-	peerIDs := make([]peer.ID, 0, len(partyIDtoP2PID)-1)
+	peerIDs := make([]peer.ID, 0, len(partyIDtoP2PID))
 	for _, value := range partyIDtoP2PID {
 		if value.String() == localPeerID {
 			continue
-- 
2.43.0


From 926c1d187b4f6bb2e4eac1e305df43694aa3c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:30 +0000
Subject: [PATCH 03/34] fix: refuse peer ids whose key is not secp256k1

---
 conversion/key_provider.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conversion/key_provider.go b/conversion/key_provider.go
index becbe4c..13ac7cb 100644
--- a/conversion/key_provider.go
+++ b/conversion/key_provider.go
@@ -77,6 +77,9 @@ func GetPubKeyFromPeerID(pID string) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("fail to extract pub key from peer id: %w", err)
 	}
+	if pk.Type() != crypto.Secp256k1 {
+		return "", fmt.Errorf("the key of peer id(%s) is not a secp256k1 key", pID)
+	}
 	rawBytes, err := pk.Raw()
 	if err != nil {
 		return "", fmt.Errorf("faail to get pub key raw bytes: %w", err)
-- 
2.43.0


From 3d4a4b5b30ed1651d881b029cac86480c186d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 04/34] fix: ReleaseStream forgets unattributed streams and
 takes over the recorded ones under the lock

---
 p2p/stream_helper.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/p2p/stream_helper.go b/p2p/stream_helper.go
index 38d3759..3978872 100644
--- a/p2p/stream_helper.go
+++ b/p2p/stream_helper.go
@@ -39,21 +39,18 @@ func NewStreamMgr() *StreamMgr {
 }
 
 func (sm *StreamMgr) ReleaseStream(msgID string) {
-	sm.streamLocker.RLock()
-	usedStreams, okStream := sm.unusedStreams[msgID]
-	unknownStreams, okUnknown := sm.unusedStreams["UNKNOWN"]
-	sm.streamLocker.RUnlock()
-	streams := append(usedStreams, unknownStreams...)
-	if okStream || okUnknown {
-		for _, el := range streams {
-			err := el.Reset()
-			if err != nil {
-				sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
-			}
+	sm.streamLocker.Lock()
+	var streams []network.Stream
+	streams = append(streams, sm.unusedStreams[msgID]...)
+	delete(sm.unusedStreams, msgID)
+	streams = append(streams, sm.unusedStreams["UNKNOWN"]...)
+	delete(sm.unusedStreams, "UNKNOWN")
+	sm.streamLocker.Unlock()
+	for _, el := range streams {
+		err := el.Reset()
+		if err != nil {
+			sm.logger.Error().Err(err).Msg("fail to reset the stream,skip it")
 		}
-		sm.streamLocker.Lock()
-		delete(sm.unusedStreams, msgID)
-		sm.streamLocker.Unlock()
 	}
 }
 
-- 
2.43.0


From 521853a4185264e03e41db3cae283620d0f3b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 05/34] fix: a wire message without a sender, inside or outside
 the bulk, crashes the node

---
 common/tss.go        | 13 ++++++++-----
 common/tss_helper.go |  5 +++++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index 07066a5..a98cd66 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -223,7 +223,7 @@ func (t *TssCommon) processInvalidMsgBlame(roundInfo string, round blame.RoundIn
 
 // updateLocal will apply the wireMsg to local keygen/keysign party
 func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("wire msg is nil")
 		return errors.New("invalid wireMsg")
 	}
@@ -231,9 +231,8 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 	if partyInfo == nil {
 		return nil
 	}
-	partyID, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]
-	if !ok {
-		return fmt.Errorf("get message from unknown party %s", partyID.Id)
+	if _, ok := partyInfo.PartyIDMap[wireMsg.Routing.From.Id]; !ok {
+		return fmt.Errorf("get message from unknown party %s", wireMsg.Routing.From.Id)
 	}
 
 	dataOwnerPeerID, ok := t.PartyIDtoP2PID[wireMsg.Routing.From.Id]
@@ -267,6 +266,10 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 			return errors.New("cannot find the party")
 		}
 		localMsgParty := data.(btss.Party)
+		if !hasSender(msg.Routing) {
+			t.logger.Error().Msg("the message in the bulk has no sender")
+			return errors.New("invalid bulk message")
+		}
 		partyID, ok := partyInfo.PartyIDMap[msg.Routing.From.Id]
 		if !ok {
 			t.logger.Error().Msg("error in find the partyID")
@@ -735,7 +738,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 	t.logger.Debug().Msg("process wire message")
 	defer t.logger.Debug().Msg("finish process wire message")
 
-	if wireMsg == nil || wireMsg.Routing == nil || wireMsg.Routing.From == nil {
+	if wireMsg == nil || !hasSender(wireMsg.Routing) {
 		t.logger.Warn().Msg("received msg invalid")
 		return errors.New("invalid wireMsg")
 	}
diff --git a/common/tss_helper.go b/common/tss_helper.go
index eaf713a..41a9a5c 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -218,6 +218,11 @@ func GetMsgRound(msg []byte, partyID *btss.PartyID, isBroadcast bool) (blame.Rou
 	}
 }
 
+// hasSender tells whether the routing info, which may come from a peer, has a sender
+func hasSender(r *btss.MessageRouting) bool {
+	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
+}
+
 func (t *TssCommon) NotifyTaskDone() error {
 	msg := messages.TssTaskNotifier{TaskDone: true}
 	data, err := json.Marshal(msg)
-- 
2.43.0


From 91faf60f0f0bc87ba2ac03858cad10a107a638be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 06/34] fix: a malformed bulk message leaves the workers
 blocked forever

---
 common/tss.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index a98cd66..367e9a6 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -252,13 +252,7 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		return err
 	}
 
-	worker := runtime.NumCPU()
-	tssJobChan := make(chan *tssJob, len(bulkMsg))
-	jobWg := sync.WaitGroup{}
-	for i := 0; i < worker; i++ {
-		jobWg.Add(1)
-		go t.doTssJob(tssJobChan, &jobWg)
-	}
+	var jobs []*tssJob
 	for _, msg := range bulkMsg {
 		data, ok := partyInfo.PartyMap.Load(msg.MsgIdentifier)
 		if !ok {
@@ -307,9 +301,20 @@ func (t *TssCommon) updateLocal(wireMsg *messages.WireMessage) error {
 		}
 		t.culpritsLock.RUnlock()
 		job := newJob(localMsgParty, msg.WiredBulkMsgs, round.MsgIdentifier, partyID, msg.Routing.IsBroadcast)
+		jobs = append(jobs, job)
+	}
+
+	worker := runtime.NumCPU()
+	tssJobChan := make(chan *tssJob, len(jobs))
+	for _, job := range jobs {
 		tssJobChan <- job
 	}
 	close(tssJobChan)
+	jobWg := sync.WaitGroup{}
+	for i := 0; i < worker; i++ {
+		jobWg.Add(1)
+		go t.doTssJob(tssJobChan, &jobWg)
+	}
 	jobWg.Wait()
 	return nil
 }
-- 
2.43.0


From ba755ab4fab01b3087600a0839fcc342b8937194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 07/34] fix: check the unsigned envelope of a wire message
 against the shares its owner signed

---
 common/tss.go        |  5 +++++
 common/tss_helper.go | 31 +++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 367e9a6..a509cb6 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -762,6 +762,11 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		return errors.New("signature verify failed")
 	}
 
+	if err := checkEnvelope(wireMsg, dataOwner); err != nil {
+		t.logger.Error().Err(err).Msg("the message does not match its envelope")
+		return err
+	}
+
 	// for the unicast message, we only update it local party
 	if !wireMsg.Routing.IsBroadcast {
 		t.logger.Debug().Msgf("msg from %s to %+v", wireMsg.Routing.From, wireMsg.Routing.To)
diff --git a/common/tss_helper.go b/common/tss_helper.go
index 41a9a5c..83d794a 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -223,6 +223,37 @@ func hasSender(r *btss.MessageRouting) bool {
 	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
 }
 
+// checkEnvelope checks the parts of the wire message that are not covered by the signature of the
+// data owner (sender, round and broadcast/unicast) against the signed shares.
+// Shares that cannot be decoded are left to updateLocal, which rejects them.
+func checkEnvelope(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error {
+	var bulkMsg []BulkWireMsg
+	if err := json.Unmarshal(wireMsg.Message, &bulkMsg); err != nil {
+		return nil
+	}
+	identifiers := make(map[string]bool)
+	for _, msg := range bulkMsg {
+		if !hasSender(msg.Routing) || msg.Routing.From.Id != wireMsg.Routing.From.Id {
+			return errors.New("the share is not from the sender of the message")
+		}
+		if msg.Routing.IsBroadcast != wireMsg.Routing.IsBroadcast {
+			return errors.New("the share is not marked as its message")
+		}
+		if identifiers[msg.MsgIdentifier] {
+			return errors.New("more than one share for the same party")
+		}
+		identifiers[msg.MsgIdentifier] = true
+		round, err := GetMsgRound(msg.WiredBulkMsgs, dataOwner, msg.Routing.IsBroadcast)
+		if err != nil {
+			continue
+		}
+		if round.RoundMsg != wireMsg.RoundInfo {
+			return errors.New("the share is not from the round of the message")
+		}
+	}
+	return nil
+}
+
 func (t *TssCommon) NotifyTaskDone() error {
 	msg := messages.TssTaskNotifier{TaskDone: true}
 	data, err := json.Marshal(msg)
-- 
2.43.0


From c16a4ff97ee42294e97de401d087bbbde1b7e859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 08/34] fix: do not count confirmations from peers outside the
 ceremony

---
 common/tss.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index a509cb6..1f2f51d 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -336,6 +336,16 @@ func (t *TssCommon) checkDupAndUpdateVerMsg(bMsg *messages.BroadcastConfirmMessa
 	return true
 }
 
+// isMember tells whether the peer takes part in this ceremony
+func (t *TssCommon) isMember(peerID string) bool {
+	for _, el := range t.PartyIDtoP2PID {
+		if el.String() == peerID {
+			return true
+		}
+	}
+	return false
+}
+
 func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerID string) error {
 	t.logger.Debug().Msg("start process one message")
 	defer t.logger.Debug().Msg("finish processing one message")
@@ -355,6 +365,9 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 		if err := json.Unmarshal(wrappedMsg.Payload, &bMsg); nil != err {
 			return errors.New("fail to unmarshal broadcast confirm message")
 		}
+		if !t.isMember(peerID) {
+			return fmt.Errorf("confirm message from peer %s who is not in this ceremony", peerID)
+		}
 		// we check whether this peer has already send us the VerMsg before update
 		ret := t.checkDupAndUpdateVerMsg(&bMsg, peerID)
 		if ret {
-- 
2.43.0


From 0a548aff4f5c16bd4c9990874d11be37ec01724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:45 +0000
Subject: [PATCH 09/34] fix: a reply to a share request must carry the
 requested share

---
 common/tss.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 1f2f51d..a52612f 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -405,6 +405,16 @@ func (t *TssCommon) ProcessOneMessage(wrappedMsg *messages.WrappedMessage, peerI
 			}
 			return t.processRequestMsgFromPeer([]peer.ID{decodedPeerID}, &wireMsg, false)
 		}
+		if !hasSender(wireMsg.Msg.Routing) {
+			return errors.New("invalid wireMsg")
+		}
+		msgHash, err := conversion.BytesToHashString(wireMsg.Msg.Message)
+		if err != nil {
+			return fmt.Errorf("fail to calculate hash of the wire message: %w", err)
+		}
+		if msgHash != wireMsg.ReqHash {
+			return errors.New("the share is not the one we requested")
+		}
 		exist := t.blameMgr.GetShareMgr().QueryAndDelete(wireMsg.ReqHash)
 		if !exist {
 			t.logger.Debug().Msg("this request does not exit, maybe already processed")
-- 
2.43.0


From c4ff85f843a8b98d4a629665d779040a7e26decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 10/34] fix: a share of a foreign round crashes the search for
 missing shares

---
 blame/policy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blame/policy.go b/blame/policy.go
index a580d04..ae32f56 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -139,6 +139,10 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
+		if roundInfo.Index >= rounds {
+			// a share of another kind of ceremony
+			continue
+		}
 		cachedShares, ok := acceptedShareForMsg[roundInfo.MsgIdentifier]
 		if !ok {
 			cachedShares := make([][]string, rounds)
-- 
2.43.0


From 94a9a7bcf2e3e4472a783b1ea6194a2954c9d23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 11/34] fix: the missing share blame mixes the messages of a
 batch and blames everyone for a complete one

---
 blame/policy.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/blame/policy.go b/blame/policy.go
index ae32f56..7d3c9b6 100644
--- a/blame/policy.go
+++ b/blame/policy.go
@@ -135,7 +135,7 @@ func (m *Manager) TssWrongShareBlame(wiredMsg *messages.WireMessage) (string, er
 func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	acceptedShareForMsg := make(map[string][][]string)
 	var blameNodes []Node
-	var peers []string
+	blamed := make(map[string]bool)
 	isUnicast := false
 	m.acceptShareLocker.Lock()
 	for roundInfo, value := range m.acceptedShares {
@@ -155,11 +155,14 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 	m.acceptShareLocker.Unlock()
 
 	for _, cachedShares := range acceptedShareForMsg {
+		var peers []string
+		missing := false
 		// we search from the first round to find the missing
 		for index, el := range cachedShares {
 			if len(el)+1 == len(m.PartyIDtoP2PID) {
 				continue
 			}
+			missing = true
 			// we find whether the missing share is in unicast
 			if rounds == messages.TSSKEYGENROUNDS {
 				// we are processing the keygen and if the missing shares is in second round(index=1)
@@ -185,11 +188,18 @@ func (m *Manager) TssMissingShareBlame(rounds int) ([]Node, bool, error) {
 			}
 			break
 		}
+		if !missing {
+			continue
+		}
 		blamePubKeys, err := m.getBlamePubKeysNotInList(peers)
 		if err != nil {
 			return nil, isUnicast, err
 		}
 		for _, el := range blamePubKeys {
+			if blamed[el] {
+				continue
+			}
+			blamed[el] = true
 			node := Node{
 				el,
 				nil,
-- 
2.43.0


From 27357046f90075988bb5d7ed5b5eb57219f8b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 12/34] fix: keysign crashes when it times out before the first
 share is produced

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index cd2ebe9..2b79088 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -200,6 +200,10 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 			if failReason == "" {
 				failReason = blame.TssTimeout
 			}
+			if lastMsg == nil {
+				tKeySign.logger.Error().Msg("fail to start the keysign, the last produced message of this node is none")
+				return nil, errors.New("timeout before shared message is generated")
+			}
 
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
-- 
2.43.0


From d73897c28ccc7cfcdfa758ca1d022757f396b7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 13/34] fix: a failed or interrupted save destroys the stored
 key share or address book

The files were truncated and rewritten in place, so a full disk or a crash lost
the only copy of the share. Write a temporary file next to it and rename it.
---
 storage/localstate_mgr.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 67f026e..22cf0c6 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -74,6 +74,32 @@ func (fsm *FileStateMgr) getFilePathName(pubKey string) (string, error) {
 	return localFileName, nil
 }
 
+// writeFile replaces the content of the file in one step, whatever fails on the way, the file has either
+// the previous or the new content
+func writeFile(filePathName string, buf []byte) error {
+	f, err := ioutil.TempFile(filepath.Dir(filePathName), filepath.Base(filePathName)+".tmp-")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(buf)
+	if err == nil {
+		err = f.Chmod(0o655)
+	}
+	if err == nil {
+		err = f.Sync()
+	}
+	if errClose := f.Close(); err == nil {
+		err = errClose
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), filePathName)
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+	}
+	return err
+}
+
 // SaveLocalState save the local state to file
 func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	buf, err := json.Marshal(state)
@@ -84,7 +110,7 @@ func (fsm *FileStateMgr) SaveLocalState(state KeygenLocalState) error {
 	if err != nil {
 		return err
 	}
-	return ioutil.WriteFile(filePathName, buf, 0o655)
+	return writeFile(filePathName, buf)
 }
 
 // GetLocalState read the local state from file system
@@ -133,7 +159,7 @@ func (fsm *FileStateMgr) SaveAddressBook(address map[peer.ID]addr.AddrList) erro
 	}
 	fsm.writeLock.Lock()
 	defer fsm.writeLock.Unlock()
-	return ioutil.WriteFile(filePathName, buf.Bytes(), 0o655)
+	return writeFile(filePathName, buf.Bytes())
 }
 
 func (fsm *FileStateMgr) RetrieveP2PAddresses() (addr.AddrList, error) {
-- 
2.43.0


From b23f4e2a30e24875d9ada2659e8d65f69186670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 14/34] fix: tss-recovery ignores the -n flag

The flag was dereferenced before it was parsed, so the tool always combined
exactly three shares.
---
 cmd/tss-recovery/tss-recovery.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index 7f3adab..2796d84 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -12,11 +12,12 @@ import (
 )
 
 func main() {
-	n := *(flag.Int("n", 3, "signing party size"))
-	threshold := n - 1
+	partySize := flag.Int("n", 3, "signing party size")
 	export := flag.String("export", "", "path to export keyfile")
 	password := flag.String("password", "", "encryption password for keyfile")
 	flag.Parse()
+	n := *partySize
+	threshold := n - 1
 	files := flag.Args()
 
 	setupBech32Prefix()
-- 
2.43.0


From 89ec6269a659cd3a3affc52e2ae8d78a8209a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 15/34] fix: tss-recovery goes on after missing, unreadable or
 unusable share files

It crashed or exported an unrelated key; report the error and stop, and check
that the rebuilt key is the one the files are for.
---
 cmd/tss-recovery/tss-recovery.go | 34 +++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/cmd/tss-recovery/tss-recovery.go b/cmd/tss-recovery/tss-recovery.go
index 2796d84..87a9de8 100644
--- a/cmd/tss-recovery/tss-recovery.go
+++ b/cmd/tss-recovery/tss-recovery.go
@@ -11,6 +11,11 @@ import (
 	. "github.com/decred/dcrd/dcrec/secp256k1"
 )
 
+func fatal(format string, args ...interface{}) {
+	fmt.Fprintf(os.Stderr, format+"\n", args...)
+	os.Exit(1)
+}
+
 func main() {
 	partySize := flag.Int("n", 3, "signing party size")
 	export := flag.String("export", "", "path to export keyfile")
@@ -21,15 +26,29 @@ func main() {
 	files := flag.Args()
 
 	setupBech32Prefix()
+	if n < 1 || len(files) < n {
+		fatal("%d share files given, %d needed", len(files), n)
+	}
 	allSecret := make([]KeygenLocalState, len(files))
 	for i, f := range files {
 		tssSecret, err := getTssSecretFile(f)
 		if err != nil {
-			fmt.Printf("---%v\n", err)
+			fatal("---%v", err)
+		}
+		if tssSecret.LocalData.ShareID == nil || tssSecret.LocalData.Xi == nil {
+			fatal("---no key share in file %s", f)
 		}
 		allSecret[i] = tssSecret
 	}
 
+	for i, el := range allSecret[:n] {
+		for _, other := range allSecret[:i] {
+			if el.LocalData.ShareID.Cmp(other.LocalData.ShareID) == 0 {
+				fatal("the files hold the same share twice")
+			}
+		}
+	}
+
 	vssShares := make(vss.Shares, len(allSecret))
 
 	for i, el := range allSecret {
@@ -43,7 +62,7 @@ func main() {
 
 	tssPrivateKey, err := vssShares[:n].ReConstruct()
 	if err != nil {
-		fmt.Printf("error in tss verify")
+		fatal("error in tss verify: %v", err)
 	}
 
 	privKey := NewPrivateKey(tssPrivateKey)
@@ -51,7 +70,12 @@ func main() {
 	pk := privKey.PubKey()
 	thorchainpk, address, err := getTssPubKey(pk.X, pk.Y)
 	if err != nil {
-		fmt.Printf("--->%v", err)
+		fatal("--->%v", err)
+	}
+	for _, el := range allSecret[:n] {
+		if el.PubKey != thorchainpk {
+			fatal("the shares do not rebuild the key of %s", el.PubKey)
+		}
 	}
 	fmt.Printf("---recoverd sk:%v\n", privKey)
 	fmt.Printf("---recoverd pk:%v\n", thorchainpk)
@@ -60,13 +84,13 @@ func main() {
 	if len(*export) > 0 && len(*password) >= 8 {
 		keyfile, err := exportKeyStore(privKey.Serialize(), *password)
 		if err != nil {
-			fmt.Printf("--->%v", err)
+			fatal("--->%v", err)
 		}
 
 		jsonString, _ := json.Marshal(keyfile)
 		err = ioutil.WriteFile(*export, jsonString, os.ModePerm)
 		if err != nil {
-			fmt.Printf("--->%v", err)
+			fatal("--->%v", err)
 		}
 		fmt.Printf("---wrote to: %+v\n", *export)
 	}
-- 
2.43.0


From 5655728c15791c563731210191457095feaee7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:01 +0000
Subject: [PATCH 16/34] fix: a peer's signature set must hold one signature per
 message

Fewer were returned as the complete result, more crashed the node.
---
 keysign/notifier.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index dd4feed..867d325 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -63,6 +63,9 @@ func (n *Notifier) ProcessSignature(data []*common.ECSignature) (bool, error) {
 	// when data is nil , which means keysign  failed, there is no signature to be verified in that case
 	// for gg20, it wrap the signature R,S into ECSignature structure
 	if len(data) != 0 {
+		if len(data) != len(n.messages) {
+			return false, fmt.Errorf("received %d signatures for %d messages", len(data), len(n.messages))
+		}
 
 		for i := 0; i < len(data); i++ {
 			eachSig := data[i]
-- 
2.43.0


From b497c75450b770ac14916966209af5ca6c11506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 17/34] fix: verify the recovery id of signatures received from
 peers

It is handed out with the signature but was never checked, so a peer could make
a waiting node return signatures that recover another key.
---
 keysign/notifier.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/keysign/notifier.go b/keysign/notifier.go
index 867d325..6e63a9d 100644
--- a/keysign/notifier.go
+++ b/keysign/notifier.go
@@ -52,7 +52,24 @@ func (n *Notifier) verifySignature(data *common.ECSignature, msg []byte) (bool,
 	if err != nil {
 		return false, err
 	}
-	return ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)), nil
+	if !ecdsa.Verify(pub.ToECDSA(), msg, new(big.Int).SetBytes(data.R), new(big.Int).SetBytes(data.S)) {
+		return false, nil
+	}
+	return verifyRecoveryID(data, msg, pub), nil
+}
+
+// verifyRecoveryID checks that the recovery id, which is handed out with the signature, recovers the pool pubkey
+func verifyRecoveryID(data *common.ECSignature, msg []byte, pub *btcec.PublicKey) bool {
+	if len(data.SignatureRecovery) != 1 || data.SignatureRecovery[0] > 3 {
+		return false
+	}
+	compact := make([]byte, 65)
+	compact[0] = 27 + 4 + data.SignatureRecovery[0]
+	r, s := new(big.Int).SetBytes(data.R).Bytes(), new(big.Int).SetBytes(data.S).Bytes()
+	copy(compact[33-len(r):33], r)
+	copy(compact[65-len(s):], s)
+	recovered, _, err := btcec.RecoverCompact(btcec.S256(), compact, msg)
+	return err == nil && recovered.IsEqual(pub)
 }
 
 // ProcessSignature is to verify whether the signature is valid
-- 
2.43.0


From 9a0cadc8bb84dbb3c43ece769824933006382061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 18/34] fix: the leaderless join party always waits for the
 full timeout

New peers are announced on newFound, but the wait listened on notify.
---
 p2p/party_coordinator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 4c0836a..134eeec 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -528,15 +528,16 @@ func (pc *PartyCoordinator) JoinPartyWithRetry(msgID string, peers []string) ([]
 	wg.Add(1)
 	go func() {
 		defer wg.Done()
+		timeout := time.After(pc.timeout)
 		for {
 			select {
-			case <-peerGroup.notify:
+			case <-peerGroup.newFound:
 				pc.logger.Debug().Msg("we have found the new peer")
 				if peerGroup.getCoordinationStatus() {
 					close(done)
 					return
 				}
-			case <-time.After(pc.timeout):
+			case <-timeout:
 				// timeout
 				close(done)
 				return
-- 
2.43.0


From 9a5c2d63c29ac16e058e25022b89958b3da726fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 19/34] fix: the join party goes on after the signature was
 received

The member reported an unreachable leader and the leader waited for its full
timeout, instead of returning ErrSignReceived.
---
 p2p/party_coordinator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 134eeec..ea794a8 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -381,6 +381,10 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	}()
 	wg.Wait()
 
+	if sigNotify == "signature received" {
+		return nil, ErrSignReceived
+	}
+
 	if peerGroup.getLeaderResponse() == nil {
 		leaderPk, err := conversion.GetPubKeyFromPeerID(leader)
 		if err != nil {
@@ -390,10 +394,6 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 		return nil, ErrLeaderNotReady
 	}
 
-	if sigNotify == "signature received" {
-		return nil, ErrSignReceived
-	}
-
 	onlineNodes := peerGroup.getLeaderResponse().PeerIDs
 	// we trust the returned nodes returned by the leader, if tss fail, the leader
 	// also will get blamed.
@@ -444,6 +444,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 				return
 			case result := <-sigChan:
 				sigNotify = result
+				return
 			}
 		}
 	}()
-- 
2.43.0


From 29b2eb27e46d5dbcae96480aee2dbc36bf855da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 20/34] fix: a keysign request without messages crashes the
 node

---
 tss/keysign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index b82391c..7b380ea 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -188,6 +188,9 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 		Str("msg", strings.Join(req.Messages, ",")).
 		Msg("received keysign request")
 	emptyResp := keysign.Response{}
+	if len(req.Messages) == 0 {
+		return emptyResp, errors.New("no messages to sign")
+	}
 	msgID, err := t.requestToMsgId(req)
 	if err != nil {
 		return emptyResp, err
-- 
2.43.0


From fc0610d71d08b0fd4ce781cf09d8cde48c164a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:14 +0000
Subject: [PATCH 21/34] fix: an address book entry without a peer id keeps the
 node from starting

The entry was handed out as a bootstrap peer and the start failed on it; report
the book as invalid, so the node falls back to its configured peers.
---
 storage/localstate_mgr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/storage/localstate_mgr.go b/storage/localstate_mgr.go
index 22cf0c6..2bafad9 100644
--- a/storage/localstate_mgr.go
+++ b/storage/localstate_mgr.go
@@ -190,6 +190,9 @@ func (fsm *FileStateMgr) RetrieveP2PAddresses() (addr.AddrList, error) {
 		if err != nil {
 			return nil, fmt.Errorf("invalid address in address book %w", err)
 		}
+		if _, err := peer.AddrInfoFromP2pAddr(addr); err != nil {
+			return nil, fmt.Errorf("invalid peer address in address book %w", err)
+		}
 		peerAddresses = append(peerAddresses, addr)
 	}
 	return peerAddresses, nil
-- 
2.43.0


From 05593268848c932c0eed54c3d15ad49e649b29fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:06 +0000
Subject: [PATCH 22/34] fix: a broadcast share marked as unicast escapes the
 confirmation of the peers

---
 common/tss_helper.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/tss_helper.go b/common/tss_helper.go
index 83d794a..5eea163 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -223,6 +223,16 @@ func hasSender(r *btss.MessageRouting) bool {
 	return r != nil && r.From != nil && r.From.MessageWrapper_PartyID != nil
 }
 
+// isUnicastRound tells whether the shares of this round are sent to each peer separately
+func isUnicastRound(round string) bool {
+	switch round {
+	case messages.KEYGEN2aUnicast, messages.KEYSIGN1aUnicast, messages.KEYSIGN2Unicast:
+		return true
+	default:
+		return false
+	}
+}
+
 // checkEnvelope checks the parts of the wire message that are not covered by the signature of the
 // data owner (sender, round and broadcast/unicast) against the signed shares.
 // Shares that cannot be decoded are left to updateLocal, which rejects them.
@@ -250,6 +260,9 @@ func checkEnvelope(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error
 		if round.RoundMsg != wireMsg.RoundInfo {
 			return errors.New("the share is not from the round of the message")
 		}
+		if isUnicastRound(round.RoundMsg) == wireMsg.Routing.IsBroadcast {
+			return errors.New("the share is not sent the way its round demands")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 94e0686383f72dc44c4378c5a0218f7ee5ad170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:01 +0000
Subject: [PATCH 23/34] fix: a unicast share passed on by its addressee is
 applied by other parties

---
 common/tss.go        |  2 +-
 common/tss_helper.go | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index a52612f..7b2230f 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -785,7 +785,7 @@ func (t *TssCommon) processTSSMsg(wireMsg *messages.WireMessage, msgType message
 		return errors.New("signature verify failed")
 	}
 
-	if err := checkEnvelope(wireMsg, dataOwner); err != nil {
+	if err := t.checkEnvelope(wireMsg, dataOwner); err != nil {
 		t.logger.Error().Err(err).Msg("the message does not match its envelope")
 		return err
 	}
diff --git a/common/tss_helper.go b/common/tss_helper.go
index 5eea163..b583486 100644
--- a/common/tss_helper.go
+++ b/common/tss_helper.go
@@ -233,10 +233,24 @@ func isUnicastRound(round string) bool {
 	}
 }
 
+// isAddressee tells whether this node is among the parties a share is sent to
+func (t *TssCommon) isAddressee(to []*btss.PartyID) bool {
+	for _, el := range to {
+		if el == nil || el.MessageWrapper_PartyID == nil {
+			continue
+		}
+		if peerID, ok := t.PartyIDtoP2PID[el.Id]; ok && peerID.String() == t.localPeerID {
+			return true
+		}
+	}
+	return false
+}
+
 // checkEnvelope checks the parts of the wire message that are not covered by the signature of the
-// data owner (sender, round and broadcast/unicast) against the signed shares.
+// data owner (sender, round and broadcast/unicast) against the signed shares, and that a unicast
+// share, which any peer can pass on, is meant for this node.
 // Shares that cannot be decoded are left to updateLocal, which rejects them.
-func checkEnvelope(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error {
+func (t *TssCommon) checkEnvelope(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error {
 	var bulkMsg []BulkWireMsg
 	if err := json.Unmarshal(wireMsg.Message, &bulkMsg); err != nil {
 		return nil
@@ -263,6 +277,9 @@ func checkEnvelope(wireMsg *messages.WireMessage, dataOwner *btss.PartyID) error
 		if isUnicastRound(round.RoundMsg) == wireMsg.Routing.IsBroadcast {
 			return errors.New("the share is not sent the way its round demands")
 		}
+		if !wireMsg.Routing.IsBroadcast && !t.isAddressee(msg.Routing.To) {
+			return errors.New("the share is meant for another party")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 4626108a3908bd5b3c244950921a7a4e91f470d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:03 +0000
Subject: [PATCH 24/34] fix: a node asks itself for a share it lacks

---
 common/tss.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index 7b2230f..cb5726e 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -636,7 +636,8 @@ func (t *TssCommon) requestShareFromPeer(localCacheItem *LocalCacheItem, thresho
 	}
 	var peersIDs []peer.ID
 	for thisPeerStr, hash := range localCacheItem.ConfirmedList {
-		if hash == targetHash {
+		// this node may be on the list itself, with a share it dropped or was overruled on
+		if hash == targetHash && thisPeerStr != t.localPeerID {
 			thisPeer, err := peer.Decode(thisPeerStr)
 			if err != nil {
 				t.logger.Error().Err(err).Msg("fail to convert the p2p id")
-- 
2.43.0


From 276536c818b87ae5153318741de5d99377e522c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:44 +0000
Subject: [PATCH 25/34] fix: signing a zero message crashes the node

---
 keysign/tss_keysign.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index 2b79088..f626bf6 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -106,6 +106,10 @@ func (tKeySign *TssKeySign) SignMessage(msgsToSign [][]byte, localStateItem stor
 		if err != nil {
 			return nil, fmt.Errorf("fail to convert msg to hash int: %w", err)
 		}
+		// the signature of a zero hash cannot be verified by tss-lib, which crashes on it
+		if m.Sign() == 0 {
+			return nil, errors.New("a message with a zero hash cannot be signed")
+		}
 		moniker := m.String() + ":" + strconv.Itoa(i)
 		partiesID, eachLocalPartyID, err := conversion.GetParties(parties, localStateItem.LocalPartyKey)
 		ctx := btss.NewPeerContext(partiesID)
-- 
2.43.0


From a3c5180c663dc7243aac0437276c6d6f632dd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 26/34] fix: the timeout blame names honest nodes besides the
 owner of a wrong share

---
 keygen/tss_keygen.go   | 5 +++++
 keysign/tss_keysign.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/keygen/tss_keygen.go b/keygen/tss_keygen.go
index 262509c..50f8893 100644
--- a/keygen/tss_keygen.go
+++ b/keygen/tss_keygen.go
@@ -171,6 +171,11 @@ func (tKeyGen *TssKeyGen) processKeyGen(errChan chan struct{},
 				tKeyGen.logger.Error().Msg("fail to start the keygen, the last produced message of this node is none")
 				return nil, errors.New("timeout before shared message is generated")
 			}
+			// a wrong share stops this node, so the shares it misses since then prove nothing against their owners
+			if blameMgr.GetBlame().AlreadyBlame() {
+				return nil, blame.ErrTssTimeOut
+			}
+
 			blameNodesUnicast, err := blameMgr.GetUnicastBlame(messages.KEYGEN2aUnicast)
 			if err != nil {
 				tKeyGen.logger.Error().Err(err).Msg("error in get unicast blame")
diff --git a/keysign/tss_keysign.go b/keysign/tss_keysign.go
index f626bf6..00240da 100644
--- a/keysign/tss_keysign.go
+++ b/keysign/tss_keysign.go
@@ -209,6 +209,11 @@ func (tKeySign *TssKeySign) processKeySign(reqNum int, errChan chan struct{}, ou
 				return nil, errors.New("timeout before shared message is generated")
 			}
 
+			// a wrong share stops this node, so the shares it misses since then prove nothing against their owners
+			if blameMgr.GetBlame().AlreadyBlame() {
+				return nil, blame.ErrTssTimeOut
+			}
+
 			tKeySign.tssCommonStruct.P2PPeersLock.RLock()
 			threshold, err := conversion.GetThreshold(len(tKeySign.tssCommonStruct.P2PPeers) + 1)
 			tKeySign.tssCommonStruct.P2PPeersLock.RUnlock()
-- 
2.43.0


From eb62a17262a7c28bcdb6c2517b00d151dc64e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 27/34] fix: a local party that failed on a share runs its next
 rounds and crashes the node

---
 common/tss.go | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/common/tss.go b/common/tss.go
index cb5726e..5458bc2 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -47,6 +47,7 @@ type TssCommon struct {
 	finishedPeers               map[string]bool
 	culprits                    []*btss.PartyID
 	culpritsLock                *sync.RWMutex
+	partyStates                 *sync.Map
 	cachedWireBroadcastMsgLists *sync.Map
 	cachedWireUnicastMsgLists   *sync.Map
 	msgNum                      int
@@ -72,6 +73,7 @@ func NewTssCommon(peerID string, broadcastChannel chan *messages.BroadcastMsgCha
 		blameMgr:                    blame.NewBlameManager(),
 		finishedPeers:               make(map[string]bool),
 		culpritsLock:                &sync.RWMutex{},
+		partyStates:                 &sync.Map{},
 		cachedWireBroadcastMsgLists: &sync.Map{},
 		cachedWireUnicastMsgLists:   &sync.Map{},
 		msgNum:                      msgNum,
@@ -111,13 +113,33 @@ func newJob(party btss.Party, wireBytes []byte, msgIdentifier string, from *btss
 	}
 }
 
+// partyState records whether a local party has failed on a share
+type partyState struct {
+	lock   sync.Mutex
+	failed bool
+}
+
+// updateParty applies the share to the local party. Once a share made the party fail, the data of its round is
+// incomplete, and the party must not run the following rounds with it.
+func (t *TssCommon) updateParty(job *tssJob) (errUp *btss.Error, stopped bool) {
+	value, _ := t.partyStates.LoadOrStore(job.msgIdentifier, &partyState{})
+	state := value.(*partyState)
+	state.lock.Lock()
+	defer state.lock.Unlock()
+	if state.failed {
+		return nil, true
+	}
+	_, errUp = job.localParty.UpdateFromBytes(job.wireBytes, job.partyID, job.isBroadcast)
+	state.failed = errUp != nil
+	return errUp, false
+}
+
 func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 	defer func() {
 		jobWg.Done()
 	}()
 
 	for tssjob := range tssJobChan {
-		party := tssjob.localParty
 		wireBytes := tssjob.wireBytes
 		partyID := tssjob.partyID
 		isBroadcast := tssjob.isBroadcast
@@ -129,7 +151,11 @@ func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 		}
 		round.MsgIdentifier = tssjob.msgIdentifier
 
-		_, errUp := party.UpdateFromBytes(wireBytes, partyID, isBroadcast)
+		errUp, stopped := t.updateParty(tssjob)
+		if stopped {
+			t.logger.Debug().Msgf("the party has already failed, the share from party %s is skipped", partyID.Id)
+			continue
+		}
 		if errUp != nil {
 			err := t.processInvalidMsgBlame(round.RoundMsg, round, errUp)
 			t.logger.Error().Err(err).Msgf("fail to apply the share to tss")
-- 
2.43.0


From 498b1db47303fa67d958ee1c600a4488a00a3a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:47 +0000
Subject: [PATCH 28/34] fix: a share on which tss-lib panics crashes the node

---
 common/tss.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/common/tss.go b/common/tss.go
index 5458bc2..ed49a72 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -129,11 +129,31 @@ func (t *TssCommon) updateParty(job *tssJob) (errUp *btss.Error, stopped bool) {
 	if state.failed {
 		return nil, true
 	}
+	defer func() {
+		if r := recover(); r != nil {
+			state.failed = true
+			errUp = btss.NewError(fmt.Errorf("tss panics on the share: %v", r), "", -1, job.localParty.PartyID(), invalidShareOwner(job)...)
+		}
+	}()
 	_, errUp = job.localParty.UpdateFromBytes(job.wireBytes, job.partyID, job.isBroadcast)
 	state.failed = errUp != nil
 	return errUp, false
 }
 
+// invalidShareOwner returns the owner of the share if the share on its own is not valid, nobody otherwise
+func invalidShareOwner(job *tssJob) (culprits []*btss.PartyID) {
+	defer func() {
+		if r := recover(); r != nil {
+			culprits = []*btss.PartyID{job.partyID}
+		}
+	}()
+	msg, err := btss.ParseWireMessage(job.wireBytes, job.partyID, job.isBroadcast)
+	if err != nil || !msg.ValidateBasic() {
+		return []*btss.PartyID{job.partyID}
+	}
+	return nil
+}
+
 func (t *TssCommon) doTssJob(tssJobChan chan *tssJob, jobWg *sync.WaitGroup) {
 	defer func() {
 		jobWg.Done()
-- 
2.43.0


From 939ddb04f620c26c4f1f70d527c581363e395528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 29/34] fix: refuse first keygen shares whose moduli are not of
 the size tss-lib generates

tss-lib's proof verification never ends for some sizes: the node keeps a core
busy for good, and the time-out blame names honest members.
---
 common/tss.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/common/tss.go b/common/tss.go
index ed49a72..383c96c 100644
--- a/common/tss.go
+++ b/common/tss.go
@@ -8,6 +8,7 @@ import (
 	"strings"
 	"sync"
 
+	"github.com/binance-chain/tss-lib/ecdsa/keygen"
 	btss "github.com/binance-chain/tss-lib/tss"
 	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/rs/zerolog"
@@ -21,6 +22,9 @@ import (
 	"gitlab.com/thorchain/tss/go-tss/p2p"
 )
 
+// modulusBitLen is the size of the Paillier modulus and NTilde in the pre-parameters tss-lib generates
+const modulusBitLen = 2048
+
 // PartyInfo the information used by tss key gen and key sign
 type PartyInfo struct {
 	PartyMap   *sync.Map
@@ -135,11 +139,31 @@ func (t *TssCommon) updateParty(job *tssJob) (errUp *btss.Error, stopped bool) {
 			errUp = btss.NewError(fmt.Errorf("tss panics on the share: %v", r), "", -1, job.localParty.PartyID(), invalidShareOwner(job)...)
 		}
 	}()
-	_, errUp = job.localParty.UpdateFromBytes(job.wireBytes, job.partyID, job.isBroadcast)
+	errUp = checkModuli(job)
+	if errUp == nil {
+		_, errUp = job.localParty.UpdateFromBytes(job.wireBytes, job.partyID, job.isBroadcast)
+	}
 	state.failed = errUp != nil
 	return errUp, false
 }
 
+// checkModuli refuses a first keygen share whose moduli are not of the size every party generates them with.
+// Tss verifies the proofs of the following rounds with these moduli, and for some sizes that never ends.
+func checkModuli(job *tssJob) *btss.Error {
+	msg, err := btss.ParseWireMessage(job.wireBytes, job.partyID, job.isBroadcast)
+	if err != nil {
+		return nil // the local party rejects it
+	}
+	share, ok := msg.Content().(*keygen.KGRound1Message)
+	if !ok {
+		return nil
+	}
+	if share.UnmarshalPaillierPK().N.BitLen() != modulusBitLen || share.UnmarshalNTilde().BitLen() != modulusBitLen {
+		return btss.NewError(errors.New("the share has a modulus of the wrong size"), "", -1, job.localParty.PartyID(), job.partyID)
+	}
+	return nil
+}
+
 // invalidShareOwner returns the owner of the share if the share on its own is not valid, nobody otherwise
 func invalidShareOwner(job *tssJob) (culprits []*btss.PartyID) {
 	defer func() {
-- 
2.43.0


From e9eb696a12bdd231fb1d96ae20963f402ad34a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:16 +0000
Subject: [PATCH 30/34] fix: a party formed with a leader leaves its peer group
 behind

A node that left such a ceremony with the leader's answer unread (it timed
out, or had received the signature) kept the group, so the answer of the
next attempt with the same id blocked its handler for good and held the
leader up until the read deadline.
---
 p2p/party_coordinator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index ea794a8..22d0333 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -193,6 +193,15 @@ func (pc *PartyCoordinator) removePeerGroup(messageID string) {
 	delete(pc.peersGroup, messageID)
 }
 
+// leavePeerGroup removes the given peer group, unless another one took its place
+func (pc *PartyCoordinator) leavePeerGroup(messageID string, peerGroup *PeerStatus) {
+	pc.joinPartyGroupLock.Lock()
+	defer pc.joinPartyGroupLock.Unlock()
+	if pc.peersGroup[messageID] == peerGroup {
+		delete(pc.peersGroup, messageID)
+	}
+}
+
 func (pc *PartyCoordinator) createJoinPartyGroups(messageID, leader string, peers []string, threshold int) (*PeerStatus, error) {
 	pIDs, err := pc.getPeerIDs(peers)
 	if err != nil {
@@ -328,6 +337,7 @@ func (pc *PartyCoordinator) joinPartyMember(msgID string, leader string, thresho
 	if err != nil {
 		return nil, fmt.Errorf("fail to create join party:%w", err)
 	}
+	defer pc.leavePeerGroup(msgID, peerGroup)
 
 	leaderPeerID, err := peer.Decode(leader)
 	if err != nil {
@@ -419,6 +429,7 @@ func (pc *PartyCoordinator) joinPartyLeader(msgID string, peers []string, thresh
 		pc.logger.Error().Err(err).Msg("fail to create the join party group")
 		return nil, err
 	}
+	defer pc.leavePeerGroup(msgID, peerGroup)
 	peerGroup.peerStatusLock.Lock()
 	peerGroup.leader = pc.host.ID().String()
 	peerGroup.peerStatusLock.Unlock()
-- 
2.43.0


From c43cd7019cff98c2bba9839db95b65e388a2f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 31/34] fix: report a failed signing as failed on nodes that
 only wait for the signature

---
 tss/keysign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tss/keysign.go b/tss/keysign.go
index 7b380ea..28d486f 100644
--- a/tss/keysign.go
+++ b/tss/keysign.go
@@ -312,6 +312,9 @@ func (t *TssServer) KeySign(req keysign.Request) (keysign.Response, error) {
 	}
 	// for this round, we are not the active signer
 	if errors.Is(errGen, p2p.ErrSignReceived) || errors.Is(errGen, p2p.ErrNotActiveSigner) {
+		// the signature we waited for has not arrived
+		receivedSig.Status = common.Fail
+		receivedSig.Blame = *blameMgr.GetBlame()
 		t.updateKeySignResult(receivedSig, keysignTime)
 		return receivedSig, nil
 	}
-- 
2.43.0


From d51d919e731496409f9a56d25b6bd8809915c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 32/34] fix: a message for a ceremony that has stopped reading
 blocks a goroutine forever

---
 p2p/communication.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/p2p/communication.go b/p2p/communication.go
index c2bb3a7..db8d2b6 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -177,11 +177,23 @@ func (c *Communication) readFromStream(stream network.Stream) {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MessageType)
 			return
 		}
-		channel <- &Message{
+		msg := &Message{
 			PeerID:  stream.Conn().RemotePeer(),
 			Payload: dataBuf,
 		}
-
+		for {
+			select {
+			case channel <- msg:
+				return
+			case <-c.stopChan:
+				return
+			case <-time.After(time.Second):
+				// nobody reads the channel any more once the ceremony has ended
+				if c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID) != channel {
+					return
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 4c1ecc49789714c958b2a7eb33aff8de01088475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:27 +0000
Subject: [PATCH 33/34] fix: streams of messages for a ceremony that is not
 running are never released

---
 keysign/signature_notifier.go | 13 ++++++++++++-
 p2p/communication.go          | 24 ++++++++++++++++++++++--
 p2p/party_coordinator.go      | 29 ++++++++++++++++-------------
 3 files changed, 50 insertions(+), 16 deletions(-)

diff --git a/keysign/signature_notifier.go b/keysign/signature_notifier.go
index 856ae8c..a54e044 100644
--- a/keysign/signature_notifier.go
+++ b/keysign/signature_notifier.go
@@ -74,7 +74,7 @@ func (s *SignatureNotifier) handleStream(stream network.Stream) {
 		s.streamMgr.AddStream("UNKNOWN", stream)
 		return
 	}
-	s.streamMgr.AddStream(msg.ID, stream)
+	s.recordStream(msg.ID, stream)
 	var signatures []*common.ECSignature
 	if len(msg.Signatures) > 0 && msg.KeysignStatus == messages.KeysignSignature_Success {
 		for _, el := range msg.Signatures {
@@ -103,6 +103,17 @@ func (s *SignatureNotifier) handleStream(stream network.Stream) {
 	}
 }
 
+// recordStream records the stream for the release at the end of its ceremony, or, if nobody waits for the signature
+// any more, for the next release
+func (s *SignatureNotifier) recordStream(msgID string, stream network.Stream) {
+	s.notifierLock.Lock()
+	defer s.notifierLock.Unlock()
+	if _, ok := s.notifiers[msgID]; !ok {
+		msgID = "UNKNOWN"
+	}
+	s.streamMgr.AddStream(msgID, stream)
+}
+
 func (s *SignatureNotifier) sendOneMsgToPeer(m *signatureItem) error {
 	ctx, cancel := context.WithTimeout(context.Background(), time.Second*2)
 	defer cancel()
diff --git a/p2p/communication.go b/p2p/communication.go
index db8d2b6..0b5bd90 100644
--- a/p2p/communication.go
+++ b/p2p/communication.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/libp2p/go-libp2p"
 	"github.com/libp2p/go-libp2p-core/crypto"
+	"github.com/libp2p/go-libp2p-core/helpers"
 	"github.com/libp2p/go-libp2p-core/host"
 	"github.com/libp2p/go-libp2p-core/network"
 	"github.com/libp2p/go-libp2p-core/peer"
@@ -142,7 +143,10 @@ func (c *Communication) writeToStream(pID peer.ID, msg []byte, msgID string) err
 	}
 
 	defer func() {
-		c.streamMgr.AddStream(msgID, stream)
+		if !c.recordStream(msgID, stream) {
+			// the ceremony has ended, nobody will release the stream
+			go helpers.FullClose(stream)
+		}
 	}()
 	c.logger.Debug().Msgf(">>>writing messages to peer(%s)", pID)
 
@@ -170,7 +174,9 @@ func (c *Communication) readFromStream(stream network.Stream) {
 			return
 		}
 		c.logger.Debug().Msgf(">>>>>>>[%s] %s", wrappedMsg.MessageType, string(wrappedMsg.Payload))
-		c.streamMgr.AddStream(wrappedMsg.MsgID, stream)
+		if !c.recordStream(wrappedMsg.MsgID, stream) {
+			c.streamMgr.AddStream("UNKNOWN", stream)
+		}
 		channel := c.getSubscriber(wrappedMsg.MessageType, wrappedMsg.MsgID)
 		if nil == channel {
 			c.logger.Debug().Msgf("no MsgID %s found for this message", wrappedMsg.MsgID)
@@ -450,6 +456,20 @@ func (c *Communication) ProcessBroadcast() {
 	}
 }
 
+// recordStream records the stream for the release at the end of its ceremony, unless that ceremony is not running
+func (c *Communication) recordStream(msgID string, stream network.Stream) bool {
+	// a ceremony is unsubscribed before its streams are released, so the lock keeps this stream from being missed
+	c.subscriberLocker.Lock()
+	defer c.subscriberLocker.Unlock()
+	for _, el := range c.subscribers {
+		if el.GetSubscriber(msgID) != nil {
+			c.streamMgr.AddStream(msgID, stream)
+			return true
+		}
+	}
+	return false
+}
+
 func (c *Communication) ReleaseStream(msgID string) {
 	c.streamMgr.ReleaseStream(msgID)
 }
diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 22d0333..800bc95 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -65,12 +65,8 @@ func (pc *PartyCoordinator) Stop() {
 }
 
 func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm, stream network.Stream) {
-	pc.streamMgr.AddStream(respMsg.ID, stream)
-
 	remotePeer := stream.Conn().RemotePeer().String()
-	pc.joinPartyGroupLock.Lock()
-	peerGroup, ok := pc.peersGroup[respMsg.ID]
-	pc.joinPartyGroupLock.Unlock()
+	peerGroup, ok := pc.recordStream(respMsg.ID, stream)
 	if !ok {
 		pc.logger.Info().Msgf("message ID from peer(%s) can not be found", remotePeer)
 		return
@@ -90,10 +86,7 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 }
 
 func (pc *PartyCoordinator) processReqMsg(requestMsg *messages.JoinPartyLeaderComm, stream network.Stream) {
-	pc.streamMgr.AddStream(requestMsg.ID, stream)
-	pc.joinPartyGroupLock.Lock()
-	peerGroup, ok := pc.peersGroup[requestMsg.ID]
-	pc.joinPartyGroupLock.Unlock()
+	peerGroup, ok := pc.recordStream(requestMsg.ID, stream)
 	if !ok {
 		pc.logger.Info().Msg("this party is not ready")
 		return
@@ -125,10 +118,7 @@ func (pc *PartyCoordinator) HandleStream(stream network.Stream) {
 		pc.streamMgr.AddStream("UNKNOWN", stream)
 		return
 	}
-	pc.streamMgr.AddStream(msg.ID, stream)
-	pc.joinPartyGroupLock.Lock()
-	peerGroup, ok := pc.peersGroup[msg.ID]
-	pc.joinPartyGroupLock.Unlock()
+	peerGroup, ok := pc.recordStream(msg.ID, stream)
 	if !ok {
 		pc.logger.Info().Msg("this party is not ready")
 		return
@@ -187,6 +177,19 @@ func (pc *PartyCoordinator) HandleStreamWithLeader(stream network.Stream) {
 	}
 }
 
+// recordStream records the stream for the release at the end of its ceremony, or, if nobody forms that party now,
+// for the next release, and returns the peer group of the ceremony
+func (pc *PartyCoordinator) recordStream(messageID string, stream network.Stream) (*PeerStatus, bool) {
+	pc.joinPartyGroupLock.Lock()
+	defer pc.joinPartyGroupLock.Unlock()
+	peerGroup, ok := pc.peersGroup[messageID]
+	if !ok {
+		messageID = "UNKNOWN"
+	}
+	pc.streamMgr.AddStream(messageID, stream)
+	return peerGroup, ok
+}
+
 func (pc *PartyCoordinator) removePeerGroup(messageID string) {
 	pc.joinPartyGroupLock.Lock()
 	defer pc.joinPartyGroupLock.Unlock()
-- 
2.43.0


From 3e91eda7031d1bfde169fbd692a1b0f259ce24ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 34/34] fix: repeated responses of a leader block goroutines
 forever

---
 p2p/party_coordinator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/p2p/party_coordinator.go b/p2p/party_coordinator.go
index 800bc95..f83ec4d 100644
--- a/p2p/party_coordinator.go
+++ b/p2p/party_coordinator.go
@@ -73,7 +73,11 @@ func (pc *PartyCoordinator) processRespMsg(respMsg *messages.JoinPartyLeaderComm
 	}
 	if remotePeer == peerGroup.leader {
 		peerGroup.setLeaderResponse(respMsg)
-		peerGroup.notify <- true
+		select {
+		case peerGroup.notify <- true:
+		default:
+			// we have already been notified of a response
+		}
 		err := WriteStreamWithBuffer([]byte("done"), stream)
 		if err != nil {
 			pc.logger.Error().Err(err).Msgf("fail to write the reply to peer: %s", remotePeer)
-- 
2.43.0

