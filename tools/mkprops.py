#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=hook)))

p("C01", "Keygen: every party ends with the same pool key and a usable share",
  "When all parties of a key generation follow the protocol, they all finish with the same pool public key, whatever the order, duplication or delay of messages between them. Each party stores under that key its own share, the sorted participant list and its own identity, and the stored shares are points of one polynomial: any threshold+1 of them reconstruct the secret of that pool key, and no threshold of them do. No party reports a key without having stored its share.",
  ["schedules","configurations","inputs"],
  "every party-list size and order, every set of node keys, every interleaving, delay, duplication and reordering of the messages between honest parties",
  "The keygen test runs one 4-party set over a real network in whatever order the scheduler picks and only compares the returned points; it never inspects the shares, other sizes, or adversarial orders.",
  ["keygen/tss_keygen.go","common/tss.go","conversion/conversion.go","storage/localstate_mgr.go"],
  [("GenerateNewKey","keygen/tss_keygen.go"),("processKeyGen saves local state","keygen/tss_keygen.go"),("GetParties / GetThreshold","conversion/conversion.go")],
  ["return value of GenerateNewKey","saved KeygenLocalState"])

p("C02", "Keysign: any threshold+1 signers produce valid, agreed, paired signatures",
  "Any subset of at least threshold+1 holders of a pool key, asked to sign any batch of messages, ends (if all follow the protocol) with the same list of signatures on every signer (those of identical messages in any order), under any message order, delay or duplication. There is exactly one signature per requested message, in the canonical order of the batch (descending by the number a message stands for); each verifies under the pool key for its own message, is in low-S form, and its recovery id recovers the pool key. A batch holding a message that cannot be signed (zero, or not below the group order) is refused with an error, and a party that is not among the signers produces no signature.",
  ["schedules","configurations","inputs"],
  "every signer subset of size > threshold, every batch of messages (sizes, duplicates, short, long, leading zeros), every interleaving of honest messages",
  "The keysign tests sign one or two fixed messages with all four parties and never check recovery ids, low-S, subsets, larger batches with duplicates, or schedules.",
  ["keysign/tss_keysign.go","common/tss.go","common/tss_helper.go","conversion/conversion.go"],
  [("SignMessage","keysign/tss_keysign.go"),("processKeySign","keysign/tss_keysign.go"),("MsgToHashInt","common/tss_helper.go")],
  ["return value of SignMessage"])

p("C03", "A broadcast share is applied only once, confirmed, and in the majority version",
  "A node applies a broadcast share to its local party only after the number of ceremony members confirming a version of it (the node itself included, the share's owner excluded) has reached the ceremony threshold and the node's own copy is a version that no other version outnumbers. Each share of each owner and round is applied at most once per signed message, no matter how often it or its confirmations are repeated, and only the first confirmation of each peer counts. With no confirmation from the owner and no conflicting confirmation, the share is applied as soon as the threshold is reached.",
  ["histories","schedules","configurations"],
  "every history of share deliveries (honest, repeated, equivocating), confirmations with matching or conflicting hashes from any peer, in any order and for any party count",
  "The unit tests feed a handful of fixed sequences to one 4-party instance; the gating rule ranges over all interleavings of shares and confirmations and all party counts.",
  ["common/tss.go","common/local_cache_item.go","common/tss_helper.go","blame/round_mgr.go"],
  [("processTSSMsg / processVerMsg / applyShare / hashCheck","common/tss.go"),("LocalCacheItem.ConfirmedList","common/local_cache_item.go"),("CheckMsgDuplication","blame/manager.go")],
  ["calls made to the local tss party","ProcessOneMessage result"])

p("C04", "Only shares signed by their owner for this ceremony reach the local party",
  "Every share applied to the local party is attributed to a ceremony member who signed exactly those bytes for exactly this ceremony; bytes that were altered, signed by someone else, signed for another ceremony, or that carry an inner sender, round label or broadcast/unicast marking other than that of the signed envelope are never applied. In particular one member can never inject a share as another member, nor get a broadcast-round share applied without the broadcast confirmation step, and a unicast share addressed to another member is never applied.",
  ["inputs","histories"],
  "every well-formed or altered share envelope: any sender, any claimed owner, any inner/outer routing combination, any signature, any ceremony id",
  "Existing tests use correctly built messages and one broken signature; the forgeries possible in the nested envelope are never generated.",
  ["common/tss.go","common/tss_helper.go"],
  [("verifySignature over message bytes and ceremony id","common/tss_helper.go"),("processTSSMsg / updateLocal","common/tss.go")],
  ["calls made to the local tss party"])

p("C05", "No bytes from a peer can crash a node or stop a healthy ceremony's processing",
  "Whatever bytes a peer sends on any of the node's protocols (ceremony messages, join-party, signature notification), including structurally valid messages with missing, null, out-of-range or mismatched fields, the node handles or rejects them with an error: it never panics, and it still processes the valid messages that follow (a signature or key generation for which it has already rejected a member's share has failed, and takes no more).",
  ["inputs","histories"],
  "all byte strings and all structurally valid messages with arbitrary fields, at any point of a ceremony",
  "Tests send well-formed messages and a few broken ones; crash freedom is about every input.",
  ["common/tss.go","p2p/communication.go","p2p/party_coordinator.go","p2p/stream_helper.go","keysign/signature_notifier.go","keysign/notifier.go"],
  [("ProcessInboundMessages / ProcessOneMessage","common/tss.go"),("HandleStream / HandleStreamWithLeader","p2p/party_coordinator.go"),("handleStream","keysign/signature_notifier.go")],
  ["process liveness","handling of a following valid message"])

p("C06", "Blame for a bad share names only its owner and carries verifiable evidence",
  "When a node rejects a share because it is cryptographically wrong, or because the owner tampered with the broadcast confirmation, the reported blame names the share's owner and nobody else (never the node itself, never a party whose shares were correct), with the reason of that failure. The evidence attached to a blamed node is a message together with a signature that verifies under that node's public key for this ceremony.",
  ["inputs","fault_sequences","configurations"],
  "any owner, any round, any corruption of the share content, any party count and any subset of cheaters below the threshold",
  "One test corrupts one fixed share and checks the length of the blame list; the property is about every owner, round and corruption, and about the validity of the evidence.",
  ["common/tss.go","blame/policy.go","blame/manager.go","blame/blame.go","conversion/conversion.go"],
  [("processInvalidMsgBlame / applyShare","common/tss.go"),("TssWrongShareBlame","blame/policy.go"),("AccPubKeysFromPartyIDs","conversion/conversion.go")],
  ["GetBlameMgr().GetBlame()"])

p("C07", "Timeout blame names exactly the parties whose shares are missing",
  "From the record of shares a node received and accepted, the timeout report names exactly the other parties from whom the unicast, broadcast or per-message share in question is missing: never a party that delivered, never the node itself, each at most once. When some parties (at most a third) stop at a round boundary during a key generation or signing, every surviving party fails with a timeout error and its report names no party that did not stop; it names all that stopped unless nobody at all delivered a share of the awaited kind.",
  ["histories","fault_sequences","configurations"],
  "every record of received/accepted shares (any subset of parties, rounds and batch messages) and every set of silent parties at any round",
  "The tests stop one fixed node at a few fixed rounds; the bookkeeping must be right for every subset, round and batch.",
  ["blame/policy.go","blame/policy_helper.go","blame/manager.go","blame/round_mgr.go","keygen/tss_keygen.go","keysign/tss_keysign.go"],
  [("GetUnicastBlame / GetBroadcastBlame / TssMissingShareBlame","blame/policy.go"),("timeout branch","keygen/tss_keygen.go, keysign/tss_keysign.go")],
  ["returned blame nodes","GetBlameMgr().GetBlame() after a timeout"])

p("C08", "Party-formation failure blames exactly the absent participants",
  "Given the requested participants and the peers seen online, the node-sync blame lists exactly the participants that were not online, each by the public key they were requested under, with the sync-failure reason. A blame list never contains the same node and evidence twice when nodes are added to it, and adding never loses a node.",
  ["inputs","configurations"],
  "every participant list and online subset, in any order, including outsiders online and unusable keys; every sequence of blame additions",
  "Tests check one subset of four keys.",
  ["blame/policy.go","blame/blame.go","tss/keygen.go","tss/keysign.go"],
  [("NodeSyncBlame","blame/policy.go"),("AddBlameNodes / SetBlame","blame/blame.go")],
  ["returned Blame"])

p("C09", "A signature set received from a peer is accepted only if complete and valid",
  "A waiting node returns a signature set sent by a peer only if it holds exactly one signature for each requested message, in request order, every one of them verifies under the pool key for its message, and each recovery id recovers the pool key. Anything else (missing, extra, swapped, altered, null or failed entries, another ceremony's set) is rejected without ending the wait, so a later valid set is still accepted.",
  ["inputs","histories"],
  "all signature sets derived from valid ones by dropping, adding, swapping, altering or nulling entries, any batch size, any sequence of such deliveries",
  "Tests deliver one valid and one invalid fixture with exactly one message.",
  ["keysign/notifier.go","keysign/signature_notifier.go"],
  [("Notifier.ProcessSignature","keysign/notifier.go"),("SignatureNotifier.handleStream / WaitForSignature","keysign/signature_notifier.go")],
  ["WaitForSignature result","ProcessSignature result"])

p("C10", "Leader election is deterministic, order independent and total",
  "For the same ceremony id, block height and set of participants, every node elects the same leader whatever order it lists the participants in, and the leader is one of the participants. The choice depends on the ceremony id and block height, so that over many heights every participant gets elected; an empty participant list, empty id or zero height is an error, not a leader.",
  ["inputs"],
  "every ceremony id, block height and participant list in any order",
  "Tests check one fixed list in two orders.",
  ["p2p/leader_provider.go"],
  [("LeaderNode","p2p/leader_provider.go")],
  ["LeaderNode result"])

p("C11", "Leader-led party formation yields one agreed party of the right size",
  "When enough participants join, the leader and every member that learns of the party get the same list, made of threshold peers that asked to join plus the leader, all of them among the requested participants; when they do not, the call fails with an error and never reports a party. When the awaited signature arrives from elsewhere meanwhile, the call stops promptly and says so. A member only accepts a list from the leader elected for that ceremony, and requests or responses from outsiders, from non-leaders or for other ceremonies do not change the outcome.",
  ["schedules","configurations","fault_sequences"],
  "every participant count, threshold, set of online/offline nodes, join order, and interference by outsiders or non-leaders",
  "Tests use four nodes, all or one online, and never hostile requests.",
  ["p2p/party_coordinator.go","p2p/peer_status.go","p2p/leader_provider.go"],
  [("JoinPartyWithLeader / joinPartyLeader / joinPartyMember","p2p/party_coordinator.go"),("updatePeer","p2p/peer_status.go")],
  ["JoinPartyWithLeader result on every node"])

p("C12", "Leaderless party formation reports exactly the reachable participants",
  "When every participant joins, each one gets the full participant list without error, and promptly rather than only at the timeout. When some are absent, the call returns a timeout error and a list holding the node itself and only participants that really contacted it for that ceremony; outsiders and other ceremonies never appear in it.",
  ["schedules","configurations","fault_sequences"],
  "every participant count, absent subset, join delay and interference by outsiders",
  "Tests run two fixed scenarios with four nodes.",
  ["p2p/party_coordinator.go","p2p/peer_status.go"],
  [("JoinPartyWithRetry / HandleStream","p2p/party_coordinator.go"),("updatePeer / getPeersStatus","p2p/peer_status.go")],
  ["JoinPartyWithRetry result on every node"])

p("C13", "Stream framing round-trips every payload and rejects bad frames",
  "Any payload up to the maximum size written to a stream is read back byte for byte, however the transport splits or coalesces it and whatever follows the frame. A frame that announces more than the maximum, ends early, or fails in transport gives an error and never a partial or padded payload; a failed or short write is reported as an error.",
  ["inputs","fault_sequences"],
  "all payload sizes around header, buffer and limit boundaries, all ways to split reads and writes, all truncation and failure points, all announced lengths",
  "Tests write a few sizes through an in-memory buffer that never splits or fails.",
  ["p2p/stream_helper.go"],
  [("ReadStreamWithBuffer / WriteStreamWithBuffer","p2p/stream_helper.go")],
  ["bytes and error returned"])

p("C14", "Messages reach only the ceremony and message type subscribed for them",
  "A message received from a peer is delivered to the subscriber registered for its message type and ceremony id, with the sender's authenticated peer id and the original bytes, exactly once; with no such subscriber it is dropped. Subscribing, replacing and cancelling one type and ceremony never affects any other, and a message sent to a set of peers reaches each of them and never the sender itself.",
  ["histories","inputs"],
  "every sequence of subscribe, cancel and deliver over any types and ids, and every set of recipients",
  "Tests subscribe to a few types once and deliver one message between fixed nodes.",
  ["p2p/communication.go","p2p/message_id_subscriber.go"],
  [("SetSubscribe / CancelSubscribe / getSubscriber","p2p/communication.go"),("readFromStream","p2p/communication.go"),("MessageIDSubscriber","p2p/message_id_subscriber.go")],
  ["messages on the subscribed channels"])

p("C15", "Releasing a ceremony resets each of its streams once and no other",
  "Releasing a ceremony resets every stream recorded for it and every stream recorded as unattributed, and no stream recorded for another ceremony. After the release nothing is kept for it: streams are neither reset again by a later release nor retained, also when streams are recorded concurrently.",
  ["histories","schedules"],
  "every sequence of recording and releasing streams over any ceremony ids, including concurrent recording",
  "The test records and releases a few streams once.",
  ["p2p/stream_helper.go"],
  [("StreamMgr.AddStream / ReleaseStream","p2p/stream_helper.go")],
  ["Reset calls on the streams"])

p("C16", "Key shares are stored and read back exactly, one file per pool key",
  "A key share saved for a pool key is read back identical, by this or a new storage instance over the same folder, until it is saved again, and saving or reading one pool key never affects another. Only valid pool public keys are accepted: any other string is refused with an error and neither creates nor reads any file, inside or outside the folder.",
  ["histories","inputs"],
  "every sequence of saves, overwrites, reads and reopenings over any set of keys and states, and every malformed or path-like key string",
  "Tests save and read one key and one bad key.",
  ["storage/localstate_mgr.go","conversion/key_provider.go"],
  [("SaveLocalState / GetLocalState / getFilePathName","storage/localstate_mgr.go"),("CheckKeyOnCurve","conversion/key_provider.go")],
  ["GetLocalState result","files in the folder"])

p("C17", "A write that fails or is cut short never destroys stored shares or addresses",
  "If saving a key share or the address book fails or is interrupted at any byte, the previous content stays readable and unchanged, or the new content is complete: a reader never sees a torn mixture. A failed save reports an error, and concurrent readers see either the old or the new content.",
  ["crash_points","fault_sequences"],
  "every point at which the write can fail or be cut, for every old and new content",
  "No test injects a storage failure.",
  ["storage/localstate_mgr.go"],
  [("SaveLocalState / SaveAddressBook","storage/localstate_mgr.go")],
  ["content read back after the fault"])

p("C18", "The address book round-trips every peer address it should keep",
  "After saving an address book, reading it back yields exactly one full peer address for every non-loopback address of every peer, and nothing else (blank lines in the file do not matter); saving replaces the previous book entirely. A missing or malformed book gives an error instead of addresses, and the node then falls back to its configured bootstrap peers.",
  ["inputs","histories"],
  "every map of peers to address lists (families, ports, loopback, empty lists), every sequence of saves, every corruption of the file",
  "Tests save one book of a few addresses and check one bad file.",
  ["storage/localstate_mgr.go","tss/tss.go","p2p/peer_address.go"],
  [("SaveAddressBook / RetrieveP2PAddresses","storage/localstate_mgr.go")],
  ["RetrieveP2PAddresses result"])

p("C19", "Node public keys and peer ids convert back and forth without loss",
  "Converting a node public key to a peer id and back gives the same key, alone or in lists (order and length kept), and different keys give different peer ids; a party's identity maps to the same peer id and public key as the key it was built from. Private keys load to exactly the key they encode. Input that is not a valid secp256k1 key or peer id of that type gives an error, never a panic or a wrong identity.",
  ["inputs"],
  "all secp256k1 keys (including those with leading zeros in a coordinate), all lists, all malformed strings, lengths and key types",
  "Tests use four fixed keys and a few bad strings.",
  ["conversion/key_provider.go","conversion/conversion.go"],
  [("GetPeerIDFromPubKey / GetPubKeyFromPeerID / GetPriKey","conversion/key_provider.go"),("PartyIDtoPubKey / SetupIDMaps / GetPeersID","conversion/conversion.go")],
  ["returned values"])

p("C20", "All nodes derive the same party numbering from the same participants",
  "From the same set of participant keys, listed in any order, every node derives the same ordered list of parties with the same numbering and identities, and finds itself in it at the right place. A node whose own key is not in the list, or a list with an unusable key, gets an error and no party list.",
  ["inputs","configurations"],
  "every set of distinct participant keys, every order, every choice of local key",
  "Tests check the count and one order of four fixed keys.",
  ["conversion/conversion.go"],
  [("GetParties / SetupPartyIDMap / SetupIDMaps","conversion/conversion.go")],
  ["returned party ids"])

p("C21", "The threshold is two-thirds exactly, and off-curve keys are refused",
  "For n participants the threshold t is the largest integer below two thirds of n (so t+1 signers are at least two thirds), for every n, and a negative count is an error. A pool key is produced only from a point on the curve: it encodes that very point and its address, and a missing or off-curve point, or a string that does not decode to a curve point, is refused with an error and not a panic.",
  ["inputs"],
  "every participant count; every curve point and every off-curve point or malformed string",
  "Tests check five counts and a few points.",
  ["conversion/conversion.go","conversion/key_provider.go"],
  [("GetThreshold / GetTssPubKey","conversion/conversion.go"),("CheckKeyOnCurve","conversion/key_provider.go")],
  ["returned values"])

p("C22", "A request gets the same ceremony id on every node, different requests differ",
  "Nodes asked to run the same key generation or signing meet in the same ceremony whatever order they list participants or messages in; requests with a different participant set, or different messages to sign, never share a ceremony. The version of a request alone decides how its nodes meet: without a leader below 0.14.0, with one from 0.14.0 on.",
  ["inputs","configurations"],
  "every pair of requests related by permutation or differing in participants or messages",
  "A test compares a handful of fixed requests.",
  ["tss/tss.go","tss/keygen.go","tss/keysign.go","common/tss_helper.go","conversion/tss_helper.go"],
  [("requestToMsgId","tss/tss.go"),("MsgToHashString","common/tss_helper.go")],
  ["ceremony id carried by the messages a node sends"])

p("C23", "The HTTP API passes requests and results through faithfully",
  "A keygen or keysign POST reaches the server with exactly the fields of the JSON body, once, and the caller receives exactly the server's result as JSON; a malformed body is answered 400 and a wrong method refused, without reaching the server; a failed signing is answered with a server error, never with a success carrying a result. Ping and peer-id queries answer 200, the latter with the node's peer id.",
  ["inputs","histories"],
  "every request body (valid, unknown fields, malformed), method, server result and server error, and every sequence of them",
  "Tests check three bodies against a mock that returns empty results.",
  ["cmd/tss/tss_http.go","keygen/request.go","keygen/response.go","keysign/request.go","keysign/response.go"],
  [("keygenHandler / keySignHandler / routes","cmd/tss/tss_http.go")],
  ["HTTP status and body","requests seen by the server"])

p("C24", "The recovery tool rebuilds the pool's private key from any quorum of share files",
  "Given the share files of any threshold+1 or more holders of a pool key, in any order, the recovery tool exports the private key of exactly that pool key, in a key store that the given password decrypts and reports the pool key's public key. It honours the stated number of shares and refuses with an error, without writing a key store, when files are missing, unreadable or fewer than stated.",
  ["inputs","configurations"],
  "every pool key and party count, every subset of shares of sufficient size, every order, every password",
  "The tool has no test.",
  ["cmd/tss-recovery/tss-recovery.go","cmd/tss-recovery/tool.go","cmd/tss-recovery/key.go"],
  [("main / getTssSecretFile / exportKeyStore","cmd/tss-recovery")],
  ["files and exit status of the built program"])

p("C25", "Every local share is sent out exactly once, to the right peers, signed",
  "Each share the local party produces is put on the wire exactly once, in a message tagged with this ceremony and signed by this node: a broadcast share goes to every other member, a unicast share only to its addressee, and a node never addresses itself. In a batch, shares of one round and destination travel together, one per message of the batch, sent exactly when the last of them is ready, and none is dropped or mixed with another round or destination.",
  ["schedules","histories","configurations"],
  "every interleaving of the shares produced by the parties of a batch, every batch size, round and party count",
  "A test pushes one message through; batching with interleaved parties and rounds is never checked.",
  ["common/tss.go"],
  [("ProcessOutCh / sendBulkMsg","common/tss.go"),("generateSignature","common/tss_helper.go")],
  ["messages on the broadcast channel"])

p("C26", "A node obtains a broadcast it lacks from its peers and serves those it has",
  "A node that learns from confirmations of a broadcast it has not received, or holds a version the majority contradicts, asks for it exactly those peers that confirmed the majority version; a reply is used only if that share was asked for and is subject to the same checks as any share. A node asked for a broadcast it has accepted answers the asking peer, and only that peer, with the original signed message, and otherwise stays silent.",
  ["histories","fault_sequences"],
  "every history of confirmations, requests, solicited and unsolicited replies, for any party count and any lost message",
  "One test sends one request and one unusable reply.",
  ["common/tss.go","common/tss_helper.go","blame/share_mgr.go","blame/round_mgr.go"],
  [("requestShareFromPeer","common/tss.go"),("processRequestMsgFromPeer","common/tss_helper.go"),("ShareMgr","blame/share_mgr.go"),("RoundMgr","blame/round_mgr.go")],
  ["messages on the broadcast channel","calls made to the local tss party"])

p("C27", "Node API: keygen then keysign works on every node, signers and observers alike",
  "On a set of connected nodes that all get the same requests, in any order of participants and messages, key generation returns the same pool key and address on every node, and signing returns success on every node, whether it took part in signing or only observed, with one signature per requested message, each labelled with the message it verifies for under the pool key. A request that cannot be served (unknown pool key, undecodable, zero or over-long message, no messages, too few signers, bad version) returns an error or failed status, never a success, and leaves the node able to serve the next request.",
  ["inputs","schedules","configurations"],
  "every order of participants and messages, batch size, both join protocols, and every invalid request, in any sequence",
  "The end-to-end tests sign one or two fixed messages with a fixed node set and are excluded as flaky from the reliable suite.",
  ["tss/tss.go","tss/keygen.go","tss/keysign.go"],
  [("Keygen","tss/keygen.go"),("KeySign / batchSignatures / waitForSignatures / generateSignature","tss/keysign.go"),("joinParty","tss/tss.go")],
  ["responses of Keygen and KeySign on every node"])

p("C28", "Metrics count each outcome once and keep the latest success time",
  "Each recorded keygen, keysign or join-party outcome raises by one exactly the counter of its kind and result, and the corresponding time gauge holds the duration of the latest success; failures leave the gauges unchanged. A key generation or signing that a node does not refuse outright is recorded by it once, under the result its caller gets.",
  ["histories"],
  "every sequence of recorded outcomes",
  "Tests record one of each kind.",
  ["monitor/metric.go"],
  [("UpdateKeyGen / UpdateKeySign / KeygenJoinParty / KeysignJoinParty","monitor/metric.go")],
  ["gathered metrics"])

p("C29", "Nodes find each other as they start, and again after a restart",
  "A node starts when it can reach at least one of the peers it is configured with or remembers, even if that peer comes up some seconds later, or when it knows none; otherwise starting ends with an error. Nodes connected only through others (a common bootstrap node, a chain) serve requests together. After a ceremony each participant has recorded every other participant's address, so that after a restart it rejoins with its own folder alone, still holds its key shares, and the next request is served with the same pool key.",
  ["configurations","crash_points","histories"],
  "every set of configured and remembered peers, reachable or not, every bootstrap topology, every set and order of restarts, both join protocols",
  "The tests start a fixed set of nodes with one bootstrap node and restart none with its address book.",
  ["tss/tss.go","p2p/communication.go","storage/localstate_mgr.go","p2p/types.go"],
  [("NewTss","tss/tss.go"),("startChannel / bootStrapConnectivityCheck / connectToBootstrapPeers / ExportPeerAddress","p2p/communication.go"),("SaveAddressBook / RetrieveP2PAddresses","storage/localstate_mgr.go")],
  ["result of NewTss","connections","address_book.seed","responses of Keygen and KeySign"])

p("C30", "A node that stops or dies at any moment loses nothing and harms no other node",
  "When nodes are stopped, killed or frozen at any moment, also in the middle of a key generation or signing, every call on the remaining nodes (and on a stopped one, or one that was frozen and goes on) still ends within the configured time limits and reports nothing wrong: a success only with a pool key that all successful nodes agree on and whose share is stored, or with valid signatures. No other node crashes or hangs, and a stopped node frees its port. Started again from its folder, a node still holds every share it held or had reported, and the nodes together serve further requests, the interrupted one included.",
  ["crash_points","schedules","histories"],
  "every moment at which one or more nodes are stopped, killed or frozen for a while during a key generation or signing under either join protocol, every subset of nodes, every restart",
  "The tests stop no node in the middle of a ceremony at a chosen moment, kill none and restart none.",
  ["tss/tss.go","tss/keygen.go","tss/keysign.go","keygen/tss_keygen.go","keysign/tss_keysign.go","p2p/communication.go","p2p/party_coordinator.go","storage/localstate_mgr.go"],
  [("Stop / joinParty","tss/tss.go"),("Keygen","tss/keygen.go"),("KeySign / generateSignature","tss/keysign.go"),("GenerateNewKey / processKeyGen","keygen/tss_keygen.go"),("SignMessage / processKeySign","keysign/tss_keysign.go"),("Stop / ProcessBroadcast","p2p/communication.go"),("SaveLocalState / GetLocalState","storage/localstate_mgr.go")],
  ["responses of Keygen and KeySign on every node","life of the node processes","share files","listening port"])

p("C31", "The daemon is what its flags and key say, and ends when told",
  "Started with a usable key on a line of standard input, the tss daemon takes the identity of that key, listens at the given API and p2p ports, tells others the given external address and no other, joins the given peers, keeps its files in the given home folder and nowhere else, lets key generation, signing and the search for pre-parameters each take the time given for it, counts at /metrics what it has answered unless told not to, and a network of such daemons generates keys, with addresses of the network the NET variable names, and signs through the HTTP API. With an unusable key, flag, address or port, or when none of its peers can be reached, it ends without ever serving, and with an error code unless no key was given. On SIGTERM or SIGINT, idle or in the middle of a request, it ends with code 0 and both ports are free; started again with the same home it signs with the same key.",
  ["inputs","configurations","histories"],
  "every combination, order and spelling of flags, every text on standard input, every sequence of requests and signals",
  "No test runs the daemon; the tests of cmd/tss call its HTTP handlers with a mock server.",
  ["cmd/tss/main.go","cmd/tss/tss_http.go","tss/tss.go","p2p/communication.go","conversion/key_provider.go","storage/localstate_mgr.go","monitor/metric.go"],
  [("main / parseFlags","cmd/tss/main.go"),("Start / Stop","cmd/tss/tss_http.go"),("NewTss / Stop","tss/tss.go"),("NewCommunication / startChannel","p2p/communication.go"),("GetPriKey","conversion/key_provider.go"),("Enable","monitor/metric.go")],
  ["answers of the HTTP API","exit code of the process","listening ports","addresses told to peers","files in and outside of the home folder"])

p("C32", "Requests served at the same time do not disturb one another",
  "However many different requests a set of nodes serves at the same time, over one or several pools, each has the outcome it would have alone: one that can be served is served on every node asked, with the signatures of its own messages under its own pool key, or one new pool key, and one that cannot be served (a signer that never gets it, an unusable request) fails without affecting the others. A node that is stopped, hangs, or accepts connections without ever answering fails no request that can do without it: leaderless ones whose signers leave it out, those of pools it is no member of, and leader-led ones it does not lead; where it leads, it alone is blamed. When it is back, all pools are served by all their nodes.",
  ["inputs","schedules","histories","fault_sequences"],
  "every combination of concurrent requests with different names, in any interleaving, and every node outage of the named kinds",
  "The tests have one request at a time served, by nodes that are all up.",
  ["tss/tss.go","tss/keygen.go","tss/keysign.go","p2p/communication.go","p2p/party_coordinator.go","p2p/stream_helper.go","keysign/signature_notifier.go","keysign/notifier.go"],
  [("Keygen / KeySign","tss/keygen.go, tss/keysign.go"),("SetSubscribe / CancelSubscribe / ProcessBroadcast / broadcastToPeers","p2p/communication.go"),("joinPartyMember / joinPartyLeader / JoinPartyWithRetry","p2p/party_coordinator.go"),("WaitForSignature / broadcastCommon","keysign/signature_notifier.go"),("ReleaseStream","p2p/stream_helper.go")],
  ["responses of Keygen and KeySign on every node"])

p("C33", "A finished request leaves nothing behind on a node",
  "Once the requests given to a node have ended, whether they succeeded, failed, timed out or were refused, and whatever messages, joinings, signatures, garbage or incomplete messages other peers sent during or after them (for running, ended or never started ceremonies), the node soon is as idle as before: no more of its goroutines run, no more network streams of its protocols are open, and it keeps no subscription, stream or result under the name of any ceremony. A node that is stopped leaves no goroutine running. So a node that serves requests for months does not fill up.",
  ["inputs","schedules","histories","fault_sequences"],
  "every sequence of requests and outcomes, and every stray message at every moment",
  "The tests start fresh nodes and look at one answer; nothing looks at what remains.",
  ["p2p/communication.go","p2p/party_coordinator.go","p2p/stream_helper.go","p2p/message_id_subscriber.go","keysign/signature_notifier.go","tss/keygen.go","tss/keysign.go","tss/tss.go"],
  [("readFromStream / SetSubscribe / CancelSubscribe / ReleaseStream / Stop","p2p/communication.go"),("HandleStream / HandleStreamWithLeader / removePeerGroup","p2p/party_coordinator.go"),("AddStream / ReleaseStream","p2p/stream_helper.go"),("WaitForSignature / handleStream / removeNotifier","keysign/signature_notifier.go"),("Keygen / KeySign (deferred release)","tss/keygen.go, tss/keysign.go"),("Stop","tss/tss.go")],
  ["goroutines, open streams and ceremony names held by an idle node"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
