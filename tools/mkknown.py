#!/usr/bin/env python3
"""Writes known-findings.json: repaired defects ("fixed", suppress nothing) and recorded ones ("known")."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fx = [l.split('|') for l in '''C14|8f65047|wait_for_stop returned once the actor had started
C08|f937037|Recipient::downgrade panicked (unimplemented)
C08|400e6a4|WeakRecipient was neither Clone nor Debug for messages that are not
C15|dc2d58e|stop_gracefully on a stopped actor panicked
C13|bcd6720|start-up waiters stayed blocked when the actor was busy or stopped during start-up
C19|cdd04a5|a thread-spawned actor held a strong reference to itself and never stopped
C23|de986ca|an actor whose on_start failed neither notified its links nor left the remote registry
C12|7501b5a|a panic in on_panic or on_stop escaped the actor task and skipped the termination protocol
C21|427d2bd|an overridden Actor::on_message was never called
C17|72b04d7|messages buffered during start-up were lost when an earlier one failed
C04|691d52d|enqueue, try_enqueue and blocking_enqueue panicked when sending failed
C05|b03948e|forward, try_forward and blocking_forward panicked when sending failed
C05|0e3ae8a|an error of a message forwarded more than once panicked the asker
C26|44b1529|linking or unlinking two actors from both sides at once could deadlock
C28|c31aea6|ActorID::from_bytes panicked on fewer than eight bytes
C37|02064ff|malformed registration records received from peers panicked the node
C33|307dd14|a record refused by the local store panicked the swarm, leaving the registration unanswered
C38|fdaeea4|closing one of several connections to a peer signalled the peer as disconnected
C36|925d86e|requests to remote references of local actors were sent over the network while peers were connected
C24|efee1df|link_remote left a half-made link behind when the swarm is not bootstrapped
C39|3dda3df|an actor that stopped while being registered stayed addressable forever
C41|35de839|pool workers got a mailbox bounded by the room left in their actor's mailbox
C41|49726d7|errors of pool workers panicked the asker
C41|0f95f08|dispatching to a pool without a running worker panicked
C41|cbe2cbf|a pool retried the same dead worker instead of trying the others
C41|794848f|pool workers whose actor has stopped were not replaced
C19|a33ca0f|every running actor kept a strong sender of its own mailbox and never stopped when all references were dropped
C36|2a9f138|a peer answering with a response of another kind panicked the caller
C09|c3ae9fa|an actor run in place by a prepared actor was not recognised as the current actor'''.splitlines()]
out = [{'property': p, 'status': 'fixed', 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)} for p, c, w in fx]
KNOWN = []
out += KNOWN
json.dump(out, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
