MACROS = "static analysis of the macro expansions' MIR: fields, calls, arguments and registrations compared with the annotated source shapes"
TECH = {'C45': MACROS, 'C46': MACROS, 'C47': MACROS, '*': "path-sensitive abstract interpretation of the compiler's MIR (typestate and effect rules over every path)"}
MN = ("The expansions of kameo's macros over the item shapes of fixture_macros, analysed from their MIR; an expansion that no longer compiles is a "
      "violation. Shapes the fixture does not contain are not covered.")
NOTE = {'C45': MN, 'C46': MN, 'C47': MN, '*': "Every path of the listed scenario functions through the current tree's MIR, generic code instantiated with opaque types; "
             "library calls (tokio, std, libp2p, dashmap) are decided by hand-written models, calls to user code are arbitrary but terminating."}
NA = {
 'C60': "delivery once and in order per sender depends on libp2p's request-response transport and on the scheduling of concurrent streams, which lie outside this code base; nothing in kameo's source enforces or breaks it beyond what C33-C36 decide",
 'C61': "eventual visibility is a liveness property of the Kademlia network protocol (replication, expiry, connectivity), not of kameo's source; the local obligations are C39",
 'C63': "liveness under a fair scheduler and arbitrary user handlers; a static analysis of kameo's source cannot bound the run time of hooks or of the tokio scheduler. The wait-for cycles that the source can cause by locks are decided in C26",
}
